"""Obligation generation with Why3 and a parallel solver portfolio."""
import os, re, subprocess, sys, time, threading, signal, shutil, tempfile
import concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONF = VERIF + "/contracts/why3.conf"
NCPU = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))

SOLVERS = {
    "z3-4.8.12": ("z3", lambda f, t: ["/usr/bin/z3", "-smt2", "-T:%d" % t, "-memory:3000", f]),
    "z3-4.8.12-nombqi": ("z3", lambda f, t: ["/usr/bin/z3", "-smt2", "-T:%d" % t, "-memory:3000", "smt.auto_config=false", "smt.mbqi=false", f]),
    "z3-new": ("z3", lambda f, t: ["/usr/local/bin/z3-new", "-smt2", "-T:%d" % t, "-memory:3000", f]),
    "z3-new-nogb": ("z3", lambda f, t: ["/usr/local/bin/z3-new", "-smt2", "-T:%d" % t, "-memory:3000", "smt.arith.nl.grobner=false", f]),
    "z3-new-nombqi": ("z3", lambda f, t: ["/usr/local/bin/z3-new", "-smt2", "-T:%d" % t, "-memory:3000", "smt.auto_config=false", "smt.mbqi=false", "smt.arith.nl.grobner=false", f]),
    "cvc5-1.1.2": ("z3", lambda f, t: ["/usr/bin/cvc5", "--tlimit=%d" % (t * 1000), "--lang=smt2", f]),
}


# the same with fewer premises (tools/relevance.py)
RELEVANT = {"r": (2, 2.0), "q": (2, 1.2)}
for _s in ("z3-new-nogb", "z3-4.8.12-nombqi", "cvc5-1.1.2"):
    for _r in RELEVANT:
        SOLVERS[_s + "/" + _r] = (SOLVERS[_s][0] + _r, SOLVERS[_s][1])
_free = None


def reduce_premises(src, dst, depth, tol):
    """by one of a few helper processes (tools/relevance.py --serve)"""
    global _free
    with _lock:
        if _free is None:
            import queue
            _free = queue.Queue()
            for _ in range(NCPU):
                _free.put(None)
    w = _free.get()
    try:
        if w is None or w.poll() is not None:
            w = subprocess.Popen([sys.executable, VERIF + "/tools/relevance.py", "--serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        w.stdin.write("%s\t%s\t%d\t%g\n" % (src, dst, depth, tol))
        w.stdin.flush()
        return w.stdout.readline().strip() == "ok"
    except OSError:
        return False
    finally:
        _free.put(w)


_lock = threading.Lock()


def file_of(o, drv):
    f = o.files.get(drv)
    if f is None and drv[-1] in RELEVANT:
        src = o.files[drv[:-1]]
        f = src[:-5] + "." + drv[-1] + ".smt2x"
        if not reduce_premises(src, f, *RELEVANT[drv[-1]]):
            f = src
        o.files[drv] = f
    return f


class WhyError(Exception):
    pass


def run(cmd, timeout=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        return -1, "timeout"


class Obl:
    __slots__ = ("fn", "name", "files", "status", "solver", "time", "line", "idx", "last", "src")

    def __init__(self, fn, name, files, idx, line):
        self.fn, self.name, self.files, self.idx, self.line = fn, name, files, idx, line
        self.status = None
        self.solver = None
        self.time = 0.0
        self.last = 0.0
        self.src = None


def why3(args, cwd, timeout=120):
    return run(["why3"] + args, timeout)


def emit(mlw, libdir, outdir, goal_fn, module=None, split=True):
    """Split the VCs of mlw into one SMT-LIB file per obligation."""
    d = os.path.join(outdir, "z3")
    os.makedirs(d, exist_ok=True)
    more = (["-a", "split_vc"] if split else []) + (["-T", module] if module else []) + [mlw]
    rc, o = why3(["prove", "-C", CONF, "-L", libdir, "-P", "Z3,4.8.12", "-o", d] + more, None, 400)
    if rc != 0:
        raise WhyError(o[:3000])
    obls = []
    for i, f in enumerate(sorted((os.path.join(d, f) for f in os.listdir(d)), key=natkey)):
        nm, line = goal_name(f)
        o = Obl(goal_fn, nm, {"z3": f}, i, line)
        o.src = (libdir, tuple(more))
        obls.append(o)
    return obls


def label(obls):
    """give the obligations their names and lines (a listing of the sub-goals, for those that are reported)"""
    for src in sorted({o.src for o in obls if o.src}):
        libdir, more = src
        rc, out = why3(["prove", "-C", CONF, "-L", libdir, "-P", "Dummy,1"] + list(more), None, 200)
        names = re.findall(r'File "[^"]*", line (\d+), characters [\d-]+:\n(?:Sub-g|G)oal\s+(.*?)\.?\nProver', out, re.S)
        # files are numbered per goal; the listing is in file order of the goals
        byg = {}
        for line, nm in names:
            ex_, _, g = " ".join(nm.split()).rpartition(" of goal ")
            byg.setdefault(g, []).append((ex_, int(line)))
        fs = {}
        d = os.path.dirname([o for o in obls if o.src == src][0].files["z3"])
        for f in sorted((f for f in os.listdir(d) if f.endswith(".smt2")), key=natkey):
            fs.setdefault(goal_name(os.path.join(d, f))[0].strip('"'), []).append(os.path.join(d, f))
        for o in obls:
            if o.src != src:
                continue
            g = goal_name(o.files["z3"])[0].strip('"')
            if len(byg.get(g, [])) == len(fs.get(g, [])):
                ex_, o.line = byg[g][fs[g].index(o.files["z3"])]
                o.name = (ex_ or g) if not o.fn.startswith("lemma") else g + ": " + ex_


def emit_one(mlw, libdir, outdir, goal_fn, want="vacuity"):
    """only the obligations labelled `want`, for z3"""
    d = os.path.join(outdir, "z3")
    os.makedirs(d, exist_ok=True)
    rc, o = why3(["prove", "-C", CONF, "-L", libdir, "-P", "Z3,4.8.12", "-a", "split_vc", "-o", d, mlw], None, 200)
    if rc != 0:
        return []
    out = []
    for f in sorted(os.listdir(d), key=natkey):
        p = os.path.join(d, f)
        if want in open(p, errors="replace").read():
            out.append(Obl(goal_fn, want, {"z3": p}, len(out), 0))
        else:
            os.unlink(p)
    return out


def natkey(f):
    # T-f'vc.smt2, T-f'vc1.smt2 ...
    m = re.match(r"^(.*?)(\d*)\.smt2$", f)
    return (m.group(1), int(m.group(2) or 0)) if m else (f, 0)


def goal_name(f):
    txt = open(f, errors="replace").read()
    m = re.findall(r";;\s*Goal (\S+)\n;;\s*File \"([^\"]*)\", line (\d+)", txt)
    if m:
        return m[-1][0], int(m[-1][2])
    m = re.findall(r";;\s*Goal (\S+)", txt)
    return (m[-1] if m else os.path.basename(f)), 0


def solve_one(solver, f, t):
    drv, mk = SOLVERS[solver]
    rc, o = run(mk(f, t), t + 5)
    for l in o.splitlines():
        l = l.strip()
        if l == "unsat":
            return "valid"
        if l == "sat":
            return "sat"
        if l in ("unknown", "timeout"):
            return "unknown"
    if "Proof found" in o:
        return "valid"
    return "unknown"


# (configuration, seconds): first alone, one after the other; then as a race
STAGES = [
    ("seq", [("z3-new-nogb/r", 1), ("z3-new-nogb", 2), ("z3-4.8.12-nombqi", 2), ("z3-new-nogb/q", 1), ("cvc5-1.1.2", 2), ("cvc5-1.1.2/r", 2)]),
    ("seq", [("z3-4.8.12-nombqi/r", 4), ("z3-4.8.12-nombqi", 12), ("cvc5-1.1.2", 6)]),
    ("race", ["z3-new-nogb", "z3-4.8.12-nombqi", "cvc5-1.1.2", "z3-4.8.12", "cvc5-1.1.2/r", "z3-new-nogb/r"], 12, 3),
    ("race", ["z3-new-nogb", "z3-4.8.12-nombqi", "cvc5-1.1.2", "z3-4.8.12", "z3-new-nombqi", "z3-new", "z3-4.8.12-nombqi/r"], 60, 2),
]


def answer(out):
    for l in out.splitlines():
        l = l.strip()
        if l == "unsat":
            return "valid"
        if l in ("sat", "unknown", "timeout"):
            return l
    return "unknown"


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def race(o, configs, t):
    t0 = time.time()
    ps = []
    for s in configs:
        f = file_of(o, SOLVERS[s][0])
        ps.append((s, subprocess.Popen(SOLVERS[s][1](f, t), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, start_new_session=True)))
    left = list(ps)
    won = None
    while left and won is None and time.time() - t0 < t + 3:
        for x in list(left):
            if x[1].poll() is not None:
                left.remove(x)
                r = answer(x[1].stdout.read().decode(errors="replace"))
                if r == "valid":
                    won = x[0]
                    break
                if r == "sat" and o.status is None and "/" not in x[0]:
                    o.status = "sat"
        else:
            time.sleep(0.02)
    for s, p in ps:
        if p.poll() is None:
            kill(p)
        p.wait()
        p.stdout.close()
    o.time += time.time() - t0
    o.last = time.time() - t0
    if won:
        o.status, o.solver = "valid", won


HINTS = VERIF + "/contracts/hints.json"


def key(o):
    """names an obligation by its text"""
    import hashlib
    t = re.sub(r"^;;.*$", "", open(o.files["z3"], errors="replace").read(), flags=re.M)
    return hashlib.sha1(t.encode()).hexdigest()[:10]


def first(o, hints, deadline):
    """the solver that answered last time, before the others"""
    h = hints.get(key(o))
    if not h or h[0] not in SOLVERS or (deadline and time.time() > deadline):
        return
    t0 = time.time()
    r = solve_one(h[0], file_of(o, SOLVERS[h[0]][0]), h[1])
    o.time += time.time() - t0
    o.last = time.time() - t0
    if r == "valid":
        o.status, o.solver = "valid", h[0]


def record(obls):
    """note the solvers of obligations the first stage does not settle"""
    import json
    d = json.load(open(HINTS)) if os.path.exists(HINTS) else {}
    for o in obls:
        if o.status == "valid" and o.solver and o.solver != STAGES[0][1][0][0]:
            d[key(o)] = [o.solver, max(4, min(60, int(3 * o.last) + 2))]
    json.dump(d, open(HINTS, "w"), indent=0, sort_keys=True)


def portfolio(obls, stages=None, deadline=None, log=None):
    """try every obligation in stages, in parallel; obligations keep their result"""
    stages = stages or STAGES
    hints = {}
    if os.path.exists(HINTS):
        import json
        hints = json.load(open(HINTS))
    if hints:
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(lambda o: first(o, hints, deadline), [o for o in obls if o.status != "valid"]))
    for st in stages:
        todo = [o for o in obls if o.status != "valid"]
        if not todo:
            break
        if st[0] == "seq":
            for s, t in st[1]:
                td = [o for o in todo if o.status != "valid"]

                def work(o):
                    if deadline and time.time() > deadline:
                        return
                    t0 = time.time()
                    r = solve_one(s, file_of(o, SOLVERS[s][0]), t)
                    o.time += time.time() - t0
                    o.last = time.time() - t0
                    if r == "valid":
                        o.status, o.solver = "valid", s
                    elif r == "sat" and o.status is None and "/" not in s:
                        o.status = "sat"
                with cf.ThreadPoolExecutor(NCPU) as ex:
                    list(ex.map(work, td))
        else:
            def work2(o):
                if deadline and time.time() > deadline:
                    return
                t = st[2] if not deadline else max(1, min(st[2], int(deadline - time.time())))
                race(o, st[1], t)
            with cf.ThreadPoolExecutor(max(1, NCPU // st[3])) as ex:
                list(ex.map(work2, todo))
    return obls
