#!/usr/bin/env python3
"""check.py <property> : decide one property of /repo's current tree.

1. the functions the property depends on are extracted from the clang AST of
   /repo's sources into WhyML, put under the contracts in /verif/contracts and
   every verification condition is discharged by SMT solvers (tools/);
2. the conformance harness of the property (replay/) runs the real code on
   concrete inputs: it supplies failing inputs for obligations that fail, and
   stands in (bounded) for functions outside the extractor's reach.
"""
import glob, sys, os, json, time, hashlib, tempfile, shutil, subprocess, threading
import concurrent.futures as cf
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + "/tools")
import drv, prove, props, importlib
from prove import WhyError

REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BASE = VERIF + "/contracts/baseline.json"
FLAGS = ["-std=c++20", "-O1", "-g", "-include", "string", "-w",
         '-DACQUIRE_ZARR_API_VERSION="0.0.1"', "-I" + REPO + "/include", "-I" + REPO + "/src/logger",
         "-I" + REPO + "/src/streaming", "-I" + VERIF + "/stubs", "-I" + VERIF + "/replay"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr,enum", "-fno-sanitize-recover=undefined"]


class Replay:
    """compile and run a harness"""

    def __init__(self, spec, work):
        self.spec, self.work = spec, work
        self.built = None
        self.err = ""

    def build(self):
        src, exe = VERIF + "/replay/" + self.spec["src"], self.work + "/replay_" + self.spec["src"].replace(".cpp", "")
        san = SAN if self.spec.get("san", True) else []
        extra = self.spec.get("flags", [])
        srcs = [f for s in self.spec["repo"] for f in (sorted(glob.glob(REPO + "/src/" + s)) if "*" in s else [REPO + "/src/" + s])]
        srcs = [s for s in srcs if os.path.basename(s) not in self.spec.get("without", [])]
        # <thread sanitizer> harnesses say so in flags
        objs = []
        with cf.ThreadPoolExecutor(8) as ex:
            js = []
            for i, s in enumerate([src] + srcs):
                o = "%s_%d.o" % (exe, i)
                objs.append(o)
                pre = self.spec.get("define", []) if s != src else []
                js.append(ex.submit(prove.run, ["g++"] + FLAGS + san + extra + pre + ["-c", s, "-o", o], 400))
            for j in js:
                rc, o = j.result()
                if rc != 0:
                    self.built, self.err = False, o[-3000:]
                    return False
        rc, o = prove.run(["g++"] + san + [f for f in extra if f.startswith("-fsanitize")] + objs + ["-o", exe, "-lpthread"] + self.spec.get("link", []), 200)
        if rc != 0:
            self.built, self.err = False, o[-3000:]
            return False
        self.exe, self.built = exe, True
        return True

    def run(self, budget, seed, thorough):
        """-> dict(fails=[(what, input)], cases, nontrivial, samples, crash)"""
        scratch = tempfile.mkdtemp(prefix="replay", dir=self.work)
        cmd = [self.exe, self.spec["mode"], "--seed", str(seed), "--budget", str(budget)] + (["--thorough"] if thorough else [])
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=%d:abort_on_error=0:handle_abort=1:allocator_may_return_null=1" % (1 if self.spec.get("leaks") else 0),
                   UBSAN_OPTIONS="print_stacktrace=1", TMPDIR=scratch, VERIF_SCRATCH=scratch)
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=scratch, env=env, start_new_session=True)
        r = {"fails": [], "cases": 0, "nontrivial": 0, "samples": [], "cmd": " ".join(cmd), "crash": None}
        hung = False
        try:
            so, se = p.communicate(timeout=budget * 3 + 90)
        except subprocess.TimeoutExpired:
            prove.kill(p)
            so, se = p.communicate()
            hung = True
        prove.kill(p)
        last = ""
        for l in so.decode(errors="replace").splitlines():
            f = l.split("\t")
            if f[0] == "FAIL":
                r["fails"].append((f[1], f[2] if len(f) > 2 else ""))
            elif f[0] == "CASES":
                r["cases"], r["nontrivial"] = int(f[1]), int(f[2])
            elif f[0] == "SAMPLE":
                r["samples"].append(f[1])
            elif f[0] == "AT":
                last = f[1]
        if hung:
            r["fails"].append(("the run does not terminate", last))
        elif p.returncode not in (0, 1):
            r["fails"].append(("the run was ended by " + (("signal %d" % -p.returncode) if p.returncode < 0 else "a sanitizer report or exit(%d)" % p.returncode), last))
        elif p.returncode == 1 and not r["fails"]:
            why = [l.strip() for l in se.decode(errors="replace").splitlines() if "ERROR: AddressSanitizer" in l or "runtime error:" in l or "ERROR: LeakSanitizer" in l or "terminate called" in l or "what():" in l]
            r["fails"].append(("the run was ended by a sanitizer report: " + " | ".join(why[:2]), last))
        if r["fails"]:
            r["stderr"] = se.decode(errors="replace")[-6000:]
        return r


def shape(sh):
    """kind and direction of each loop"""
    return None if sh is None else [(l[0], l[-1].split(" ")[0]) for l in sh]


def known():
    out = []
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                out.append(l)
    return out


def main():
    t0 = time.time()
    pid = sys.argv[1]
    P = props.PROPS[pid]
    thorough = TIER == "thorough"
    work = tempfile.mkdtemp(prefix="vf_%s_" % pid, dir=os.environ.get("VERIF_WORK", "/tmp"))
    try:
        return decide(pid, P, thorough, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(pid, P, thorough, work, t0):
    base = json.load(open(BASE)) if os.path.exists(BASE) else {}
    deadline = t0 + (760 if thorough else 420)
    rep = {"res": None}
    reps = [Replay(s, work) for s in P.get("replay", [])]

    def build_reps():
        for r in reps:
            if r.build():
                b = r.spec.get("budget", 12)
                r.res = r.run(b * (8 if thorough else 1), SEED, thorough)
    th = threading.Thread(target=build_reps)
    th.start()

    # ---- proof part
    log = []
    obls, fns, undis, trusted, vac, bounded = [], {}, [], [], [], []
    domain = []
    for g in P["proof"]:
        env = importlib.import_module(g["env"]).make()
        lib = work + "/lib_" + g["env"]
        drv.write_lib(env, lib, getattr(env, "lib", []))
        gl = drv.gen_closure(env, g["fns"], work + "/g_" + g["env"])
        jobs = []
        with cf.ThreadPoolExecutor(6) as ex:
            for k, x in gl.items():
                c = env.contracts[k]
                if c.trusted:
                    trusted.append("contract assumed: %s (%s)" % (k, c.trusted if c.trusted is not True else "dependency"))
                    continue
                for q in c.requires:
                    if q.startswith("[machine size"):
                        domain.append("%s: %s" % (k, q))
                if "error" in x:
                    undis.append((k, "extraction", x["error"]))
                    bounded.append(k)
                    continue
                x["env"] = g["env"]
                fns[k] = x
                jobs.append((k, x, ex.submit(prove.emit, x["file"], lib, work + "/o_" + c.whyname, k)))
                if x.get("vfile") and (thorough or os.environ.get("VERIF_VACUITY")):
                    vac.append((k, ex.submit(prove.emit_one, x["vfile"], lib, work + "/v_" + c.whyname, k)))
            lem = []
            for m in g.get("lemmas", P.get("lemmas", []) if g is P["proof"][0] else []):
                lem.append((m, ex.submit(prove.emit, lib + "/" + m, lib, work + "/l_" + m, "lemma " + m)))
            for k, x, j in jobs:
                try:
                    x["obls"] = j.result()
                    obls += x["obls"]
                except WhyError as e:
                    x["obls"] = []
                    undis.append((k, "typing", str(e)[:1500]))
                    bounded.append(k)
            for m, j in lem:
                o = j.result()
                fns["lemma " + m] = {"obls": o, "sha": None, "lemma": True, "info": {"shape": None}}
                obls += o
        vac = [(k, j.result() if not isinstance(j, list) else j) for k, j in vac]
        trusted += getattr(env, "trusted", [])
    t1 = time.time()
    prove.portfolio(obls, deadline=deadline)
    t2 = time.time()
    if os.environ.get("VERIF_RECORD"):
        prove.record(obls)
    prove.label([o for o in obls if o.status != "valid"])
    nv = 0
    vres = []
    with cf.ThreadPoolExecutor(prove.NCPU) as ex:
        vs = {}
        for k, os_ in vac:
            vs[k] = [ex.submit(prove.solve_one, "z3-new-nogb", o.files["z3"], 2) for o in os_]
        for k, js in vs.items():
            if js and all(j.result() == "valid" for j in js):
                vres.append(k)
    t3 = time.time()
    th.join()
    if os.environ.get("VERIF_TIMES"):
        print("emit %.0f prove %.0f vacuity %.0f replay %.0f" % (t1 - t0, t2 - t1, t3 - t2, time.time() - t3))

    failed = [o for o in obls if o.status != "valid"]
    alarms = []
    for o in failed:
        x = fns[o.fn]
        b = base.get(x.get("env", "") + ":" + o.fn, {})
        if x.get("lemma") or (b.get("sha") == x["sha"]):
            undis.append((o.fn, o.name, "unchanged goal not discharged within the time limit"))
            if not x.get("lemma") and o.fn not in bounded:
                bounded.append(o.fn)
        elif shape(b.get("shape")) != shape(x["info"]["shape"]):
            undis.append((o.fn, o.name, "the loops of the function are not those the invariants were written for"))
            if o.fn not in bounded:
                bounded.append(o.fn)
        else:
            alarms.append(o)
    for k in vres:
        undis.append((k, "vacuity", "contract or body context is inconsistent"))

    # ---- concrete inputs
    runs = [(r, getattr(r, "res", None)) for r in reps]
    hit = [(r, x) for r, x in runs if x and x["fails"]]
    if (alarms or undis) and not hit:
        # search longer for a failing input before reporting without one
        for r, x in runs:
            if x is not None:
                y = r.run(r.spec.get("budget", 12) * 4, SEED + 1000, True)
                x["cases"] += y["cases"]
                x["nontrivial"] += y["nontrivial"]
                if y["fails"]:
                    x.update(fails=y["fails"], cmd=y["cmd"], stderr=y.get("stderr"))
                    hit.append((r, x))
    kf = [l for l in known() if ("property=%s " % pid) in l]
    lines = []
    hit2 = []
    for r, x in hit:
        rest = []
        for what, inp in x["fails"]:
            m = [l for l in kf if l.split(" :: ")[1].strip() in (what + " " + inp)]
            if m:
                lines.append("KNOWN-FINDING: property=%s %s" % (pid, m[0].split(" :: ")[2].strip()))
            else:
                rest.append((what, inp))
        if rest:
            hit2.append((r, x, rest))
    for l in sorted(set(lines)):
        print(l)

    viol = 0
    os.makedirs(VERIF + "/evidence/replay", exist_ok=True)
    rp = VERIF + "/evidence/replay/%s.json" % pid
    if os.path.exists(rp):
        os.unlink(rp)
    if hit2 or alarms:
        viol = 1
        doc = {"property": pid, "failed_obligations": [dict(function=o.fn, obligation=o.name, solver_status=o.status or "not proved",
                                                               goal=src_line(fns[o.fn]["file"], o.line)) for o in alarms],
               "undischarged": [list(map(str, u)) for u in undis]}
        if hit2:
            doc["failing_inputs"] = [dict(harness=r.spec["src"], mode=r.spec["mode"], command=x["cmd"], what=w, input=i) for r, x, rest in hit2 for w, i in rest]
            doc["how_to_rerun"] = "VERIF_SEED=%d python3 /verif/check.py %s (builds %s with /repo's sources and runs it)" % (SEED, pid, hit2[0][0].spec["src"])
            doc["stderr"] = hit2[0][1].get("stderr")
        else:
            doc["note"] = "no failing input found: the obligations above are not provable from the current source; verifier output follows"
            doc["verifier_output"] = [verifier_out(o) for o in alarms[:3]]
        json.dump(doc, open(rp, "w"), indent=1)

    by = {}
    for o in obls:
        if o.status == "valid":
            by[o.solver] = by.get(o.solver, 0) + 1
    cov = {
        "obligations": len(obls) + sum(1 for u in undis if u[1] in ("extraction", "typing")),
        "discharged": sum(1 for o in obls if o.status == "valid"),
        "checker_cmd": "python3 /verif/check.py %s  (why3 1.6.0 VC generation, split_vc, then %s)" % (pid, ", ".join(prove.SOLVERS)),
        "trusted_base": props.TRUSTED + sorted(set(trusted)) + P.get("trusted", []),
        "functions_under_contract": {k: {"obligations": len(x.get("obls", [])), "discharged": sum(1 for o in x.get("obls", []) if o.status == "valid"), "goal_sha256": x["sha"]} for k, x in fns.items()},
        "discharged_by": by,
        "solver_seconds": round(sum(o.time for o in obls), 1),
        "vacuity_checked": len(vac), "vacuous": vres,
        "bounded_not_proved": bounded,
        "undischarged": [list(map(str, u)) for u in undis],
        "conformance_replay": [dict(harness=r.spec["src"], mode=r.spec["mode"], built=bool(r.built), cases=(x or {}).get("cases", 0), nontrivial=(x or {}).get("nontrivial", 0),
                                    samples=(x or {}).get("samples", []), error=r.err[-400:]) for r, x in runs],
    }
    ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": P.get("level", "proof"), "coverage": cov,
          "assumptions": P.get("assumptions", []) + sorted(set(domain)), "wall_s": round(time.time() - t0, 1), "violations": viol}
    if P.get("level", "proof") != "proof":
        cov["explanation"] = P["explanation"]
    json.dump(ev, open(VERIF + "/evidence/%s.json" % pid, "w"), indent=1)
    print("%s: %d functions, %d/%d obligations discharged (%s), replay %s, %.0f s" % (
        pid, len(fns), cov["discharged"], cov["obligations"], ", ".join("%s %d" % kv for kv in sorted(by.items())),
        "; ".join("%s %d cases" % (r.spec["src"], (x or {}).get("cases", 0)) if r.built else r.spec["src"] + " not built" for r, x in runs), time.time() - t0))
    for u in undis:
        print("  undischarged: %s: %s: %s" % (u[0], u[1], str(u[2]).replace("\n", " ")[:300]))
    for r, x, rest in hit2:
        for w, i in rest:
            print("  failing input: %s | %s" % (w, i))
    for o in alarms:
        print("  obligation fails: %s: %s (%s): %s" % (o.fn, o.name, o.status or "not proved", src_line(fns[o.fn]["file"], o.line)))
    for r in reps:
        if r.built is False:
            print("  harness %s does not build: %s" % (r.spec["src"], r.err[-500:]))
    if hit2:
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if alarms:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
        return 1
    return 0


def src_line(f, n):
    try:
        return open(f).read().split("\n")[n - 1].strip()
    except (OSError, IndexError):
        return ""


def verifier_out(o):
    rc, out = prove.run(prove.SOLVERS["z3-4.8.12"][1](o.files["z3"], 5), 10)
    return {"function": o.fn, "obligation": o.name, "solver": "z3-4.8.12", "answer": out[-1500:], "smt2_tail": open(o.files["z3"]).read()[-2500:]}


if __name__ == "__main__":
    sys.exit(main())
