"""Dropping axioms an obligation hardly needs (sound: fewer premises).
Every ground premise stays; a quantified one stays when a rare symbol of its
is reached from the goal (the SInE rule)."""
import re, sys

TOK = re.compile(r';[^\n]*|\|[^|]*\||"[^"]*"|[()]|[^\s()|;"]+')
KW = {"assert", "forall", "exists", "let", "and", "or", "not", "=>", "=", "ite", "!", ":pattern", "distinct", "+", "-", "*", "div", "mod", "<", "<=", ">", ">=",
      "true", "false", "Int", "Bool", "Real", "as", "abs", "/", "to_real", "select", "store", "Array", "uni", "ty", "us", "sort"}


def split(s):
    out, d, st, i = [], 0, None, 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == ";":
            i = s.index("\n", i) + 1 if "\n" in s[i:] else n
            continue
        if c == "|":
            i = s.index("|", i + 1)
        elif c == "(":
            if d == 0:
                st = i
            d += 1
        elif c == ")":
            d -= 1
            if d == 0:
                out.append(s[st:i + 1])
        i += 1
    return out


_sym = {}


def symbols(e):
    r = _sym.get(e)
    if r is None:
        r = _sym[e] = _symbols(e)
    return r


def _symbols(e):
    return {t for t in TOK.findall(e) if t[0] not in '();"' and t not in KW and not re.match(r"^-?\d", t)}


def filtered(text, depth=3, tol=1.5):
    es = split(text)
    decl = set()
    for e in es:
        m = re.match(r"\((?:declare-fun|define-fun|declare-const)\s+(\S+)", e)
        if m:
            decl.add(m.group(1))
    ax = [i for i, e in enumerate(es) if e.startswith("(assert")]
    goal = ax[-1]
    sy = {i: symbols(es[i]) & decl for i in ax}
    infra = {s for s in decl if re.match(r"^(t2tb|tb2t|sort|witness)", s)}
    fr = {}
    for i in ax:
        for s in sy[i]:
            fr[s] = fr.get(s, 0) + 1
    trig = {}
    for i in ax:
        c = sy[i] - infra
        if not c:
            continue
        m = min(fr[s] for s in c)
        for s in c:
            if fr[s] <= tol * m or fr[s] <= 3:
                trig.setdefault(s, []).append(i)
    keep = {goal}
    S = set(sy[goal])
    front = S
    for _ in range(depth):
        new = set()
        # ground premises extend what is reached without costing a step
        more = front
        for _ in range(30):
            nn = set()
            for s in more:
                for i in trig.get(s, ()):
                    if i not in keep and "(forall" not in es[i]:
                        keep.add(i)
                        nn |= sy[i]
            more = nn - S
            S |= nn
            front = front | nn
            if not more:
                break
        for s in front:
            for i in trig.get(s, ()):
                if i not in keep:
                    keep.add(i)
                    new |= sy[i]
        front = new - S
        S |= new
        if not front:
            break
    for i in ax:
        if "(forall" not in es[i] or not (sy[i] - infra) or (sy[i] & infra and len(sy[i] - infra) == 0):
            keep.add(i)
    return "\n".join(e for i, e in enumerate(es) if not e.startswith("(assert") or i in keep), len(keep), len(ax)


def to_file(src, dst, depth, tol):
    try:
        t, a, b = filtered(open(src, errors="replace").read(), depth, tol)
    except (ValueError, IndexError):
        t = open(src, errors="replace").read()
    with open(dst + ".tmp", "w") as f:
        f.write(t)
    import os
    os.replace(dst + ".tmp", dst)
    return dst


if __name__ == "__main__" and sys.argv[1] == "--serve":
    # ends with its parent: standard input is closed then
    for l in sys.stdin:
        a = l.rstrip("\n").split("\t")
        try:
            to_file(a[0], a[1], int(a[2]), float(a[3]))
            print("ok", flush=True)
        except Exception as e:
            print("failed", flush=True)
elif __name__ == "__main__":
    t, a, b = filtered(open(sys.argv[1]).read(), int(sys.argv[2]), float(sys.argv[3]))
    print(t)
    sys.stderr.write("%d of %d\n" % (a, b))
