"""push_job: a lambda given to the thread pool is translated where it is pushed."""
from cxx2why import *
from cxx2why import lambda_op, lambda_body, lambda_inits
import cxx2why


def to_lambda(tr, e):
    e = strip(e)
    while True:
        if e["kind"] == "LambdaExpr":
            return e
        if e["kind"] == "DeclRefExpr":
            v = tr.lookup(e)
            if v is not None and v.kind == "lambda":
                return v.node
            raise Unsupported("job that is not a lambda", e)
        if e["kind"] == "CallExpr":
            f, args = tr.fcall(e)
            if f in ("move", "forward"):
                e = strip(args[0])
                continue
            raise Unsupported("job that is not a lambda", e)
        xs = inner(e)
        if len(xs) != 1:
            raise Unsupported("job that is not a lambda", e)
        e = strip(xs[0])


def capture_list(tr, lam):
    """entries of the capture list, from the source text: ('&'|'=', name or None, init?)"""
    b = lam["range"]["begin"]
    b = b.get("spellingLoc") or b.get("expansionLoc") or b
    f = b.get("file")
    text = tr.env.source_text(tr, f, b)
    off = b["offset"]
    if text[off] != "[":
        raise Unsupported("capture list not found", lam)
    depth, i, cur, out = 0, off, "", []
    while True:
        ch = text[i]
        if ch in "[({":
            depth += 1
            if depth > 1:
                cur += ch
        elif ch in "])}":
            depth -= 1
            if depth == 0:
                break
            cur += ch
        elif ch == "," and depth == 1:
            out.append(cur)
            cur = ""
        else:
            cur += ch
        i += 1
    if cur.strip():
        out.append(cur)
    res = []
    for c in out:
        c = re.sub(r"/\*.*?\*/|//[^\n]*", " ", c, flags=re.S).strip()
        if c in ("&", "="):
            res.append((c, None, False))
            continue
        if c in ("this", "*this"):
            res.append(("&" if c == "this" else "=", "this", False))
            continue
        m = re.match(r"^(&?)\s*(\w+)\s*(=|\(|\{)?", c)
        if not m:
            raise Unsupported("capture " + c, lam)
        res.append(("&" if m.group(1) else "=", m.group(2), bool(m.group(3))))
    return res


def push_job(tr, arg, n, flag="g_failed"):
    lam = to_lambda(tr, arg)
    op, body = lambda_op(lam), lambda_body(lam)
    caps = capture_list(tr, lam)
    inits = lambda_inits(lam)
    save_vars, save_job, save_mr = dict(tr.vars), tr.job, tr.may_raise
    if tr.job is not None:
        raise Unsupported("job pushed by a job", n)
    alive = tr.fresh("alive")
    pre = []
    initcap = {}
    byref_default = any(c[0] == "&" and c[1] is None for c in caps)
    # explicit captures come first, in order; implicit ones follow
    explicit = [c for c in caps if c[1] is not None]
    if len(inits) < len(explicit):
        raise Unsupported("captures", n)
    anyref = False

    def shared(v, name):
        """variable captured by reference"""
        nonlocal anyref
        anyref = True
        e = dict(v.extra or {}, alive=True)
        pl = v.place
        if pl is not None:
            pl = Place(pl.root, pl.wt, pl.acc, pl.mutable, True)
        elif v.kind in ("ref", "val"):
            ld = [l["depth"] for l in tr.latches]
            if not ld or v.depth > min(ld):
                pre.append("job_capture false;")
        return Var(v.kind, v.wt, v.name, place=pl, off=v.off, node=v.node, scope_depth=v.depth, extra=e)

    entries = list(zip(explicit, inits)) + [(("&" if byref_default else "=", None, False), x) for x in inits[len(explicit):]]
    for (mode, name, isinit), ini in entries:
        si = strip(ini)
        while si["kind"] in ("ImplicitCastExpr", "CXXConstructExpr") and len(inner(si)) == 1 and not isinit:
            si = strip(inner(si)[0])
        if si["kind"] == "CXXThisExpr":
            anyref = True
            continue
        if not isinit:
            if si["kind"] != "DeclRefExpr":
                raise Unsupported("capture", n)
            did = si["referencedDecl"]["id"]
            v = tr.vars.get(did)
            if v is None:
                continue              # not modelled (pool, logger ...)
            if mode == "&":
                tr.vars[did] = shared(v, name)
            elif v.kind in ("ptr", "objptr", "iter"):
                anyref = True
                pl = Place(v.place.root, v.place.wt, v.place.acc, v.place.mutable, True)
                tr.vars[did] = Var(v.kind, v.wt, v.name, place=pl, off=v.off, scope_depth=v.depth, extra=dict(v.extra or {}, alive=True))
            continue
        if mode == "&":
            anyref = True
            pl = tr.freeze(tr.lv(ini), pre)
            if pl.acc:
                pre.append("(let _ = %s in ());" % tr.pread(Place(pl.root, pl.wt, pl.acc)))
            initcap[name] = Var("place", pl.wt, name, place=Place(pl.root, pl.wt, pl.acc, pl.mutable, True), extra={"alive": True})
            continue
        r = None
        if "*" in qt(ini) or "iterator" in qt(ini):
            r = tr.ptr_of(ini)
        if r is not None:
            anyref = True
            pl = tr.freeze(r[0], pre)
            pl = Place(pl.root, pl.wt, pl.acc, pl.mutable, True)
            if r[1] is None:
                initcap[name] = Var("objptr", ("ptr", pl.wt), name, place=pl, extra={"alive": True})
            else:
                o = tr.fresh(name)
                pre.append("let ref %s = %s in" % (o, r[1]))
                initcap[name] = Var("ptr", None, name, place=pl, off=o, extra={"alive": True})
            continue
        t, w = tr.rv(ini)
        nm = tr.fresh(name)
        pre.append("let ref %s = %s in" % (nm, t))
        initcap[name] = Var("ref", w, nm, scope_depth=tr.depth)
    for p in params_of(op):
        nm = tr.fresh(p.get("name") or "err")
        pre.append("let ref %s = str_any in" % nm)
        tr.vars[p["id"]] = Var("ref", STR, nm, scope_depth=tr.depth)
    tr.job = {"flag": alive, "initcap": initcap}
    tr.may_raise = False
    tr.depth += 1
    try:
        ret = ret_type(op["type"].get("desugaredQualType") or op["type"]["qualType"])
        txt, w = tr.inline_body(body, BOOL, n)
        raised = tr.may_raise
    finally:
        tr.job, tr.vars, tr.may_raise = save_job, save_vars, save_mr
        tr.depth -= 1
    ok = tr.fresh("ok")
    if raised:
        txt = "(try %s with Throw -> (job_throws (); absurd) end)" % txt
    s = "(%s let ref %s = true in let %s = %s in " % (" ".join(pre), alive, ok, txt)
    if anyref:
        s += "job_done %s; " % alive
    s += "job_result %s %s; true)" % (ok, flag)
    tr.jobno = getattr(tr, "jobno", 0) + 1
    jc = tr.c.jobs.get(tr.jobno) if tr.c else None
    if jc:
        idx = tr.loop_stack[-1].get("idx") if tr.loop_stack else None
        s = "begin ensures { result } %s\n %s end" % (" ".join("ensures { %s }" % tr.c_subst(t, idx) for _, t in jc.specs), s)
    return s, BOOL
