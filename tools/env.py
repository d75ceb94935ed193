"""Environment of the translation: translation units, types, contracts, goals."""
import os, re, sys, json
from cxxast import *
import cxxast
from cxx2why import *
import cxx2why, ctr
from ctr import Param

CDIR = VERIF + "/contracts"

FILTERS = {
    "zarr.dimension.cpp": ["ArrayDimensions", "zarr::", "ZarrD"],
    "zarr.common.cpp": ["zarr::", "ZarrD", "ArrayDimensions"],
}
CLASS_FILE = {"ArrayDimensions": "zarr.dimension.cpp"}
FN_FILE = {"bytes_of_type": "zarr.common.cpp", "bytes_of_frame": "zarr.common.cpp",
           "chunks_along_dimension": "zarr.common.cpp", "shards_along_dimension": "zarr.common.cpp",
           "trim": "zarr.common.cpp", "is_empty_string": "zarr.common.cpp"}
# C++ record -> (why type, field prefix, TU in which it is looked up)
RECORDS = {
    "ZarrDimension": ("zarrdim", "zd_", "zarr.dimension.cpp"),
    "ArrayDimensions": ("arraydims", "ad_", "zarr.dimension.cpp"),
}
VALUE_CLASSES = {"ArrayDimensions"}


def key_no(s):
    return int.from_bytes(s.encode(), "big")


def spec_literals(s):
    """key"..." and str"..." in specifications: the number a key spells, the sequence of a text"""
    s = re.sub(r'\bskey"([^"]*)"', lambda m: str(int.from_bytes(b"\1" + m.group(1).encode(), "big")), s)
    s = re.sub(r'\bkey"([^"]*)"', lambda m: str(key_no(m.group(1))), s)

    def text(m):
        t = "(empty: seq int)"
        for ch in m.group(1).encode():
            t = "(snoc %s %d)" % (t, ch)
        return t
    return re.sub(r'\bstr"([^"]*)"', text, s)


class Env:
    on_throw = None
    records_cfg = RECORDS
    enum_types = ("ZarrDataType", "ZarrDimensionType", "ZarrStatusCode", "ZarrVersion", "ZarrCompressor",
                  "ZarrCompressionCodec", "ZarrLogLevel", "LogLevel")
    opaque = {}
    max_literal = 40
    modules = [("cxx.mlw", "Cxx"), ("dims.mlw", None)]

    def __init__(self):
        self.tus = {}
        self.contracts = {}
        self.consts = {}
        self.strs = {}
        self._fields = {}
        self._text = {}
        self.types = TypeTable({k: (v[0], v[1]) for k, v in self.records_cfg.items()}, self.enum_types, self.opaque)
        self.state = {}      # class -> {field: (whyname, wt)}

    # ------------------------------------------------ sources
    def tu(self, f):
        if f not in self.tus:
            self.tus[f] = TU(f, FILTERS.get(f, ["zarr::", "anonymous", "Zarr"]))
        return self.tus[f]

    def load_contracts(self, *names):
        for nm in names:
            for c in ctr.parse(os.path.join(CDIR, nm)):
                if c.file is None:
                    c.file = os.path.basename(nm)[:-4] + ".cpp"
                self.contracts[c.key] = c

    def enum(self, name):
        for t in list(self.tus.values()):
            if name in t.enums:
                return t.enums[name]
        return None

    @property
    def enums(self):
        d = {}
        for t in self.tus.values():
            d.update(t.enums)
        return d

    # ------------------------------------------------ records
    def rec_fields(self, rec):
        if rec not in self._fields:
            tu = self.tu(self.records_cfg[rec][2])
            out = []
            for nm, ty in tu.record_fields(rec):
                try:
                    wt = self.types.parse(ty.get("desugaredQualType") or ty["qualType"])
                    self.types.why(wt)
                except Unsupported:
                    continue
                out.append((nm, wt))
            self._fields[rec] = out
        return self._fields[rec]

    def field_type(self, rec, f):
        for nm, wt in self.rec_fields(rec):
            if nm == f:
                return wt
        raise Unsupported("field %s of %s" % (f, rec))

    def types_module(self):
        out = ["module Types", "  use export Cxx.Cxx", "  use seq.Seq"]
        for l in self.types_prelude():
            out.append("  " + l)
        done = set()

        def need(t):
            if t[0] == "rec":
                emit(t[1])
            for x in t[1:]:
                if isinstance(x, tuple):
                    need(x)

        def emit(rec):
            if rec in done:
                return
            done.add(rec)
            fs = self.rec_fields(rec)
            for _, t in fs:
                need(t)
            wn, pf, _ = self.records_cfg[rec]
            if fs:
                out.append("  type %s = { %s }" % (wn, "; ".join("%s%s: %s" % (pf, n, self.types.why(t)) for n, t in fs)))
            else:
                out.append("  type %s = { %sunit: int }" % (wn, pf))
            cs = [self.types.inrange(t, "x.%s%s" % (pf, n)) for n, t in fs]
            cs = ["(" + c + ")" for c in cs if c]
            out.append("  predicate inr_%s (x: %s) = %s" % (wn, wn, " /\\ ".join(cs) if cs else "true"))
        for r in self.records_cfg:
            emit(r)
        out.append("end")
        return "\n".join(out) + "\n"

    def types_prelude(self):
        return []

    # ------------------------------------------------ classes
    def is_class(self, rec):
        return rec in CLASS_FILE

    def project_class(self, t):
        return None

    def globals_of(self, cls):
        return self.state.get(cls, {})

    def find_def(self, f, pat):
        tu = self.tu(f)
        c = tu.find(pat)
        return c

    def contract_for_method(self, tr, cls, m, args, me):
        c = self.contracts.get("%s::%s" % (cls, m))
        if c is not None and c is not tr.c:
            self.resolve(c)
            return c
        if c is not None and c is tr.c:
            self.resolve(c)
            return c
        return None

    def body_for_method(self, tr, cls, m, args, me):
        for t in [tr.tu] + [self.tu(CLASS_FILE[cls])] if cls in CLASS_FILE else [tr.tu]:
            for sig, o in t.byname.get(m, []):
                q = sig.split("(")[0]
                if q.endswith("%s::%s" % (cls, m)) and len(params_of(o)) >= len(args):
                    return t, o
        return None

    def contract_for_fn(self, tr, name, d, args):
        for k in (name, "zarr::" + name, "(anon)" + name):
            c = self.contracts.get(k)
            if c is not None:
                self.resolve(c)
                return c
        return None

    def body_for_fn(self, tr, name, d, args):
        ts = [tr.tu]
        if name in FN_FILE:
            ts.append(self.tu(FN_FILE[name]))
        for t in ts:
            r = self._pick(t, name, d, args)
            if r:
                return r
        # lazily dump
        for t in ts:
            if name not in getattr(t, "lazy", set()):
                t.lazy = getattr(t, "lazy", set()) | {name}
                t.extend(name)
                r = self._pick(t, name, d, args)
                if r:
                    return r
        return None

    def _pick(self, t, name, d, args):
        cands = t.byname.get(name, [])
        dq = (d.get("type") or {}).get("qualType")
        for sig, o in cands:
            if o["type"]["qualType"] == dq or o["id"] == d.get("id"):
                cls = None
                return t, o, cls
        for sig, o in cands:
            if len(params_of(o)) >= len(args) and len(cands) == 1:
                return t, o, None
        return None

    # ------------------------------------------------ contract resolution
    def resolve(self, c):
        """fill the C++-derived part of a contract (parameter types, return type)"""
        if getattr(c, "resolved", False):
            return c
        tu = self.tu(c.file)
        cand = tu.find(c.sig)
        if not cand and not c.sig.startswith("zarr::"):
            cand = tu.find("zarr::" + c.sig)
        cand = [(s, o) for s, o in cand]
        if not cand:
            raise Unsupported("function %s not found in %s" % (c.sig, c.file))
        if len(cand) > 1 and "nparams" in c.opts:
            cand = [x for x in cand if len(params_of(x[1])) == int(c.opts["nparams"])]
        if len(cand) != 1:
            raise Unsupported("function %s is ambiguous: %s" % (c.sig, [s for s, _ in cand][:4]))
        c.fullsig, c.node = cand[0]
        c.tu = tu
        c.params = []
        ps = params_of(c.node)
        if c.argnames is not None and len(ps) != len(c.argnames):
            raise Unsupported("%s has %d parameters, contract names %d" % (c.key, len(ps), len(c.argnames)))
        for i, p in enumerate(ps):
            nm = c.argnames[i] if c.argnames is not None else (p.get("name") or "a%d" % i)
            pa = Param(nm)
            pa.node = p
            q = p["type"]["qualType"].strip()
            dq = qt(p).strip()
            spec = c.argspec.get(nm)
            if spec and spec[0] == "skip":
                pa.skip = True
                c.params.append(pa)
                continue
            typs = {"U64": U64, "I32": I32, "STR": STR, "BYTE": BYTE, "U32": U32, "INT": INT}
            if spec and spec[0] in ("ptr", "mptr") and spec[1]:      # a pointer to elements of the given type
                pa.wt = ("ptr", eval(spec[1], typs))
            elif spec and spec[0] == "type":
                pa.wt = eval(spec[1], {"U64": U64, "I32": I32, "STR": STR, "BYTE": BYTE, "U32": U32})
            elif spec and spec[0] == "hook":
                pa.mode = "hook"
                pa.hook = getattr(self, spec[1])
                pa.wt = None
                c.params.append(pa)
                continue
            else:
                pa.wt = self.types.parse(dq)
            if spec and spec[0] in ("ptr", "mptr"):
                pa.mode = spec[0]
                pa.wt = ("seq", pa.wt[1])
            elif spec and spec[0] == "ref":
                pa.mode = "ref"
            elif spec and spec[0] == "val":
                pa.mode = None
            elif dq.endswith("&") and not dq.endswith("&&") and not re.match(r"^const\b", dq) and "const &" not in dq:
                pa.mode = "ref"
            dflt = inner(p)
            if dflt and pa.mode is None:
                x = strip(dflt[0])
                while x["kind"] in ("ImplicitCastExpr",):
                    x = strip(inner(x)[0])
                if x["kind"] in ("IntegerLiteral",):
                    pa.default = x["value"]
                elif x["kind"] == "CXXBoolLiteralExpr":
                    pa.default = "true" if x["value"] else "false"
            c.params.append(pa)
        if c.rettype:
            c.ret = eval(c.rettype, {"U64": U64, "I32": I32, "STR": STR, "BYTE": BYTE, "BOOL": BOOL, "UNIT": UNIT, "INT": INT})
        else:
            k = c.node["kind"]
            if k in ("CXXConstructorDecl", "CXXDestructorDecl"):
                c.ret = UNIT
            else:
                c.ret = self.types.parse(ret_type(c.node["type"].get("desugaredQualType") or c.node["type"]["qualType"]))
        if c.this_mode == "value" and c.cls is None:
            c.cls = c.key.split("::")[0]
        c.resolved = True
        return c

    # ------------------------------------------------ spec text
    def param_decl(self, c):
        out = []
        if c.this_mode == "value":
            out.append("(self: %s)" % self.types.why(("rec", c.cls)))
        elif c.this_mode == "ref":
            out.append("(ref self: %s)" % self.types.why(("rec", c.cls)))
        for p in c.params:
            if p.skip:
                continue
            if p.mode == "hook":
                out.append("(%s: %s)" % (p.name, c.argspec[p.name][1].split()[-1] if False else self.hook_type(c, p)))
                continue
            if p.mode == "mptr":
                out.append("(ref %s: %s)" % (p.name, self.types.why(p.wt)))
            elif p.mode == "ptr":
                out.append("(%s: %s) (%s_off: int)" % (p.name, self.types.why(p.wt), p.name))
            elif p.mode == "ref":
                out.append("(ref %s: %s)" % (p.name, self.types.why(p.wt)))
            else:
                out.append("(%s: %s)" % (p.name, self.types.why(p.wt)))
        return " ".join(out) if out else "()"

    def hook_type(self, c, p):
        return "int"

    def spec_text(self, c, isval, tr=None):
        L = []
        if c.this_mode in ("value", "ref"):
            L.append("requires { [@expl:range] inr_%s self }" % self.types.why(("rec", c.cls)))
        for p in c.params:
            if p.skip or p.wt is None:
                continue
            r = self.types.inrange(p.wt, p.name)
            if r and not ("norange" in c.opts):
                L.append("requires { [@expl:range of %s] %s }" % (p.name, r))
        if c.isstate:
            for f, (g, wt) in sorted(self.globals_of(c.cls).items()):
                if wt[0] == "int":
                    L.append("requires { [@expl:range of %s] %s }" % (g, self.types.inrange(wt, g)))
        for i, r in enumerate(c.requires):
            L.append("requires { [@expl:%s] %s }" % (label(r, "precondition of " + c.key), self.subst_consts(None, unlabel(r))))
        if c.ret and c.ret[0] == "int":
            L.append("ensures { [@expl:result range] %s }" % self.types.inrange(c.ret, "result"))
        for r in c.ensures:
            L.append("ensures { [@expl:%s] %s }" % (label(r, "postcondition of " + c.key), self.subst_consts(None, unlabel(r))))
        if c.isstate or c.opts.get("frame"):
            for g in self.frame_globals(c):
                L.append("ensures { [@expl:frame: %s unchanged] %s = old %s }" % (g, g, g)) if not isval else None
        wr = list(c.writes)
        if isval:
            for p in c.params:
                if p.mode in ("ref", "mptr") and not p.skip:
                    wr.append(p.name)
            if c.this_mode == "ref":
                wr.append("self")
            if wr:
                L.append("writes { %s }" % ", ".join(wr))
        if c.raises:
            xs = c.xensures or ["true"]
            fr = []
            if not isval and (c.isstate or c.opts.get("frame")):
                fr = ["%s = old %s" % (g, g) for g in self.frame_globals(c)]
            L.append("raises { Throw -> %s }" % " /\\ ".join("(%s)" % self.subst_consts(None, unlabel(x)) for x in xs + fr))
        return "\n    ".join(l for l in L if l)

    def frame_globals(self, c):
        if not c.isstate:
            return []
        return [g for f, (g, wt) in sorted(self.globals_of(c.cls).items()) if g not in c.writes]

    def subst_consts(self, tr, txt):
        def rep(m):
            v = self.enum(m.group(1))
            if v is None:
                v = self.consts.get(m.group(1))
            if v is None:
                raise Unsupported("constant " + m.group(1))
            return str(v)
        return re.sub(r"\$([A-Za-z_]\w+)", rep, spec_literals(txt))

    # ------------------------------------------------ goal file
    def make_goal(self, c, vacuity=False):
        """-> (text, info)"""
        self.resolve(c)
        tr = FnTrans(self, c.tu, c.node, c, c.cls)
        tr.obl_file = c.file
        if c.this_mode in ("value", "ref"):
            tr.cur_this = Place("self", ("rec", c.cls), mutable=c.this_mode == "ref")
        # positional renaming of locals
        names = local_names(body_of(c.node))
        tr.rename = {}
        tr.local_list = names
        if c.locals and names != c.locals:
            tr.rename = align(names, c.locals)
        pre = []
        assigned = []
        collect_assigned(body_of(c.node), assigned)
        for p in c.params:
            pid = p.node["id"]
            if p.skip:
                continue
            tr.names[p.name] = 1
            if p.mode == "ptr":
                o = tr.fresh(p.name + "_off")
                o2 = tr.fresh(p.name + "_cur")
                pre.append("let ref %s = %s in" % (o2, o))
                tr.vars[pid] = Var("ptr", None, p.name, place=Place(p.name, p.wt, mutable=False), off=o2)
            elif p.mode == "mptr":
                o = tr.fresh(p.name + "_cur")
                pre.append("let ref %s = 0 in" % o)
                tr.vars[pid] = Var("ptr", None, p.name, place=Place(p.name, p.wt), off=o)
            elif p.mode == "hook":
                tr.vars[pid] = Var("val", ("hook",), p.name)
            elif p.mode == "ref":
                tr.vars[pid] = Var("ref", p.wt, p.name)
            elif pid in assigned or mutated(body_of(c.node), pid):
                m = tr.fresh(p.name)
                pre.append("let ref %s = %s in" % (m, p.name))
                tr.vars[pid] = Var("ref", p.wt, m)
            else:
                tr.vars[pid] = Var("val", p.wt, p.name)
        tr.ret_stack.append({"exn": None, "wt": c.ret})
        if vacuity and c.ret != UNIT or True:
            pass
        for l in pre:
            tr.emit(l)
        for l in self.init_lines(tr, c):
            tr.emit(l)
        for l in c.ghost.get("entry", []):
            tr.emit(tr.c_subst(l, None))
        tr.run_body()
        if c.ret == UNIT:
            for l in c.ghost.get("exit", []):
                tr.emit(tr.c_subst(l, None))
            tr.emit("()")
        else:
            tr.emit("absurd")
        uses = []
        for u in c.uses:
            uses.append("  use %s" % u)
        out = [self.types_module_use(c)]
        body = "\n".join(l for l, _ in tr.raw)
        vals = []
        for k, cc in tr.callees.items():
            if cc is c:
                continue
            self.resolve(cc)
            for u in cc.uses:
                if "  use %s" % u not in uses:
                    uses.append("  use %s" % u)
            vals.append("  val %s %s : %s\n    %s" % (cc.whyname, self.param_decl(cc), self.types.why(cc.ret) if cc.ret != UNIT else "unit", self.spec_text(cc, True)))
        rec = "rec " if c.key in tr.callees else ""
        txt = ["module G", "  use Cxx.Cxx", "  use Types.Types", "  use seq.Seq"] + uses
        txt += ["  val constant %s : str" % v for v in self.strs_used(body)]
        txt += self.global_decls(c, tr)
        txt += ["  " + d for d in c.decls]
        txt += vals
        txt += ["  " + e for e in tr.exn_decls]
        spec = self.spec_text(c, False, tr)
        if vacuity:
            spec += "\n    ensures { [@expl:vacuity] false }"
        if "diverges" in c.opts:
            spec += "\n    diverges"
        txt.append("  let %s%s%s %s : %s\n    %s" % (rec, c.whyname, " [@vc:sp]" if "sp" in c.opts else "", self.param_decl(c), self.types.why(c.ret) if c.ret != UNIT else "unit", spec))
        if not c.raises and tr.may_raise:
            body = "  (try\n" + body + "\n  with Throw -> absurd end)"
        txt.append("  =")
        txt.append(body)
        txt.append("end")
        info = {"stats": tr.stats, "callees": list(tr.callees), "shape": tr.loop_shape, "locals": tr.local_list}
        return "\n".join(txt) + "\n", info

    def types_module_use(self, c):
        return ""

    def init_lines(self, tr, c):
        return []

    def global_decls(self, c, tr):
        return []

    def strs_used(self, body):
        return []

    # ------------------------------------------------ hooks (defaults)
    def special_member(self, tr, n, name, base):
        return None

    def const_var(self, tr, d):
        g = self.global_place(tr, d)
        if g is not None:
            return tr.pread(g), g.wt
        return None

    def global_place(self, tr, d):
        return None

    def const_member(self, tr, n):
        return None

    def strlit(self, v):
        # the JSON dump gives the literal in source form
        s = v
        if s.startswith('"') and s.endswith('"'):
            try:
                s = json.loads(s)
            except ValueError:
                s = s[1:-1]
        t = "(Seq.empty : seq int)"
        for ch in s:
            t = "(Seq.snoc %s %d)" % (t, ord(ch))
        return t if len(s) <= self.max_literal else "str_any"

    def sizeof(self, t):
        return None

    def deref_hook(self, tr, e, n):
        return None

    def ptr_hook(self, tr, n):
        return None

    def retype_ptr(self, tr, r, n):
        return r

    def elt_size(self, t):
        return 1

    def float_cast(self, tr, ck, tv, to, n):
        raise Unsupported("floating point cast", n)

    def seq_of_ptr(self, tr, r):
        return None

    def float_lit(self, tr, v):
        return None

    def map_key(self, tr, b):
        return tr.rv(b)[0]

    def real_arith(self, tr, op, a, b, t):
        raise Unsupported("floating point arithmetic")

    def real_cmp(self, *a):
        raise Unsupported("floating point comparison")

    def real_neg(self, *a):
        raise Unsupported("floating point negation")

    def construct_hook(self, tr, n, xs):
        return None

    def construct_rec(self, tr, n, xs, wt):
        if not xs or (n["kind"] == "InitListExpr" and all(x["kind"] in ("ImplicitValueInitExpr", "CXXDefaultInitExpr") or
                                                            x["kind"] == "CXXConstructExpr" and not inner(x) for x in xs)):
            return self.default_rec(tr, wt), wt
        raise Unsupported("construction of %s" % (wt,), n)

    def construct_rec_args(self, tr, args, el):
        raise Unsupported("emplace of %s" % (el,))

    def default_rec(self, tr, wt):
        if wt[0] == "rec":
            fs = self.rec_fields(wt[1])
            pf = self.records_cfg[wt[1]][1]
            vs = []
            for n, t in fs:
                d = self.types.default(t) or self.default_rec(tr, t)
                vs.append("%s%s = %s" % (pf, n, d))
            return "{ %s }" % "; ".join(vs)
        return None

    def json_value(self, tr, b):
        raise Unsupported("json", b)

    def json_assign(self, tr, p, b):
        raise Unsupported("json", b)

    def json_index(self, tr, p, b):
        raise Unsupported("json", b)

    def assign_hook(self, tr, a, b, n):
        return None

    def assign_fn(self, tr, v, b):
        raise Unsupported("function variable")

    def opcall_hook(self, tr, op, args, n):
        return None

    def mcall_hook(self, tr, m, obj, args, n):
        return None

    def call_hook(self, tr, n, callee):
        return None

    def std_call_hook(self, tr, name, args, n, d):
        return None

    def range_hook(self, tr, n, pl, lv, body):
        return None

    def vardecl_hook(self, tr, d, name, init, ty):
        return None

    guards = {}      # Why name -> flag of the mutex that guards it
    wguards = {}     # the same, for writing only
    mutexes = {}     # (class, field) -> dict(acquire=..., release=...)

    def mutex_of(self, tr, d, init):
        """the modelled mutex a lock object takes"""
        x = init
        while x is not None and x["kind"] != "MemberExpr":
            x = inner(x)[0] if inner(x) else None
        if x is None:
            return None
        return self.mutexes.get((tr.cls, x.get("name")))

    def source_text(self, tr, f, loc):
        if tr.tu.fname not in self._text:
            # offsets are in bytes
            self._text[tr.tu.fname] = open(cxxast.srcpath(tr.tu.fname), "rb").read().decode("latin-1")
        return self._text[tr.tu.fname]

    def new_expr(self, tr, n):
        raise Unsupported("new", n)

    def delete_expr(self, tr, n):
        raise Unsupported("delete", n)


def label(r, default):
    m = re.match(r"^\[([^\]]+)\]", r)
    return m.group(1) if m else default


def unlabel(r):
    return re.sub(r"^\[([^\]]+)\]\s*", "", r)


def local_names(n):
    out = []

    def w(x):
        if x.get("kind") == "VarDecl" and not (x.get("name") or "").startswith("__"):
            out.append(x.get("name"))
        for c in x.get("inner", []):
            if isinstance(c, dict):
                w(c)
    w(n)
    return out


def align(names, want):
    """source names of locals -> names the contract uses; extra locals are kept apart"""
    import difflib
    m = {}
    for op, a, b, x, y in difflib.SequenceMatcher(None, names, want, autojunk=False).get_opcodes():
        if op == "equal":
            for n in names[a:b]:
                m.setdefault(n, n)
    for op, a, b, x, y in difflib.SequenceMatcher(None, names, want, autojunk=False).get_opcodes():
        if op == "replace" and b - a == y - x:
            for n, w in zip(names[a:b], want[x:y]):
                m.setdefault(n, w)
    for n in names:
        if n not in m and n in want:
            m[n] = n
        elif n not in m:
            m[n] = n
    # two source names never share a contract name
    used = {}
    for n, w in list(m.items()):
        if w in used:
            return {}
        used[w] = n
    return {n: w for n, w in m.items() if n != w}


def positional(names, want):
    m = {}
    for a, b in zip(names, want):
        if a in m and m[a] != b:
            return {}
        m[a] = b
    return m


def mutated(n, pid):
    """is the parameter the target of a non-const method / operator?"""
    k = n.get("kind")
    if k == "CXXOperatorCallExpr":
        xs = inner(n)
        op = strip(xs[0]).get("referencedDecl", {}).get("name")
        if op in ("operator=", "operator+=", "operator++", "operator--", "operator-="):
            x = strip(xs[1])
            if x["kind"] == "DeclRefExpr" and x["referencedDecl"]["id"] == pid:
                return True
    if k == "CXXMemberCallExpr":
        me = strip(inner(n)[0])
        if me["kind"] == "MemberExpr" and me.get("name") in ("push_back", "clear", "resize", "pop", "pop_back", "swap", "erase", "insert", "append", "emplace_back"):
            x = strip(inner(me)[0])
            if x["kind"] == "DeclRefExpr" and x["referencedDecl"]["id"] == pid:
                return True
    return any(mutated(c, pid) for c in n.get("inner", []) if isinstance(c, dict))
