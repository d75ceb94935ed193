"""The pixel functions of zarr.stream.cpp (templates) and the pyramid they feed."""
import os
from env import *
from streamenv import *
import ctr, cxx2why

DBL = ("real", "double")
# T, pixel type, bytes
PIXELS = [("unsigned char", 1), ("unsigned short", 2), ("unsigned int", 4), ("unsigned long", 8),
          ("signed char", 1), ("short", 2), ("int", 4), ("long", 8)]


class PixTypes(StreamTypes):
    def why(self, t):
        return "dbl" if t[0] == "real" else super().why(t)


class PixEnv(StreamEnv):
    def __init__(self):
        super().__init__()
        self.types = PixTypes({k: (v[0], v[1]) for k, v in self.records_cfg.items()}, self.enum_types, self.opaque)
        self.lib = self.lib + ["pixels.mlw"]

    def float_lit(self, tr, v):
        x = float(v) * 4
        if x != int(x) or abs(x) > 2 ** 53:
            raise Unsupported("floating literal " + v)
        return "(d_lit %s)" % lit(int(x)), DBL

    def float_cast(self, tr, ck, tv, to, n):
        t, wt = tv
        if wt == to:
            return t, to
        if wt[0] == "int" and to[0] == "real":
            t = "(d_of_int %s)" % par(t)
            return ("(d_float %s)" % t if to[1] == "float" else t), to
        if wt[0] == "real" and to[0] == "int":
            lo, hi = INTS[to[1]]
            return "(d_trunc%s %s %s %s)" % ("64" if hi >= 2 ** 62 else "", lit(lo), lit(hi), par(t)), to
        if wt[0] == "real" and to[0] == "real":
            return ("(d_float %s)" % par(t) if to[1] == "float" else t), to
        raise Unsupported("floating cast", n)

    def real_arith(self, tr, op, a, b, t):
        r = "(d_%s %s %s)" % ({"+": "add", "-": "sub", "*": "mul", "/": "div"}[op], par(a), par(b))
        return "(d_float %s)" % r if t[1] == "float" else r

    def real_cmp(self, tr, op, a, wa, b, wb):
        f = {"==": "d_eq %s %s", "!=": "not (d_eq %s %s)", "<": "d_lt %s %s", "<=": "d_le %s %s", ">": "d_lt %s %s", ">=": "d_le %s %s"}[op]
        if op in (">", ">="):
            a, b = b, a
        return "(%s)" % (f % (par(a), par(b)))

    def seq_of_ptr(self, tr, r):
        """a pointer as the sequence it points to, from its beginning"""
        return "(begin assert { [@expl:pointer to the beginning] %s = 0 }; %s end)" % (r[1], tr.pread(r[0]))

    def vardecl_hook(self, tr, d, name, init, ty):
        x = bare(init) if init is not None else None
        if x is not None and x["kind"] == "CXXNewExpr" and x.get("isArray"):
            el = self.types.parse(qt(x).rstrip()[:-1])
            lo, hi = INTS[el[1]]
            n, _ = tr.rv([y for y in inner(x)][0])
            nm = tr.rename.get(name, name)
            arr = tr.fresh(nm + "_arr")
            off = tr.fresh(nm)
            tr.may_raise = True
            tr.emit("let ref %s = fresh_seq %s %s %s in" % (arr, par(n), lit(lo), lit(hi)))
            tr.emit("let ref %s = 0 in" % off)
            tr.vars[d["id"]] = Var("ptr", None, nm, place=Place(arr, ("seq", el)), off=off, scope_depth=tr.depth)
            return True
        return super().vardecl_hook(tr, d, name, init, ty)

    def call_hook(self, tr, n, callee):
        d = callee.get("referencedDecl") or {}
        if d.get("name") == "memset":
            a = inner(n)[1:]
            r = tr.ptr_of(a[0])
            if r is not None and r[1] is not None and r[0].wt[0] == "seq" and r[0].wt[1][0] == "int":
                lo, hi = INTS[r[0].wt[1][1]]
                v, _ = tr.rv(a[1])
                ln, _ = tr.rv(a[2])
                return "(%s)" % tr.pwrite(r[0], "(set_bytes %s %s %s %s %d %s %s)" % (par(tr.pread(r[0])), par(r[1]), par(v), par(ln), SIZES[r[0].wt[1][1]], lit(lo), lit(hi))), UNIT
        return super().call_hook(tr, n, callee)


SIZES = {"unsigned char": 1, "signed char": 1, "char": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8}


def make():
    e = PixEnv()
    e.load_contracts("zarr.common.ctr", "zarr.dimension.ctr", "zarr.stream.ctr")
    for t, s in PIXELS:
        for c in ctr.parse(os.path.join(CDIR, "scale.tpl"), {"T": t, "S": str(s), "W": 'INT("%s")' % t}):
            e.contracts[c.key] = c
    return e
