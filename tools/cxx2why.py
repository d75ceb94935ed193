"""Mechanical translation of C++ function bodies (clang AST of /repo's current
sources) into WhyML programs annotated with the contracts in /verif/contracts.

The translation keeps every statement of the function except: logging calls
(their arguments included), destructors of locals, and the text of exception
messages.  Anything it does not understand raises Unsupported, which makes the
function 'not extracted' (never 'proved')."""
import re
from cxxast import *


class Unsupported(Exception):
    def __init__(self, msg, node=None):
        line = None
        if isinstance(node, dict):
            line = node_line(node)
        super().__init__(msg + (" (near offset line %s)" % line if line else ""))


def node_line(n):
    for k in ("loc",):
        if isinstance(n.get(k), dict):
            l = n[k].get("line") or n[k].get("expansionLoc", {}).get("line")
            if l:
                return l
    r = n.get("range", {}).get("begin", {})
    return r.get("line") or r.get("expansionLoc", {}).get("line") or r.get("spellingLoc", {}).get("line")


# ---------------------------------------------------------------- types
INTS = {
    "bool": None,
    "char": (-128, 127), "signed char": (-128, 127), "unsigned char": (0, 255),
    "short": (-2**15, 2**15 - 1), "unsigned short": (0, 2**16 - 1),
    "int": (-2**31, 2**31 - 1), "unsigned int": (0, 2**32 - 1),
    "long": (-2**63, 2**63 - 1), "unsigned long": (0, 2**64 - 1),
    "long long": (-2**63, 2**63 - 1), "unsigned long long": (0, 2**64 - 1),
    "std::byte": (0, 255), "byte": (0, 255),
}
TYPEDEFS = {
    "int8_t": "signed char", "uint8_t": "unsigned char", "int16_t": "short", "uint16_t": "unsigned short",
    "int32_t": "int", "uint32_t": "unsigned int", "int64_t": "long", "uint64_t": "unsigned long",
    "size_t": "unsigned long", "std::size_t": "unsigned long", "ptrdiff_t": "long", "size_type": "unsigned long",
    "difference_type": "long", "ssize_t": "long", "std::ptrdiff_t": "long", "std::streamoff": "long",
    "std::iter_difference_t": "long",
}
SIZEOF = {"char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "int": 4,
          "unsigned int": 4, "long": 8, "unsigned long": 8, "float": 4, "double": 8, "std::byte": 1,
          "long long": 8, "unsigned long long": 8}
BOOL = ("bool",)
UNIT = ("unit",)
STR = ("str",)
REAL = ("real",)
JSON = ("json",)
NULLT = ("null",)


def INT(name):
    return ("int", name)


U64 = INT("unsigned long")
U32 = INT("unsigned int")
I32 = INT("int")
BYTE = INT("std::byte")


def int_range(t):
    if t[0] == "int":
        return INTS[t[1]]
    raise Unsupported("not an int type: %s" % (t,))


def split_targs(s):
    """'A<B<C>, D>' -> ('A', ['B<C>', 'D'])"""
    i = s.find("<")
    if i < 0 or not s.endswith(">"):
        return s, []
    base = s[:i]
    args = []
    d = 0
    cur = ""
    for ch in s[i + 1:-1]:
        if ch in "<(":
            d += 1
        if ch in ">)":
            d -= 1
        if ch == "," and d == 0:
            args.append(cur.strip())
            cur = ""
        else:
            cur += ch
    args.append(cur.strip())
    return base, args


class TypeTable:
    def __init__(self, records=None, enums=(), opaque=()):
        # records: cxx name -> (why type, prefix)
        self.records = dict(records or {})
        self.enum_types = set(enums)
        self.opaque = dict(opaque)  # cxx base name -> why type

    def parse(self, s):
        s = s.strip()
        s = re.sub(r"\b(const|volatile|struct|class|enum|typename)\b", "", s)
        s = re.sub(r"\s+", " ", s).strip()
        while s.endswith("&"):
            s = s[:-1].strip()
        if s.endswith("*"):
            inner = s[:-1].strip()
            if inner in ("void",):
                return ("ptr", BYTE)
            if inner == "char":
                return ("cstr",)
            t = self.parse(inner)
            return ("ptr", t)
        s = TYPEDEFS.get(s, s)
        if s == "bool":
            return BOOL
        if s in ("void",):
            return UNIT
        if s in ("double", "float"):
            return ("real", s)
        if s in INTS:
            return INT("std::byte" if s == "byte" else s)
        m = re.match(r"^(.*)\[(\d+)\]$", s)
        if m:
            if m.group(1).strip() == "char":
                return ("cstr",)
            return ("seq", self.parse(m.group(1)))
        base, args = split_targs(s)
        b = base.split("::")[-1]
        if base in self.opaque or b in self.opaque:
            return ("opaque", self.opaque.get(base) or self.opaque.get(b))
        if b in ("string", "basic_string", "string_view", "basic_string_view", "path"):
            return STR
        if b in ("vector", "deque", "list", "span", "array", "initializer_list", "queue", "stack"):
            if not args:
                raise Unsupported("container type " + s)
            return ("seq", self.parse(args[0]))
        if b in ("unique_ptr", "shared_ptr", "optional"):
            return ("opt", self.parse(args[0]))
        if b in ("atomic",):
            return self.parse(args[0])
        if b in ("unordered_map", "map"):
            return ("map", self.parse(args[0]), self.parse(args[1]))
        if b in ("unordered_set", "set"):
            return ("seq", self.parse(args[0]))
        if b == "basic_json" or b == "json":
            return JSON
        if b == "latch":
            return ("latch",)
        if b in self.records:
            return ("rec", b)
        if b in self.enum_types:
            return INT("unsigned int")
        if b in ("nullptr_t",):
            return NULLT
        raise Unsupported("type " + s)

    def why(self, t):
        k = t[0]
        if k == "int":
            return "int"
        if k == "bool":
            return "bool"
        if k == "unit":
            return "unit"
        if k == "str" or k == "cstr":
            return "str"
        if k == "real":
            return "real"
        if k == "json":
            return "json"
        if k == "seq":
            return "(seq %s)" % self.why(t[1])
        if k == "opt":
            return "(option %s)" % self.why(t[1])
        if k == "ptr":
            return "(option %s)" % self.why(t[1])
        if k == "map":
            return "(amap %s %s)" % (self.why(t[1]), self.why(t[2]))
        if k == "rec":
            return self.records[t[1]][0]
        if k == "opaque":
            return t[1]
        if k == "latch":
            return "int"
        raise Unsupported("why type of %s" % (t,))

    def field(self, rec, f):
        f = f.rstrip() if f else f
        return self.records[rec][1] + f

    def default(self, t):
        k = t[0]
        if k in ("int", "latch"):
            return "0"
        if k == "bool":
            return "false"
        if k == "seq":
            return "(Seq.empty : %s)" % self.why(t)
        if k in ("str", "cstr"):
            return "str_empty"
        if k in ("opt", "ptr"):
            return "(None : %s)" % self.why(t)
        if k == "json":
            return "(jnull ())"
        if k == "real":
            return "0.0"
        if k == "map":
            return "(amap_empty : %s)" % self.why(t)
        return None

    def inrange(self, t, x, depth=0):
        """Range predicate of a value of type t as a Why formula (or None)."""
        k = t[0]
        if k == "int":
            lo, hi = INTS[t[1]]
            return "%d <= %s <= %d" % (lo, x, hi)
        if k in ("seq",):
            sub = self.inrange(t[1], "q_%d" % depth, depth + 1)
            base = "Seq.length %s <= 0x7fff_ffff_ffff_ffff" % x
            if sub:
                el = "(Seq.get %s k_%d)" % (x, depth)
                sub = self.inrange(t[1], el, depth + 1)
                base += " /\\ (forall k_%d: int. 0 <= k_%d < Seq.length %s -> %s)" % (depth, depth, x, sub)
            return base
        if k == "rec":
            return "inr_%s %s" % (self.records[t[1]][0], x)
        if k in ("opt", "ptr"):
            sub = self.inrange(t[1], "v_%d" % depth, depth + 1)
            if sub:
                return "(match %s with None -> true | Some v_%d -> %s end)" % (x, depth, sub)
            return None
        if k in ("str", "cstr"):
            return "Seq.length %s <= 0x7fff_ffff_ffff_ffff" % x
        return None


# ---------------------------------------------------------------- places
class Place:
    """root: whyml variable; acc: list of ('f', field) ('i', term, chk) ('d',)"""

    def __init__(self, root, wt, acc=(), mutable=True, alive=None):
        self.root = root
        self.wt = wt
        self.acc = tuple(acc)
        self.mutable = mutable
        self.alive = alive

    def ext(self, a, wt):
        return Place(self.root, wt, self.acc + (a,), self.mutable, self.alive)


class Var:
    def __init__(self, kind, wt, name=None, place=None, off=None, node=None, scope_depth=0, extra=None):
        self.kind = kind      # 'val' 'ref' 'place' 'iter' 'ptr' 'lambda' 'fn' 'json' 'lock'
        self.wt = wt
        self.name = name
        self.place = place
        self.off = off        # whyml ref name of the offset for iter/ptr
        self.node = node
        self.depth = scope_depth
        self.extra = extra


SKIP = {"ExprWithCleanups", "MaterializeTemporaryExpr", "ParenExpr", "CXXBindTemporaryExpr", "ConstantExpr",
        "FullExpr", "SubstNonTypeTemplateParmExpr", "CXXRewrittenBinaryOperator_", "CXXStdInitializerListExpr"}


def inner(n):
    return [c for c in n.get("inner", []) if c.get("kind")]


def strip(n):
    while n.get("kind") in SKIP or (n.get("kind") in ("ImplicitCastExpr",) and n.get("castKind") in
                                    ("NoOp", "LValueToRValue", "FunctionToPointerDecay", "ArrayToPointerDecay", "BuiltinFnToFnPtr",
                                     "UncheckedDerivedToBase", "DerivedToBase")):
        n = inner(n)[0]
    return n


def seqe(es):
    es = [e for e in es if e]
    if not es:
        return "()"
    return "(" + "; ".join(es) + ")"


class FnTrans:
    def __init__(self, env, tu, node, contract, cls=None):
        self.env = env          # global environment: contracts, type table, models
        self.tu = tu
        self.node = node
        self.c = contract
        self.T = env.types
        self.cls = cls
        self.vars = {}          # decl id -> Var
        self.names = {}         # base name -> count
        self.out = []
        self.ind = 1
        self.loopno = 0
        self.loop_stack = []
        self.exn_decls = []
        self.callees = {}       # contract name -> contract
        self.job = None
        self.may_raise = False
        self.stats = {"stmts": 0, "dropped_log": 0, "inlined": [], "loops": 0}
        self.line = 0
        self.cur_this = None    # None: globals; or a Place for value classes
        self.ret_stack = []
        self.loop_shape = []
        self.tmpn = 0
        self.local_decl_names = []
        self.depth = 0
        self.raw = []           # list of (text, line)
        self.inline_depth = 0
        self.skipped_names = set()
        self.rename = {}
        self.locks = []         # lock objects in scope
        self.latches = []       # latches in scope

    # ---------------------------------------------------------- locks
    def lock_decl(self, d, init):
        mx = self.env.mutex_of(self, d, init)
        if mx is None:
            self.vars[d["id"]] = Var("lock", None, d.get("name"), extra=None)
            return
        own = self.fresh("own")
        self.emit("%s;" % mx["acquire"])
        self.emit("let ref %s = true in" % own)
        l = {"mx": mx, "own": own, "depth": self.depth, "loop": len(self.loop_stack), "ret": len(self.ret_stack)}
        self.locks.append(l)
        self.vars[d["id"]] = Var("lock", None, d.get("name"), extra=l)

    def lock_release(self, pred):
        for l in reversed(self.locks):
            if pred(l):
                self.emit("if %s then begin %s; %s <- false end;" % (l["own"], l["mx"]["release"], l["own"]))

    # ---------------------------------------------------------- output
    def emit(self, s):
        self.raw.append(("  " * self.ind + s, self.line))

    def fresh(self, base):
        base = re.sub(r"[^A-Za-z0-9_]", "_", base or "v")
        if base and base[0].isupper():
            base = "v" + base
        base = {"val": "val_", "end": "end_", "type": "type_", "match": "match_", "to": "to_", "mod": "mod_",
                "div": "div_", "use": "use_", "module": "module_", "with": "with_", "in": "in_", "fun": "fun_",
                "result": "result_", "old": "old_", "at": "at_", "any": "any_", "ref": "ref_", "not": "not_",
                "begin": "begin_", "done": "done_", "function": "function_", "exception": "exception_",
                "scope": "scope_", "range": "range_", "length": "length_", "label": "label_", "done": "done_",
                "set": "set_", "float": "float_", "clone": "clone_", "meta": "meta_", "theory": "theory_", "by": "by_",
                "so": "so_", "abs": "abs_", "pure": "pure_", "import": "import_", "export": "export_",
                "constant": "constant_", "predicate": "predicate_", "this": "this_", "min": "min_", "max": "max_",
                "rec": "rec_", "create": "create_", "get": "get_", "empty": "empty_", "cons": "cons_"}.get(base, base)
        if base.startswith("__"):
            base = "u" + base
        if base.startswith("_"):
            base = "u" + base
        n = self.names.get(base, 0) + 1
        self.names[base] = n
        return base if n == 1 else "%s_%d" % (base, n)

    def tmp(self, b="t"):
        self.tmpn += 1
        return "%s'%d" % (b, self.tmpn)

    def note(self, n):
        l = node_line(n)
        if l:
            self.line = l

    # ---------------------------------------------------------- places
    def pread(self, p, upto=None):
        acc = p.acc if upto is None else p.acc[:upto]
        t = p.root
        gl = self.env.guards.get(t)
        if gl:
            t = "(let _ = under_lock %s in %s)" % (gl, t)
        for a in acc:
            if a[0] == "f":
                t = "(%s).%s" % (t, a[1]) if not re.match(r"^[\w']+$", t) else "%s.%s" % (t, a[1])
            elif a[0] == "i":
                t = "(sget %s %s)" % (par(t), par(a[1]))
            elif a[0] == "d":
                t = "(oget %s)" % par(t)
            elif a[0] == "m":
                t = "(mget %s %s)" % (par(t), par(a[1]))
            elif a[0] in ("j", "jn"):
                t = "(%s %s %s)" % ("jat" if a[0] == "j" else "jnth", par(t), par(a[1]))
        if self.job and p.alive:
            t = "(let _ = job_alive %s in %s)" % (self.job["flag"], t)
        return t

    def pwrite(self, p, v):
        if not p.mutable:
            raise Unsupported("write to immutable place " + p.root)
        pre = ""
        if self.job and p.alive:
            pre = "job_alive %s; " % self.job["flag"]
        gl = self.env.guards.get(p.root) or self.env.wguards.get(p.root)
        if gl:
            pre += "under_lock %s; " % gl
        if not p.acc:
            return "%s%s <- %s" % (pre, p.root, v)
        q = Place(p.root, p.wt, p.acc, p.mutable)
        cur = v
        for k in range(len(p.acc) - 1, -1, -1):
            a = p.acc[k]
            base = FnTrans.pread(self, Place(p.root, None, p.acc[:k]))
            if a[0] == "f":
                cur = "{ %s with %s = %s }" % (base if re.match(r"^[\w'.]+$", base) else "(%s)" % base, a[1], cur)
            elif a[0] == "i":
                cur = "(sset %s %s %s)" % (par(base), par(a[1]), par(cur))
            elif a[0] == "d":
                cur = "(oset %s %s)" % (par(base), par(cur))
            elif a[0] == "m":
                cur = "(mset %s %s %s)" % (par(base), par(a[1]), par(cur))
            elif a[0] in ("j", "jn"):
                cur = "(%s %s %s %s)" % ("jset" if a[0] == "j" else "jsetn", par(base), par(a[1]), par(cur))
        return "%s%s <- %s" % (pre, p.root, cur)

    # ---------------------------------------------------------- helper: types
    def nt(self, n):
        return self.T.parse(qt(n))

    def try_nt(self, n):
        try:
            return self.nt(n)
        except Unsupported:
            return None

    # ---------------------------------------------------------- lvalues
    def recv(self, obj):
        """object a member is called on; a pointer to an object stands for the object"""
        o = strip(obj)
        if o["kind"] == "DeclRefExpr":
            v = self.lookup(o)
            if v is not None and v.kind == "objptr":
                return self.ptr_of(o)[0]
        return self.lv(obj)

    def lv(self, n):
        """Translate an lvalue expression to a Place."""
        n = strip(n)
        k = n["kind"]
        if k == "DeclRefExpr":
            v = self.lookup(n)
            if v is None:
                g = self.env.global_place(self, n["referencedDecl"])
                if g is not None:
                    return g
                raise Unsupported("unknown variable " + str(n.get("referencedDecl", {}).get("name")), n)
            if v.kind == "ref":
                return Place(v.name, v.wt, alive=v.extra and v.extra.get("alive"))
            if v.kind == "val":
                return Place(v.name, v.wt, mutable=False, alive=v.extra and v.extra.get("alive"))
            if v.kind == "place":
                if self.job and v.extra and v.extra.get("alive") and not v.place.alive:
                    return Place(v.place.root, v.place.wt, v.place.acc, v.place.mutable, True)
                return v.place
            raise Unsupported("lvalue of variable kind " + v.kind, n)
        if k == "MemberExpr":
            return self.member_place(n)
        if k == "CXXOperatorCallExpr":
            op, args = self.opcall(n)
            if op == "operator[]":
                return self.index_place(args[0], args[1], n)
            if op in ("operator*", "operator->"):
                return self.deref_place(args[0], n)
            if op == "operator=":
                return self.lv(args[0])
        if k == "CXXMemberCallExpr":
            m, obj, args = self.mcall(n)
            if m in ("at", "operator[]"):
                ov = self.try_class_call(n, m, obj, args)
                if ov is None:
                    return self.index_place(obj, args[0], n, at=(m == "at"))
            if m in ("front", "back", "value", "top"):
                p = self.obj_place(obj)
                if m == "value":
                    return p.ext(("d",), p.wt[1])
                if m in ("front",):
                    return p.ext(("i", "0"), p.wt[1])
                return p.ext(("i", "(slen %s - 1)" % par(self.pread(p))), p.wt[1])
            if m == "get":
                return self.obj_place(obj)
        if k == "ArraySubscriptExpr":
            a, b = inner(n)
            return self.index_place(a, b, n)
        if k == "UnaryOperator" and n["opcode"] == "*":
            return self.deref_place(inner(n)[0], n)
        if k == "UnaryOperator" and n["opcode"] in ("++", "--") and not n.get("isPostfix"):
            raise Unsupported("lvalue of ++", n)
        if k == "CallExpr":
            f, args = self.fcall(n)
            if f in ("move", "forward", "as_const"):
                return self.lv(args[0])
        if k in ("CXXStaticCastExpr", "ImplicitCastExpr", "CStyleCastExpr", "CXXConstCastExpr", "CXXReinterpretCastExpr"):
            return self.lv(inner(n)[0])
        if k == "UnaryOperator" and n["opcode"] == "&":
            return self.lv(inner(n)[0])
        # an rvalue: bind to an immutable place
        t, wt = self.rv(n)
        return Place(par(t), wt, mutable=False)

    def lookup(self, n):
        d = n["referencedDecl"]
        v = self.vars.get(d["id"])
        if v is None and self.job:
            v = self.job["initcap"].get(d.get("name"))
        return v

    def this_field(self, name, n):
        if self.cur_this is not None:
            rec = self.cur_this.wt[1]
            ft = self.env.field_type(rec, name)
            return self.cur_this.ext(("f", self.T.field(rec, name)), ft)
        g = self.env.globals_of(self.cls)
        if name not in g:
            raise Unsupported("field %s of %s not modelled" % (name, self.cls), n)
        return Place(g[name][0], g[name][1], alive=True if self.job else None)

    def member_place(self, n):
        name = n.get("name")
        base = inner(n)[0]
        b = strip(base)
        if b["kind"] == "CXXThisExpr":
            return self.this_field(name, n)
        if b["kind"] == "ImplicitCastExpr":
            b2 = strip(inner(b)[0])
            if b2["kind"] == "CXXThisExpr":
                return self.this_field(name, n)
        sp = self.env.special_member(self, n, name, base)
        if sp is not None:
            return sp
        r = None
        if n.get("isArrow") and b["kind"] == "DeclRefExpr":
            bv = self.lookup(b)
            if bv is not None and bv.kind == "objptr":
                r = self.ptr_of(b)
        p = r[0] if r is not None else self.obj_place(base)
        if r is None and p.wt[0] in ("ptr", "opt") and n.get("isArrow"):
            p = p.ext(("d",), p.wt[1])
        if p.wt[0] != "rec":
            raise Unsupported("member %s of %s" % (name, p.wt), n)
        rec = p.wt[1]
        if not name:
            raise Unsupported("anonymous member", n)
        return p.ext(("f", self.T.field(rec, name)), self.env.field_type(rec, name))

    def obj_place(self, n):
        return self.lv(n)

    def index_place(self, a, b, n, at=False):
        sa = strip(a)
        # pointer variable / iterator indexing
        pt = self.ptr_of(sa)
        if pt is not None:
            place, off = pt
            idx, _ = self.rv(b)
            o = plus(off, idx)
            if place.wt[0] == "typed":
                return place.ext(("t", o), place.wt[1])
            return place.ext(("i", o), place.wt[1])
        p = self.lv(a)
        if p.wt[0] == "json":
            return self.env.json_index(self, p, b)
        if p.wt[0] == "map":
            k = self.env.map_key(self, b)
            return p.ext(("m", k), p.wt[2])
        if p.wt[0] == "rec":
            r = self.try_class_call_op(n, "operator[]", a, [b])
            if r is not None:
                return Place(par(r[0]), r[1], mutable=False)
        if p.wt[0] in ("str", "cstr"):
            idx, _ = self.rv(b)
            return p.ext(("i", idx), INT("char"))
        if p.wt[0] != "seq":
            raise Unsupported("index of %s" % (p.wt,), n)
        idx, _ = self.rv(b)
        return p.ext(("i", idx), p.wt[1])

    def deref_place(self, e, n):
        se = strip(e)
        pt = self.ptr_of(se)
        if pt is not None:
            place, off = pt
            if off is None:
                return place
            return place.ext(("i", off), place.wt[1])
        if se["kind"] == "CXXThisExpr":
            raise Unsupported("*this", n)
        p = self.lv(e)
        if p.wt[0] in ("opt", "ptr"):
            return p.ext(("d",), p.wt[1])
        if p.wt[0] == "rec" and se["kind"] == "CXXOperatorCallExpr":
            return p
        raise Unsupported("dereference of %s" % (p.wt,), n)

    # pointers / iterators: returns (place of the container, offset term) or
    # (place of the object, None) for pointers to a single object
    def ptr_of(self, n):
        n = strip(n)
        k = n["kind"]
        if k in ("CXXReinterpretCastExpr", "CXXStaticCastExpr", "CXXConstCastExpr", "CStyleCastExpr") or \
           (k == "ImplicitCastExpr" and n.get("castKind") in ("BitCast", "NoOp", "LValueToRValue", "ConstructorConversion")):
            r = self.ptr_of(inner(n)[0])
            if r is None:
                return None
            return self.retype_ptr(r, n)
        if k == "DeclRefExpr":
            v = self.lookup(n)
            if v is not None and v.kind in ("iter", "ptr"):
                return v.place, v.off
            if v is not None and v.kind == "objptr":
                p = v.place
                if self.job and v.extra and v.extra.get("alive") and not p.alive:
                    p = Place(p.root, p.wt, p.acc, p.mutable, True)
                return p, None
            return None
        if k == "CXXMemberCallExpr":
            m, obj, args = self.mcall(n)
            if m in ("begin", "cbegin", "data") and not args:
                p = self.recv(obj)
                if p.wt[0] in ("seq",):
                    return p, "0"
                if p.wt[0] == "str":
                    return p, "0"
                return None
            if m in ("end", "cend"):
                p = self.recv(obj)
                if p.wt[0] in ("seq", "str"):
                    return p, "(slen %s)" % par(self.pread(p))
                return None
            return None
        if k == "BinaryOperator" and n["opcode"] in ("+", "-"):
            a, b = inner(n)
            r = self.ptr_of(a)
            if r is not None and r[1] is not None:
                i, _ = self.rv(b)
                return r[0], (plus(r[1], i) if n["opcode"] == "+" else "(%s - %s)" % (r[1], par(i)))
            return None
        if k == "CXXOperatorCallExpr":
            op, args = self.opcall(n)
            if op in ("operator+", "operator-") and len(args) == 2:
                r = self.ptr_of(args[0])
                if r is not None and r[1] is not None and self.ptr_of(args[1]) is None:
                    i, _ = self.rv(args[1])
                    return r[0], (plus(r[1], i) if op == "operator+" else "(%s - %s)" % (r[1], par(i)))
            return None
        if k == "UnaryOperator" and n["opcode"] == "&":
            x = strip(inner(n)[0])
            p = self.lv(x)
            if p.acc and p.acc[-1][0] == "i":
                # address of an element: both an object pointer and an iterator
                return p, None
            return p, None
        if k == "CXXConstructExpr" and len(inner(n)) == 1:
            return self.ptr_of(inner(n)[0])
        return self.env.ptr_hook(self, n)

    def retype_ptr(self, r, n):
        return self.env.retype_ptr(self, r, n)

    # ---------------------------------------------------------- calls
    def opcall(self, n):
        xs = inner(n)
        callee = strip(xs[0])
        name = callee.get("referencedDecl", {}).get("name")
        return name, xs[1:]

    def mcall(self, n):
        xs = inner(n)
        me = strip(xs[0])
        if me["kind"] != "MemberExpr":
            raise Unsupported("member call through " + me["kind"], n)
        args = [a for a in xs[1:] if a["kind"] != "CXXDefaultArgExpr"]
        return me.get("name"), inner(me)[0], args

    def fcall(self, n):
        xs = inner(n)
        callee = strip(xs[0])
        name = callee.get("referencedDecl", {}).get("name")
        return name, [a for a in xs[1:] if a["kind"] != "CXXDefaultArgExpr"]

    # ---------------------------------------------------------- rvalues
    def rv(self, n):
        """-> (term, wt).  The term is a WhyML program expression."""
        k = n["kind"]
        if k in SKIP:
            return self.rv(inner(n)[0])
        f = getattr(self, "rv_" + k, None)
        if f is None:
            raise Unsupported("expression " + k, n)
        return f(n)

    def rv_IntegerLiteral(self, n):
        return n["value"], self.nt(n)

    def rv_CharacterLiteral(self, n):
        return lit(int(n["value"])), INT("char")

    def rv_FloatingLiteral(self, n):
        v = str(n["value"])
        v = v.rstrip("fFlL")
        h = self.env.float_lit(self, v)
        if h is not None:
            return h
        if "e" not in v.lower() and "." not in v:
            v += ".0"
        return v, ("real", "double")

    def rv_CXXBoolLiteralExpr(self, n):
        return ("true" if n["value"] else "false"), BOOL

    def rv_CXXNullPtrLiteralExpr(self, n):
        return "None", NULLT

    def rv_GNUNullExpr(self, n):
        return "None", NULLT

    def rv_StringLiteral(self, n):
        return self.env.strlit(n["value"]), ("str",)

    def rv_PredefinedExpr(self, n):
        return "str_any", STR

    def rv_UnaryExprOrTypeTraitExpr(self, n):
        if n.get("name") != "sizeof":
            raise Unsupported(n.get("name"), n)
        a = n.get("argType")
        if a is None:
            a = inner(n)[0]["type"]
        t = a.get("desugaredQualType") or a["qualType"]
        t = TYPEDEFS.get(t.replace("const ", "").strip(), t.replace("const ", "").strip())
        if t in SIZEOF:
            return str(SIZEOF[t]), U64
        r = self.env.sizeof(t)
        if r is None:
            raise Unsupported("sizeof " + t, n)
        return str(r), U64

    def rv_ImplicitValueInitExpr(self, n):
        t = self.nt(n)
        return self.T.default(t), t

    rv_CXXScalarValueInitExpr = rv_ImplicitValueInitExpr

    def rv_CXXThisExpr(self, n):
        if self.cur_this is not None:
            return self.pread(self.cur_this), self.cur_this.wt
        raise Unsupported("this as a value", n)

    def rv_DeclRefExpr(self, n):
        d = n["referencedDecl"]
        if d["kind"] == "EnumConstantDecl":
            v = self.enum_value(d)
            if v is None:
                raise Unsupported("enumerator " + d["name"], n)
            return lit(v), INT("unsigned int") if v >= 0 else I32
        v = self.lookup(n)
        if v is None:
            c = self.env.const_var(self, d)
            if c is not None:
                return c
            raise Unsupported("variable " + d.get("name", "?"), n)
        if v.kind in ("val", "ref", "place"):
            p = self.lv(n)
            return self.pread(p), p.wt
        if v.kind == "objptr":
            return "(Some %s)" % par(self.pread(v.place)), ("ptr", v.place.wt)
        if v.kind in ("iter", "ptr"):
            raise Unsupported("pointer value " + v.name, n)
        raise Unsupported("use of variable kind " + v.kind, n)

    def enum_value(self, d):
        if d["name"] in self.tu.enums:
            return self.tu.enums[d["name"]]
        return self.env.enums.get(d["name"])

    def rv_place(self, n):
        p = self.lv(n)
        return self.pread(p), p.wt

    def rv_MemberExpr(self, n):
        r = self.env.const_member(self, n)
        if r is not None:
            return r
        return self.rv_place(n)

    def rv_ArraySubscriptExpr(self, n):
        return self.rv_place(n)

    def rv_CXXDefaultArgExpr(self, n):
        xs = inner(n)
        if xs:
            return self.rv(xs[0])
        raise Unsupported("default argument", n)

    def rv_ImplicitCastExpr(self, n):
        ck = n.get("castKind")
        e = inner(n)[0]
        if ck in ("LValueToRValue", "NoOp", "FunctionToPointerDecay", "ArrayToPointerDecay", "UncheckedDerivedToBase",
                  "DerivedToBase", "ConstructorConversion", "UserDefinedConversion", "BitCast"):
            return self.rv(e)
        if ck == "IntegralCast":
            return self.intcast(self.rv(e), self.nt(n), n, e)
        if ck in ("IntegralToBoolean",):
            t, wt = self.rv(e)
            if wt == BOOL:
                return t, BOOL
            return "(%s <> 0)" % par(t), BOOL
        if ck == "PointerToBoolean":
            return self.nonnull(e), BOOL
        if ck == "NullToPointer":
            return "None", NULLT
        if ck in ("IntegralToFloating", "FloatingCast", "FloatingToIntegral"):
            return self.env.float_cast(self, ck, self.rv(e), self.nt(n), n)
        if ck == "ToVoid":
            return self.rv(e)
        raise Unsupported("cast " + str(ck), n)

    def rv_CXXStaticCastExpr(self, n):
        return self.rv_ImplicitCastExpr(n)

    rv_CStyleCastExpr = rv_CXXStaticCastExpr
    rv_CXXFunctionalCastExpr = rv_CXXStaticCastExpr
    rv_CXXConstCastExpr = rv_CXXStaticCastExpr

    def rv_CXXReinterpretCastExpr(self, n):
        return self.rv(inner(n)[0])

    def nonnull(self, e):
        se = strip(e)
        pt = None
        if se["kind"] in ("DeclRefExpr", "UnaryOperator"):
            pt = self.ptr_of(se)
            if pt is not None:
                return "true"
        t, wt = self.rv(e)
        if wt[0] in ("opt", "ptr"):
            return "(is_some %s)" % par(t)
        if wt == BOOL:
            return t
        if wt[0] == "cstr":
            return "true"
        if wt == NULLT:
            return "false"
        raise Unsupported("pointer test of %s" % (wt,), e)

    def intcast(self, tv, to, n, src=None):
        t, wt = tv
        if wt == BOOL:
            return "(if %s then 1 else 0)" % t, to
        if wt[0] != "int" or to[0] != "int":
            if to == BOOL:
                return "(%s <> 0)" % par(t), BOOL
            raise Unsupported("integer cast %s -> %s" % (wt, to), n)
        lo, hi = INTS[to[1]]
        flo, fhi = INTS[wt[1]]
        if flo >= lo and fhi <= hi:
            return t, to
        m = re.match(r"^\(?(-?\d+)\)?$", t)
        if m:
            v = int(m.group(1))
            if lo <= v <= hi:
                return t, to
            if lo == 0:
                return str(v % (hi + 1)), to
        if src is not None and to[1] == "int" and wt[1] == "unsigned int" and self.is_enum(src):
            return "(as_s32 %s)" % par(t), to
        return "(chk %s %s %s)" % (lit(lo), lit(hi), par(t)), to

    def is_enum(self, n):
        ty = re.sub(r"\b(const|enum)\b", "", qt(n)).strip().split("::")[-1]
        return ty in self.T.enum_types

    def arith(self, op, a, b, t, n):
        """checked arithmetic at C++ type t"""
        if t[0] == "real":
            return self.env.real_arith(self, op, a, b, t)
        if t[0] != "int":
            raise Unsupported("arithmetic at %s" % (t,), n)
        lo, hi = INTS[t[1]]
        if op in "+-*":
            return "(chk %s %s (%s %s %s))" % (lit(lo), lit(hi), par(a), op, par(b))
        if op == "/":
            return "(cdiv_ %s %s)" % (par(a), par(b))
        if op == "%":
            return "(cmod_ %s %s)" % (par(a), par(b))
        if op == "&":
            return "(bit_and %s %s)" % (par(a), par(b))
        if op == "|":
            return "(bit_or %s %s)" % (par(a), par(b))
        if op == "<<":
            m1, m2 = re.match(r"^\d+$", a), re.match(r"^\d+$", b)
            if m1 and m2:
                return str(int(a) << int(b))
            return "(chk %s %s (bit_shl %s %s))" % (lit(lo), lit(hi), par(a), par(b))
        if op == ">>":
            return "(bit_shr %s %s)" % (par(a), par(b))
        raise Unsupported("operator " + op, n)

    def rv_BinaryOperator(self, n):
        op = n["opcode"]
        a, b = inner(n)
        if op == "=":
            return self.assign(n, a, b), UNIT
        if op == ",":
            return seqe([self.effect(a), self.rv(b)[0]]), self.try_nt(b) or UNIT
        if op in ("&&", "||"):
            x, _ = self.cond(a), 0
            y, _ = self.cond(b), 0
            return "(%s %s %s)" % (x, op, y), BOOL
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.compare(op, a, b, n), BOOL
        if op == "-" and self.is_ptr_expr(a) and self.is_ptr_expr(b):
            ra, rb = self.ptr_of(a), self.ptr_of(b)
            if ra and rb:
                return "(%s - %s)" % (par(ra[1]), par(rb[1])), INT("long")
        if op == "+" and qt(n).rstrip().endswith("*"):
            r = self.ptr_of(n)
            if r is not None and r[1] is not None:
                p = r[0].ext(("i", r[1]), r[0].wt[1])
                return "(Some %s)" % par(self.pread(p)), ("ptr", p.wt)
        t = self.nt(n)
        ta, wa = self.rv(a)
        tb, wb = self.rv(b)
        return self.arith(op, ta, tb, t, n), t

    def is_ptr_expr(self, n):
        t = qt(n)
        return t.rstrip().endswith("*") or "iterator" in t

    def compare(self, op, a, b, n):
        ra = rb = None
        if self.is_ptr_expr(a) or self.is_ptr_expr(b):
            # pointer comparison with null, or iterator comparison
            sb, sa = strip(b), strip(a)
            for x, y in ((a, b), (b, a)):
                sy = y
                while sy.get("kind") == "ImplicitCastExpr" or sy.get("kind") in SKIP:
                    if sy.get("castKind") == "NullToPointer":
                        break
                    sy = inner(sy)[0]
                if sy.get("castKind") == "NullToPointer" or sy.get("kind") in ("CXXNullPtrLiteralExpr",):
                    t = self.nullness(x)
                    return t if op == "!=" else "(not %s)" % t
            ra, rb = self.ptr_of(a), self.ptr_of(b)
            if ra and rb and ra[1] is not None and rb[1] is not None:
                return self.cmpop(op, ra[1], rb[1])
        ta, wa = self.rv(a)
        tb, wb = self.rv(b)
        return self.cmp_terms(op, ta, wa, tb, wb, n)

    def nullness(self, x):
        """term telling that pointer expression x is non-null"""
        sx = strip(x)
        while sx["kind"] in ("ImplicitCastExpr",):
            sx = strip(inner(sx)[0])
        if sx["kind"] == "CXXMemberCallExpr":
            m, obj, args = self.mcall(sx)
            if m == "data":
                p = self.lv(obj)
                return "(data_nonnull %s)" % par(self.pread(p))
            if m == "get":
                return "(is_some %s)" % par(self.pread(self.lv(obj)))
        return self.nonnull(sx)

    def cmpop(self, op, a, b):
        return "(%s %s %s)" % (par(a), {"==": "=", "!=": "<>"}.get(op, op), par(b))

    def cmp_terms(self, op, ta, wa, tb, wb, n):
        if wb == NULLT and wa[0] in ("opt", "ptr"):
            return "(is_some %s)" % par(ta) if op == "!=" else "(not (is_some %s))" % par(ta)
        if wa == NULLT and wb[0] in ("opt", "ptr"):
            return "(is_some %s)" % par(tb) if op == "!=" else "(not (is_some %s))" % par(tb)
        if wa == BOOL and wb == BOOL:
            if op == "==":
                return "(beq %s %s)" % (par(ta), par(tb))
            if op == "!=":
                return "(not (beq %s %s))" % (par(ta), par(tb))
        if wa == BOOL:
            ta = "(if %s then 1 else 0)" % ta
            wa = I32
        if wb == BOOL:
            tb = "(if %s then 1 else 0)" % tb
            wb = I32
        if wa[0] == "int" and wb[0] == "int":
            return self.cmpop(op, ta, tb)
        if wa[0] == "real" or wb[0] == "real":
            return self.env.real_cmp(self, op, ta, wa, tb, wb)
        if wa[0] in ("str", "cstr") and wb[0] in ("str", "cstr") and op in ("==", "!="):
            r = "(str_eq %s %s)" % (par(ta), par(tb))
            return r if op == "==" else "(not %s)" % r
        raise Unsupported("comparison of %s and %s" % (wa, wb), n)

    def cond(self, n):
        t, wt = self.rv(n)
        if wt == BOOL:
            return t
        if wt[0] in ("opt", "ptr"):
            return "(is_some %s)" % par(t)
        if wt[0] == "int":
            return "(%s <> 0)" % par(t)
        raise Unsupported("condition of type %s" % (wt,), n)

    def rv_CXXRewrittenBinaryOperator(self, n):
        return self.rv(inner(n)[0])

    def rv_ConditionalOperator(self, n):
        c, a, b = inner(n)
        tc = self.cond(c)
        ta, wa = self.rv(a)
        tb, wb = self.rv(b)
        if wa == NULLT:
            wa = wb
        if wa[0] == "cstr":
            wa = wb
        return "(if %s then %s else %s)" % (tc, ta, tb), wa

    def rv_UnaryOperator(self, n):
        op = n["opcode"]
        e = inner(n)[0]
        if op == "!":
            return "(not %s)" % self.cond(e), BOOL
        if op in ("++", "--"):
            return self.incdec(n, want=True)
        if op == "-":
            t, wt = self.rv(e)
            if wt[0] == "real":
                return self.env.real_neg(self, t, wt), wt
            ty = self.nt(n)
            lo, hi = INTS[ty[1]]
            m = re.match(r"^\d+$", t)
            if m and lo < 0:
                return "(-%s)" % t, ty
            if lo == 0:
                return "(neg_wrap %s %s)" % (lit(hi + 1), par(t)), ty
            return "(chk %s %s (- %s))" % (lit(lo), lit(hi), par(t)), ty
        if op == "+":
            return self.rv(e)
        if op == "~":
            t, wt = self.rv(e)
            ty = self.nt(n)
            lo, hi = INTS[ty[1]]
            return "(bit_not %s %s)" % (lit(hi), par(t)), ty
        if op == "*":
            h = self.env.deref_hook(self, e, n)
            if h is not None:
                return h
            return self.rv_place(n)
        if op == "&":
            p = self.lv(e)
            return "(Some %s)" % par(self.pread(p)), ("ptr", p.wt)
        raise Unsupported("unary " + op, n)

    def incdec(self, n, want):
        op = n["opcode"]
        e = inner(n)[0]
        pt = self.ptr_of(e)
        if pt is not None and pt[1] is not None:
            v = self.lookup(strip(e))
            o = "%s <- %s %s 1" % (v.off, v.off, "+" if op == "++" else "-")
            if want:
                raise Unsupported("value of iterator increment", n)
            return "(%s)" % o, UNIT
        p = self.lv(e)
        lo, hi = int_range(p.wt)
        cur = self.pread(p)
        if lo == 0:
            # unsigned increments and decrements wrap by definition
            nv = "(%s %s %s)" % ("uinc" if op == "++" else "udec", lit(hi), par(cur))
        else:
            nv = "(chk %s %s (%s %s 1))" % (lit(lo), lit(hi), cur, "+" if op == "++" else "-")
        if not want:
            return "(%s)" % self.pwrite(p, nv), UNIT
        if n.get("isPostfix"):
            t = self.tmp()
            return "(let %s = %s in %s; %s)" % (t, cur, self.pwrite(p, nv), t), p.wt
        return "(%s; %s)" % (self.pwrite(p, nv), self.pread(p)), p.wt

    def rv_CompoundAssignOperator(self, n):
        op = n["opcode"][:-1]
        a, b = inner(n)
        pt = self.ptr_of(a)
        if pt is not None and pt[1] is not None:
            v = self.lookup(strip(a))
            if v is None or v.off is None:
                raise Unsupported("pointer arithmetic on non-variable", n)
            i, _ = self.rv(b)
            return "(%s <- %s %s %s)" % (v.off, v.off, op, par(i)), UNIT
        p = self.lv(a)
        tb, wb = self.rv(b)
        ct = n.get("computeLHSType", {})
        ctt = self.T.parse(ct.get("desugaredQualType") or ct.get("qualType")) if ct else p.wt
        cur = self.pread(p)
        if p.wt[0] == "real" or ctt[0] == "real":
            return "(%s)" % self.pwrite(p, self.env.real_arith(self, op, cur, tb, ctt)), UNIT
        if p.wt == BOOL:
            raise Unsupported("bool compound assignment", n)
        a1, _ = self.intcast((cur, p.wt), ctt, n)
        r = self.arith(op, a1, tb, ctt, n)
        r2, _ = self.intcast((r, ctt), p.wt, n)
        return "(%s)" % self.pwrite(p, r2), UNIT

    def assign(self, n, a, b):
        sa = strip(a)
        # pointer variables
        if sa["kind"] == "DeclRefExpr":
            v = self.lookup(sa)
            if v is not None and v.kind in ("iter", "ptr"):
                r = self.ptr_of(b)
                if r is not None and r[1] is not None and r[0].root == v.place.root and r[0].acc == v.place.acc:
                    return "(%s <- %s)" % (v.off, r[1])
                raise Unsupported("pointer reassigned to another object", n)
            if v is not None and v.kind in ("fnvar",):
                return self.env.assign_fn(self, v, b)
        h = self.env.assign_hook(self, sa, b, n)
        if h is not None:
            return h
        p = self.lv(a)
        if p.wt[0] == "json":
            return "(%s)" % self.env.json_assign(self, p, b)
        t = self.coerce(b, p.wt)
        return "(%s)" % self.pwrite(p, t)

    def coerce(self, b, wt):
        """translate expression b as a value of type wt"""
        sb = strip(b)
        if wt[0] == "json":
            return self.env.json_value(self, b)
        if sb["kind"] == "CXXDefaultInitExpr":
            d = self.T.default(wt)
            return d
        if wt[0] == "seq" and qt(b).rstrip().endswith("*"):
            r = self.ptr_of(b)
            h = self.env.seq_of_ptr(self, r) if r is not None and r[1] is not None else None
            if h is not None:
                return h
        if wt[0] in ("opt", "ptr"):
            t, w = self.rv(b)
            if w[0] in ("opt", "ptr"):
                return t
            if w == NULLT:
                return "None"
            return "(Some %s)" % par(t)
        if sb["kind"] == "InitListExpr" or sb["kind"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            t, w = self.construct(sb, wt)
            return t
        t, w = self.rv(b)
        if w == NULLT and wt[0] in ("str",):
            raise Unsupported("null string", b)
        if wt[0] == "int" and w == BOOL:
            return "(if %s then 1 else 0)" % t
        if wt[0] in ("str", "cstr") and w[0] in ("opt", "ptr"):
            return "(cstr_get %s)" % par(t)
        return t

    # ---------------------------------------------------------- constructors
    def rv_InitListExpr(self, n):
        return self.construct(n, self.try_nt(n))

    def rv_CXXConstructExpr(self, n):
        return self.construct(n, self.try_nt(n))

    rv_CXXTemporaryObjectExpr = rv_CXXConstructExpr

    def construct(self, n, wt):
        xs = [a for a in inner(n) if a["kind"] != "CXXDefaultArgExpr"]
        if n["kind"] not in ("InitListExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return self.rv(n)
        if wt is None:
            h = self.env.construct_hook(self, n, xs)
            if h is not None:
                return h
            raise Unsupported("construction of " + qt(n), n)
        k = wt[0]
        h = self.env.construct_hook(self, n, xs)
        if h is not None:
            return h
        if k == "json":
            return self.env.json_value(self, n), JSON
        if n["kind"] == "CXXConstructExpr" and len(xs) == 1:
            w1 = None
            try:
                w1 = self.static_wt(xs[0])
            except Unsupported:
                pass
            if w1 == wt and k in ("seq", "str", "rec", "opt", "opaque", "map"):
                return self.rv(xs[0])      # copy / move construction
            if k == "seq" and w1 is not None and w1[0] == "seq":
                return self.rv(xs[0])
        if k == "int" or k == "bool":
            if len(xs) == 0:
                return self.T.default(wt), wt
            return self.coerce(xs[0], wt), wt
        if k == "seq":
            return self.construct_seq(n, xs, wt), wt
        if k == "str":
            return self.construct_str(n, xs), STR
        if k == "opt":
            if not xs or "nullopt" in qt(xs[0]):
                return "None", wt
            t, w = self.rv(xs[0])
            if w[0] in ("opt", "ptr"):
                return t, wt
            if w == NULLT or "nullopt" in qt(xs[0]):
                return "None", wt
            return "(Some %s)" % par(t), wt
        if k == "rec":
            return self.env.construct_rec(self, n, xs, wt)
        if k == "map" and not xs:
            return self.T.default(wt), wt
        if k == "real":
            return self.rv(xs[0])
        if k == "latch":
            return self.rv(xs[0])
        raise Unsupported("construction of %s" % (wt,), n)

    def static_wt(self, n):
        """type of an expression without translating effects twice"""
        save = (list(self.raw), dict(self.names), self.tmpn, self.loopno, dict(self.callees), list(self.exn_decls), self.may_raise)
        try:
            return self.rv(n)[1]
        finally:
            self.raw, self.names, self.tmpn, self.loopno, self.callees, self.exn_decls, self.may_raise = save

    def construct_seq(self, n, xs, wt):
        el = wt[1]
        if n["kind"] == "InitListExpr":
            # aggregate / initializer list
            t = "(Seq.empty : %s)" % self.T.why(wt)
            if len(xs) == 2 and self.is_ptr_expr(xs[0]):
                return self.span_of(xs)
            for x in xs:
                t = "(Seq.snoc %s %s)" % (t, par(self.coerce(x, el)))
            return t
        if not xs:
            return "(Seq.empty : %s)" % self.T.why(wt)
        if self.is_ptr_expr(xs[0]):
            return self.span_of(xs)
        s0 = strip(xs[0])
        if s0["kind"] == "InitListExpr":
            return self.construct_seq(s0, inner(s0), wt)
        ln, lw = self.rv(xs[0])
        if lw[0] == "seq":
            return ln
        if lw[0] != "int":
            raise Unsupported("container constructor", n)
        if len(xs) >= 2:
            v = self.coerce(xs[1], el)
        else:
            v = self.T.default(el)
            if v is None:
                v = self.env.default_rec(self, el)
        return "(smake %s %s)" % (par(ln), par(v))

    def span_of(self, xs):
        r = self.ptr_of(xs[0])
        if r is None:
            # a null or single pointer
            raise Unsupported("span over unknown pointer", xs[0])
        place, off = r
        ln, _ = self.rv(xs[1])
        if off is None:
            raise Unsupported("span over single object", xs[0])
        sz = self.env.elt_size(place.wt)
        return "(sspan %s %s %s)" % (par(self.pread(place)), par(off), par(ln))

    def construct_str(self, n, xs):
        if not xs:
            return "str_empty"
        if len(xs) >= 2 and self.is_ptr_expr(xs[0]):
            return self.span_of(xs)
        t, w = self.rv(xs[0])
        if w[0] in ("str", "cstr"):
            return t
        if w[0] in ("opt", "ptr"):
            return "(cstr_get %s)" % par(t)
        raise Unsupported("string constructor from %s" % (w,), n)

    def rv_CXXNewExpr(self, n):
        return self.env.new_expr(self, n)

    def rv_CXXDeleteExpr(self, n):
        return self.env.delete_expr(self, n)

    def rv_LambdaExpr(self, n):
        raise Unsupported("lambda as a value", n)

    def rv_CXXThrowExpr(self, n):
        self.may_raise = True
        if self.env.on_throw:
            pass
        return "(raise Throw)", UNIT

    # ---------------------------------------------------------- call expressions
    def rv_CXXOperatorCallExpr(self, n):
        op, args = self.opcall(n)
        h = self.env.opcall_hook(self, op, args, n)
        if h is not None:
            return h
        if op == "operator[]":
            p = self.index_place(args[0], args[1], n)
            return self.pread(p), p.wt
        if op in ("operator*", "operator->") and len(args) == 1:
            p0 = None
            if op == "operator->":
                t, wt = self.rv(args[0])
                return t, wt
            p = self.deref_place(args[0], n)
            return self.pread(p), p.wt
        if op == "operator=":
            return self.assign(n, args[0], args[1]), UNIT
        if op in ("operator==", "operator!="):
            return self.compare(op[8:], args[0], args[1], n), BOOL
        if op in ("operator<", "operator>", "operator<=", "operator>="):
            return self.compare(op[8:], args[0], args[1], n), BOOL
        if op == "operator+" and len(args) == 2:
            ta, wa = self.rv(args[0])
            tb, wb = self.rv(args[1])
            if wa[0] in ("str", "cstr") and wb[0] in ("str", "cstr"):
                return "(cat %s %s)" % (par(ta), par(tb)), STR
            if wa[0] == "str" and wb[0] == "int":
                return "(cat %s (Seq.cons %s Seq.empty))" % (par(ta), par(tb)), STR
        if op == "operator-" and len(args) == 2:
            ra, rb = self.ptr_of(args[0]), self.ptr_of(args[1])
            if ra and rb:
                return "(%s - %s)" % (par(ra[1]), par(rb[1])), INT("long")
        if op == "operator+=":
            pt = self.ptr_of(args[0])
            if pt is not None and pt[1] is not None:
                v = self.lookup(strip(args[0]))
                i, _ = self.rv(args[1])
                return "(%s <- %s + %s)" % (v.off, v.off, par(i)), UNIT
            p = self.lv(args[0])
            if p.wt[0] == "str":
                tb, wb = self.rv(args[1])
                if wb[0] == "int":
                    tb = "(Seq.cons %s Seq.empty)" % par(tb)
                return "(%s)" % self.pwrite(p, "(cat %s %s)" % (par(self.pread(p)), par(tb))), UNIT
        if op == "operator++" and self.ptr_of(args[0]) is not None:
            v = self.lookup(strip(args[0]))
            return "(%s <- %s + 1)" % (v.off, v.off), UNIT
        raise Unsupported("operator call " + str(op), n)

    def rv_CXXMemberCallExpr(self, n):
        xs = inner(n)
        me = strip(xs[0])
        if me["kind"] != "MemberExpr":
            raise Unsupported("member call", n)
        m, obj, args = self.mcall(n)
        h = self.env.mcall_hook(self, m, obj, args, n)
        if h is not None:
            return h
        r = self.try_class_call(n, m, obj, args)
        if r is not None:
            return r
        return self.std_member(m, obj, args, n)

    def std_member(self, m, obj, args, n):
        if m in ("unlock", "lock"):
            o = strip(obj)
            v = self.lookup(o) if o["kind"] == "DeclRefExpr" else None
            if v is None or v.kind != "lock" or v.extra is None:
                raise Unsupported("lock operation", n)
            l = v.extra
            if m == "unlock":
                return "(own_lock %s; %s; %s <- false)" % (l["own"], l["mx"]["release"], l["own"]), UNIT
            return "(no_lock %s; %s; %s <- true)" % (l["own"], l["mx"]["acquire"], l["own"]), UNIT
        p = self.recv(obj)
        if n.get("inner") and strip(inner(n)[0]).get("isArrow") and p.wt[0] in ("opt", "ptr") and \
           strip(obj)["kind"] != "CXXOperatorCallExpr":
            p = p.ext(("d",), p.wt[1])
        k = p.wt[0]
        if k in ("opt", "ptr") and strip(obj)["kind"] == "CXXOperatorCallExpr" and m not in (
                "has_value", "reset", "value", "get", "swap", "operator bool", "value_or", "emplace"):
            p = p.ext(("d",), p.wt[1])
            k = p.wt[0]
        cur = self.pread(p)
        if k == "latch":
            if m == "count_down":
                flag = ""
                if self.job:
                    flag = "; job_signal %s" % self.job["flag"]
                return "(%s%s)" % (self.pwrite(Place(p.root, p.wt, p.acc), "latch_down %s" % par(cur)), flag), UNIT
            if m == "wait":
                return "(latch_wait %s)" % par(cur), UNIT
            if m in ("arrive_and_wait",):
                raise Unsupported("arrive_and_wait", n)
        if k == "exc" and m == "what":
            return "str_any", STR
        if k == "int" and m in ("fetch_and",):       # atomics
            t, w = self.rv(args[0])
            if w == BOOL:
                t = "(if %s then 1 else 0)" % t
            return "(%s)" % self.pwrite(p, "(bit_and %s %s)" % (par(cur), par(t))), UNIT
        if k in ("int", "bool") and m == "store":
            return "(%s)" % self.pwrite(p, self.coerce(args[0], p.wt)), UNIT
        if k in ("int", "bool") and m in ("load",) or m.startswith("operator ") and k in ("int", "bool"):
            return cur, p.wt
        if k in ("opt", "ptr"):
            if m in ("has_value", "operator bool"):
                return "(is_some %s)" % par(cur), BOOL
            if m == "value":
                return "(oget %s)" % par(cur), p.wt[1]
            if m == "get":
                return cur, p.wt
            if m == "reset" and not args:
                return "(%s)" % self.pwrite(p, "None"), UNIT
        if k in ("str", "cstr", "seq"):
            el = p.wt[1] if k == "seq" else INT("char")
            if m in ("size", "length"):
                return "(slen %s)" % par(cur), U64
            if m == "size_bytes":
                return "(slen %s)" % par(cur), U64
            if m == "empty":
                return "(sempty %s)" % par(cur), BOOL
            if m in ("c_str", "string", "native", "generic_string") or (k == "str" and m.startswith("operator ") and "string" in m):
                return cur, STR
            if m == "data" and k in ("str",):
                return cur, STR
            if m in ("front", "back", "top"):
                q = self.lv(n)
                return self.pread(q), q.wt
            if m == "at":
                q = p.ext(("i", self.rv(args[0])[0]), el)
                return self.pread(q), q.wt
            if m in ("push_back", "push", "emplace_back", "emplace"):
                if len(args) == 1:
                    v = self.coerce(args[0], el)
                else:
                    v = self.env.construct_rec_args(self, args, el)
                return "(%s)" % self.pwrite(p, "(spush %s %s)" % (par(cur), par(v))), UNIT
            if m == "pop":
                return "(%s)" % self.pwrite(p, "(spop_front %s)" % par(cur)), UNIT
            if m == "pop_back":
                return "(%s)" % self.pwrite(p, "(spop_back %s)" % par(cur)), UNIT
            if m == "clear":
                return "(%s)" % self.pwrite(p, self.T.default(p.wt)), UNIT
            if m == "resize":
                ln, _ = self.rv(args[0])
                if len(args) > 1:
                    v = self.coerce(args[1], el)
                else:
                    v = self.T.default(el)
                    if v is None:
                        v = self.env.default_rec(self, el)
                return "(%s)" % self.pwrite(p, "(sresize %s %s %s)" % (par(cur), par(ln), par(v))), UNIT
            if m == "reserve" or m == "shrink_to_fit":
                self.rv(args[0]) if args else None
                return "()", UNIT
            if m == "swap":
                q = self.lv(args[0])
                t = self.tmp()
                return "(let %s = %s in %s; %s)" % (t, cur, self.pwrite(p, self.pread(q)), self.pwrite(q, t)), UNIT
            if m == "starts_with":
                t, _ = self.rv(args[0])
                return "(str_starts %s %s)" % (par(cur), par(t)), BOOL
            if m == "substr":
                a, _ = self.rv(args[0])
                if len(args) == 1:
                    return "(str_substr %s %s)" % (par(cur), par(a)), STR
            if m == "assign" and len(args) == 2:
                ln, _ = self.rv(args[0])
                return "(%s)" % self.pwrite(p, "(smake %s %s)" % (par(ln), par(self.coerce(args[1], el)))), UNIT
            if m == "subspan" and len(args) == 2:
                a, _ = self.rv(args[0])
                b, _ = self.rv(args[1])
                return "(sspan %s %s %s)" % (par(cur), par(a), par(b)), p.wt
            if m == "first" and len(args) == 1:
                a, _ = self.rv(args[0])
                return "(sspan %s 0 %s)" % (par(cur), par(a)), p.wt
            if m == "fill" and len(args) == 1:
                return "(%s)" % self.pwrite(p, "(sfill %s 0 (slen %s) %s)" % (par(cur), par(cur), par(self.coerce(args[0], el)))), UNIT
        if k == "map":
            if m == "clear":
                return "(%s)" % self.pwrite(p, self.T.default(p.wt)), UNIT
            if m == "at":
                kt, _ = self.rv(args[0])
                self.may_raise = True
                return "(mat %s %s)" % (par(cur), par(kt)), p.wt[2]
            if m == "emplace":
                kt, _ = self.rv(args[0])
                v = self.coerce(args[1], p.wt[2])
                return "(%s)" % self.pwrite(p, "(memplace %s %s %s)" % (par(cur), par(kt), par(v))), UNIT
            if m == "empty":
                return "(mempty %s)" % par(cur), BOOL
        raise Unsupported("method %s on %s" % (m, p.wt), n)

    # method of a class of the project
    def try_class_call(self, n, m, obj, args):
        me = strip(inner(n)[0])
        cls, this_arg = self.class_of_obj(obj, me)
        if cls is None:
            return None
        c = self.env.contract_for_method(self, cls, m, args, me)
        if c is not None:
            return self.call_contract(c, this_arg, args, n)
        fn = self.env.body_for_method(self, cls, m, args, me)
        if fn is not None:
            tu, node = fn
            return self.inline(tu, node, cls, this_arg, args, n)
        raise Unsupported("call of %s::%s without contract" % (cls, m), n)

    def try_class_call_op(self, n, m, obj, args):
        p = self.lv(obj)
        if p.wt[0] != "rec":
            return None
        cls = p.wt[1]
        c = self.env.contract_for_method(self, cls, m, args, n)
        if c is not None:
            return self.call_contract(c, p, args, n)
        fn = self.env.body_for_method(self, cls, m, args, n)
        if fn is not None:
            return self.inline(fn[0], fn[1], cls, p, args, n)
        return None

    def class_of_obj(self, obj, me):
        so = strip(obj)
        if so["kind"] == "ImplicitCastExpr":
            so2 = strip(inner(so)[0])
            if so2["kind"] == "CXXThisExpr":
                so = so2
        if so["kind"] == "CXXThisExpr":
            return self.cls, self.cur_this
        t = qt(obj)
        cls = self.env.project_class(t)
        if cls is None:
            try:
                p = self.lv(obj)
            except Unsupported:
                return None, None
            w = p.wt
            if w[0] in ("ptr", "opt") and w[1][0] == "rec" and self.env.is_class(w[1][1]) and \
                    (me.get("isArrow") or so["kind"] == "CXXOperatorCallExpr"):
                if so["kind"] == "DeclRefExpr" or me.get("isArrow"):
                    return w[1][1], p.ext(("d",), w[1])
            if w[0] == "rec" and self.env.is_class(w[1]):
                return w[1], p
            if w[0] == "opaque" and self.env.is_class(w[1]):
                return w[1], p
            if w[0] in ("ptr", "opt") and w[1][0] == "opaque" and self.env.is_class(w[1][1]):
                return w[1][1], p.ext(("d",), w[1])
            return None, None
        p = self.lv(obj)
        if p.wt[0] in ("ptr", "opt"):
            p = p.ext(("d",), p.wt[1])
        return cls, p

    def rv_CallExpr(self, n):
        xs = inner(n)
        callee = strip(xs[0])
        h = self.env.call_hook(self, n, callee)
        if h is not None:
            return h
        if callee["kind"] != "DeclRefExpr":
            raise Unsupported("indirect call", n)
        d = callee["referencedDecl"]
        name = d.get("name")
        args = [a for a in xs[1:] if a["kind"] != "CXXDefaultArgExpr"]
        if d["kind"] in ("VarDecl", "ParmVarDecl"):
            v = self.lookup(callee)
            if v is not None and v.kind == "lambda":
                return self.inline_lambda(v, args, n)
            raise Unsupported("call of variable " + str(name), n)
        r = self.std_call(name, args, n, d, callee)
        if r is not None:
            return r
        c = self.env.contract_for_fn(self, name, d, args)
        if c is not None:
            return self.call_contract(c, None, args, n)
        fn = self.env.body_for_fn(self, name, d, args)
        if fn is not None:
            return self.inline(fn[0], fn[1], None if not fn[2] else fn[2], None if not fn[2] else self.cur_this, args, n)
        raise Unsupported("call of %s without contract" % name, n)

    def std_call(self, name, args, n, d, callee):
        if name in ("move", "forward", "as_const"):
            return self.rv(args[0])
        if name == "log" and "LogLevel" in qt(callee):
            self.stats["dropped_log"] += 1
            return "str_any", STR
        if name in ("min", "max") and len(args) == 2:
            a, wa = self.rv(args[0])
            b, wb = self.rv(args[1])
            if wa[0] == "int":
                return "(i%s %s %s)" % (name, par(a), par(b)), wa
        if name == "clamp" and len(args) == 3:
            a, wa = self.rv(args[0])
            b, _ = self.rv(args[1])
            c, _ = self.rv(args[2])
            return "(imax %s (imin %s %s))" % (par(b), par(a), par(c)), wa
        if name == "to_string":
            t, w = self.rv(args[0])
            if w[0] == "int":
                return "(dec %s)" % par(t), STR
            if w == BOOL:
                return "(dec (if %s then 1 else 0))" % t, STR
        if name == "fill" and len(args) == 3:
            r0, r1 = self.ptr_of(args[0]), self.ptr_of(args[1])
            if r0 and r1 and r0[0].root == r1[0].root and r0[0].acc == r1[0].acc:
                p = r0[0]
                v = self.coerce(args[2], p.wt[1])
                return "(%s)" % self.pwrite(p, "(sfill %s %s %s %s)" % (par(self.pread(p)), par(r0[1]), par(r1[1]), par(v))), UNIT
        if name == "copy" and len(args) == 3:
            r0, r1, r2 = self.ptr_of(args[0]), self.ptr_of(args[1]), self.ptr_of(args[2])
            if r0 and r1 and r2 and r0[0].root == r1[0].root and r0[0].acc == r1[0].acc:
                return "(%s)" % self.pwrite(r2[0], "(sblit %s %s %s %s %s)" % (
                    par(self.pread(r0[0])), par(r0[1]), par(r1[1]), par(self.pread(r2[0])), par(r2[1]))), UNIT
        if name == "copy_n" and len(args) == 3:
            r0, r2 = self.ptr_of(args[0]), self.ptr_of(args[2])
            ln, _ = self.rv(args[1])
            if r0 and r2:
                return "(%s)" % self.pwrite(r2[0], "(sblit %s %s (%s + %s) %s %s)" % (
                    par(self.pread(r0[0])), par(r0[1]), r0[1], par(ln), par(self.pread(r2[0])), par(r2[1]))), UNIT
        if name in ("memcpy", "memmove") and len(args) == 3:
            r0, r2 = self.ptr_of(args[1]), self.ptr_of(args[0])
            ln, _ = self.rv(args[2])
            if r0 and r2 and r0[1] is not None and r2[1] is not None:
                return "(%s)" % self.pwrite(r2[0], "(sblit %s %s (%s + %s) %s %s)" % (
                    par(self.pread(r0[0])), par(r0[1]), r0[1], par(ln), par(self.pread(r2[0])), par(r2[1]))), UNIT
        if name == "distance" and len(args) == 2:
            r0, r1 = self.ptr_of(args[0]), self.ptr_of(args[1])
            if r0 and r1 and r0[0].root == r1[0].root and r0[0].acc == r1[0].acc:
                return "(%s - %s)" % (par(r1[1]), par(r0[1])), INT("long")
        if name in ("begin", "end", "data", "size") and len(args) == 1 and name == "size":
            t, w = self.rv(args[0])
            return "(slen %s)" % par(t), U64
        return self.env.std_call_hook(self, name, args, n, d)

    # ------------------------------------------------------ contracts at calls
    def call_contract(self, c, this_arg, args, n):
        ps = []
        pre, post = [], []
        self.callees[c.key] = c
        if c.raises:
            self.may_raise = True
        if c.this_mode == "value":
            if this_arg is None:
                raise Unsupported("missing object for " + c.name, n)
            ps.append(par(self.pread(this_arg)))
        elif c.this_mode == "ref":
            if this_arg is None:
                raise Unsupported("missing object for " + c.name, n)
            self.pass_ref(this_arg, this_arg.wt, ps, pre, post)
        sig = c.params
        if len(args) > len(sig):
            raise Unsupported("argument count of " + c.name, n)
        for i, pa in enumerate(sig):
            if pa.skip:
                continue
            if i >= len(args):
                if pa.default is not None:
                    ps.append(pa.default)
                    continue
                raise Unsupported("missing argument of " + c.name, n)
            a = args[i]
            if pa.mode == "ref":
                p = self.lv(a)
                self.pass_ref(p, pa.wt, ps, pre, post)
            elif pa.mode == "ptr":       # (base, offset)
                r = self.ptr_of(a)
                if r is None or r[1] is None:
                    raise Unsupported("pointer argument of " + c.name, a)
                ps.append(par(self.pread(r[0])))
                ps.append(par(r[1]))
            elif pa.mode == "hook":
                ps.append(par(pa.hook(self, a)))
            else:
                t = self.coerce(a, pa.wt)
                ps.append(par(t))
        call = "(%s %s)" % (c.whyname, " ".join(ps) if ps else "()")
        if pre:
            call = "(" + " ".join(pre) + " "
            if post:
                t = self.tmp("r")
                body = "%s %s" % (c.whyname, " ".join(ps))
                if c.raises:
                    call += "let %s = (try %s with Throw -> (%s; raise Throw) end) in %s; %s)" % (t, body, "; ".join(post), "; ".join(post), t)
                else:
                    call += "let %s = %s in %s; %s)" % (t, body, "; ".join(post), t)
            else:
                call += "%s %s)" % (c.whyname, " ".join(ps))
        return call, c.ret

    def pass_ref(self, p, wt, ps, pre, post):
        if not p.acc and p.mutable:
            ps.append(p.root)
            return
        t = self.tmp("a")
        pre.append("let ref %s = %s in" % (t, self.pread(p)))
        ps.append(t)
        if p.mutable:
            post.append(self.pwrite(p, t))

    # ------------------------------------------------------ inlining helpers
    def inline(self, tu, node, cls, this_arg, args, n):
        if self.inline_depth > 6:
            raise Unsupported("recursive helper " + node.get("name", ""), n)
        params = params_of(node)
        body = body_of(node)
        rt_s = node["type"].get("desugaredQualType") or node["type"]["qualType"]
        ret = ret_type(rt_s)
        try:
            rt = self.T.parse(ret) if not ret.strip().startswith("auto") else None
        except Unsupported:
            rt = None
        isref = ret.strip().endswith("&")
        self.stats["inlined"].append(node.get("name"))
        save_vars = dict(self.vars)
        save = (self.tu, self.cls, self.cur_this)
        pre = []
        binds = []
        for i, p in enumerate(params):
            if i >= len(args):
                # default argument
                xs = inner(p)
                if not xs:
                    raise Unsupported("default argument in inlined call", n)
                t, w = self.rv(xs[0])
                nm = self.fresh(p.get("name"))
                pre.append("let %s = %s in" % (nm, t))
                binds.append((p, Var("val", w, nm)))
                continue
            binds.append((p, self.bind_param(p, args[i], pre)))
        self.tu = tu
        if cls is not None:
            self.cls, self.cur_this = cls, this_arg
        for p, v in binds:
            self.vars[p["id"]] = v
        self.inline_depth += 1
        try:
            text = self.inline_body(body, rt, n, isref)
        finally:
            self.inline_depth -= 1
            self.tu, self.cls, self.cur_this = save
            self.vars = save_vars
        s, w = text
        if pre:
            s = "(" + " ".join(pre) + " " + s + ")"
        return s, w

    def bind_param(self, p, arg, pre):
        pt = qt(p)
        name = p.get("name") or "anon"
        sarg = strip(arg)
        if sarg["kind"] == "LambdaExpr":
            return Var("lambda", None, name, node=sarg)
        if pt.rstrip().endswith("&&") or (pt.rstrip().endswith("&")):
            try:
                pl = self.lv(arg)
                return Var("place", pl.wt, name, place=self.freeze(pl, pre))
            except Unsupported:
                pass
        if self.is_ptr_expr(p):
            r = self.ptr_of(arg)
            if r is not None:
                if r[1] is None:
                    return Var("objptr", ("ptr", r[0].wt), name, place=self.freeze(r[0], pre))
                o = self.fresh(name + "_off")
                pre.append("let ref %s = %s in" % (o, r[1]))
                return Var("ptr", None, name, place=self.freeze(r[0], pre), off=o)
        t, w = self.rv(arg)
        try:
            wt = self.T.parse(pt)
            if w == NULLT or w[0] != wt[0]:
                t = self.coerce(arg, wt)
            w = wt if wt[0] != "ptr" or w[0] != "opt" else w
        except Unsupported:
            pass
        nm = self.fresh(name)
        pre.append("let ref %s = %s in" % (nm, t))
        return Var("ref", w, nm)

    def freeze(self, pl, pre):
        """bind index terms of a place so that they are evaluated once"""
        acc = []
        for a in pl.acc:
            if a[0] in ("i", "m") and not re.match(r"^([\d]+|ix'\d+)$", a[1]):
                t = self.tmp("ix")
                pre.append("let %s = %s in" % (t, a[1]))
                acc.append((a[0], t))
            else:
                acc.append(a)
        root = pl.root
        if not pl.mutable and not re.match(r"^[\w']+$", root):
            t = self.tmp("pl")
            pre.append("let %s = %s in" % (t, root))
            root = t
        return Place(root, pl.wt, acc, pl.mutable, pl.alive)

    def inline_body(self, body, rt, n, isref=False):
        stmts = inner(body)
        # single return
        if len(stmts) == 1 and stmts[0]["kind"] == "ReturnStmt" and inner(stmts[0]):
            e = inner(stmts[0])[0]
            if rt is not None and not isref:
                w0 = None
                t = self.coerce(e, rt)
                return t, rt
            return self.rv(e)
        # general body: local exception for returns
        nret = count_returns(body)
        saved = self.raw
        self.raw = []
        sub_ret = {"exn": None, "wt": rt, "void": rt == UNIT}
        tail = stmts and stmts[-1]["kind"] == "ReturnStmt" and nret == 1
        if nret > 0 and not tail:
            ex = "Ret_%d" % (len(self.exn_decls) + 1)
            self.exn_decls.append("exception %s%s" % (ex, "" if rt == UNIT else " " + self.T.why(rt)))
            sub_ret["exn"] = ex
        self.ret_stack.append(sub_ret)
        self.ind += 1
        try:
            if tail:
                for s in stmts[:-1]:
                    self.stmt(s)
                e = inner(stmts[-1])
                if e:
                    t = self.coerce(e[0], rt) if rt is not None else None
                    w = rt
                    if t is None:
                        t, w = self.rv(e[0])
                    self.emit(t)
                else:
                    w = UNIT
                    self.emit("()")
            else:
                for s in stmts:
                    self.stmt(s)
                w = rt
                self.emit("()" if rt == UNIT else "absurd")
        finally:
            self.ind -= 1
            self.ret_stack.pop()
            lines = self.raw
            self.raw = saved
        txt = "\n".join(l for l, _ in lines)
        if sub_ret["exn"]:
            if rt == UNIT:
                txt = "(try\n%s\n with %s -> () end)" % (txt, sub_ret["exn"])
            else:
                txt = "(try\n%s\n with %s r' -> r' end)" % (txt, sub_ret["exn"])
        else:
            txt = "(\n%s)" % txt
        return txt, w

    def inline_lambda(self, v, args, n):
        lam = v.node
        op = lambda_op(lam)
        body = lambda_body(lam)
        pre = []
        binds = []
        for i, p in enumerate(params_of(op)):
            binds.append((p, self.bind_param(p, args[i], pre)))
        save_vars = dict(self.vars)
        for p, x in binds:
            self.vars[p["id"]] = x
        ret = ret_type(op["type"].get("desugaredQualType") or op["type"]["qualType"])
        try:
            rt = self.T.parse(ret)
        except Unsupported:
            rt = None
        try:
            s, w = self.inline_body(body, rt, n)
        finally:
            self.vars = save_vars
        if pre:
            s = "(" + " ".join(pre) + " " + s + ")"
        return s, w

    # ------------------------------------------------------ statements
    def effect(self, n):
        """expression statement as a unit term (or None)"""
        n0 = n
        while n0["kind"] in SKIP:
            n0 = inner(n0)[0]
        if n0["kind"] == "UnaryOperator" and n0["opcode"] in ("++", "--"):
            return self.incdec(n0, want=False)[0]
        if n0["kind"] == "CXXOperatorCallExpr" and self.opcall(n0)[0] in ("operator++", "operator--"):
            return self.rv(n0)[0]
        if n0["kind"] in ("CStyleCastExpr", "CXXStaticCastExpr") and n0.get("castKind") == "ToVoid":
            try:
                t, w = self.rv(inner(n0)[0])
            except Unsupported:
                s = strip(inner(n0)[0])
                if s["kind"] == "DeclRefExpr":
                    return None
                raise
            return "(let _ = %s in ())" % t
        t, w = self.rv(n0)
        if w == UNIT:
            return t
        if t == "str_any":
            return None
        return "(let _ = %s in ())" % t

    def stmt(self, n):
        self.stats["stmts"] += 1
        self.note(n)
        k = n["kind"]
        gc = [g for g in self.c.ghost if g.startswith("call ")] if self.c is not None else []
        if gc:
            hd = self.head(n)
            for g in gc:
                if any(self.calls(h, g[5:]) for h in hd):
                    self.ghost(g)
        f = getattr(self, "st_" + k, None)
        if f is not None:
            return f(n)
        t = self.effect(n)
        if t:
            self.emit(t + ";")

    def head(self, n):
        """what statement n evaluates itself, without the statements in it"""
        k = n["kind"]
        if k == "IfStmt":
            xs = inner(n)
            return xs[:len(xs) - (2 if n.get("hasElse") else 1)]
        if k in ("CompoundStmt", "ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt", "CXXTryStmt", "SwitchStmt"):
            return []
        return [n]

    def calls(self, n, name):
        if n.get("kind") == "LambdaExpr":
            return False
        nm = n.get("name") if n.get("kind") == "MemberExpr" else (n.get("referencedDecl") or {}).get("name") if n.get("kind") == "DeclRefExpr" else None
        return nm == name or any(self.calls(c, name) for c in inner(n))

    ALLOCATES = ("resize", "reserve", "make_unique", "make_shared")

    def allocates(self, n):
        """may evaluating n throw because memory runs out (or a size is too large)?"""
        if n.get("kind") == "LambdaExpr":
            return False
        nm = n.get("name") if n["kind"] == "MemberExpr" else (n.get("referencedDecl") or {}).get("name") if n["kind"] == "DeclRefExpr" else None
        if nm in self.ALLOCATES and not (nm.startswith("operator") and "basic_string" not in qt(n)):
            return True
        if n["kind"] == "CXXNewExpr":
            return True
        if n["kind"] == "CXXConstructExpr" and re.search(r"^(const )?(std::)?vector\b", qt(n)) and inner(n) and not n.get("elidable"):
            return True
        return any(self.allocates(c) for c in inner(n))

    def block(self, n, throws=False):
        """emit statement n as a WhyML block (without begin/end)"""
        save = dict(self.vars)
        save_latches = list(self.latches)
        self.depth += 1
        if n["kind"] == "CompoundStmt":
            for s in inner(n):
                if throws and self.allocates(s):
                    self.emit("if any_throw () then raise Throw;")
                self.stmt(s)
        else:
            self.stmt(n)
        self.lock_release(lambda l: l["depth"] == self.depth)
        self.locks = [l for l in self.locks if l["depth"] < self.depth]
        self.emit("()")
        self.depth -= 1
        self.vars = save
        self.latches = save_latches

    def st_CompoundStmt(self, n):
        self.emit("begin")
        self.ind += 1
        self.block(n)
        self.ind -= 1
        self.emit("end;")

    def st_NullStmt(self, n):
        return

    def st_DeclStmt(self, n):
        for d in inner(n):
            if d["kind"] == "VarDecl":
                self.vardecl(d)
            elif d["kind"] in ("TypedefDecl", "TypeAliasDecl", "UsingDecl", "UsingDirectiveDecl", "StaticAssertDecl", "EmptyDecl"):
                continue
            elif d["kind"] == "DecompositionDecl":
                raise Unsupported("structured binding", d)
            else:
                raise Unsupported("declaration " + d["kind"], d)

    def vardecl(self, d):
        self.note(d)
        name = d.get("name") or "anon"
        xs = inner(d)
        init = xs[0] if xs and d.get("init") else None
        ty = qt(d)
        raw = d["type"]["qualType"]
        if self.env.vardecl_hook(self, d, name, init, ty):
            return
        sinit = strip(init) if init is not None else None
        # locks
        b = ty.replace("const ", "")
        if re.match(r"^std::(scoped_lock|lock_guard|unique_lock)", b):
            self.lock_decl(d, init)
            return
        if init is not None:
            si = sinit
            while si["kind"] in SKIP or (si["kind"] in ("ImplicitCastExpr", "CXXConstructExpr") and len(inner(si)) == 1):
                si = inner(si)[0]
            if si["kind"] == "LambdaExpr":
                self.vars[d["id"]] = Var("lambda", None, name, node=si)
                return
        isref = raw.rstrip().endswith("&") or (raw.rstrip().endswith("&&"))
        if isref and init is not None:
            pl = self.lv(init)
            pre = []
            pl2 = self.freeze(pl, pre)
            for p in pre:
                self.emit(p)
            # check that the referenced element exists
            if pl2.acc:
                self.emit("(let _ = %s in ());" % self.pread(pl2))
            self.vars[d["id"]] = Var("place", pl.wt, name, place=pl2, scope_depth=self.depth)
            return
        if init is not None and self.is_ptr_expr(d):
            r = self.ptr_of(init)
            if r is not None:
                pre = []
                pl2 = self.freeze(r[0], pre)
                for p in pre:
                    self.emit(p)
                if r[1] is None:
                    self.emit("(let _ = %s in ());" % self.pread(pl2))
                    self.vars[d["id"]] = Var("objptr", ("ptr", pl2.wt), name, place=pl2, scope_depth=self.depth)
                else:
                    o = self.fresh(name)
                    self.emit("let ref %s = %s in" % (o, r[1]))
                    self.vars[d["id"]] = Var("ptr", None, name, place=pl2, off=o, scope_depth=self.depth)
                return
        # ordinary value
        wt = None
        try:
            wt = self.T.parse(ty)
        except Unsupported:
            if init is None:
                raise
        if wt is not None and init is not None:
            t = self.coerce(init, wt)
        elif init is not None:
            t, wt = self.rv(init)
        else:
            t = self.T.default(wt)
            if wt[0] == "int" or wt == BOOL or wt[0] == "real":
                t = {"int": "(any_int %s %s)" % tuple(map(lit, INTS[wt[1]])) if wt[0] == "int" else "", "bool": "(any_bool ())", "real": "any_real"}[wt[0]]
            elif t is None:
                t = self.env.default_rec(self, wt)
        if t is None:
            raise Unsupported("initial value of " + name, d)
        nm = self.fresh(self.rename.get(name, name))
        if t == "None":
            t = "(None : %s)" % self.T.why(wt)
        self.emit("let ref %s = %s in" % (nm, t))
        self.vars[d["id"]] = Var("ref", wt, nm, scope_depth=self.depth)
        self.local_decl_names.append((nm, wt))
        if wt[0] == "latch":
            self.latches.append({"name": nm, "depth": self.depth})
        self.ghost("decl " + self.rename.get(name, name))

    def st_ReturnStmt(self, n):
        xs = inner(n)
        r = self.ret_stack[-1]
        if xs:
            if r.get("place"):
                p = self.lv(xs[0])
                t = self.pread(p)
            elif r["wt"] is not None and r["wt"] != UNIT:
                t = self.coerce(xs[0], r["wt"])
            elif r["wt"] == UNIT:
                t = self.rv(xs[0])[0]
                self.emit("%s;" % t)
                t = None
            else:
                t, _ = self.rv(xs[0])
        else:
            t = None
        if any(l["ret"] >= len(self.ret_stack) for l in self.locks):
            if t is not None:
                rv = self.tmp("rv")
                if r["wt"] is not None and r["wt"][0] in ("seq", "opt", "map", "ptr"):
                    t = "(%s : %s)" % (t, self.T.why(r["wt"]))
                self.emit("let %s = %s in" % (rv, t))
                t = rv
            self.lock_release(lambda l: l["ret"] >= len(self.ret_stack))
        if r["exn"]:
            if t is None:
                self.emit("raise %s;" % r["exn"])
            else:
                self.emit("raise (%s %s);" % (r["exn"], par(t)))
        else:
            if t is not None and r["wt"] is not None and r["wt"][0] in ("seq", "opt", "map", "ptr"):
                t = "(%s : %s)" % (t, self.T.why(r["wt"]))
            self.emit("return %s;" % (par(t) if t is not None else "()"))

    def st_IfStmt(self, n):
        xs = inner(n)
        idx = 0
        opened = 0
        save = dict(self.vars)
        if n.get("hasInit") or n.get("hasVar"):
            self.emit("begin")
            self.ind += 1
            opened = 1
            if n.get("hasInit"):
                self.stmt(xs[0])
                idx = 1
            if n.get("hasVar"):
                self.stmt(xs[idx])
                idx += 1
        if n.get("isConstexpr"):
            c = xs[idx]
            v = c.get("value")
            if v in ("true", True):
                self.st_CompoundStmt(xs[idx + 1]) if xs[idx + 1]["kind"] == "CompoundStmt" else self.stmt(xs[idx + 1])
            elif len(xs) > idx + 2:
                self.stmt(xs[idx + 2])
            if opened:
                raise Unsupported("if constexpr with init", n)
            return
        c = self.cond(xs[idx])
        if "(f_" in c and "begin" not in c:
            self.condno = getattr(self, "condno", 0) + 1
            cc = self.c.conds.get(self.condno) if self.c else None
            if cc:
                ix = self.loop_stack[-1].get("idx") if self.loop_stack else None
                c = "begin %s %s end" % (" ".join("ensures { %s }" % self.c_subst(t, ix) for _, t in cc.specs), c)
        # no-op pattern: `if (false) {...}`
        self.emit("if %s then begin" % c)
        self.ind += 1
        self.block(xs[idx + 1])
        self.ind -= 1
        if len(xs) > idx + 2:
            self.emit("end else begin")
            self.ind += 1
            self.block(xs[idx + 2])
            self.ind -= 1
        self.emit("end;")
        if opened:
            self.emit("()")
            self.ind -= 1
            self.emit("end;")
        self.vars = save

    # loops -------------------------------------------------------------
    def loop_header(self, kind, idxname, pre_vars=None):
        self.loopno += 1
        self.stats["loops"] += 1
        no = self.loopno
        return no

    def emit_loop_spec(self, no, idx, modified_ints, autos=()):
        lc = self.c.loops.get(no) if self.c else None
        path = no
        for a in autos:
            self.emit("invariant { %s }" % a)
        if lc:
            for kw, txt in lc.specs:
                t = self.c_subst(txt, idx)
                self.emit("%s { %s }" % (kw, t))

    def c_subst(self, txt, idx):
        if idx is not None:
            txt = re.sub(r"\$i\b", idx, txt)
        for k, v in enumerate(reversed(self.loop_stack[:-1]), 0):
            if v.get("idx"):
                txt = re.sub(r"\$up%d\b" % (k + 1), v["idx"], txt)
        txt = re.sub(r"\$exit\b", "true", txt)
        return self.env.subst_consts(self, txt)

    def ghost(self, where, no=None, idx=None):
        if not self.c:
            return
        src = self.c.ghost if no is None else (self.c.loops[no].ghost if no in self.c.loops else {})
        for line in src.get(where, []):
            self.emit(self.c_subst(line, idx))

    def st_ForStmt(self, n):
        # inner: init, condvar(None), cond, inc, body   (missing ones have no kind)
        xs = n.get("inner", [])
        init, cvar, cond, inc, body = xs[0], xs[1], xs[2], xs[3], xs[4]
        save = dict(self.vars)
        self.emit("begin")
        self.ind += 1
        idx = None
        idxwt = None
        if init.get("kind"):
            self.stmt(init)
            if init["kind"] == "DeclStmt":
                vs = [d for d in inner(init) if d["kind"] == "VarDecl"]
                if vs:
                    v = self.vars[vs[0]["id"]]
                    idx = v.name if v.kind == "ref" else v.off
                    idxwt = v.wt
        if cvar.get("kind"):
            raise Unsupported("for condition variable", n)
        self.generic_loop(n, cond if cond.get("kind") else None, inc if inc.get("kind") else None, body, idx, idxwt)
        self.emit("()")
        self.ind -= 1
        self.emit("end;")
        self.vars = save

    def st_WhileStmt(self, n):
        xs = inner(n)
        if len(xs) != 2:
            raise Unsupported("while with declaration", n)
        self.generic_loop(n, xs[0], None, xs[1], None, None)

    def st_DoStmt(self, n):
        body, cond = inner(n)
        c = strip(cond)
        while c["kind"] in ("ImplicitCastExpr",) or c["kind"] in SKIP:
            c = inner(c)[0]
        if c["kind"] in ("IntegerLiteral", "CXXBoolLiteralExpr") and str(c.get("value")) in ("0", "False", "false"):
            if has_kind(body, ("BreakStmt", "ContinueStmt"), stop=("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt", "SwitchStmt", "LambdaExpr")):
                raise Unsupported("break in do-while(0)", n)
            self.st_CompoundStmt(body) if body["kind"] == "CompoundStmt" else self.stmt(body)
            return
        raise Unsupported("do-while loop", n)

    def generic_loop(self, n, cond, inc, body, idx, idxwt):
        no = self.loop_header("for", idx)
        self.loop_shape.append((n["kind"], loop_sig(self, cond), loop_sig(self, inc)))
        self.loop_stack.append({"idx": idx, "no": no})
        ct = self.cond(cond) if cond is not None else "true"
        hascont = has_kind(body, ("ContinueStmt",), stop=("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt", "LambdaExpr"))
        self.ghost("before", no, idx)
        brk = has_kind(body, ("BreakStmt",), stop=("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt", "LambdaExpr", "SwitchStmt"))
        self.emit("while %s do" % ct)
        self.ind += 1
        autos = []
        if idxwt is not None and idxwt[0] == "int":
            lo, hi = INTS[idxwt[1]]
            autos.append("%s <= %s <= %s" % (lit(lo), idx, lit(hi)))
        for nm, wt in self.assigned_ints(body, inc):
            lo, hi = INTS[wt[1]]
            if nm != idx:
                autos.append("%s <= %s <= %s" % (lit(lo), nm, lit(hi)))
        self.emit_loop_spec(no, idx, None, autos)
        self.ghost("body_begin", no, idx)
        if hascont and inc is not None:
            self.loop_stack[-1]["cont"] = True
            ex = "Cont_%d" % (len(self.exn_decls) + 1)
            self.exn_decls.append("exception " + ex)
            self.loop_stack[-1]["contexn"] = ex
            self.emit("(try")
            self.ind += 1
            self.block(body)
            self.ind -= 1
            self.emit("with %s -> () end);" % ex)
        else:
            self.emit("begin")
            self.ind += 1
            self.block(body)
            self.ind -= 1
            self.emit("end;")
        self.ghost("body_end", no, idx)
        if inc is not None:
            t = self.effect(inc)
            if t:
                self.emit(t + ";")
        self.ghost("after_inc", no, idx)
        self.ind -= 1
        self.emit("done;")
        self.ghost("after", no, idx)
        self.loop_stack.pop()

    def assigned_ints(self, *nodes):
        """int locals (declared outside) assigned inside the nodes: auto range invariants"""
        ids = []
        for nd in nodes:
            if nd is not None:
                collect_assigned(nd, ids)
        out = []
        seen = set()
        for i in ids:
            v = self.vars.get(i)
            if v is not None and v.kind == "ref" and v.wt is not None and v.wt[0] == "int" and v.name not in seen:
                seen.add(v.name)
                out.append((v.name, v.wt))
        return out

    def st_CXXForRangeStmt(self, n):
        xs = n.get("inner", [])
        # [init, range decl, begin, end, cond, inc, loopvar decl, body]
        rng = xs[1]
        lv = xs[6]
        body = xs[7]
        rv = inner(rng)[0]
        rexpr = inner(rv)[0]
        self.emit("begin")
        self.ind += 1
        save = dict(self.vars)
        pl = self.lv(rexpr)
        if pl.wt[0] not in ("seq", "str"):
            h = self.env.range_hook(self, n, pl, lv, body)
            if h:
                self.emit("()")
                self.ind -= 1
                self.emit("end;")
                self.vars = save
                return
            raise Unsupported("range-for over %s" % (pl.wt,), n)
        pre = []
        pl = self.freeze(pl, pre)
        for p in pre:
            self.emit(p)
        idx = self.fresh("k")
        self.emit("let ref %s = 0 in" % idx)
        no = self.loop_header("range", idx)
        self.loop_shape.append((n["kind"], "range", ""))
        self.loop_stack.append({"idx": idx, "no": no})
        ln = self.tmp("n")
        self.emit("let %s = slen %s in" % (ln, par(self.pread(pl))))
        self.ghost("before", no, idx)
        self.emit("while %s < %s do" % (idx, ln))
        self.ind += 1
        self.emit("invariant { 0 <= %s <= %s }" % (idx, ln))
        for nm, wt in self.assigned_ints(body):
            lo, hi = INTS[wt[1]]
            self.emit("invariant { %s <= %s <= %s }" % (lit(lo), nm, lit(hi)))
        ll = pure_place(pl)
        if ll and pl.mutable:
            self.emit("invariant { Seq.length %s = %s }" % (par(ll), ln))
        self.emit_loop_spec(no, idx, None)
        self.emit("variant { %s - %s }" % (ln, idx))
        self.ghost("body_begin", no, idx)
        d = [c for c in inner(lv) if c["kind"] in ("VarDecl", "DecompositionDecl")][0]
        if d["kind"] == "DecompositionDecl":
            raise Unsupported("structured binding", d)
        el = pl.wt[1] if pl.wt[0] == "seq" else INT("char")
        ep = pl.ext(("i", idx), el)
        cidx = self.tmp("ix")
        if d["type"]["qualType"].rstrip().endswith("&"):
            self.emit("let %s = %s in" % (cidx, idx))
            self.vars[d["id"]] = Var("place", el, d.get("name"), place=pl.ext(("i", cidx), el), scope_depth=self.depth + 1)
        else:
            nm = self.fresh(d.get("name"))
            self.emit("let ref %s = %s in" % (nm, self.pread(ep)))
            self.vars[d["id"]] = Var("ref", el, nm, scope_depth=self.depth + 1)
        hascont = has_kind(body, ("ContinueStmt",), stop=("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt", "LambdaExpr"))
        if hascont:
            ex = "Cont_%d" % (len(self.exn_decls) + 1)
            self.exn_decls.append("exception " + ex)
            self.loop_stack[-1]["contexn"] = ex
            self.emit("(try")
            self.ind += 1
            self.block(body)
            self.ind -= 1
            self.emit("with %s -> () end);" % ex)
        else:
            self.emit("begin")
            self.ind += 1
            self.block(body)
            self.ind -= 1
            self.emit("end;")
        self.ghost("body_end", no, idx)
        self.emit("%s <- %s + 1;" % (idx, idx))
        self.ghost("after_inc", no, idx)
        self.ind -= 1
        self.emit("done;")
        self.ghost("after", no, idx)
        self.loop_stack.pop()
        self.emit("()")
        self.ind -= 1
        self.emit("end;")
        self.vars = save

    def st_BreakStmt(self, n):
        if self.loop_stack and self.loop_stack[-1].get("switch"):
            raise Unsupported("break inside nested switch", n)
        self.lock_release(lambda l: l["loop"] >= len(self.loop_stack))
        self.emit("break;")

    def st_ContinueStmt(self, n):
        for l in reversed(self.loop_stack):
            if l.get("switch"):
                continue
            self.lock_release(lambda k: k["loop"] >= len(self.loop_stack))
            if l.get("contexn"):
                self.emit("raise %s;" % l["contexn"])
            else:
                self.emit("continue;")
            return

    def st_SwitchStmt(self, n):
        xs = inner(n)
        cnd, body = xs[0], xs[-1]
        t, w = self.rv(cnd)
        sv = self.tmp("sw")
        self.emit("begin")
        self.ind += 1
        self.emit("let %s = %s in" % (sv, t))
        groups = []     # (labels or 'default', stmts)
        cur = None

        def add_case(c):
            nonlocal cur
            labels = []
            default = False
            while c["kind"] in ("CaseStmt", "DefaultStmt"):
                if c["kind"] == "DefaultStmt":
                    default = True
                    c = inner(c)[0]
                else:
                    ys = inner(c)
                    lt, _ = self.rv(ys[0])
                    labels.append(lt)
                    c = ys[-1]
            cur = {"labels": labels, "default": default, "stmts": [c]}
            groups.append(cur)
        for c in inner(body):
            if c["kind"] in ("CaseStmt", "DefaultStmt"):
                add_case(c)
            else:
                if cur is None:
                    raise Unsupported("statement before case", c)
                cur["stmts"].append(c)
        # every group but the last must end with break/return/throw; a group that
        # falls through continues with the statements of the next one
        for g in groups:
            if len(g["stmts"]) == 1 and g["stmts"][0]["kind"] == "CompoundStmt":
                g["stmts"] = inner(g["stmts"][0])
            elif g["stmts"] and g["stmts"][0]["kind"] == "CompoundStmt" and all(x["kind"] == "BreakStmt" for x in g["stmts"][1:]):
                g["stmts"] = inner(g["stmts"][0]) + g["stmts"][1:]
        for gi in range(len(groups) - 2, -1, -1):
            g = groups[gi]
            if not ends_flow(g["stmts"]):
                g["stmts"] = g["stmts"] + groups[gi + 1]["stmts"]
        # emit, default last
        default = None
        first = True
        for g in groups:
            if g["default"]:
                default = g
                continue
            c = " || ".join("%s = %s" % (sv, par(l)) for l in g["labels"])
            self.emit("%sif %s then begin" % ("" if first else "end else ", c))
            first = False
            self.case_body(g)
        if default is not None:
            if first:
                self.emit("begin")
            else:
                self.emit("end else begin")
            self.case_body(default)
            self.emit("end;")
        elif not first:
            self.emit("end;")
        self.emit("()")
        self.ind -= 1
        self.emit("end;")

    def case_body(self, g):
        self.ind += 1
        save = dict(self.vars)
        st = g["stmts"]
        if st and st[-1]["kind"] == "BreakStmt":
            st = st[:-1]
        for s in st:
            if has_kind(s, ("BreakStmt",), stop=("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt", "LambdaExpr", "SwitchStmt")):
                raise Unsupported("break inside case", s)
            self.stmt(s)
        self.emit("()")
        self.vars = save
        self.ind -= 1

    def st_CXXTryStmt(self, n):
        xs = inner(n)
        mr = self.may_raise
        self.may_raise = False
        self.emit("(try")
        self.ind += 1
        self.block(xs[0], throws=any("VarDecl" not in [c["kind"] for c in inner(h)] or
                                     any(c["kind"] == "VarDecl" and re.search(r"std::exception\b|bad_alloc", qt(c)) for c in inner(h)) for h in xs[1:]))
        self.ind -= 1
        raised = self.may_raise
        self.may_raise = mr
        hs = xs[1:]
        chosen = []
        total = False
        for h in hs:
            hx = inner(h)
            vd = [c for c in hx if c["kind"] == "VarDecl"]
            if not vd or re.search(r"std::exception\b", qt(vd[0])):
                total = True
                chosen.append(h)
                break
            elif "bad_alloc" in qt(vd[0]):
                chosen.append(h)
            else:
                raise Unsupported("catch of " + qt(vd[0]), h)
        if not total:
            # only an allocation can be what is caught
            if raised != "alloc":
                raise Unsupported("try without std::exception handler", n)
        elif raised == "alloc" or raised is False:
            pass
        if total and raised is not True:
            self.emit("; if any_throw () then raise Throw")
        self.emit("with Throw ->")
        self.ind += 1
        for i, h in enumerate(chosen):
            if i + 1 < len(chosen):
                self.emit("if any_bool () then begin" if i == 0 else "end else if any_bool () then begin")
            elif i > 0:
                self.emit("end else begin")
            hx = inner(h)
            for c in hx:
                if c["kind"] == "VarDecl":
                    nm = self.fresh(c.get("name") or "exc")
                    self.vars[c["id"]] = Var("val", ("exc",), nm)
            self.block([c for c in hx if c["kind"] == "CompoundStmt"][0])
        if len(chosen) > 1:
            self.emit("end")
        self.ind -= 1
        self.emit("end);")

    # entry ------------------------------------------------------------
    def run_body(self):
        body = body_of(self.node)
        for s in inner(body):
            self.stmt(s)
        self.lock_release(lambda l: True)


def par(t):
    t = str(t)
    if re.match(r"^[\w'.]+$", t) or (t.startswith("(") and matching(t)):
        return t
    return "(" + t + ")"


def matching(t):
    d = 0
    for i, ch in enumerate(t):
        if ch == "(":
            d += 1
        elif ch == ")":
            d -= 1
            if d == 0:
                return i == len(t) - 1
    return False


def lit(v):
    return str(v) if v >= 0 else "(-%d)" % (-v)


def plus(a, b):
    if a == "0":
        return b
    return "(%s + %s)" % (par(a), par(b))


def ret_type(fnty):
    # 'size_t (int) const' -> 'size_t'
    d = 0
    for i, ch in enumerate(fnty):
        if ch in "<":
            d += 1
        elif ch in ">":
            d -= 1
        elif ch == "(" and d == 0:
            r = fnty[:i].strip()
            if "->" in fnty and r == "auto":
                return fnty.split("->")[-1].strip()
            return r
    return fnty


def has_kind(n, kinds, stop=()):
    if n.get("kind") in kinds:
        return True
    if n.get("kind") in stop:
        return False
    return any(has_kind(c, kinds, stop) for c in n.get("inner", []) if isinstance(c, dict))


def count_returns(n):
    if n.get("kind") == "LambdaExpr":
        return 0
    return (1 if n.get("kind") == "ReturnStmt" else 0) + sum(count_returns(c) for c in n.get("inner", []) if isinstance(c, dict))


def ends_flow(stmts):
    if not stmts:
        return False
    s = stmts[-1]
    k = s["kind"]
    if k in ("BreakStmt", "ReturnStmt", "ContinueStmt"):
        return True
    if k == "CompoundStmt":
        return ends_flow(inner(s))
    if k == "ExprWithCleanups" or k == "CXXThrowExpr":
        x = s
        while x["kind"] in SKIP:
            x = inner(x)[0]
        return x["kind"] == "CXXThrowExpr"
    if k == "IfStmt":
        xs = inner(s)
        return len(xs) == 3 and ends_flow([xs[1]]) and ends_flow([xs[2]])
    return False


def collect_assigned(n, out):
    k = n.get("kind")
    if k == "BinaryOperator" and n.get("opcode") == "=" or k == "CompoundAssignOperator" or \
       (k == "UnaryOperator" and n.get("opcode") in ("++", "--")):
        x = strip(inner(n)[0])
        if x["kind"] == "DeclRefExpr":
            out.append(x["referencedDecl"]["id"])
    for c in n.get("inner", []):
        if isinstance(c, dict):
            collect_assigned(c, out)


def lambda_op(lam):
    rec = [c for c in inner(lam) if c["kind"] == "CXXRecordDecl"][0]
    for c in inner(rec):
        if c["kind"] == "CXXMethodDecl" and c.get("name") == "operator()":
            return c
    raise Unsupported("generic lambda", lam)


def lambda_body(lam):
    return [c for c in inner(lam) if c["kind"] == "CompoundStmt"][-1]


def lambda_inits(lam):
    return [c for c in inner(lam) if c["kind"] not in ("CXXRecordDecl", "CompoundStmt")]


def pure_place(pl):
    t = pl.root
    for a in pl.acc:
        if a[0] == "f":
            t = "(%s).%s" % (t, a[1])
        elif a[0] == "i":
            t = "(Seq.get %s %s)" % (par(t), par(a[1]))
        elif a[0] == "d":
            t = "(oval %s)" % par(t)
        else:
            return None
    return t


def loop_sig(tr, n):
    """normalised shape of a loop header: operators and literals, no names"""
    if n is None or not n.get("kind"):
        return ""
    out = []

    def w(x):
        k = x.get("kind", "")
        if k in SKIP or k == "ImplicitCastExpr":
            for c in inner(x):
                w(c)
            return
        out.append({"DeclRefExpr": "v", "IntegerLiteral": str(x.get("value"))}.get(k, k + (x.get("opcode") or "")))
        for c in inner(x):
            w(c)
    w(n)
    return " ".join(out)
