"""nlohmann::json in the translation: values of contracts/json.mlw.
A key is the number its characters spell in base 256."""
from env import *
import cxx2why

SKIPS = ("CXXConstructExpr", "ImplicitCastExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups", "CXXFunctionalCastExpr")


def literal(n):
    n = strip(n)
    while n["kind"] == "ImplicitCastExpr" and inner(n):
        n = strip(inner(n)[0])
    return json_text(n["value"]) if n["kind"] == "StringLiteral" else None


def json_text(v):
    import ast
    return ast.literal_eval(v)


def jsontype(n):
    return "basic_json" in qt(n) or re.search(r"\bjson\b", qt(n)) is not None


class JsonMix:
    max_literal = 300

    def key_of(self, tr, b):
        s = literal(b)
        if s is None:
            raise Unsupported("key of a JSON object", b)
        return str(key_no(s))

    def json_index(self, tr, p, b):
        if literal(b) is not None:
            return p.ext(("j", self.key_of(tr, b)), cxx2why.JSON)
        t, w = tr.rv(b)
        if w[0] != "int":
            raise Unsupported("JSON index", b)
        return p.ext(("jn", t), cxx2why.JSON)

    def json_assign(self, tr, p, b):
        return tr.pwrite(p, self.json_value(tr, b))

    def init_list(self, n):
        """elements, if the expression is built from a braced list of values"""
        if n["kind"] not in ("CXXConstructExpr", "CXXTemporaryObjectExpr") or not inner(n):
            return None
        x = inner(n)[0]
        while x["kind"] in ("CXXStdInitializerListExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ImplicitCastExpr") and inner(x):
            if x["kind"] == "CXXStdInitializerListExpr":
                y = inner(x)[0]
                while y["kind"] != "InitListExpr":
                    if y["kind"] not in ("MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ImplicitCastExpr"):
                        return None
                    y = inner(y)[0]
                return inner(y)
            x = inner(x)[0]
        return None

    def peel(self, n):
        """below the wrappers that only convert"""
        while True:
            n = strip(n)
            if n["kind"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                if self.init_list(n) is not None:
                    return n
                xs = [x for x in inner(n) if x["kind"] != "CXXDefaultArgExpr"]
                if (jsontype(n) or "json_ref" in qt(n)) and len(xs) == 1:
                    n = xs[0]
                    continue
                return n
            if n["kind"] in SKIPS and len(inner(n)) == 1:
                n = inner(n)[0]
                continue
            return n

    def stringish(self, n):
        t = qt(n)
        return bool(re.match(r"^(const )?char\s*(\*|\[)", t)) or "string" in t.split("<")[0]

    def json_list(self, tr, xs, kind=None):
        pairs = []
        for x in xs:
            y = self.peel(x)
            l = self.init_list(y) if y["kind"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") else None
            pairs.append(l if l is not None and len(l) == 2 and self.stringish(self.peel(l[0])) else None)
        if kind == "object" or (kind is None and xs and all(p is not None for p in pairs)):
            if not all(p is not None for p in pairs):
                raise Unsupported("JSON object from a list", xs[0])
            t = "(jobj0 ())"
            seen = set()
            for p in pairs:
                k = self.key_of(tr, self.peel(p[0]))
                if k in seen:      # the first one counts
                    continue
                seen.add(k)
                t = "(jset %s %s %s)" % (t, k, par(self.json_value(tr, p[1])))
            return t
        if not xs:
            return "(jobj0 ())" if kind is None else "(jarr Seq.empty)"
        t = "Seq.empty"
        for x in xs:
            t = "(spush %s %s)" % (t, par(self.json_value(tr, x)))
        return "(jarr %s)" % t

    def json_value(self, tr, b):
        n = self.peel(b)
        if n["kind"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            l = self.init_list(n)
            if l is not None:
                return self.json_list(tr, l)
            if not [x for x in inner(n) if x["kind"] != "CXXDefaultArgExpr"] and jsontype(n):
                return "(jnull ())"
        if n["kind"] == "CXXNullPtrLiteralExpr":
            return "(jnull ())"
        if n["kind"] == "CallExpr" and jsontype(n):
            f, args = tr.fcall(n)
            if f in ("object", "array"):
                args = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
                if not args:
                    return "(jobj0 ())" if f == "object" else "(jarr Seq.empty)"
                x = args[0]
                while x["kind"] != "InitListExpr":
                    if not inner(x):
                        raise Unsupported("json::" + f, n)
                    x = inner(x)[0]
                return self.json_list(tr, inner(x), f)
            if f == "parse":
                t, w = tr.rv(args[0])
                if len(args) < 3 or tr.rv(args[2])[0] != "false":
                    raise Unsupported("json::parse with exceptions", n)
                return "(jparse %s)" % par(t)
        t, w = tr.rv(n)
        if w == cxx2why.JSON:
            return t
        if w[0] == "int":
            return "(jint %s)" % par(t)
        if w[0] == "str":
            return "(jstr %s)" % par(t)
        if w[0] in ("ptr", "opt") and w[1] == STR:
            return "(jstr (cstr_get %s))" % par(t)
        if w[0] == "seq" and w[1][0] == "int":
            return "(jints %s)" % par(t)
        if w[0] == "seq" and w[1][0] == "real":
            return "(jnums %s)" % par(t)
        raise Unsupported("JSON value of type %s" % (w,), n)

    def json_mcall(self, tr, m, obj, args, n):
        """method of a JSON value, or None"""
        if not jsontype(obj):
            return None
        args = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
        if m == "dump":
            return "(jdump %s)" % par(self.json_value(tr, obj)), STR
        if m in ("push_back", "emplace_back") and len(args) == 1:
            p = tr.lv(obj)
            x = args[0]
            if x["kind"] in ("InitListExpr", "CXXStdInitializerListExpr") or "initializer_list" in qt(x):
                while x["kind"] != "InitListExpr":
                    x = inner(x)[0]
                xs = inner(x)
                if len(xs) == 2 and self.stringish(self.peel(xs[0])):
                    raise Unsupported("push_back of a pair", n)
                v = self.json_list(tr, xs)
            else:
                v = self.json_value(tr, x)
            return "(%s)" % tr.pwrite(p, "(jpush %s %s)" % (par(tr.pread(p)), par(v))), UNIT
        return None
