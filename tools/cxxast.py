"""Load clang ASTs of /repo's current sources (JSON dump of the real translation
units) and index functions, records and enumerators."""
import json, os, re, subprocess, hashlib, tempfile, concurrent.futures as cf

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = REPO + "/src/streaming/"
CXXFLAGS = ["-std=c++20", "-include", "string", "-w",
            '-DACQUIRE_ZARR_API_VERSION="0.0.1"',
            "-I" + REPO + "/include", "-I" + REPO + "/src/logger",
            "-I" + REPO + "/src/streaming", "-I" + VERIF + "/stubs"]


class AstError(Exception):
    pass


def srcpath(f):
    if f.startswith("logger"):
        return REPO + "/src/logger/" + f
    return SRC + f


def dump(fname, filt):
    cmd = ["clang++"] + CXXFLAGS + ["-fsyntax-only", "-Xclang", "-ast-dump=json",
           "-Xclang", "-ast-dump-filter=" + filt, srcpath(fname)]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise AstError("clang failed on %s: %s" % (fname, p.stderr.decode()[:2000]))
    s = p.stdout.decode(errors="replace")
    dec = json.JSONDecoder()
    out = []
    i = 0
    n = len(s)
    while True:
        while i < n and s[i] in " \t\r\n":
            i += 1
        if i >= n:
            break
        o, i = dec.raw_decode(s, i)
        out.append(o)
    return out


_demangle_cache = {}


def demangle(names):
    todo = [n for n in names if n not in _demangle_cache]
    if todo:
        p = subprocess.run(["c++filt"], input="\n".join(todo).encode(), stdout=subprocess.PIPE)
        for a, b in zip(todo, p.stdout.decode().split("\n")):
            _demangle_cache[a] = b
    return [_demangle_cache[n] for n in names]


FN_KINDS = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl")


class TU:
    """One translation unit, several filtered dumps."""

    def __init__(self, fname, filters):
        self.fname = fname
        self.decl = {}      # id -> decl node
        self.fns = {}       # demangled signature -> definition node
        self.byname = {}    # base name -> list of (sig, def node)
        self.records = {}   # name -> record node (with definition)
        self.enums = {}     # enumerator -> int value
        self.parent = {}    # decl id -> parent record name
        with cf.ThreadPoolExecutor(4) as ex:
            dumps = list(ex.map(lambda f: dump(fname, f), filters))
        for d in dumps:
            for o in d:
                self._walk(o, None)
        self._index()

    def extend(self, filt):
        for o in dump(self.fname, filt):
            self._walk(o, None)
        self._index()

    def _index(self):
        # functions with bodies
        mang = []
        nodes = []
        for nid, o in list(self.decl.items()):
            if o.get("kind") in FN_KINDS and has_body(o) and o.get("mangledName"):
                mang.append(o["mangledName"])
                nodes.append(o)
        for sig, o in zip(demangle(mang), nodes):
            if sig in self.fns:
                continue
            self.fns[sig] = o
            o["_sig"] = sig
            self.byname.setdefault(o.get("name"), []).append((sig, o))

    def _walk(self, o, rec):
        if not isinstance(o, dict):
            return
        k = o.get("kind")
        if k is None:
            return
        if k.endswith("Decl") and "id" in o:
            if o["id"] in self.decl and len(str(self.decl[o["id"]].get("inner", ""))) > 0 and not o.get("inner"):
                pass
            else:
                self.decl[o["id"]] = o
            if rec:
                self.parent[o["id"]] = rec
        if k == "EnumDecl":
            v = -1
            for c in o.get("inner", []):
                if c.get("kind") == "EnumConstantDecl":
                    cv = const_value(c)
                    v = cv if cv is not None else v + 1
                    self.enums[c["name"]] = v
                    self.decl[c["id"]] = c
        if k == "TypedefDecl" and o.get("name"):      # typedef struct { } name
            for t in [o] + [x for x in o.get("inner", []) if isinstance(x, dict)]:
                for y in [t] + [x for x in t.get("inner", []) if isinstance(x, dict)]:
                    d = y.get("decl") or y.get("ownedTagDecl") or {}
                    r = self.decl.get(d.get("id"))
                    if r is not None and r.get("kind") == "CXXRecordDecl" and r.get("completeDefinition"):
                        self.records.setdefault(o["name"], r)
        nrec = rec
        if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"):
            nrec = o.get("name") or rec
            if o.get("completeDefinition") and o.get("name"):
                if o["name"] not in self.records:
                    self.records[o["name"]] = o
        if k in FN_KINDS:
            return  # bodies are walked lazily
        for c in o.get("inner", []):
            self._walk(c, nrec)

    def record_fields(self, name):
        """All fields of a record incl. base classes, base first."""
        r = self.records.get(name)
        if r is None:
            raise AstError("no record " + name)
        out = []
        for b in r.get("bases", []):
            bn = b["type"]["qualType"].split("::")[-1]
            if bn in self.records:
                out += self.record_fields(bn)
        for c in r.get("inner", []):
            if c.get("kind") == "FieldDecl":
                out.append((c["name"], c["type"]))
        return out

    def find(self, pattern):
        """Find a function definition whose demangled signature starts with pattern
        (either the qualified name, or a full signature prefix)."""
        c = [(s, o) for s, o in self.fns.items()
             if s == pattern or s.startswith(pattern + "(") or s.startswith(pattern + "[")
             or s.startswith(pattern + "<") and "<" not in pattern
             or (("(" in pattern or "<" in pattern) and s.startswith(pattern))]
        if not c:
            # ignore return types of template instantiations and anonymous namespaces
            pn = pattern.replace("(anonymous namespace)::", "")
            for s, o in self.fns.items():
                t = s.replace("(anonymous namespace)::", "")
                t2 = t.split(" ", 1)[1] if " " in t.split("(")[0] else t
                if t2.startswith(pn + "(") or t2.startswith(pn + "<") or ("(" in pn or "<" in pn) and t2.startswith(pn):
                    c.append((s, o))
        return c


def const_value(c):
    for x in c.get("inner", []):
        if "value" in x:
            try:
                return int(x["value"])
            except ValueError:
                return None
        v = const_value(x)
        if v is not None:
            return v
    return None


def has_body(o):
    return any(c.get("kind") in ("CompoundStmt", "CXXTryStmt") for c in o.get("inner", []))


def body_of(o):
    for c in o.get("inner", []):
        if c.get("kind") == "CompoundStmt":
            return c
    return None


def params_of(o):
    return [c for c in o.get("inner", []) if c.get("kind") == "ParmVarDecl"]


def qt(node):
    t = node.get("type", {})
    return t.get("desugaredQualType") or t.get("qualType") or ""


if __name__ == "__main__":
    import sys, time
    t = time.time()
    tu = TU(sys.argv[1], sys.argv[2:])
    print(time.time() - t)
    for s in sorted(tu.fns):
        print(s)
    print(sorted(tu.records)[:50])
    print(list(tu.enums.items())[:50])
