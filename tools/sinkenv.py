"""File sinks: file.sink.cpp, vectorized.file.writer.cpp, sink.cpp."""
from env import *
import cxx2why

FILTERS["file.sink.cpp"] = ["FileSink", "Sink"]
FILTERS["vectorized.file.writer.cpp"] = ["VectorizedFileWriter", "get_last_error_as_string", "iovec"]
FILTERS["sink.cpp"] = ["Sink", "finalize_sink"]
CLASS_FILE["VectorizedFileWriter"] = "vectorized.file.writer.cpp"

FIL = ("opaque", "fil")


class SinkEnv(Env):
    records_cfg = {"iovec": ("iov", "", "vectorized.file.writer.cpp")}
    enum_types = Env.enum_types
    opaque = {"Sink": "sinkobj", "basic_ofstream": "fil", "ofstream": "fil"}

    def __init__(self):
        super().__init__()
        self.lib = ["fileio.mlw"]
        self.state = {"FileSink": {"file_": ("g_file", FIL)},
                      "VectorizedFileWriter": {"fd_": ("g_fd", INT("int")), "page_size_": ("g_page", U64)}}
        self._fields["iovec"] = [("iov_base", ("seq", BYTE)), ("iov_len", U64)]

    def types_module(self):
        return "module Types\n  use export Cxx.Cxx\n  use seq.Seq\n  use export fileio.FileIO\n  type sinkobj = { so_id: int }\nend\n"

    def default_rec(self, tr, wt):
        if wt == ("rec", "iovec"):
            return "{ iov_base = (Seq.empty: seq int); iov_len = 0 }"
        return super().default_rec(tr, wt)

    def global_decls(self, c, tr):
        return ["val ref g_file: fil", "val ref g_fd: int", "val ref g_page: int", "val ref g_written: int",
                "val ref g_flushed: bool",
                "val sink_flush (ref g: bool) (s: sinkobj) : bool writes { g } ensures { result <-> g }"]

    def call_hook(self, tr, n, callee):
        d = callee.get("referencedDecl") or {}
        nm = d.get("name")
        if nm in ("get_last_error_as_string", "strerror"):
            return "str_any", STR
        if nm == "memset":
            xs = inner(n)[1:]
            r = tr.ptr_of(xs[0])
            if r is not None and r[1] is None and r[0].wt == ("rec", "iovec"):
                v, _ = tr.rv(xs[1])
                ln, _ = tr.rv(xs[2])
                if v != "0" or ln != "16":
                    raise Unsupported("memset of iovec", n)
                return "(%s)" % tr.pwrite(r[0], self.default_rec(tr, ("rec", "iovec"))), UNIT
        if nm in ("pwritev", "pwritev64"):
            a = inner(n)[1:]
            self_fd, _ = tr.rv(a[0])
            r = tr.ptr_of(a[1])
            if r is None or r[1] != "0":
                raise Unsupported("pwritev", n)
            cnt, _ = tr.rv(a[2])
            off, _ = tr.rv(a[3])
            return "(fs_pwritev g_file g_written %s %s %s)" % (par(tr.pread(r[0])), par(cnt), par(off)), INT("long")
        return None

    def sizeof(self, t):
        if t.replace("struct ", "").strip() == "iovec":
            return 16
        return None

    def assign_hook(self, tr, a, b, n):
        if a["kind"] == "MemberExpr" and a.get("name") == "iov_base":
            r = tr.ptr_of(b)
            if r is None or r[1] is None:
                raise Unsupported("iov_base", n)
            s = tr.pread(r[0])
            if r[1] != "0":
                s = "(sspan %s %s (slen %s - %s))" % (par(s), par(r[1]), par(s), par(r[1]))
            return "(%s)" % tr.pwrite(tr.lv(a), s)
        return None

    def mcall_hook(self, tr, m, obj, args, n):
        so = strip(obj)
        while so["kind"] == "ImplicitCastExpr":
            so = strip(inner(so)[0])
        if so["kind"] == "MemberExpr" and so.get("name") == "file_" and tr.cls == "FileSink":
            if m == "seekp":
                if len(args) != 1:
                    raise Unsupported("seekp", n)
                o, _ = tr.rv(self.unpos(args[0]))
                return "(fs_seekp g_file %s)" % par(o), UNIT
            if m == "write":
                r = tr.ptr_of(args[0])
                if r is None or r[1] is None:
                    raise Unsupported("write", n)
                ln, _ = tr.rv(args[1])
                return "(fs_write g_file %s %s %s)" % (par(tr.pread(r[0])), par(r[1]), par(ln)), UNIT
            if m == "flush":
                return "(fs_flush g_file)", UNIT
            if m in ("fail", "operator!", "bad"):
                return "(fs_fail g_file)", BOOL
            if m in ("good", "operator bool"):
                return "(not (fs_fail g_file))", BOOL
            raise Unsupported("ofstream::" + m, n)
        if m == "flush_":
            t, w = tr.rv(obj)
            if w[0] in ("opt", "ptr"):
                t = "(oget %s)" % par(t)
            return "(sink_flush g_flushed %s)" % par(t), BOOL
        return None

    def unpos(self, a):
        """the integer a stream position is made from"""
        a = strip(a)
        while a["kind"] in ("CXXConstructExpr", "ImplicitCastExpr") and "fpos" in qt(a):
            a = strip(inner(a)[0])
        return a


def make():
    e = SinkEnv()
    e.load_contracts("file.sink.ctr")
    return e
