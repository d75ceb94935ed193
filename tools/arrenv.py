"""Array writers: array.writer.cpp, zarrv2.array.writer.cpp, zarrv3.array.writer.cpp."""
from env import *
import cxx2why, jobs

FILTERS["array.writer.cpp"] = ["ZarrVersion", "ArrayWriter", "downsample", "finalize_array", "BloscCompressionParams"]
FILTERS["zarrv2.array.writer.cpp"] = ["ZarrVersion", "ZarrV2ArrayWriter", "sample_type_to_dtype", "ZarrDataType", "std::endian"]
FILTERS["zarrv3.array.writer.cpp"] = ["ZarrVersion", "ZarrV3ArrayWriter", "sample_type_to_dtype", "ZarrDataType"]
CLASS_FILE["ArrayWriter"] = "array.writer.cpp"
CLASS_FILE["ZarrV2ArrayWriter"] = "zarrv2.array.writer.cpp"
CLASS_FILE["ZarrV3ArrayWriter"] = "zarrv3.array.writer.cpp"
SUBCLASS = ("ZarrV2ArrayWriter", "ZarrV3ArrayWriter")

SINK = ("rec", "Sink")


class ArrEnv(Env):
    records_cfg = dict(RECORDS, ArrayWriterConfig=("awcfg", "aw_", "array.writer.cpp"),
                       BloscCompressionParams=("bcp", "bc_", "array.writer.cpp"),
                       Sink=("sinkobj", "sk_", "array.writer.cpp"))
    opaque = {"ThreadPool": "tpool", "S3ConnectionPool": "cpool"}

    def __init__(self):
        super().__init__()
        self.lib = ["dims.mlw", "jobs.mlw", "writer.mlw", "arrays.mlw"]
        base = {
            "config_": ("g_cfg", ("rec", "ArrayWriterConfig")),
            "chunk_buffers_": ("g_chunks", ("seq", ("seq", BYTE))),
            "data_sinks_": ("g_sinks", ("seq", ("opt", SINK))),
            "metadata_sink_": ("g_msink", ("opt", SINK)),
            "bytes_to_flush_": ("g_pending", U64), "frames_written_": ("g_frames", U64),
            "append_chunk_index_": ("g_appidx", U32), "is_finalizing_": ("g_final", BOOL),
        }
        v3 = dict(base)
        v3["shard_tables_"] = ("g_tables", ("seq", ("seq", U64)))
        v3["shard_file_offsets_"] = ("g_offs", ("seq", U64))
        self.state = {"ArrayWriter": v3, "ZarrV2ArrayWriter": v3, "ZarrV3ArrayWriter": v3}
        self._fields["Sink"] = [("path", STR), ("data", ("seq", BYTE)), ("bucket", ("opt", STR))]

    ghosts = {"g_failed": "bool", "g_flushed": "seq (seq int)", "g_raw": "seq (seq int)", "g_closed": "seq sinkobj", "g_v3": "bool",
              "g_index": "seq (seq int)", "g_hist": "ghost seq (seq int)"}

    def types_prelude(self):
        return ["type tpool = int", "type cpool = int"]

    def ghosts_for(self, c):
        return self.ghosts

    def global_decls(self, c, tr):
        out = []
        for f, (g, wt) in sorted(self.globals_of("ArrayWriter").items()):
            out.append("  val ref %s: %s" % (g, self.types.why(wt)))
        for g, t in self.ghosts_for(c).items():
            out.append("  val %sref %s: %s" % ("ghost " if t.startswith("ghost ") else "", g, t.replace("ghost ", "")))
        return out

    def frame_globals(self, c):
        if not c.isstate:
            return []
        return super().frame_globals(c) + [g for g in self.ghosts_for(c) if g not in c.writes]

    def retype_ptr(self, tr, r, n):
        if re.search(r"\b(byte|char|uint8_t|unsigned char)\b", qt(n)) and r[0].wt == ("seq", U64) and r[1] is not None:
            p = Place("(bytes_of_u64s %s)" % par(tr.pread(r[0])), ("seq", BYTE), mutable=False)
            return p, ("0" if r[1] == "0" else "(8 * %s)" % r[1])
        return r

    # virtual methods of the base class are called through their contracts
    def contract_for_method(self, tr, cls, m, args, me):
        for k in ("%s::%s" % (cls, m),) + (("ArrayWriter::" + m,) if cls in SUBCLASS else ()):
            c = self.contracts.get(k)
            if c is not None:
                self.resolve(c)
                return c
        return None

    def body_for_method(self, tr, cls, m, args, me):
        r = super().body_for_method(tr, cls, m, args, me)
        if r is None and cls in SUBCLASS:
            r = super().body_for_method(tr, "ArrayWriter", m, args, me)
        return r

    def field_name(self, n):
        n = strip(n)
        while n["kind"] in ("ImplicitCastExpr", "CXXOperatorCallExpr"):
            n = strip(inner(n)[0] if n["kind"] == "ImplicitCastExpr" else inner(n)[1])
        return n.get("name") if n["kind"] == "MemberExpr" else None

    def mcall_hook(self, tr, m, obj, args, n):
        if m == "push_job" and self.field_name(obj) == "thread_pool_":
            return jobs.push_job(tr, args[0], n)
        if "SinkCreator" in qt(obj):
            return self.creator_call(tr, m, args, n)
        if m == "write" and "Sink" in qt(obj):
            p = tr.lv(obj)
            if p.wt[0] in ("opt", "ptr"):
                p = p.ext(("d",), p.wt[1])
            if p.wt == SINK:
                off, _ = tr.rv(args[0])
                d, _ = tr.rv(args[1])
                pre, post, ps = [], [], []
                tr.pass_ref(p, SINK, ps, pre, post)
                tr.may_raise = True
                t = tr.tmp("r")
                if not post:
                    return "(sink_write %s %s %s)" % (ps[0], par(off), par(d)), BOOL
                return "(%s let %s = (try sink_write %s %s %s with Throw -> (%s; raise Throw) end) in %s; %s)" % (
                    " ".join(pre), t, ps[0], par(off), par(d), "; ".join(post), "; ".join(post), t), BOOL
        return None

    def vardecl_hook(self, tr, d, name, init, ty):
        if "SinkCreator" in ty:
            tr.vars[d["id"]] = Var("val", ("creator",), "creator")
            return True
        if ty.startswith("std::function<") and "ZarrDimension" in ty:
            nm = tr.fresh(name)
            tr.emit("let ref %s = Chunks in" % nm)
            v = Var("fnvar", ("parts",), nm)
            tr.vars[d["id"]] = v
            if init is not None and self.fn_named(init) is not None:
                tr.emit(self.assign_fn(tr, v, init)[1:-1] + ";")
            return True
        return False

    def fn_named(self, b):
        if b.get("kind") == "DeclRefExpr" and b["referencedDecl"].get("kind") == "FunctionDecl":
            return b["referencedDecl"]["name"]
        for x in inner(b):
            r = self.fn_named(x)
            if r is not None:
                return r
        return None

    def assign_fn(self, tr, v, b):
        nm = {"chunks_along_dimension": "Chunks", "shards_along_dimension": "Shards"}.get(self.fn_named(b))
        if nm is None:
            raise Unsupported("function variable", b)
        return "(%s <- %s)" % (v.name, nm)

    def creator_call(self, tr, m, args, n):
        if m == "make_sink":
            tr.may_raise = True
            b = "None" if len(args) == 1 else "(Some %s)" % par(tr.rv(args[0])[0])
            return "(mk_sink %s %s)" % (b, par(tr.rv(args[-1])[0])), ("opt", SINK)
        if m == "make_data_sinks":
            tr.may_raise = True
            b = "None" if len(args) == 4 else "(Some %s)" % par(tr.rv(args[0])[0])
            root, _ = tr.rv(args[-4])
            dims, _ = tr.rv(args[-3])
            f = strip(args[-2])
            while f["kind"] in ("ImplicitCastExpr", "CXXConstructExpr") and inner(f):
                f = strip(inner(f)[0])
            v = tr.lookup(f)
            k = v.name if v is not None and v.kind == "fnvar" else self.assign_fn(tr, Var("fnvar", None, "x"), args[-2])[6:-1]
            p = tr.lv(args[-1])
            if p.acc:
                raise Unsupported("sinks", n)
            return "(mk_data_sinks %s %s (oget %s).ad_dims_ %s %s)" % (b, par(root), par(dims), k, p.root), BOOL
        raise Unsupported("SinkCreator::" + m, n)

    def call_hook(self, tr, n, callee):
        d = callee.get("referencedDecl") or {}
        if d.get("name") == "make_sink":
            return self.creator_call(tr, "make_sink", [a for a in inner(n)[1:] if a["kind"] != "CXXDefaultArgExpr"], n)
        return None

    def std_call_hook(self, tr, name, args, n, d):
        if name == "finalize_sink":
            p = tr.lv(args[0])
            pre, post, ps = [], [], []
            tr.pass_ref(p, p.wt, ps, pre, post)
            t = tr.tmp("r")
            return "(%s let %s = sink_finalize %s g_closed in %s %s)" % (" ".join(pre), t, ps[0], "".join(x + "; " for x in post), t), BOOL
        if name == "blosc_compress_ctx":
            a = [tr.rv(x)[0] for x in args[:4]]
            r0, r1 = tr.ptr_of(args[4]), tr.ptr_of(args[5])
            if r0 is None or r1 is None or r0[1] != "0" or r1[1] != "0":
                raise Unsupported("blosc_compress_ctx", n)
            cap, _ = tr.rv(args[6])
            codec, _ = tr.rv(args[7])
            pre, post, ps = [], [], []
            tr.pass_ref(r1[0], r1[0].wt, ps, pre, post)
            t = tr.tmp("r")
            return "(%s let %s = blosc_compress %s %s %s %s %s in %s %s)" % (
                " ".join(pre), t, " ".join(par(x) for x in a), par(tr.pread(r0[0])), ps[0], par(cap), par(codec), "".join(x + "; " for x in post), t), INT("int")
        return None


def make():
    e = ArrEnv()
    e.load_contracts("zarr.common.ctr", "zarr.dimension.ctr", "array.writer.ctr")
    return e
