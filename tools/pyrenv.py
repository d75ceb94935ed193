"""The resolution pyramid: downsample (array.writer.cpp) and create_writers_ (zarr.stream.cpp)."""
from env import *
from streamenv import *
import arrenv, cxx2why

FILTERS["blosc.compression.params.cpp"] = ["ZarrCompressionCodec", "BloscCompressionParams", "blosc_codec_to_string"]
FN_FILE["downsample"] = "array.writer.cpp"
FN_FILE["blosc_codec_to_string"] = "blosc.compression.params.cpp"


class PyrEnv(StreamEnv):
    records_cfg = dict({k: v for k, v in StreamEnv.records_cfg.items() if k != "ArrayWriter"},
                       ArrayWriterConfig=("awcfg", "aw_", "array.writer.cpp"), BloscCompressionParams=("bcp", "bc_", "array.writer.cpp"),
                       ArrayWriter=S("writerobj", "wr_"))
    opaque = dict(StreamEnv.opaque, ThreadPool="tpool", S3ConnectionPool="cpool")
    ghosts = {}

    def __init__(self):
        super().__init__()
        self.types = StreamTypes({k: (v[0], v[1]) for k, v in self.records_cfg.items()}, self.enum_types, self.opaque)
        self.lib = ["dims.mlw", "settings.mlw", "pyramid.mlw"]
        self._fields["ArrayWriter"] = [("cfg", ("rec", "ArrayWriterConfig")), ("v3", BOOL)]
        st = dict(self.state["ZarrStream_s"])
        for f in ("frame_buffer_", "frame_buffer_offset_"):
            del st[f]
        st["thread_pool_"] = ("g_pool", ("opaque", "tpool"))
        st["s3_connection_pool_"] = ("g_s3pool", ("opaque", "cpool"))
        self.state = {"ZarrStream_s": st}

    def types_prelude(self):
        return ["type tpool = int", "type cpool = int"]

    def ctor_fields(self, tr, tu, rec, args):
        """the fields a constructor with an empty body sets, from its initializers"""
        c = [o for o in tu.decl.values() if o.get("kind") == "CXXConstructorDecl" and o.get("name") == rec and len(params_of(o)) == len(args) and has_body(o)]
        if not c:
            raise Unsupported("constructor of " + rec)
        c = c[0]
        if inner(body_of(c)):
            raise Unsupported("constructor of %s has a body" % rec)
        vals = {}
        for p, a in zip(params_of(c), args):
            vals[p["name"]] = tr.coerce(a, TypeTable.parse(self.types, qt(p)))
        out = {}
        for i in inner(c):
            if i["kind"] == "CXXCtorInitializer":
                x = inner(i)[0]
                while x["kind"] != "DeclRefExpr":
                    x = inner(x)[0]
                out[i["anyInit"]["name"]] = vals[x["referencedDecl"]["name"]]
        pf = self.records_cfg[rec][1]
        return "{ %s }" % "; ".join("%s%s = %s" % (pf, f, out[f]) for f, _ in self.rec_fields(rec))

    def construct_rec(self, tr, n, xs, wt):
        if wt[1] == "ZarrDimension" and len(xs) == 5:
            return self.dimension_ctor(tr, xs), wt
        if wt[1] == "BloscCompressionParams" and len(xs) == 3:
            return self.ctor_fields(tr, self.tu("blosc.compression.params.cpp"), wt[1], xs), wt
        if wt[1] == "ArrayWriterConfig" and n["kind"] == "InitListExpr" and len(xs) == len(self.rec_fields(wt[1])):
            fs = self.rec_fields(wt[1])
            if not all(x["kind"] in ("ImplicitValueInitExpr", "CXXDefaultInitExpr") or x["kind"] == "CXXConstructExpr" and not inner(x) for x in xs):
                return "{ %s }" % "; ".join("aw_%s = %s" % (f, tr.coerce(x, t)) for (f, t), x in zip(fs, xs)), wt
        return super().construct_rec(tr, n, xs, wt)

    def call_hook(self, tr, n, callee):
        d = callee.get("referencedDecl") or {}
        if d.get("name") == "make_unique" and "ArrayWriter" in qt(n):
            m = re.search(r"ZarrV([23])ArrayWriter", qt(n))
            a = inner(n)[1:]
            t = tr.coerce(a[0], ("rec", "ArrayWriterConfig"))
            return "(Some { wr_cfg = %s; wr_v3 = %s })" % (t, "true" if m.group(1) == "3" else "false"), ("opt", ("rec", "ArrayWriter"))
        return super().call_hook(tr, n, callee)


def make():
    e = PyrEnv()
    e.load_contracts("zarr.common.ctr", "zarr.dimension.ctr", "pyramid.ctr")
    return e
