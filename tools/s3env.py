"""S3 sink and connections: s3.sink.cpp, s3.connection.cpp."""
from env import *
import cxx2why

FILTERS["s3.sink.cpp"] = ["S3Sink", "Part", "MultiPartUpload"]
FILTERS["s3.connection.cpp"] = ["S3Connection"]
FILTERS["sink.creator.cpp"] = ["SinkCreator", "anonymous"]
CLASS_FILE["S3Sink"] = "s3.sink.cpp"
CLASS_FILE["SinkCreator"] = "sink.creator.cpp"

CONN = ("opaque", "conn")


class S3Env(Env):
    records_cfg = {"Part": ("mppart", "mp_", "s3.sink.cpp"), "MultiPartUpload": ("mpupload", "mu_", "s3.sink.cpp")}
    opaque = {"S3Connection": "conn", "S3ConnectionPool": "pool"}

    def __init__(self):
        super().__init__()
        self.lib = ["s3.mlw"]
        self.state = {"S3Sink": {
            "bucket_name_": ("g_bucket", STR), "object_key_": ("g_key", STR),
            "part_buffer_": ("g_buf", ("seq", BYTE)), "nbytes_buffered_": ("g_nb", U64), "nbytes_flushed_": ("g_nf", U64),
            "multipart_upload_": ("g_mp", ("opt", ("rec", "MultiPartUpload"))),
        }}
        self.state["SinkCreator"] = {"connection_pool_": ("g_pool", ("opt", ("opaque", "pool")))}
        self._fields["Part"] = [("number", U32), ("etag", STR)]

    def global_decls(self, c, tr):
        return ["val ref g_bucket: str", "val ref g_key: str", "val ref g_buf: seq int", "val ref g_nb: int", "val ref g_nf: int",
                "val ref g_mp: option mpupload", "val ref g_obj: option (seq int)", "val ref g_up: option upload",
                "val ref g_err: bool", "val ref g_out: int", "val ref g_puts: int",
                "val ref g_pool: option pool",
                "val s3_bucket_exists (b: str) : bool raises { Throw -> true }"]

    def const_var(self, tr, d):
        if d.get("name") == "max_part_size_":
            return "5242880", U64
        return super().const_var(tr, d)

    def own(self, tr, args):
        a, _ = tr.rv(args[0])
        b, _ = tr.rv(args[1])
        return "(str_eq %s g_bucket && str_eq %s g_key)" % (par(a), par(b))

    def arg(self, tr, a):
        return par(tr.rv(a)[0])

    def mcall_hook(self, tr, m, obj, args, n):
        q = qt(obj)
        so = strip(obj)
        if so["kind"] == "CXXOperatorCallExpr":
            q += " " + qt(tr.opcall(so)[1][0])
        if "S3ConnectionPool" in q:
            if m == "get_connection":
                return "(Some (pool_get g_out))", ("opt", CONN)
            if m == "return_connection":
                t, w = tr.rv(args[0])
                return "(pool_return g_out (oget %s))" % par(t), UNIT
        if "S3Connection" in q and m == "bucket_exists":
            t, w = tr.rv(obj)
            tr.may_raise = True
            return "(let _ = (oget %s) in s3_bucket_exists %s)" % (par(t), self.arg(tr, args[0])), BOOL
        if "S3Connection" in q and m in ("put_object", "create_multipart_object", "upload_multipart_object_part", "complete_multipart_object"):
            t, w = tr.rv(obj)
            pre = "let _ = (oget %s) in " % par(t) if w[0] in ("opt", "ptr") else ""
            tr.may_raise = True
            own = self.own(tr, args)
            if m == "put_object":
                return "(%ss3_put g_obj g_puts g_err %s %s)" % (pre, own, self.arg(tr, args[2])), STR
            if m == "create_multipart_object":
                return "(%ss3_create g_up g_err %s)" % (pre, own), STR
            if m == "upload_multipart_object_part":
                return "(%ss3_part g_up g_err %s %s %s %s)" % (pre, own, self.arg(tr, args[2]), self.arg(tr, args[3]), self.arg(tr, args[4])), STR
            return "(%ss3_complete g_obj g_err g_up %s %s %s)" % (pre, own, self.arg(tr, args[2]), self.arg(tr, args[3])), BOOL
        return None


def make():
    e = S3Env()
    e.load_contracts("s3.sink.ctr")
    return e
