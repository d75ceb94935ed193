"""C API functions (acquire.zarr.cpp) and the log level (logger.cpp)."""
from env import *
import cxx2why

FILTERS["acquire.zarr.cpp"] = ["Zarr_", "ZarrStreamSettings", "ZarrStream_", "ZarrS", "ZarrL", "Zarr", "LogLevel", "Logger"]
FILTERS["logger.cpp"] = ["Logger", "LogLevel"]


class CapiEnv(Env):
    records_cfg = {"ZarrStreamSettings_s": ("zsettings", "zs_", "acquire.zarr.cpp")}
    enum_types = Env.enum_types + ("LogLevel",)
    opaque = {"ZarrDimensionProperties": "block", "ZarrStream_s": "zstream", "ZarrS3Settings": "block", "ZarrCompressionSettings": "block"}

    def __init__(self):
        super().__init__()
        self.lib = ["capi.mlw"]

    def types_prelude(self):
        return ["use capi.Heap"]

    def contract_for_fn(self, tr, name, d, args):
        for k in (name, "Logger::" + name):
            c = self.contracts.get(k)
            if c is not None:
                self.resolve(c)
                return c
        return None

    def global_place(self, tr, d):
        if d.get("name") == "current_level_":
            return Place("g_level", INT("unsigned int"))
        return None

    def const_var(self, tr, d):
        return super().const_var(tr, d)

    def global_decls(self, c, tr):
        return ["val ref g_level: int", "val ref g_live: hmap", "val ref g_len: nmap",
                "val ref g_streams: hmap", "val ref g_appends: int"]

    def call_hook(self, tr, n, callee):
        d = callee.get("referencedDecl") or {}
        if d.get("name") == "finalize_stream":
            t, w = tr.rv(inner(n)[1])
            return "(finalize_stream g_streams %s)" % par(t), BOOL
        return None

    def mcall_hook(self, tr, m, obj, args, n):
        if m == "append":
            t, w = tr.rv(obj)
            if w[1] == ("opaque", "zstream"):
                a, _ = tr.rv(args[0])
                b, _ = tr.rv(args[1])
                tr.may_raise = True
                return "(let _ = oget %s in stream_append g_appends (oget %s) %s)" % (par(a), par(t), par(b)), U64
        return None

    def new_expr(self, tr, n):
        t = qt(n)
        tr.may_raise = tr.may_raise or "alloc"
        if n.get("isArray"):
            sz, _ = tr.rv(inner(n)[0])
            return "(Some (heap_new g_live g_len %s))" % par(sz), ("ptr", ("opaque", "block"))
        if "ZarrStream_s" in t:
            args = [a for a in inner(n)]
            tr.may_raise = True
            return "(Some (new_stream g_streams))", ("ptr", ("opaque", "zstream"))
        raise Unsupported("new " + t, n)

    def delete_expr(self, tr, n):
        t, w = tr.rv(inner(n)[0])
        if n.get("isArray") and w == ("ptr", ("opaque", "block")):
            return "(heap_delete g_live %s)" % par(t), UNIT
        if not n.get("isArray") and w == ("ptr", ("opaque", "zstream")):
            return "(stream_delete g_streams %s)" % par(t), UNIT
        raise Unsupported("delete", n)


def make():
    e = CapiEnv()
    e.load_contracts("acquire.zarr.ctr")
    return e
