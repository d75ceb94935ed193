"""Store-level metadata (zarr.stream.cpp)."""
from env import *
from streamenv import *
from jsonlib import *
import cxx2why

SINK = ("rec", "Sink")
SMAP = ("map", STR, ("opt", SINK))
DBL = ("real", "double")


class OmeTypes(StreamTypes):
    def why(self, t):
        if t[0] == "map":
            return "smap"
        return "dbl" if t[0] == "real" else super().why(t)

    def parse(self, s):
        if "json" in s and not s.startswith("std::"):
            return cxx2why.JSON
        return super().parse(s)


class OmeEnv(JsonMix, StreamEnv):
    records_cfg = dict(StreamEnv.records_cfg, Sink=("sinkobj", "sk_", "zarr.stream.cpp"))
    ghosts = {"g_doc": "ghost json"}
    max_literal = 60

    def __init__(self):
        super().__init__()
        self.types = OmeTypes({k: (v[0], v[1]) for k, v in self.records_cfg.items()}, self.enum_types, self.opaque)
        self.lib = ["dims.mlw", "json.mlw", "ome.mlw"]
        self._fields["Sink"] = [("path", STR), ("data", ("seq", BYTE))]
        st = self.state["ZarrStream_s"]
        self.state = {"ZarrStream_s": {f: st[f] for f in ("writers_", "error_", "version_", "custom_metadata_", "dimensions_")}}
        self.state["ZarrStream_s"]["metadata_sinks_"] = ("g_msinks", SMAP)

    def float_lit(self, tr, v):
        if float(v) == 1.0:
            return "(d_one ())", DBL
        raise Unsupported("floating-point literal " + v)

    def std_call_hook(self, tr, name, args, n, d):
        if name == "pow":
            (a, wa), (b, wb) = tr.rv(args[0]), tr.rv(args[1])
            if wa[0] == wb[0] == "int":
                return "(d_pow %s %s)" % (par(a), par(b)), DBL
            raise Unsupported("pow", n)
        return super().std_call_hook(tr, name, args, n, d)

    def map_key(self, tr, b):
        l = literal(b) if True else None
        t, w = tr.rv(b)
        return "(skey_ %s)" % par(t)

    def mcall_hook(self, tr, m, obj, args, n):
        r = self.json_mcall(tr, m, obj, args, n)
        if r is not None:
            return r
        if m == "write" and "Sink" in qt(obj):
            p = tr.lv(obj)
            if p.wt[0] in ("opt", "ptr"):
                p = p.ext(("d",), p.wt[1])
            if p.wt == SINK:
                off, _ = tr.rv(args[0])
                d, _ = tr.rv(args[1])
                pre, post, ps = [], [], []
                tr.pass_ref(p, SINK, ps, pre, post)
                tr.may_raise = True
                t = tr.tmp("r")
                return "(%s let %s = (try sink_write %s %s %s with Throw -> (%s; raise Throw) end) in %s; %s)" % (
                    " ".join(pre), t, ps[0], par(off), par(d), "; ".join(post) or "()", "; ".join(post) or "()", t), BOOL
        return super().mcall_hook(tr, m, obj, args, n)

    def vardecl_hook(self, tr, d, name, init, ty):
        return False


def make():
    e = OmeEnv()
    e.load_contracts("zarr.common.ctr", "zarr.dimension.ctr", "ome.ctr")
    return e
