"""Array metadata: write_array_metadata_ of both writers."""
from env import *
from arrenv import *
from jsonlib import *




class MetaEnv(JsonMix, ArrEnv):
    def __init__(self):
        super().__init__()
        self.lib = self.lib + ["json.mlw", "metadata.mlw"]
        self.ghosts = dict(self.ghosts, g_doc="ghost json")

    def ghosts_for(self, c):
        return {g: t for g, t in self.ghosts.items() if g != "g_doc" or "json.Json" in c.uses}

    def contract_for_fn(self, tr, name, d, args):
        if name == "sample_type_to_dtype":
            c = self.contracts["v%s::sample_type_to_dtype" % ("3" if "zarrv3" in tr.c.file else "2")]
            self.resolve(c)
            return c
        return super().contract_for_fn(tr, name, d, args)

    def mcall_hook(self, tr, m, obj, args, n):
        r = self.json_mcall(tr, m, obj, args, n)
        return r if r is not None else super().mcall_hook(tr, m, obj, args, n)


def make():
    e = MetaEnv()
    e.load_contracts("zarr.common.ctr", "zarr.dimension.ctr", "array.writer.ctr", "metadata.ctr")
    return e
