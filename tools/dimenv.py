from env import *


def make():
    e = Env()
    e.lib = ["dims.mlw"]
    e.load_contracts("zarr.common.ctr", "zarr.dimension.ctr")
    return e
