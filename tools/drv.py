"""Verify contracted functions: driver used by check.py and by hand."""
import os, sys, time, shutil, tempfile, json, hashlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prove
from cxx2why import Unsupported
from cxxast import AstError
import concurrent.futures as cf


def write_lib(env, d, extra=()):
    os.makedirs(d, exist_ok=True)
    import env as E
    open(os.path.join(d, "Cxx.mlw"), "w").write(open(E.CDIR + "/cxx.mlw").read())
    open(os.path.join(d, "Types.mlw"), "w").write(env.types_module())
    for f in extra:
        open(os.path.join(d, f), "w").write(E.spec_literals(open(os.path.join(E.CDIR, f)).read()))


def gen(env, keys, work):
    """-> {key: dict(file=..., info=..., error=...)}"""
    os.makedirs(work, exist_ok=True)
    out = {}
    for k in keys:
        c = env.contracts[k]
        try:
            txt, info = env.make_goal(c)
            f = os.path.join(work, c.whyname + ".mlw")
            open(f, "w").write(txt)
            out[k] = {"file": f, "info": info, "sha": hashlib.sha256(txt.encode()).hexdigest()}
        except (Unsupported, AstError) as e:
            out[k] = {"error": str(e)}
        except (KeyError, IndexError, AttributeError, TypeError) as e:
            out[k] = {"error": "internal: %r %s" % (e, traceback.format_exc()[-600:])}
    return out


def gen_closure(env, roots, work, vacuity=True):
    """goals of the roots and of every contracted callee, transitively"""
    os.makedirs(work, exist_ok=True)
    out = {}
    todo = list(roots)
    while todo:
        k = todo.pop(0)
        if k in out:
            continue
        c = env.contracts[k]
        if c.trusted:
            out[k] = {"trusted": c.trusted}
            continue
        out.update(gen(env, [k], work))
        x = out[k]
        if "info" in x:
            todo += [q for q in x["info"]["callees"] if q not in out]
            if vacuity:
                try:
                    txt, _ = env.make_goal(c, vacuity=True)
                    x["vfile"] = os.path.join(work, "vac_" + c.whyname + ".mlw")
                    open(x["vfile"], "w").write(txt)
                except Exception:
                    pass
    return out
