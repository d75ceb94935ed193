"""Parser of the contract files (/verif/contracts/*.ctr)."""
import re, os, glob


class Loop:
    def __init__(self):
        self.specs = []
        self.ghost = {}
        self.shape = None


class Param:
    def __init__(self, name):
        self.name = name
        self.mode = None
        self.skip = False
        self.default = None
        self.wt = None
        self.hook = None
        self.off = None


class Contract:
    def __init__(self, key):
        self.key = key
        self.name = key
        self.whyname = "f_" + re.sub(r"[^A-Za-z0-9]+", "_", key)
        self.file = None
        self.sig = key
        self.cls = None
        self.this_mode = None
        self.argnames = None
        self.argspec = {}
        self.params = []
        self.locals = None
        self.requires = []
        self.ensures = []
        self.xensures = []
        self.writes = []
        self.raises = False
        self.loops = {}
        self.jobs = {}
        self.conds = {}
        self.ghost = {}
        self.uses = []
        self.trusted = False
        self.ret = None
        self.rettype = None
        self.decls = []
        self.opts = {}
        self.src = None

    @property
    def isstate(self):
        return self.this_mode == "state"


def parse(path, subst=None):
    out = []
    cur = None
    loop = None
    last = None      # (list, index) for continuation
    for ln, line in enumerate(open(path), 1):
        s = line.strip()
        for k, v in (subst or {}).items():
            s = s.replace("{%s}" % k, v)
        if not s or s.startswith("#"):
            continue
        if s.startswith("|"):
            if last is None:
                raise ValueError("%s:%d continuation" % (path, ln))
            lst, i = last
            if isinstance(lst[i], tuple):
                lst[i] = (lst[i][0], lst[i][1] + "\n      " + s[1:].strip())
            else:
                lst[i] += "\n      " + s[1:].strip()
            continue
        w, _, rest = s.partition(" ")
        rest = rest.strip()
        if w == "fn":
            cur = Contract(rest)
            cur.src = (path, ln)
            out.append(cur)
            loop = None
            last = None
            continue
        if w == "loop":
            loop = Loop()
            cur.loops[int(rest)] = loop
            continue
        if w in ("job", "cond"):   # a job handed to the thread pool; a condition that calls
            loop = Loop()
            loop.job = True
            (cur.jobs if w == "job" else cur.conds)[int(rest)] = loop
            continue
        if w in ("invariant", "variant") or (w == "ensures" and getattr(loop, "job", False)):
            loop.specs.append((w, rest))
            last = (loop.specs, len(loop.specs) - 1)
            continue
        if w == "ghost":
            where, _, txt = rest.partition(":")
            tgt = (loop.ghost if loop is not None else cur.ghost).setdefault(where.strip(), [])
            tgt.append(txt.strip())
            last = (tgt, len(tgt) - 1)
            continue
        if w == "body":          # leave the loop section
            loop = None
            continue
        if w == "requires":
            cur.requires.append(rest)
            last = (cur.requires, len(cur.requires) - 1)
        elif w == "ensures":
            cur.ensures.append(rest)
            last = (cur.ensures, len(cur.ensures) - 1)
        elif w == "xensures":
            cur.raises = True
            cur.xensures.append(rest)
            last = (cur.xensures, len(cur.xensures) - 1)
        elif w == "raises":
            cur.raises = rest == "yes"
        elif w == "file":
            cur.file = rest
        elif w == "sig":
            cur.sig = rest
        elif w == "this":
            p = rest.split()
            cur.this_mode = p[0]
            if len(p) > 1:
                cur.cls = p[1]
        elif w == "args":
            cur.argnames = rest.split()
        elif w == "arg":
            p = rest.split(None, 2)
            cur.argspec[p[0]] = (p[1], p[2] if len(p) > 2 else None)
        elif w == "locals":
            cur.locals = (cur.locals or []) + rest.split()
        elif w == "writes":
            cur.writes += rest.split()
        elif w == "use":
            cur.uses += rest.split()
        elif w == "trusted":
            cur.trusted = rest or True
        elif w == "returns":
            cur.rettype = rest
        elif w == "decl":
            cur.decls.append(rest)
            last = (cur.decls, len(cur.decls) - 1)
        elif w == "like":        # the clauses of another contract (an override of a virtual method)
            o = [c for c in out if c.key == rest][0]
            cur.requires += o.requires
            cur.ensures += o.ensures
            cur.xensures += o.xensures
            cur.raises = cur.raises or o.raises
            cur.writes += [x for x in o.writes if x not in cur.writes]
            cur.uses += [x for x in o.uses if x not in cur.uses]
            last = None
        elif w == "opt":
            k, _, v = rest.partition(" ")
            cur.opts[k] = v or True
        elif w == "end":
            cur = None
            loop = None
        else:
            raise ValueError("%s:%d unknown keyword %s" % (path, ln, w))
    return out
