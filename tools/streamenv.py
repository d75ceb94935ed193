"""The stream (zarr.stream.cpp) and string helpers (zarr.common.cpp)."""
from env import *
import cxx2why, cxxast

FILTERS["zarr.stream.cpp"] = ["ZarrStream", "validate_", "is_s3_acquisition", "is_compressed_acquisition", "dimension_type_to_string",
                              "ZarrS3Settings", "ZarrCompression", "ZarrDimension", "ZarrVersion", "ZarrDataType", "ArrayDimensions",
                              "ZarrStreamSettings", "ZarrCompressor", "finalize_stream", "filesystem::perms", "scale_image", "average_two_frames"]
CLASS_FILE["ZarrStream_s"] = "zarr.stream.cpp"

CSTR = ("ptr", STR)


class StreamTypes(TypeTable):
    # a pointer to characters may be null
    def parse(self, s):
        t = re.sub(r"\b(const|volatile)\b", "", s).replace(" ", "")
        if t in ("char*",):
            return CSTR
        return super().parse(s)


def S(n, p):
    return (n, p, "zarr.stream.cpp")


def bare(n):
    """the expression below casts, temporaries and copies"""
    n = strip(n)
    while n["kind"] in ("CXXConstructExpr", "ImplicitCastExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups") and len(inner(n)) == 1:
        n = strip(inner(n)[0])
    return n


class StreamEnv(Env):
    records_cfg = dict(RECORDS, ZarrStreamSettings_s=S("zsettings", "zs_"), ZarrS3Settings=S("s3set", "sq_"), ZarrCompressionSettings=S("cset", "cq_"),
                       ZarrDimensionProperties=S("dimprop", "dp_"), S3Settings=S("s3own", "so_"), CompressionSettings=S("cown", "co_"),
                       ArrayWriter=S("writerobj", "wr_"))
    enum_types = Env.enum_types + ("perms",)
    opaque = {"file_status": "str"}

    def __init__(self):
        super().__init__()
        self.types = StreamTypes({k: (v[0], v[1]) for k, v in self.records_cfg.items()}, self.enum_types, self.opaque)
        self.lib = ["dims.mlw", "settings.mlw", "stream.mlw"]
        opt = lambda r: ("opt", ("rec", r))
        ptr = lambda r: ("ptr", ("rec", r))
        u = INT("unsigned int")
        self._fields["ZarrStreamSettings_s"] = [
            ("store_path", CSTR), ("custom_metadata", CSTR), ("s3_settings", ptr("ZarrS3Settings")), ("compression_settings", ptr("ZarrCompressionSettings")),
            ("dimensions", ("ptr", ("seq", ("rec", "ZarrDimensionProperties")))), ("dimension_count", U64), ("multiscale", BOOL), ("data_type", u), ("version", u)]
        for r, f in (("S3Settings", ("endpoint", "bucket_name", "access_key_id", "secret_access_key")),):
            self._fields[r] = [(x, STR) for x in f]
        self._fields["CompressionSettings"] = [("compressor", u), ("codec", u), ("level", INT("unsigned char")), ("shuffle", INT("unsigned char"))]
        self._fields["ArrayWriter"] = [("bytes", U64), ("frames", ("seq", ("seq", BYTE)))]
        self.state = {"ZarrStream_s": {
            "writers_": ("g_writers", ("seq", ("opt", ("rec", "ArrayWriter")))), "frame_buffer_": ("g_fbuf", ("seq", BYTE)),
            "frame_buffer_offset_": ("g_foff", U64),
            "error_": ("g_error", STR), "version_": ("g_version", u), "store_path_": ("g_path", STR), "s3_settings_": ("g_s3", opt("S3Settings")),
            "compression_settings_": ("g_comp", opt("CompressionSettings")), "custom_metadata_": ("g_custom", STR), "dtype_": ("g_dtype", u),
            "dimensions_": ("g_dims", ("opt", ("rec", "ArrayDimensions"))), "multiscale_": ("g_multi", BOOL)}}

    ghosts = {"g_bytes": "ghost seq int", "g_fed": "ghost seq (seq int)"}

    def global_decls(self, c, tr):
        if not c.isstate:
            return []
        out = ["  val ref %s: %s" % (g, self.types.why(wt)) for f, (g, wt) in sorted(self.globals_of("ZarrStream_s").items())]
        return out + ["  val %sref %s: %s" % ("ghost " if t.startswith("ghost ") else "", g, t.replace("ghost ", "")) for g, t in self.ghosts.items()]

    # characters
    def deref_hook(self, tr, e, n):
        w = tr.try_nt(e)
        if w == CSTR:
            t, w = tr.rv(e)
            return "(cstr_first %s)" % par(t), INT("char")
        return None

    def ptr_hook(self, tr, n):
        if n["kind"] == "MemberExpr":
            p = tr.lv(n)
            if p.wt[0] == "ptr" and p.wt[1][0] == "seq":
                return p.ext(("d",), p.wt[1]), "0"
        if n["kind"] == "CallExpr":
            f, args = tr.fcall(n)
            if f == "find_if":
                r0, r1 = tr.ptr_of(args[0]), tr.ptr_of(args[1])
                if r0 and r1 and r0[0].root == r1[0].root and r0[0].acc == r1[0].acc:
                    return r0[0], "(find_if %s %s %s %s)" % (par(tr.pread(r0[0])), par(r0[1]), par(r1[1]), self.pred_of(tr, args[2]))
        if n["kind"] == "CXXMemberCallExpr":
            pass
        return None

    def rev_base(self, tr, n):
        """find_if(s.rbegin(), s.rend(), p).base() -> (place, term)"""
        n = bare(n)
        if n["kind"] != "CXXMemberCallExpr":
            return None
        m, obj, args = tr.mcall(n)
        if m != "base":
            return None
        o = bare(obj)
        if o["kind"] != "CallExpr" or tr.fcall(o)[0] != "find_if":
            return None
        _, a = tr.fcall(o)
        ps = []
        for x, want in ((a[0], "rbegin"), (a[1], "rend")):
            x = bare(x)
            if x["kind"] != "CXXMemberCallExpr" or tr.mcall(x)[0] != want:
                return None
            ps.append(tr.lv(tr.mcall(x)[1]))
        if ps[0].root != ps[1].root or ps[0].acc != ps[1].acc:
            return None
        return ps[0], "(find_last_if %s %s)" % (par(tr.pread(ps[0])), self.pred_of(tr, a[2]))

    def pred_of(self, tr, lam):
        """a lambda that returns a boolean of its parameter -> logical predicate"""
        while lam["kind"] != "LambdaExpr":
            lam = inner(lam)[0]
        op = cxx2why.lambda_op(lam)
        ps = params_of(op)
        body = inner(cxx2why.lambda_body(lam))
        if len(ps) != 1 or len(body) != 1 or body[0]["kind"] != "ReturnStmt":
            raise Unsupported("predicate", lam)
        save = dict(tr.vars)
        tr.vars[ps[0]["id"]] = Var("val", INT("char"), "ch")
        self.in_pred = True
        try:
            t = tr.cond(inner(body[0])[0])
        finally:
            tr.vars = save
            self.in_pred = False
        return "(fun (ch: int) -> %s)" % t

    in_pred = False

    def std_call_hook(self, tr, name, args, n, d):
        if name == "isspace":
            t, _ = tr.rv(args[0])
            return "(%s %s)" % ("f_isspace" if self.in_pred else "c_isspace", par(t)), I32
        if name in ("exists", "is_directory"):
            return "(fs_%s %s)" % (name, par(tr.rv(args[0])[0])), BOOL
        if name == "status":
            return tr.rv(args[0])[0], ("opaque", "str")
        return None

    def mcall_hook(self, tr, m, obj, args, n):
        if m == "write_frame" and len(args) == 1:
            p = tr.lv(obj)
            if p.wt == ("opt", ("rec", "ArrayWriter")):
                p = p.ext(("d",), p.wt[1])
            if p.wt == ("rec", "ArrayWriter"):
                tr.may_raise = True
                d = tr.coerce(args[0], ("seq", BYTE))
                return "(let (w_, r_) = writer_put %s %s in %s; r_)" % (par(tr.pread(p)), par(d), tr.pwrite(p, "w_")), U64
        if m == "permissions":
            return "(fs_perms %s)" % par(tr.rv(obj)[0]), INT("unsigned int")
        if m == "parent_path":
            return "(fs_parent %s)" % par(tr.rv(obj)[0]), STR
        if m == "is_discarded":
            return "(json_discarded %s)" % par(tr.rv(obj)[0]), BOOL
        if m == "erase" and len(args) == 2:
            p = tr.lv(obj)
            r0, r1 = (tr.ptr_of(a) or self.rev_base(tr, a) for a in args)
            if p.wt == STR and r0 and r1 and all(r[0].root == p.root and r[0].acc == p.acc for r in (r0, r1)):
                return "(%s)" % tr.pwrite(p, "(serase %s %s %s)" % (par(tr.pread(p)), par(r0[1]), par(r1[1]))), UNIT
        return None

    def opcall_hook(self, tr, op, args, n):
        if op in ("operator&", "operator|") and len(args) == 2:
            ts = [tr.rv(a) for a in args]
            if all(w[0] == "int" for _, w in ts):
                a, b = (x[0] for x in ts)
                if all(re.match(r"^\d+$", x) for x in (a, b)):
                    return str(int(a) & int(b) if op == "operator&" else int(a) | int(b)), INT("unsigned int")
                return "(bit_%s %s %s)" % ("and" if op == "operator&" else "or", par(a), par(b)), INT("unsigned int")
        return None

    def vardecl_hook(self, tr, d, name, init, ty):
        if "json" in ty and init is not None:
            x = strip(init)
            while x["kind"] in ("CXXConstructExpr", "ImplicitCastExpr") and len(inner(x)) == 1:
                x = strip(inner(x)[0])
            if x["kind"] == "CallExpr" and tr.fcall(x)[0] == "parse":
                a = tr.fcall(x)[1]
                nm = tr.fresh(name)
                t, w = tr.rv(a[0])
                if w[0] in ("ptr", "opt"):
                    t = "(cstr_get %s)" % par(t)
                # no exceptions: the third argument is false
                if len(a) < 3 or tr.rv(a[2])[0] != "false":
                    tr.may_raise = True
                    raise Unsupported("json::parse with exceptions", init)
                tr.emit("let %s = json_parse %s in" % (nm, par(t)))
                tr.vars[d["id"]] = Var("val", ("parsed",), nm)
                return True
        return False

    # construction of dimensions
    def construct_rec(self, tr, n, xs, wt):
        if wt[1] in ("S3Settings", "CompressionSettings") and n["kind"] == "InitListExpr" and len(xs) == 4:
            fs = self.rec_fields(wt[1])
            pf = self.records_cfg[wt[1]][1]
            return "{ %s }" % "; ".join("%s%s = %s" % (pf, f, tr.coerce(x, t)) for (f, t), x in zip(fs, xs)), wt
        return super().construct_rec(tr, n, xs, wt)

    def construct_rec_args(self, tr, args, el):
        if el == ("rec", "ZarrDimension"):
            return self.dimension_ctor(tr, args)
        return super().construct_rec_args(tr, args, el)

    def dimension_ctor(self, tr, args):
        """ZarrDimension(name, type, array, chunk, shard), from the initializers of its constructor"""
        tu = self.tu("zarr.dimension.cpp")
        c = [o for o in tu.decl.values() if o.get("kind") == "CXXConstructorDecl" and o.get("name") == "ZarrDimension" and len(params_of(o)) == 5 and has_body(o)]
        if not c:
            raise Unsupported("constructor of ZarrDimension")
        c = c[0]
        if inner(body_of(c)):
            raise Unsupported("constructor of ZarrDimension has a body")
        vals = {}
        for p, a in zip(params_of(c), args):
            q = p["type"]["qualType"]
            t = tr.coerce(a, StreamTypes.parse(self.types, qt(p)))
            vals[p["name"]] = t
        out = {}
        for i in inner(c):
            if i["kind"] == "CXXCtorInitializer":
                f = i["anyInit"]["name"]
                x = inner(i)[0]
                while x["kind"] != "DeclRefExpr":
                    x = inner(x)[0]
                out[f] = vals[x["referencedDecl"]["name"]]
        fs = self.rec_fields("ZarrDimension")
        return "{ %s }" % "; ".join("zd_%s = %s" % (f, out[f]) for f, _ in fs)

    def call_hook(self, tr, n, callee):
        d = callee.get("referencedDecl") or {}
        if d.get("name") == "make_shared" and "ArrayDimensions" in qt(n):
            a = inner(n)[1:]
            x, _ = tr.rv(a[0])
            y, _ = tr.rv(a[1])
            tr.may_raise = True
            return "(Some (new_dims %s %s))" % (par(x), par(y)), ("opt", ("rec", "ArrayDimensions"))
        return None


def make():
    e = StreamEnv()
    e.load_contracts("zarr.common.ctr", "zarr.dimension.ctr", "zarr.stream.ctr")
    return e
