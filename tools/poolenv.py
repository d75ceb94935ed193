"""The thread pool (thread.pool.cpp) and the connection pool (s3.connection.cpp) as monitors."""
from env import *
import cxx2why

FILTERS["thread.pool.cpp"] = ["ThreadPool"]
FILTERS.setdefault("s3.connection.cpp", ["S3Connection"])
CLASS_FILE["ThreadPool"] = "thread.pool.cpp"
CLASS_FILE["S3ConnectionPool"] = "s3.connection.cpp"
JOB, CONN = ("opaque", "job"), ("opaque", "conn")
JARGS = "g_jobs g_pushed g_taken g_acc g_pushed0 g_taken0 g_acc0"


class PoolEnv(Env):
    records_cfg = {}
    opaque = {"function": "job", "Task": "job", "S3Connection": "conn", "thread": "thr"}
    guards = {"g_jobs": "g_lock", "g_free": "g_clock"}
    wguards = {"g_acc": "g_lock"}
    mutexes = {("ThreadPool", "jobs_mutex_"): dict(acquire="jobs_acquire g_lock " + JARGS, release="jobs_release g_lock g_jobs g_pushed g_taken"),
               ("S3ConnectionPool", "connections_mutex_"): dict(acquire="conns_acquire g_clock g_free g_held g_total g_mine g_free0 g_held0", release="conns_release g_clock g_free")}

    def __init__(self):
        super().__init__()
        self.lib = ["pools.mlw"]
        self.state = {"ThreadPool": {"jobs_": ("g_jobs", ("seq", JOB)), "is_accepting_jobs_": ("g_acc", BOOL), "threads_": ("g_threads", ("seq", ("opaque", "thr")))},
                      "S3ConnectionPool": {"connections_": ("g_free", ("seq", ("opt", CONN))), "is_accepting_connections_": ("g_open", BOOL)}}

    def types_module(self):
        return "module Types\n  use export Cxx.Cxx\n  use export pools.Pools\n  type thr = int\nend\n"

    def global_decls(self, c, tr):
        if c.cls == "ThreadPool":
            return ["val ref g_jobs: seq job", "val ref g_pushed: seq job", "val ref g_taken: int", "val ref g_acc: bool", "val ref g_pushed0: seq job",
                    "val ref g_taken0: int", "val ref g_acc0: bool", "val ref g_lock: bool", "val ref g_mine: seq job", "val ref g_ran: seq job",
                    "val ref g_failed: seq str", "val ref g_reported: seq str", "val ref g_notified: int", "val ref g_threads: seq int", "val ref g_started: int",
                    "val constant g_hw: int ensures { result >= 0 }"]
        return ["val ref g_free: seq (option conn)", "val ref g_held: F.fset int", "val ref g_open: bool", "val ref g_clock: bool", "val constant g_total: int",
                "val ref g_mine: F.fset int", "val ref g_free0: seq (option conn)", "val ref g_held0: F.fset int", "val ref g_notified: int"]

    def frame_globals(self, c):
        return [g for f, (g, wt) in sorted(self.globals_of(c.cls).items()) if g not in c.writes]

    def field_of(self, n):
        n = strip(n)
        while n["kind"] == "ImplicitCastExpr":
            n = strip(inner(n)[0])
        return n.get("name") if n["kind"] == "MemberExpr" else None

    def mcall_hook(self, tr, m, obj, args, n):
        f = self.field_of(obj)
        if f == "cv_":
            if m == "notify_one":
                return "(notify_one g_notified)", UNIT
            if m == "notify_all":
                return "(notify_all g_notified)", UNIT
            if m == "wait":
                w = "jobs_wait g_lock " + JARGS if tr.cls == "ThreadPool" else "conns_wait g_clock g_free g_held g_open g_total g_mine g_free0 g_held0"
                o = strip(args[0])
                v = tr.lookup(o) if o["kind"] == "DeclRefExpr" else None
                if v is None or v.kind != "lock" or v.extra is None:
                    raise Unsupported("wait without a modelled lock", n)
                if len(args) == 1:
                    return "(%s)" % w, UNIT
                lam = strip(args[1])
                while lam["kind"] != "LambdaExpr":
                    lam = strip(inner(lam)[0])
                t, _ = tr.inline_lambda(Var("lambda", None, "pred", node=lam), [], n)
                p = tr.tmp("p")
                return "(%s; let %s = %s in assume { %s })" % (w, p, t, p), UNIT
        if f == "jobs_" and tr.cls == "ThreadPool":
            if m in ("push", "emplace"):
                t, _ = tr.rv(args[0])
                return "(ghost (if pure { jobs_inv g_jobs g_pushed g_taken } then pushed_inv g_jobs g_pushed g_taken %s); jobs_push g_lock g_jobs g_pushed %s)" % (par(t), par(t)), UNIT
            if m == "pop":
                return "(ghost (if pure { jobs_inv g_jobs g_pushed g_taken /\\ Seq.length g_jobs > 0 } then popped_inv g_jobs g_pushed g_taken); jobs_pop g_lock g_jobs g_taken g_mine)", UNIT
        if f == "connections_" and m == "push_back":
            t, w = tr.rv(args[0])
            return ("(let c' = %s in ghost (match c' with None -> () | Some c'' -> if pure { conns_inv g_free g_held0 g_total /\\ F.mem c''.c_id g_held0 } then give_back_inv g_free g_held0 g_total c'' end); "
                    "under_lock g_clock; g_free <- spush g_free c')" % t), UNIT
        if f == "connections_" and m == "pop_back":
            return ("(ghost (if pure { conns_inv g_free g_held0 g_total /\\ Seq.length g_free > 0 } then lend_inv g_free g_held0 g_total); "
                    "under_lock g_clock; g_free <- spop_back g_free)"), UNIT
        if f == "threads_" and m in ("emplace_back",) and len(args) == 1:
            lam = strip(args[0])
            while lam["kind"] != "LambdaExpr" and inner(lam):
                lam = strip(inner(lam)[0])
            if lam["kind"] != "LambdaExpr":
                raise Unsupported("thread of something else", n)
            b = [x for x in inner(lambda_body(lam))]
            x = strip(b[0]) if len(b) == 1 else None
            if x is None or x["kind"] != "CXXMemberCallExpr" or tr.mcall(x)[0] != "process_tasks_":
                raise Unsupported("thread of something else", n)
            return "(g_started <- g_started + 1; g_threads <- spush g_threads 1)", UNIT
        if m in ("joinable", "join") and "thread" in qt(obj):
            p = tr.lv(obj)
            if m == "joinable":
                return "(%s = 1)" % tr.pread(p), BOOL
            return "(%s)" % tr.pwrite(p, "(th_join g_lock %s)" % par(tr.pread(p))), UNIT
        return None

    def opcall_hook(self, tr, op, args, n):
        if op != "operator()":
            return None
        f = self.field_of(args[0])
        if f == "error_handler_":
            t, _ = tr.rv(args[1])
            return "(report g_lock %s g_reported)" % par(t), UNIT
        t, w = tr.rv(args[0])
        if w == JOB and len(args) == 2:
            p = tr.lv(args[1])
            if p.acc:
                raise Unsupported("job message", n)
            return "(run_job g_lock %s g_ran %s g_failed)" % (par(t), p.root), BOOL
        raise Unsupported("call", n)

    def call_hook(self, tr, n, callee):
        d = callee.get("referencedDecl") or {}
        if d.get("name") == "hardware_concurrency":
            return "g_hw", U32
        return None


def make():
    e = PoolEnv()
    e.load_contracts("thread.pool.ctr", "s3.connection.ctr")
    return e
