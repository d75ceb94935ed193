(* The job queue and the connection pool as monitors: taking the lock may find
   anything other threads may have done, within the invariant. *)
module Pools
  use int.Int
  use seq.Seq
  use option.Option
  use set.Fset as F
  use export Cxx.Cxx
  type job = { j_id: int }
  (* accepted jobs, in order; those taken; those still queued *)
  predicate jobs_inv (jobs pushed: seq job) (taken: int) = 0 <= taken <= length pushed /\ jobs = pushed[taken ..]
  predicate later (pushed0 pushed: seq job) (taken0 taken: int) (acc0 acc: bool) =
    taken0 <= taken /\ length pushed0 <= length pushed /\ pushed[.. length pushed0] = pushed0 /\
    (not acc0 -> not acc /\ pushed = pushed0)
  val jobs_acquire (ref lock: bool) (ref jobs: seq job) (ref pushed: seq job) (ref taken: int) (ref acc: bool) (ref pushed0: seq job) (ref taken0: int) (ref acc0: bool) : unit
    requires { [@expl:a lock is not taken twice] not lock }
    writes { lock, jobs, pushed, taken, acc, pushed0, taken0, acc0 }
    ensures { lock /\ jobs_inv jobs pushed taken }
    ensures { later (old pushed) pushed (old taken) taken (old acc) acc }
    ensures { pushed0 = pushed /\ taken0 = taken /\ acc0 = acc }
  val jobs_release (ref lock: bool) (jobs pushed: seq job) (taken: int) : unit
    requires { [@expl:the queue holds the accepted jobs not yet taken] jobs_inv jobs pushed taken }
    requires { lock }
    writes { lock }
    ensures { not lock }
  val jobs_wait (lock: bool) (ref jobs: seq job) (ref pushed: seq job) (ref taken: int) (ref acc: bool) (ref pushed0: seq job) (ref taken0: int) (ref acc0: bool) : unit
    requires { [@expl:waiting needs the lock] lock }
    requires { [@expl:the queue holds the accepted jobs not yet taken] jobs_inv jobs pushed taken }
    writes { jobs, pushed, taken, acc, pushed0, taken0, acc0 }
    ensures { jobs_inv jobs pushed taken }
    ensures { later (old pushed) pushed (old taken) taken (old acc) acc }
    ensures { pushed0 = pushed /\ taken0 = taken /\ acc0 = acc }
  (* queue operations; the ghost logs follow *)
  let jobs_push (lock: bool) (ref jobs: seq job) (ref pushed: seq job) (j: job) : unit
    requires { [@expl:shared state is used under its lock] lock }
    writes { jobs, pushed }
    ensures { jobs = snoc (old jobs) j /\ pushed = snoc (old pushed) j }
  = jobs <- snoc jobs j; pushed <- snoc pushed j
  val jobs_pop (lock: bool) (ref jobs: seq job) (ref taken: int) (ref mine: seq job) : unit
    requires { [@expl:shared state is used under its lock] lock }
    requires { [@expl:pop of empty container] length jobs > 0 }
    writes { jobs, taken, mine }
    ensures { jobs = (old jobs)[1 ..] /\ taken = old taken + 1 /\ mine = snoc (old mine) (old jobs)[0] }
  let ghost pushed_inv (jobs pushed: seq job) (taken: int) (j: job)
    requires { jobs_inv jobs pushed taken }
    ensures { jobs_inv (snoc jobs j) (snoc pushed j) taken }
  = assert { snoc jobs j == (snoc pushed j)[taken ..] }
  let ghost popped_inv (jobs pushed: seq job) (taken: int)
    requires { jobs_inv jobs pushed taken /\ length jobs > 0 }
    ensures { jobs_inv jobs[1 ..] pushed (taken + 1) /\ jobs[0] = pushed[taken] }
  = assert { jobs[1 ..] == pushed[taken + 1 ..] }
  (* running a job: outside the lock; what it reports when it fails *)
  val run_job (lock: bool) (j: job) (ref ran: seq job) (ref msg: str) (ref failed: seq str) : bool
    requires { [@expl:jobs run outside the lock] not lock }
    writes { ran, msg, failed }
    ensures { ran = snoc (old ran) j }
    ensures { failed = if result then old failed else snoc (old failed) msg }
  val report (lock: bool) (msg: str) (ref reported: seq str) : unit
    requires { [@expl:errors are reported outside the lock] not lock }
    writes { reported }
    ensures { reported = snoc (old reported) msg }
  val notify_one (ref n: int) : unit  writes { n } ensures { n >= 1 }
  val notify_all (ref n: int) : unit  writes { n } ensures { n = 2 }
  (* threads: 1 running (joinable), 0 joined *)
  val th_join (lock: bool) (t: int) : int
    requires { [@expl:only running threads are joined] t = 1 }
    requires { [@expl:threads are joined outside the lock] not lock }
    ensures { result = 0 }

  (* connections: those in the pool and those lent, all distinct *)
  type conn = { c_id: int }
  predicate conns_inv (free: seq (option conn)) (held: F.fset int) (total: int) =
    (forall i. 0 <= i < length free -> match free[i] with None -> false | Some c -> not (F.mem c.c_id held) end) /\
    (forall i j. 0 <= i < j < length free -> match free[i], free[j] with Some a, Some b -> a.c_id <> b.c_id | _ -> false end) /\
    length free + F.cardinal held = total
  val conns_acquire (ref lock: bool) (ref free: seq (option conn)) (ref held: F.fset int) (total: int) (mine: F.fset int) (ref free0: seq (option conn)) (ref held0: F.fset int) : unit
    requires { [@expl:a lock is not taken twice] not lock }
    writes { lock, free, held, free0, held0 }
    ensures { lock /\ conns_inv free held total /\ F.subset mine held /\ free0 = free /\ held0 = held }
  val conns_release (ref lock: bool) (free: seq (option conn)) : unit
    requires { lock }
    requires { [@expl:no null connection is kept in the pool] forall i. 0 <= i < length free -> free[i] <> None }
    writes { lock }
    ensures { not lock }
  val conns_wait (lock: bool) (ref free: seq (option conn)) (ref held: F.fset int) (ref acc: bool) (total: int) (mine: F.fset int) (ref free0: seq (option conn)) (ref held0: F.fset int) : unit
    requires { [@expl:waiting needs the lock] lock }
    writes { free, held, acc, free0, held0 }
    ensures { conns_inv free held total /\ F.subset mine held /\ free0 = free /\ held0 = held }
  let ghost lend_inv (free: seq (option conn)) (held: F.fset int) (total: int)
    requires { conns_inv free held total /\ length free > 0 }
    ensures { match free[length free - 1] with Some c -> not (F.mem c.c_id held) /\ conns_inv free[.. length free - 1] (F.add c.c_id held) total | None -> false end }
  = match free[length free - 1] with
    | Some c -> assert { F.cardinal (F.add c.c_id held) = F.cardinal held + 1 }
    | None -> absurd end
  let ghost give_back_inv (free: seq (option conn)) (held: F.fset int) (total: int) (c: conn)
    requires { conns_inv free held total /\ F.mem c.c_id held }
    ensures { conns_inv (snoc free (Some c)) (F.remove c.c_id held) total }
  = assert { F.cardinal (F.remove c.c_id held) = F.cardinal held - 1 };
    let r = snoc free (Some c) in
    assert { forall i. 0 <= i < length free -> r[i] = free[i] };
    assert { r[length free] = Some c };
    assert { forall i. 0 <= i < length r -> match r[i] with None -> false | Some d -> not (F.mem d.c_id (F.remove c.c_id held)) end };
    assert { forall i j. 0 <= i < j < length r -> match r[i], r[j] with Some a, Some b -> a.c_id <> b.c_id | _ -> false end }
end
