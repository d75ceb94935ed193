(* Jobs handed to the thread pool, and the latch their creator waits on. A job is
   run where it is pushed; its captured references are alive until it counts the
   latch down. *)
module Jobs
  use int.Int
  val job_alive (alive: bool) : unit
    requires { [@expl:captured state is used only while the creator waits] alive }
  val job_signal (ref alive: bool) : unit
    requires { [@expl:a job counts the latch down once] alive }
    ensures { not alive }
    writes { alive }
  val job_done (alive: bool) : unit
    requires { [@expl:a job counts the latch down on every path] not alive }
  val job_throws () : unit
    requires { [@expl:a job does not throw] false }
  val job_capture (outlives: bool) : unit
    requires { [@expl:what a job captures by reference outlives it] outlives }
  val latch_down (n: int) : int
    requires { [@expl:latch counted down no more often than created for] n > 0 }
    ensures { result = n - 1 }
  val latch_wait (n: int) : unit
    requires { [@expl:wait ends: one job per count of the latch] n = 0 }
  (* outcome of a job, given to the pool *)
  val job_result (ok: bool) (ref failed: bool) : unit
    writes { failed }
    ensures { failed = (old failed \/ not ok) }
end
