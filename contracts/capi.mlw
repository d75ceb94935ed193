(* Blocks allocated by new[]: identified by numbers; a block is live from its
   allocation to its deletion. *)
module Heap
  use Cxx.Cxx
  use map.Map
  type hmap = map int bool
  type nmap = map int int
  function hget (m: hmap) (k: int) : bool = Map.get m k
  function hset (m: hmap) (k: int) (v: bool) : hmap = Map.set m k v
  function nget (m: nmap) (k: int) : int = Map.get m k
  function nset (m: nmap) (k: int) (v: int) : nmap = Map.set m k v
  type block = { bid: int }
  type zstream = { sid: int }
  val heap_new (ref live: hmap) (ref len: nmap) (n: int) : block
    requires { [@expl:allocation size] n >= 0 }
    writes { live, len }
    ensures { not (hget (old live) result.bid) }
    ensures { live = hset (old live) result.bid true }
    ensures { len = nset (old len) result.bid n }
    raises { Throw -> live = old live /\ len = old len }
  val heap_delete (ref live: hmap) (p: option block) : unit
    requires { [@expl:delete of a block that is not live] forall b. p = Some b -> hget live b.bid }
    writes { live }
    ensures { forall b. p = Some b -> live = hset (old live) b.bid false }
    ensures { p = None -> live = old live }
  val stream_delete (ref live: hmap) (p: option zstream) : unit
    requires { [@expl:delete of a stream that is not live] forall b. p = Some b -> hget live b.sid }
    writes { live }
    ensures { forall b. p = Some b -> live = hset (old live) b.sid false }
    ensures { p = None -> live = old live }
  val new_stream (ref live: hmap) : zstream
    writes { live }
    ensures { not (hget (old live) result.sid) }
    ensures { live = hset (old live) result.sid true }
    raises { Throw -> live = old live }
  val stream_append (ref n_appends: int) (s: zstream) (n: int) : int
    writes { n_appends }
    ensures { n_appends = old n_appends + 1 }
    ensures { 0 <= result <= n }
    raises { Throw }
  val finalize_stream (ref live: hmap) (p: option zstream) : bool
    requires { [@expl:finalization of a stream that is not live] forall b. p = Some b -> hget live b.sid }
    ensures { p = None -> result }
  predicate owned (live: hmap) (d: option block) =
    match d with None -> true | Some b -> hget live b.bid end
end
