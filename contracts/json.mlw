(* nlohmann::json as values. *)
module Json
  use Cxx.Cxx

  type json
  (* 0 null, 1 object, 2 array, 3 number or string *)
  function jkind (j: json) : int
  function jmem (j: json) (k: int) : option json
  function jelems (j: json) : seq json
  constant jnull_ : json
  axiom jnull_def: jkind jnull_ = 0 /\ jelems jnull_ = empty /\ forall k. jmem jnull_ k = None
  val jnull () : json ensures { result = jnull_ }
  constant jobj0_ : json
  axiom jobj0_def: jkind jobj0_ = 1 /\ forall k. jmem jobj0_ k = None
  val jobj0 () : json ensures { result = jobj0_ }
  function jarr_ (s: seq json) : json
  axiom jarr_def: forall s. jkind (jarr_ s) = 2 /\ jelems (jarr_ s) = s
  val jarr (s: seq json) : json ensures { result = jarr_ s }
  function jint_ (n: int) : json
  axiom jint_def: forall n. jkind (jint_ n) = 3
  val jint (n: int) : json ensures { result = jint_ n }
  function jstr_ (s: str) : json
  axiom jstr_def: forall s. jkind (jstr_ s) = 3
  val jstr (s: str) : json ensures { result = jstr_ s }
  (* an array of numbers *)
  function jints_ (s: seq int) : json
  axiom jints_def: forall s. jkind (jints_ s) = 2 /\ length (jelems (jints_ s)) = length s /\ forall i [(jelems (jints_ s))[i]]. 0 <= i < length s -> (jelems (jints_ s))[i] = jint_ s[i]
  val jints (s: seq int) : json ensures { result = jints_ s }

  (* j[k] = v, on an object or null *)
  function jset_ (j: json) (k: int) (v: json) : json
  axiom jset_kind: forall j k v. jkind (jset_ j k v) = 1
  axiom jset_mem: forall j k v q. jkind j <= 1 -> jmem (jset_ j k v) q = if q = k then Some v else jmem j q
  val jset (j: json) (k: int) (v: json) : json
    requires { [@expl:a member of an object] 0 <= jkind j <= 1 }
    ensures { result = jset_ j k v }
  (* j[k] to be assigned to: null when it is new *)
  function jat_ (j: json) (k: int) : json = match jmem j k with Some v -> v | None -> jnull_ end
  let lemma jat_set (j: json) (k: int) (v: json) (q: int)
    requires { jkind j <= 1 } ensures { jat_ (jset_ j k v) q = if q = k then v else jat_ j q }
  = if q = k then assert { jmem (jset_ j k v) q = Some v } else assert { jmem (jset_ j k v) q = jmem j q }
  val jat (j: json) (k: int) : json
    requires { [@expl:a member of an object] 0 <= jkind j <= 1 }
    ensures { result = jat_ j k }
  val jnth (j: json) (i: int) : json
    requires { [@expl:an element of an array] jkind j = 0 \/ jkind j = 2 }
    requires { [@expl:an element of an array] 0 <= i }
    ensures { result = if i < length (jelems j) then (jelems j)[i] else jnull_ }
  val jsetn (j: json) (i: int) (v: json) : json
    requires { [@expl:an element of an array] jkind j = 0 \/ jkind j = 2 }
    requires { [@expl:an element of an array] 0 <= i }
    ensures { (jelems result)[i] = v }
    ensures { jkind result = 2 /\ length (jelems result) = (if i < length (jelems j) then length (jelems j) else i + 1) }
    ensures { forall k. 0 <= k < length (jelems result) -> (jelems result)[k] = if k = i then v else if k < length (jelems j) then (jelems j)[k] else jnull_ }
  val jpush (j: json) (v: json) : json
    requires { [@expl:an element of an array] jkind j = 0 \/ jkind j = 2 }
    ensures { result = jarr_ (snoc (jelems j) v) }
  (* the text of a value: what parses to it *)
  function jdump_ (j: json) : str
  axiom jdump_len: forall j. 0 < length (jdump_ j) <= 0x7fff_ffff_ffff_ffff
  val jdump (j: json) : str ensures { result = jdump_ j }
  function jparse_ (s: str) : json
  val jparse (s: str) : json ensures { result = jparse_ s }
end
