(* Store-level metadata: the OME multiscales document, groups, custom metadata. *)
module Ome
  use Cxx.Cxx
  use Types.Types
  use json.Json

  (* the metadata sinks by name; a name is the number its characters spell in base 256 after a leading 1 *)
  type smap = int -> option (option sinkobj)
  val mget (m: smap) (k: int) : option sinkobj
    requires { [@expl:the metadata object has a sink] m k <> None }
    ensures { m k = Some result }
  val mset (m: smap) (k: int) (v: option sinkobj) : smap
    ensures { result k = Some v } ensures { forall q. q <> k -> result q = m q }
  let rec ghost function skey (s: str) : int variant { length s } =
    if length s = 0 then 1 else 256 * skey s[.. length s - 1] + s[length s - 1]
  let lemma skey_empty (s: str) requires { length s = 0 } ensures { skey s = 1 } = ()
  let lemma skey_snoc (s: str) (c: int) ensures { skey (snoc s c) = 256 * skey s + c }
  = assert { (snoc s c)[.. length s] == s }
  let lemma skey_app0 (s t: str) requires { length t = 0 } ensures { skey (s ++ t) = skey s } = assert { s ++ t == s }
  let lemma skey_app (s t: str) (c: int) ensures { skey (s ++ snoc t c) = 256 * skey (s ++ t) + c }
  = assert { s ++ snoc t c == snoc (s ++ t) c }
  let lemma acquire_key () ensures { skey (str"meta/" ++ str"acquire.json") = skey"meta/acquire.json" } = ()
  val skey_ (s: str) : int ensures { result = skey s }

  (* d with b put at o, zeros between *)
  function overlay (d: seq int) (o: int) (b: seq int) : seq int
  axiom overlay_fresh: forall b. overlay empty 0 b = b
  val sink_write (ref s: sinkobj) (o: int) (b: seq int) : bool
    requires { 0 <= o }
    writes { s }
    ensures { s.sk_path = (old s).sk_path }
    ensures { result -> s.sk_data = overlay (old s).sk_data o b }
    raises { Throw -> s.sk_path = (old s).sk_path }

  let sspan (s: seq int) (o n: int) : seq int
    requires { [@expl:view within bounds] 0 <= o /\ 0 <= n /\ o + n <= length s }
    ensures { result = if o = 0 && n = length s then s else s[o .. o + n] }
  = if o = 0 && n = slen s then (assert { s[0 .. 0 + n] == s }; s) else Cxx.sspan s o n

  (* doubles: only 1 and powers of two occur *)
  type dbl
  function d_pow2 (n: int) : dbl
  val d_one () : dbl ensures { result = d_pow2 0 }
  val d_pow (b e: int) : dbl requires { [@expl:a power of two] b = 2 } ensures { result = d_pow2 e }
  function jnum_ (d: dbl) : json
  function jnums_ (s: seq dbl) : json
  axiom jnums_def: forall s. jkind (jnums_ s) = 2 /\ length (jelems (jnums_ s)) = length s /\ forall i [(jelems (jnums_ s))[i]]. 0 <= i < length s -> (jelems (jnums_ s))[i] = jnum_ s[i]
  val jnums (s: seq dbl) : json ensures { result = jnums_ s }

  function typename (t: int) : str =
    if t = 0 then str"space" else if t = 1 then str"channel" else if t = 2 then str"time" else if t = 3 then str"other" else str"(unknown)"

  function sdims (a: option arraydims) : seq zarrdim = match a with Some ad -> ad.ad_dims_ | None -> empty end
  predicate hasm (j: json) (k: int) (v: json) = jmem j k = Some v
  predicate nelems (j: json) (n: int) = jkind j = 2 /\ length (jelems j) = n
  predicate axis_doc (d: zarrdim) (spatial: bool) (j: json) =
    hasm j key"name" (jstr_ d.zd_name) /\ hasm j key"type" (jstr_ (typename d.zd_type)) /\
    jmem j key"unit" = if spatial then Some (jstr_ str"micrometer") else None
  predicate axes_upto (d: seq zarrdim) (n: int) (a: seq json) =
    length a = n /\ forall k. 0 <= k < n -> axis_doc d[k] (k >= length d - 2) a[k]
  predicate axes_doc (d: seq zarrdim) (j: json) = jkind j = 2 /\ axes_upto d (length d) (jelems j)
  predicate scales_of (n i: int) (s: seq dbl) =
    length s = n /\ forall k. 0 <= k < n -> s[k] = d_pow2 (if k = 0 || k >= n - 2 then i else 0)
  predicate scale_doc (n i: int) (j: json) =
    nelems j n /\ forall k. 0 <= k < n -> (jelems j)[k] = jnum_ (d_pow2 (if k = 0 || k >= n - 2 then i else 0))
  function level_name (i: int) : str = if i = 0 then str"0" else f_dec i
  predicate dataset_doc (n i: int) (j: json) =
    hasm j key"path" (jstr_ (level_name i)) /\
    (let t = jat_ j key"coordinateTransformations" in nelems t 1 /\
     (let u = (jelems t)[0] in hasm u key"type" (jstr_ str"scale") /\ scale_doc n i (jat_ u key"scale")))
  predicate datasets_upto (n l: int) (a: seq json) = length a = l /\ forall i. 0 <= i < l -> dataset_doc n i a[i]
  predicate datasets_doc (n l: int) (j: json) = jkind j = 2 /\ datasets_upto n l (jelems j)
  predicate multiscales_doc (d: seq zarrdim) (l: int) (j: json) =
    nelems j 1 /\
    (let m = (jelems j)[0] in jkind m = 1 /\ hasm m key"version" (jstr_ str"0.4") /\
     axes_doc d (jat_ m key"axes") /\ datasets_doc (length d) l (jat_ m key"datasets"))
  function axes_of (j: json) : seq json = jelems (jat_ (jelems j)[0] key"axes")
  function datasets_of (j: json) : seq json = jelems (jat_ (jelems j)[0] key"datasets")
  function levels (w: seq 'a) : int = if length w <= 1 then 1 else length w

  function sdata (m: smap) (k: int) : seq int = match m k with Some (Some s) -> s.sk_data | _ -> empty end
  (* the object named k got the text of doc and no other changed *)
  predicate wrote (m0 m1: smap) (k: int) (text: str) =
    (match m1 k with Some (Some s) -> s.sk_data = overlay (sdata m0 k) 0 text | _ -> false end)
  predicate others (m0 m1: smap) (k: int) = forall q. q <> k -> m1 q = m0 q
  predicate sinks_for (version: int) (m: smap) =
    if version = 2 then m skey".zattrs" <> None /\ m skey".zgroup" <> None /\ m skey"0/.zattrs" <> None /\ m skey"acquire.json" <> None
    else m skey"zarr.json" <> None /\ m skey"meta/root.group.json" <> None /\ m skey"meta/acquire.json" <> None

  let lemma scales_snoc2 (s: seq dbl) (a b: dbl)
    ensures { length (snoc (snoc s a) b) = length s + 2 }
    ensures { (snoc (snoc s a) b)[length s] = a /\ (snoc (snoc s a) b)[length s + 1] = b }
  = ()
  let lemma scales_build (n i: int) (s: seq dbl)
    requires { 3 <= n /\ length s = n /\ s[0] = d_pow2 i /\ s[n - 2] = d_pow2 i /\ s[n - 1] = d_pow2 i }
    requires { forall q. 1 <= q < n - 2 -> s[q] = d_pow2 0 }
    ensures { scales_of n i s }
  = assert { forall k. 0 <= k < n -> s[k] = d_pow2 (if k = 0 || k >= n - 2 then i else 0)
             by k = 0 \/ k = n - 2 \/ k = n - 1 \/ 1 <= k < n - 2 }
  let lemma scales_json (n i: int) (s: seq dbl)
    requires { scales_of n i s } ensures { scale_doc n i (jnums_ s) } = ()
  let lemma axes_step (d: seq zarrdim) (n: int) (a b: seq json)
    requires { axes_upto d n a /\ 0 <= n /\ length b = n + 1 }
    requires { forall k. 0 <= k < n -> b[k] = a[k] }
    requires { axis_doc d[n] (n >= length d - 2) b[n] }
    ensures { axes_upto d (n + 1) b }
  = assert { forall k. 0 <= k < n + 1 -> axis_doc d[k] (k >= length d - 2) b[k] by if k < n then b[k] = a[k] else k = n }
  let lemma datasets_step (n l: int) (a b: seq json)
    requires { datasets_upto n l a /\ 0 <= l /\ length b = l + 1 }
    requires { forall k. 0 <= k < l -> b[k] = a[k] }
    requires { dataset_doc n l b[l] }
    ensures { datasets_upto n (l + 1) b }
  = assert { forall k. 0 <= k < l + 1 -> dataset_doc n k b[k] by if k < l then b[k] = a[k] else k = l }
end
