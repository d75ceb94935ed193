(* An object store as seen by one sink, and the connections it borrows. *)
module S3
  use Types.Types
  use Cxx.Cxx
  use seq.Seq
  meta "select_alginst" "all"
  meta "select_inst" "all"
  meta "select_lsinst" "all"
  meta "select_lskept" "all"
  constant ps: int = 5242880
  (* one multipart upload at the server *)
  type upload = { u_id: str; u_parts: seq (seq int); u_tags: seq str }
  let rec function cat_parts (p: seq (seq int)) (n: int) : seq int
    requires { 0 <= n <= length p }
    variant { n }
  = if n = 0 then empty else cat_parts p (n-1) ++ p[n-1]
  let rec ghost cat_parts_ext (p q: seq (seq int)) (n: int)
    requires { 0 <= n <= length p /\ n <= length q }
    requires { forall k. 0 <= k < n -> p[k] = q[k] }
    ensures { cat_parts p n = cat_parts q n }
    variant { n }
  = if n > 0 then cat_parts_ext p q (n-1)
  let rec ghost cat_parts_len (p: seq (seq int)) (n: int)
    requires { 0 <= n <= length p }
    requires { forall k. 0 <= k < n -> length p[k] = ps }
    ensures { length (cat_parts p n) = ps * n }
    variant { n }
  = if n > 0 then cat_parts_len p (n-1)
  function cat_all (p: seq (seq int)) : seq int = cat_parts p (length p)
  let ghost cat_snoc (p: seq (seq int)) (x: seq int)
    ensures { cat_all (snoc p x) = cat_all p ++ x }
  = cat_parts_ext p (snoc p x) (length p)

  (* the client's list of parts is the server's *)
  predicate same_parts (l: seq mppart) (u: upload) =
    length l = length u.u_parts /\ length u.u_tags = length l /\
    (forall k. 0 <= k < length l -> l[k].mp_number = k + 1 /\ l[k].mp_etag = u.u_tags[k])
  predicate full_parts (u: upload) (n: int) = forall k. 0 <= k < n -> length u.u_parts[k] = ps

  (* the state of a sink: bytes uploaded so far, then bytes buffered *)
  predicate sink_ok (nb nf: int) (mp: option mpupload) (up: option upload) =
    0 <= nb <= ps /\
    (match mp with
    | None -> up = None /\ nf = 0
    | Some m -> (match up with
      | Some u -> m.mu_upload_id = u.u_id /\ length u.u_id > 0 /\ same_parts m.mu_parts u /\ full_parts u (length u.u_parts) /\ nf = ps * length u.u_parts
      | None -> false end) end)
  function uploaded (up: option upload) : seq int =
    match up with None -> empty | Some u -> cat_all u.u_parts end
  function content (buf: seq int) (nb: int) (up: option upload) : seq int = uploaded up ++ buf[.. nb]

  let ghost append_buf (b b2 d: seq int) (nb o k: int)
    requires { 0 <= nb /\ 0 <= k /\ nb + k <= length b /\ length b2 = length b /\ 0 <= o /\ o + k <= length d }
    requires { forall i. 0 <= i < nb -> b2[i] = b[i] }
    requires { forall i. nb <= i < nb + k -> b2[i] = d[o + (i - nb)] }
    ensures { b2[.. nb + k] = b[.. nb] ++ d[o .. o + k] }
    ensures { d[.. o + k] = d[.. o] ++ d[o .. o + k] }
  = assert { b2[.. nb + k] == b[.. nb] ++ d[o .. o + k] };
    assert { d[.. o + k] == d[.. o] ++ d[o .. o + k] }
  let ghost app_assoc (a b c: seq int)
    ensures { (a ++ b) ++ c = a ++ (b ++ c) }
  = assert { (a ++ b) ++ c == a ++ (b ++ c) }
  let ghost slice0 (a: seq int)
    ensures { a[.. 0] = empty }
  = assert { a[.. 0] == empty }
  let ghost app_empty (a: seq int)
    ensures { a ++ a[.. 0] = a /\ a ++ empty = a /\ a[.. length a] = a /\ empty ++ a = a }
  = slice0 a; assert { a ++ empty == a }; assert { a ++ a[.. 0] = a }; assert { a ++ empty == a }; assert { a[.. length a] == a }; assert { empty ++ a == a }
  let ghost app_nil (d a: seq int)
    ensures { length d = 0 -> a ++ d = a }
  = if length d = 0 then assert { a ++ d == a }
  let ghost uploaded_len (nb nf: int) (mp: option mpupload) (up: option upload)
    requires { sink_ok nb nf mp up }
    ensures { length (uploaded up) = nf }
  = match up with None -> () | Some u -> cat_parts_len u.u_parts (length u.u_parts) end

  (* connections *)
  type conn = { c_id: int }
  type pool = { p_id: int }
  val pool_get (ref out: int) : conn
    writes { out }
    ensures { out = old out + 1 }
  val pool_return (ref out: int) (c: conn) : unit
    requires { [@expl:a connection returned was taken] out > 0 }
    writes { out }
    ensures { out = old out - 1 }

  (* requests. err: some request failed *)
  val s3_put (ref obj: option (seq int)) (ref puts: int) (ref err: bool) (own: bool) (d: seq int) : str
    requires { [@expl:bucket and key are the sink's] own }
    requires { [@expl:no empty object is uploaded] length d > 0 }
    writes { obj, puts, err }
    ensures { length result > 0 -> obj = Some d /\ err = old err /\ puts = old puts + 1 }
    ensures { length result = 0 -> obj = old obj /\ err /\ puts = old puts }
    raises { Throw -> obj = old obj /\ err /\ puts = old puts }
  val s3_create (ref up: option upload) (ref err: bool) (own: bool) : str
    requires { [@expl:bucket and key are the sink's] own }
    requires { [@expl:one upload at a time] up = None }
    writes { up, err }
    ensures { length result > 0 /\ err = old err /\ up = Some { u_id = result; u_parts = empty; u_tags = empty } }
    raises { Throw -> up = None /\ err }
  val s3_part (ref up: option upload) (ref err: bool) (own: bool) (id: str) (d: seq int) (num: int) : str
    requires { [@expl:bucket and key are the sink's] own }
    requires { [@expl:the part belongs to the upload in progress] match up with Some u -> u.u_id = id | None -> false end }
    requires { [@expl:part numbers are consecutive from 1] match up with Some u -> num = length u.u_parts + 1 | None -> false end }
    requires { [@expl:only the last part may be short] match up with Some u -> full_parts u (length u.u_parts) | None -> false end }
    requires { [@expl:parts have between 1 byte and the part size] 0 < length d <= ps }
    writes { up, err }
    ensures { length result = 0 -> up = old up /\ err }
    ensures { length result > 0 -> err = old err /\ match old up with
              | Some u -> up = Some { u with u_parts = snoc u.u_parts d; u_tags = snoc u.u_tags result }
              | None -> false end /\ uploaded up = uploaded (old up) ++ d }
    raises { Throw -> up = old up /\ err }
  val s3_complete (ref obj: option (seq int)) (ref err: bool) (up: option upload) (own: bool) (id: str) (l: seq mppart) : bool
    requires { [@expl:bucket and key are the sink's] own }
    requires { [@expl:the upload completed is the one in progress] match up with Some u -> u.u_id = id | None -> false end }
    requires { [@expl:every part uploaded is listed with its number and tag] match up with Some u -> same_parts l u | None -> false end }
    requires { [@expl:only the last part is short] match up with Some u -> full_parts u (length u.u_parts - 1) | None -> false end }
    writes { obj, err }
    ensures { result -> err = old err /\ obj = Some (uploaded up) }
    ensures { not result -> obj = old obj /\ err }
    raises { Throw -> obj = old obj /\ err }
end
