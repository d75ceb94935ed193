(* solver hygiene: nonlinear lemmas of the library are dropped from every task,
   the lemmas of Arith (proved) are invoked explicitly instead *)
module Quiet
  use int.EuclideanDivision
  meta "remove_prop" lemma Div_unique
  meta "remove_prop" lemma Mod_1
  meta "remove_prop" lemma Div_1
  meta "remove_prop" lemma Div_inf
  meta "remove_prop" lemma Div_inf_neg
  meta "remove_prop" lemma Mod_0
  meta "remove_prop" lemma Div_1_left
  meta "remove_prop" lemma Div_minus1_left
  meta "remove_prop" lemma Mod_1_left
  meta "remove_prop" lemma Mod_minus1_left
  meta "remove_prop" lemma Div_mult
  meta "remove_prop" lemma Mod_mult
end
module Arith
  use int.Int
  use int.EuclideanDivision
  use Quiet

  let ghost div_unique (x a q r: int)
    requires { a > 0 } requires { x = a*q + r } requires { 0 <= r < a }
    ensures { div x a = q } ensures { mod x a = r }
  = let q2 = div x a in let r2 = mod x a in
    assert { x = a*q2 + r2 };
    assert { a*(q - q2) = r2 - r };
    if q > q2 then assert { a*(q-q2) >= a }
    else if q < q2 then assert { a*(q2-q) >= a }

  let ghost div_div (x a b: int)
    requires { x >= 0 && a > 0 && b > 0 }
    ensures { div (div x a) b = div x (a*b) }
  = let q = div x a in let r = mod x a in
    let q2 = div q b in let r2 = mod q b in
    assert { x = a*q + r };
    assert { q = b*q2 + r2 };
    assert { x = (a*b)*q2 + (a*r2 + r) };
    assert { a*r2 <= a*(b-1) };
    assert { 0 <= a*r2 + r < a*b };
    div_unique x (a*b) q2 (a*r2+r)

  let ghost mod_mul_div (x a p: int)
    requires { x >= 0 && a > 0 && p > 0 }
    ensures { div (mod x (a*p)) p = mod (div x p) a }
  = let q = div x p in let r = mod x p in
    let q2 = div q a in let r2 = mod q a in
    assert { x = p*q + r };
    assert { q = a*q2 + r2 };
    assert { x = (a*p)*q2 + (p*r2 + r) };
    assert { p*r2 <= p*(a-1) };
    assert { 0 <= p*r2 + r < a*p };
    div_unique x (a*p) q2 (p*r2+r);
    assert { mod x (a*p) = p*r2 + r };
    div_unique (p*r2 + r) p r2 r

  let ghost lat (x a p c: int)
    requires { x >= 0 && a > 0 && p > 0 && c > 0 }
    ensures { div (mod x (a*p)) (c*p) = div (mod (div x p) a) c }
  = mod_mul_div x a p;
    div_div (mod x (a*p)) p c

  let ghost div_bounds (x a: int)
    requires { x >= 0 && a > 0 }
    ensures { 0 <= div x a <= x }
    ensures { 0 <= mod x a < a /\ mod x a <= x }
    ensures { a * div x a <= x < a * div x a + a }
  = assert { x = a * div x a + mod x a };
    assert { div x a >= 0 };
    assert { a * div x a >= div x a }

  let ghost div_lt (x a b: int)
    requires { 0 <= x < a * b && a > 0 }
    ensures { div x a < b }
  = if div x a >= b then assert { a * div x a >= a * b }

  let ghost mul_pos (a b: int)
    requires { a > 0 && b > 0 }
    ensures { a * b > 0 }
  = ()
  let ghost same_div (x y a: int)
    requires { a > 0 && div x a = div y a && mod x a = mod y a }
    ensures { x = y }
  = assert { x = a * div x a + mod x a }; assert { y = a * div y a + mod y a }

  let ghost mul_mono (a b c: int)
    requires { a <= b && c >= 0 }
    ensures { a * c <= b * c }
  = ()

  (* mixed radix: a digit below b and a rest below p *)
  let ghost digit_bound (q r b p: int)
    requires { 0 <= q < b && 0 <= r < p }
    ensures { 0 <= q * p + r < b * p }
  = mul_mono q (b-1) p; mul_mono 0 q p; assert { (b-1) * p = b * p - p }

  let ghost digit_unique (q1 r1 q2 r2 p: int)
    requires { 0 <= r1 < p && 0 <= r2 < p && q1 * p + r1 = q2 * p + r2 }
    ensures { q1 = q2 && r1 = r2 }
  = div_unique (q1 * p + r1) p q1 r1;
    div_unique (q2 * p + r2) p q2 r2
end

module DimDefs
  use Cxx.Cxx
  use Types.Types
  use Arith

  function asz (d: seq zarrdim) (k: int) : int = (d[k]).zd_array_size_px
  function csz (d: seq zarrdim) (k: int) : int = (d[k]).zd_chunk_size_px
  function ssz (d: seq zarrdim) (k: int) : int = (d[k]).zd_shard_size_chunks
  function cdiv (a c: int) : int = div (a + c - 1) c
  function nch (d: seq zarrdim) (k: int) : int = cdiv (asz d k) (csz d k)
  function nsh (d: seq zarrdim) (k: int) : int = if ssz d k = 0 then 0 else cdiv (nch d k) (ssz d k)

  (* products over dimensions [lo,hi): A array sizes, C chunk sizes, N chunk counts,
     S shard counts, Z chunks per shard *)
  type kind = A | C | N | S | Z
  function fld (t: kind) (d: seq zarrdim) (k: int) : int =
    match t with A -> asz d k | C -> csz d k | N -> nch d k | S -> nsh d k | Z -> ssz d k end
  let rec ghost function prod (t: kind) (d: seq zarrdim) (lo hi: int) : int
    variant { hi - lo } = if hi <= lo then 1 else fld t d lo * prod t d (lo+1) hi
  let ghost unfold_prod (t: kind) (d: seq zarrdim) (lo hi: int)
    ensures { prod t d lo hi = if hi <= lo then 1 else fld t d lo * prod t d (lo+1) hi } = ()

  (* index of frame f along non-spatial dimension k *)
  function fidx (d: seq zarrdim) (f k: int) : int =
    if k = 0 then div f (prod A d 1 (length d - 2))
    else mod (div f (prod A d (k+1) (length d - 2))) (asz d k)
  function fchunk (d: seq zarrdim) (f k: int) : int = div (fidx d f k) (csz d k)
  function ftile (d: seq zarrdim) (f k: int) : int = mod (fidx d f k) (csz d k)
  (* chunk number among the chunks of one append-step, dimensions >= k *)
  let rec ghost function group (d: seq zarrdim) (f k: int) : int
    requires { k >= 0 }
    variant { length d - k }
  = if k >= length d - 2 then 0
    else fchunk d f k * prod N d (k+1) (length d) + group d f (k+1)
  let ghost unfold_group (d: seq zarrdim) (f k: int)
    requires { k >= 0 }
    ensures { group d f k = if k >= length d - 2 then 0
      else fchunk d f k * prod N d (k+1) (length d) + group d f (k+1) } = ()
  (* position of the frame's tile inside the chunk, dimensions >= k *)
  let rec ghost function intern (d: seq zarrdim) (f k: int) : int
    requires { k >= 0 }
    variant { length d - k }
  = if k >= length d - 2 then 0
    else ftile d f k * prod C d (k+1) (length d - 2) + intern d f (k+1)
  let ghost unfold_intern (d: seq zarrdim) (f k: int)
    requires { k >= 0 }
    ensures { intern d f k = if k >= length d - 2 then 0
      else ftile d f k * prod C d (k+1) (length d - 2) + intern d f (k+1) } = ()

  (* chunk-grid coordinate of chunk number x along dimension k (k > 0: within the
     chunks of one append-step) *)
  function ccoord (d: seq zarrdim) (x k: int) : int =
    if k = 0 then div x (prod N d 1 (length d))
    else mod (div x (prod N d (k+1) (length d))) (nch d k)
  function cshard (d: seq zarrdim) (x k: int) : int = div (ccoord d x k) (ssz d k)
  function cslot (d: seq zarrdim) (x k: int) : int = mod (ccoord d x k) (ssz d k)
  (* number of the shard, dimensions >= k, C order *)
  let rec ghost function shard (d: seq zarrdim) (x k: int) : int
    requires { k >= 0 }
    variant { length d - k }
  = if k >= length d then 0
    else cshard d x k * prod S d (k+1) (length d) + shard d x (k+1)
  let ghost unfold_shard (d: seq zarrdim) (x k: int)
    requires { k >= 0 }
    ensures { shard d x k = if k >= length d then 0
      else cshard d x k * prod S d (k+1) (length d) + shard d x (k+1) } = ()
  (* slot inside the shard, dimensions >= k, C order *)
  let rec ghost function slot (d: seq zarrdim) (x k: int) : int
    requires { k >= 0 }
    variant { length d - k }
  = if k >= length d then 0
    else cslot d x k * prod Z d (k+1) (length d) + slot d x (k+1)
  let ghost unfold_slot (d: seq zarrdim) (x k: int)
    requires { k >= 0 }
    ensures { slot d x k = if k >= length d then 0
      else cslot d x k * prod Z d (k+1) (length d) + slot d x (k+1) } = ()
end

module DimSpec
  use Cxx.Cxx
  use export Types.Types
  use export Arith
  use export DimDefs
  meta "remove_prop" axiom prod'def
  meta "remove_prop" axiom group'def
  meta "remove_prop" axiom intern'def
  meta "remove_prop" axiom shard'def
  meta "remove_prop" axiom slot'def

  (* a geometry: at least 3 dimensions, positive chunks, positive sizes except for
     the append dimension *)
  predicate geom (d: seq zarrdim) =
    3 <= length d < 0x8000_0000 /\
    (forall k. 0 <= k < length d -> csz d k > 0 /\ asz d k >= 0 /\ ssz d k >= 0 /\
        (k > 0 -> asz d k > 0) /\ asz d k + csz d k < 0x1_0000_0000)
  (* sharded geometry *)
  predicate sgeom (d: seq zarrdim) =
    geom d /\ (forall k. 0 <= k < length d -> ssz d k > 0 /\ nch d k + ssz d k < 0x1_0000_0000)
  (* machine-size domain: every product the code forms is representable *)
  predicate fitsA (d: seq zarrdim) =
    forall k. 0 <= k < length d - 2 ->
      csz d k * prod A d (k+1) (length d - 2) <= 0xffff_ffff_ffff_ffff
  predicate fitsN (d: seq zarrdim) = prod N d 1 (length d) <= 0xffff_ffff
  predicate fitsC (d: seq zarrdim) = 8 * prod C d 0 (length d) <= 0xffff_ffff_ffff_ffff
  predicate fitsZ (d: seq zarrdim) = prod Z d 0 (length d) <= 0xffff_ffff

  let ghost nch_pos (d: seq zarrdim) (k: int)
    requires { asz d k > 0 /\ csz d k > 0 }
    ensures { 1 <= nch d k <= asz d k }
    ensures { nch d k * csz d k >= asz d k }
  = let a = asz d k in let c = csz d k in
    div_bounds (a + c - 1) c;
    assert { c * nch d k > a - 1 };
    if nch d k <= 0 then begin mul_mono (nch d k) 0 c; assert { c * nch d k <= 0 } end;
    if nch d k > a then begin
      mul_mono (a + 1) (nch d k) c;
      assert { (a + 1) * c = a * c + c };
      mul_mono 1 c a
    end

  predicate posf (t: kind) (d: seq zarrdim) (lo hi: int) =
    forall k. lo <= k < hi -> fld t d k > 0

  let rec ghost prod_pos (t: kind) (d: seq zarrdim) (lo hi: int)
    requires { posf t d lo hi }
    ensures { prod t d lo hi > 0 }
    variant { hi - lo }
  = unfold_prod t d lo hi; if hi > lo then begin prod_pos t d (lo+1) hi; mul_mono 1 (fld t d lo) (prod t d (lo+1) hi) end
  let rec ghost prod_mono (t: kind) (d: seq zarrdim) (lo mid hi: int)
    requires { lo <= mid <= hi }
    requires { posf t d lo hi }
    ensures { 1 <= prod t d mid hi <= prod t d lo hi }
    variant { mid - lo }
  = prod_pos t d mid hi;
    if lo < mid then begin
      unfold_prod t d lo hi; prod_mono t d (lo+1) mid hi; prod_pos t d (lo+1) hi;
      mul_mono 1 (fld t d lo) (prod t d (lo+1) hi) end
  let rec ghost prod_cut (t: kind) (d: seq zarrdim) (lo mid hi: int)
    requires { lo <= mid <= hi }
    ensures { prod t d lo hi = prod t d lo mid * prod t d mid hi }
    variant { mid - lo }
  = unfold_prod t d lo hi; unfold_prod t d lo mid; if lo < mid then prod_cut t d (lo+1) mid hi
  let rec ghost prod_snoc (t: kind) (d: seq zarrdim) (lo hi: int)
    requires { lo <= hi }
    ensures { prod t d lo (hi+1) = prod t d lo hi * fld t d hi }
    variant { hi - lo }
  = unfold_prod t d lo (hi+1); unfold_prod t d lo hi; unfold_prod t d (hi+1) (hi+1);
    if lo < hi then prod_snoc t d (lo+1) hi
  (* a prefix product is at most the whole product *)
  let ghost prod_prefix (t: kind) (d: seq zarrdim) (lo mid hi: int)
    requires { lo <= mid <= hi }
    requires { posf t d lo hi }
    ensures { 1 <= prod t d lo mid <= prod t d lo hi }
  = prod_cut t d lo mid hi; prod_pos t d lo mid; prod_pos t d mid hi;
    mul_mono 1 (prod t d mid hi) (prod t d lo mid)
  let ghost posN (d: seq zarrdim) (lo: int)
    requires { geom d /\ 1 <= lo }
    ensures { posf N d lo (length d) }
  = let ghost aux (k: int)
      requires { lo <= k < length d }
      ensures { fld N d k > 0 }
    = nch_pos d k in
    let rec ghost all (h: int)
      requires { h <= length d }
      ensures { posf N d lo h }
      variant { h - lo }
    = if h > lo then begin all (h-1); aux (h-1) end in
    all (length d)
  let ghost posA (d: seq zarrdim) (lo: int)
    requires { geom d /\ 1 <= lo }
    ensures { posf A d lo (length d) /\ posf A d lo (length d - 2) }
  = ()
  let ghost posC (d: seq zarrdim) (lo: int)
    requires { geom d /\ 0 <= lo }
    ensures { posf C d lo (length d) /\ posf C d lo (length d - 2) }
  = ()

  let ghost fidx_bounds (d: seq zarrdim) (f k: int)
    requires { geom d /\ f >= 0 /\ 0 <= k < length d - 2 }
    ensures { 0 <= fidx d f k <= f }
    ensures { k > 0 -> fidx d f k < asz d k }
  = posA d 1; prod_pos A d (k+1) (length d - 2);
    div_bounds f (prod A d (k+1) (length d - 2));
    if k > 0 then div_bounds (div f (prod A d (k+1) (length d - 2))) (asz d k)

  let ghost chunkidx_bounds (d: seq zarrdim) (f k: int)
    requires { geom d /\ f >= 0 /\ 0 < k < length d - 2 }
    ensures { 0 <= div (fidx d f k) (csz d k) < nch d k }
  = fidx_bounds d f k; nch_pos d k;
    div_bounds (fidx d f k) (csz d k);
    div_lt (fidx d f k) (csz d k) (nch d k)

  (* the chunk number stays among the chunks of the append-step *)
  let rec ghost group_bound (d: seq zarrdim) (f k: int)
    requires { geom d /\ f >= 0 /\ 1 <= k <= length d - 2 }
    ensures { 0 <= group d f k }
    ensures { group d f k + prod N d (length d - 2) (length d) <= prod N d k (length d) }
    variant { length d - k }
  = posN d 1; unfold_group d f k;
    if k < length d - 2 then begin
      group_bound d f (k+1);
      chunkidx_bounds d f k;
      prod_pos N d (k+1) (length d);
      unfold_prod N d k (length d);
      let ghost q = div (fidx d f k) (csz d k) in
      let ghost p = prod N d (k+1) (length d) in
      mul_mono 0 q p;
      mul_mono q (nch d k - 1) p;
      assert { (nch d k - 1) * p = nch d k * p - p }
    end

  let rec ghost intern_bound (d: seq zarrdim) (f k: int)
    requires { geom d /\ f >= 0 /\ 0 <= k <= length d - 2 }
    ensures { 0 <= intern d f k < prod C d k (length d - 2) }
    variant { length d - k }
  = unfold_intern d f k; unfold_prod C d k (length d - 2);
    if k < length d - 2 then begin
      intern_bound d f (k+1);
      fidx_bounds d f k;
      div_bounds (fidx d f k) (csz d k);
      digit_bound (mod (fidx d f k) (csz d k)) (intern d f (k+1)) (csz d k) (prod C d (k+1) (length d - 2))
    end

  (* f mod (a*p) is made of the digit (f/p) mod a and the rest f mod p *)
  let ghost radix1 (f a p: int)
    requires { f >= 0 /\ a > 0 /\ p > 0 }
    ensures { mod f (a * p) = mod (div f p) a * p + mod f p }
  = let ghost q = div f p in let ghost r = mod f p in
    let ghost q2 = div q a in let ghost r2 = mod q a in
    assert { f = p * q + r };
    assert { q = a * q2 + r2 };
    assert { p * q = p * (a * q2 + r2) };
    assert { f = (a * p) * q2 + (r2 * p + r) };
    digit_bound r2 r a p;
    mul_pos a p;
    div_unique f (a * p) q2 (r2 * p + r)

  (* the indices of the dimensions >= k determine the frame modulo their product *)
  let rec ghost radix (d: seq zarrdim) (f1 f2 k: int)
    requires { geom d /\ f1 >= 0 /\ f2 >= 0 /\ 1 <= k <= length d - 2 }
    requires { forall j. k <= j < length d - 2 -> fidx d f1 j = fidx d f2 j }
    ensures { mod f1 (prod A d k (length d - 2)) = mod f2 (prod A d k (length d - 2)) }
    variant { length d - k }
  = unfold_prod A d k (length d - 2);
    if k < length d - 2 then begin
      radix d f1 f2 (k+1);
      let ghost p = prod A d (k+1) (length d - 2) in
      let ghost a = asz d k in
      posA d 1; prod_pos A d (k+1) (length d - 2);
      radix1 f1 a p; radix1 f2 a p;
      assert { fidx d f1 k = fidx d f2 k };
      assert { fidx d f1 k = mod (div f1 p) a };
      assert { fidx d f2 k = mod (div f2 p) a };
      assert { prod A d k (length d - 2) = a * p }
    end

  (* same chunk number and same tile position: same index along every dimension *)
  let rec ghost place_inj (d: seq zarrdim) (f1 f2 k: int)
    requires { geom d /\ f1 >= 0 /\ f2 >= 0 /\ 1 <= k <= length d - 2 }
    requires { group d f1 k = group d f2 k }
    requires { intern d f1 k = intern d f2 k }
    ensures { forall j. k <= j < length d - 2 -> fidx d f1 j = fidx d f2 j }
    variant { length d - k }
  = if k < length d - 2 then begin
      posN d 1; prod_pos N d (length d - 2) (length d);
      unfold_group d f1 k; unfold_group d f2 k; unfold_intern d f1 k; unfold_intern d f2 k;
      group_bound d f1 (k+1); group_bound d f2 (k+1);
      intern_bound d f1 (k+1); intern_bound d f2 (k+1);
      let ghost p = prod N d (k+1) (length d) in
      let ghost c = prod C d (k+1) (length d - 2) in
      let ghost q1 = div (fidx d f1 k) (csz d k) in
      let ghost q2 = div (fidx d f2 k) (csz d k) in
      let ghost m1 = mod (fidx d f1 k) (csz d k) in
      let ghost m2 = mod (fidx d f2 k) (csz d k) in
      digit_unique q1 (group d f1 (k+1)) q2 (group d f2 (k+1)) p;
      digit_unique m1 (intern d f1 (k+1)) m2 (intern d f2 (k+1)) c;
      assert { fidx d f1 k = csz d k * q1 + m1 };
      assert { fidx d f2 k = csz d k * q2 + m2 };
      place_inj d f1 f2 (k+1)
    end

  (* append-step of a frame *)
  function step (d: seq zarrdim) (f: int) : int = div (fidx d f 0) (csz d 0)

  (* C01, last sentence: two different frames of one append-step never occupy
     the same tile *)
  let ghost frames_disjoint (d: seq zarrdim) (f1 f2: int)
    requires { geom d /\ f1 >= 0 /\ f2 >= 0 }
    requires { step d f1 = step d f2 }
    requires { group d f1 1 = group d f2 1 }
    requires { intern d f1 0 = intern d f2 0 }
    ensures { f1 = f2 }
  = intern_bound d f1 1; intern_bound d f2 1;
    unfold_intern d f1 0; unfold_intern d f2 0;
    let ghost c = prod C d 1 (length d - 2) in
    let ghost m1 = mod (fidx d f1 0) (csz d 0) in
    let ghost m2 = mod (fidx d f2 0) (csz d 0) in
    digit_unique m1 (intern d f1 1) m2 (intern d f2 1) c;
    place_inj d f1 f2 1;
    radix d f1 f2 1;
    posA d 1; prod_pos A d 1 (length d - 2);
    let ghost p = prod A d 1 (length d - 2) in
    same_div (fidx d f1 0) (fidx d f2 0) (csz d 0);
    same_div f1 f2 p

  (* the tile of a frame lies inside its chunk *)
  let ghost tile_inside (d: seq zarrdim) (f b: int)
    requires { geom d /\ f >= 0 /\ b > 0 }
    ensures { intern d f 0 * (b * csz d (length d - 1) * csz d (length d - 2))
              + b * csz d (length d - 1) * csz d (length d - 2) <= b * prod C d 0 (length d) }
    ensures { prod C d 0 (length d) = prod C d 0 (length d - 2) * (csz d (length d - 2) * csz d (length d - 1)) }
  = let ghost n = length d in
    intern_bound d f 0;
    prod_cut C d 0 (n - 2) n;
    posC d 0; prod_pos C d (n-2) n;
    unfold_prod C d (n-2) n; unfold_prod C d (n-1) n; unfold_prod C d n n;
    let ghost t = csz d (n-2) * csz d (n-1) in
    assert { prod C d (n-2) n = t };
    let ghost bt = b * csz d (n-1) * csz d (n-2) in
    mul_pos (csz d (n-1)) b; mul_pos (b * csz d (n-1)) (csz d (n-2));
    mul_mono (intern d f 0 + 1) (prod C d 0 (n-2)) bt;
    assert { (intern d f 0 + 1) * bt = intern d f 0 * bt + bt };
    assert { bt = b * t };
    assert { prod C d 0 (n-2) * (b * t) = b * (prod C d 0 (n-2) * t) }

  (* size of one element of data type t (ZarrDataType order) *)
  function btype (t: int) : int =
    if t = 0 || t = 4 then 1 else if t = 1 || t = 5 then 2
    else if t = 2 || t = 6 || t = 8 then 4 else 8
  function frame_bytes_of (d: seq zarrdim) (t: int) : int = btype t * asz d (length d - 2) * asz d (length d - 1)

  (* ---------------- chunks in shards (C02) ---------------- *)
  let ghost nsh_pos (d: seq zarrdim) (k: int)
    requires { nch d k > 0 /\ ssz d k > 0 }
    ensures { 1 <= nsh d k <= nch d k }
    ensures { nsh d k * ssz d k >= nch d k }
  = let ghost a = nch d k in let ghost c = ssz d k in
    div_bounds (a + c - 1) c;
    if nsh d k <= 0 then begin mul_mono (nsh d k) 0 c; assert { c * nsh d k <= 0 } end;
    if nsh d k > a then begin
      mul_mono (a + 1) (nsh d k) c;
      assert { (a + 1) * c = a * c + c };
      mul_mono 1 c a
    end
  let ghost posS (d: seq zarrdim) (lo: int)
    requires { sgeom d /\ 1 <= lo }
    ensures { posf S d lo (length d) }
  = let ghost aux (k: int)
      requires { lo <= k < length d }
      ensures { fld S d k > 0 }
    = nch_pos d k; nsh_pos d k in
    let rec ghost all (h: int)
      requires { h <= length d }
      ensures { posf S d lo h }
      variant { h - lo }
    = if h > lo then begin all (h-1); aux (h-1) end in
    all (length d)
  let rec ghost prodS_le (d: seq zarrdim) (lo: int)
    requires { sgeom d /\ 1 <= lo <= length d }
    ensures { 1 <= prod S d lo (length d) <= prod N d lo (length d) }
    variant { length d - lo }
  = posS d lo; posN d lo; prod_pos S d lo (length d);
    unfold_prod S d lo (length d); unfold_prod N d lo (length d);
    if lo < length d then begin
      prodS_le d (lo+1); nch_pos d lo; nsh_pos d lo;
      mul_mono (nsh d lo) (nch d lo) (prod S d (lo+1) (length d));
      mul_mono (prod S d (lo+1) (length d)) (prod N d (lo+1) (length d)) (nch d lo)
    end
  let ghost ccoord_bounds (d: seq zarrdim) (x k: int)
    requires { geom d /\ x >= 0 /\ 0 <= k < length d }
    ensures { 0 <= ccoord d x k <= x }
    ensures { k > 0 -> ccoord d x k < nch d k }
  = posN d 1; prod_pos N d (k+1) (length d);
    div_bounds x (prod N d (k+1) (length d));
    if k > 0 then begin nch_pos d k; div_bounds (div x (prod N d (k+1) (length d))) (nch d k) end
  let ghost ccoord0 (d: seq zarrdim) (x: int)
    requires { geom d /\ 0 <= x < prod N d 1 (length d) }
    ensures { ccoord d x 0 = 0 }
  = posN d 1; prod_pos N d 1 (length d); div_unique x (prod N d 1 (length d)) 0 x
  let ghost cshard_bounds (d: seq zarrdim) (x k: int)
    requires { sgeom d /\ x >= 0 /\ 0 <= k < length d }
    ensures { 0 <= cshard d x k <= x }
    ensures { k > 0 -> cshard d x k < nsh d k }
  = ccoord_bounds d x k; div_bounds (ccoord d x k) (ssz d k);
    if k > 0 then begin nch_pos d k; nsh_pos d k; div_lt (ccoord d x k) (ssz d k) (nsh d k) end
  let rec ghost shard_bound1 (d: seq zarrdim) (x k: int)
    requires { sgeom d /\ x >= 0 /\ 1 <= k <= length d }
    ensures { 0 <= shard d x k < prod S d k (length d) }
    variant { length d - k }
  = unfold_shard d x k; unfold_prod S d k (length d);
    if k < length d then begin
      shard_bound1 d x (k+1); cshard_bounds d x k;
      digit_bound (cshard d x k) (shard d x (k+1)) (nsh d k) (prod S d (k+1) (length d))
    end
  let ghost shard_bound0 (d: seq zarrdim) (x: int)
    requires { sgeom d /\ 0 <= x < prod N d 1 (length d) }
    ensures { 0 <= shard d x 0 < prod S d 1 (length d) }
    ensures { shard d x 0 = shard d x 1 }
  = ccoord0 d x; div_unique 0 (ssz d 0) 0 0; unfold_shard d x 0; shard_bound1 d x 1
  let ghost shard_bound (d: seq zarrdim) (x k: int)
    requires { sgeom d /\ 0 <= x < prod N d 1 (length d) /\ 0 <= k <= length d }
    ensures { 0 <= shard d x k }
    ensures { k >= 1 -> shard d x k < prod S d k (length d) }
    ensures { k = 0 -> shard d x k < prod S d 1 (length d) }
  = if k = 0 then shard_bound0 d x else shard_bound1 d x k
  let rec ghost slot_bound (d: seq zarrdim) (x k: int)
    requires { sgeom d /\ x >= 0 /\ 0 <= k <= length d }
    ensures { 0 <= slot d x k < prod Z d k (length d) }
    variant { length d - k }
  = unfold_slot d x k; unfold_prod Z d k (length d);
    if k < length d then begin
      slot_bound d x (k+1); ccoord_bounds d x k; div_bounds (ccoord d x k) (ssz d k);
      digit_bound (cslot d x k) (slot d x (k+1)) (ssz d k) (prod Z d (k+1) (length d))
    end
  (* a chunk number is determined by its coordinates *)
  let rec ghost chunk_radix (d: seq zarrdim) (x y k: int)
    requires { geom d /\ x >= 0 /\ y >= 0 /\ 1 <= k <= length d }
    requires { forall j. k <= j < length d -> ccoord d x j = ccoord d y j }
    ensures { mod x (prod N d k (length d)) = mod y (prod N d k (length d)) }
    variant { length d - k }
  = unfold_prod N d k (length d);
    if k < length d then begin
      chunk_radix d x y (k+1);
      let ghost p = prod N d (k+1) (length d) in
      let ghost a = nch d k in
      posN d 1; prod_pos N d (k+1) (length d); nch_pos d k;
      radix1 x a p; radix1 y a p;
      assert { ccoord d x k = ccoord d y k };
      assert { ccoord d x k = mod (div x p) a };
      assert { ccoord d y k = mod (div y p) a };
      assert { prod N d k (length d) = a * p }
    end
    else begin div_unique x 1 x 0; div_unique y 1 y 0 end
  let rec ghost shard_slot_coords (d: seq zarrdim) (x y k: int)
    requires { sgeom d /\ x >= 0 /\ y >= 0 /\ 1 <= k <= length d }
    requires { shard d x k = shard d y k /\ slot d x k = slot d y k }
    ensures { forall j. k <= j < length d -> ccoord d x j = ccoord d y j }
    variant { length d - k }
  = if k < length d then begin
      unfold_shard d x k; unfold_shard d y k; unfold_slot d x k; unfold_slot d y k;
      shard_bound1 d x (k+1); shard_bound1 d y (k+1); slot_bound d x (k+1); slot_bound d y (k+1);
      digit_unique (cshard d x k) (shard d x (k+1)) (cshard d y k) (shard d y (k+1)) (prod S d (k+1) (length d));
      digit_unique (cslot d x k) (slot d x (k+1)) (cslot d y k) (slot d y (k+1)) (prod Z d (k+1) (length d));
      ccoord_bounds d x k; ccoord_bounds d y k;
      same_div (ccoord d x k) (ccoord d y k) (ssz d k);
      shard_slot_coords d x y (k+1)
    end
  (* C02: two different chunks never get the same shard and slot *)
  let ghost shard_slot_injective (d: seq zarrdim) (x y: int)
    requires { sgeom d }
    requires { 0 <= x < prod N d 1 (length d) /\ 0 <= y < prod N d 1 (length d) }
    requires { shard d x 0 = shard d y 0 /\ slot d x 0 = slot d y 0 }
    ensures { x = y }
  = ccoord0 d x; ccoord0 d y; shard_bound0 d x; shard_bound0 d y;
    unfold_slot d x 0; unfold_slot d y 0; 
    slot_bound d x 1; slot_bound d y 1; div_unique 0 (ssz d 0) 0 0;
    shard_slot_coords d x y 1;
    chunk_radix d x y 1;
    posN d 1; prod_pos N d 1 (length d);
    div_unique x (prod N d 1 (length d)) 0 x;
    div_unique y (prod N d 1 (length d)) 0 y
end
