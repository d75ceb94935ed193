(* Frames in chunk buffers (C03): the bytes of the tiles of a frame. *)
module TileArith
  use int.Int
  use int.EuclideanDivision
  use dims.Arith

  let ghost dist (a b w: int) ensures { (a + b) * w = a * w + b * w } = ()
  let ghost assoc (a b c: int) ensures { (a * b) * c = a * (b * c) } = ()
  let ghost mul_eq (a b c d: int) requires { a = c /\ b = d } ensures { a * b = c * d } = ()
  let ghost comm (a b: int) ensures { a * b = b * a } = ()
  function mn (a b: int) : int = if a <= b then a else b

  (* tiles of tr rows and tc columns over h rows and w columns, b bytes per pixel;
     ny, nx tiles *)
  predicate tiling (tr tc h w b ny nx: int) =
    tr > 0 /\ tc > 0 /\ h > 0 /\ w > 0 /\ b > 0 /\ h <= ny * tr < h + tr /\ w <= nx * tc < w + tc
  (* bytes of a row of tile column j that lie inside the frame *)
  function rww (tc w b j: int) : int = mn ((j+1) * (tc*b)) (w*b) - j * (tc*b)
  function rin (tr h i k: int) : int = mn k (h - i * tr)
  (* bytes stored before tile row i, tile (i, j), row k of the tile *)
  function w1 (tr h w b i: int) : int = mn (i * tr) h * (w*b)
  function w2 (tr tc h w b i j: int) : int = w1 tr h w b i + rin tr h i tr * mn (j * (tc*b)) (w*b)
  function w3 (tr tc h w b i j k: int) : int = w2 tr tc h w b i j + rin tr h i k * rww tc w b j

  let ghost tile_start (t h n i: int)
    requires { t > 0 /\ h > 0 /\ h <= n * t < h + t /\ 0 <= i < n }
    ensures { 0 <= i * t < h }
    ensures { (i+1) * t = i * t + t }
  = mul_mono i (n-1) t; dist (n-1) 1 t; dist i 1 t; mul_mono 0 i t

  let ghost facts (tr tc h w b ny nx i j k: int)
    requires { tiling tr tc h w b ny nx /\ 0 <= i < ny /\ 0 <= j < nx /\ 0 <= k < tr }
    ensures { 0 <= i * tr < h /\ 0 <= j * tc < w /\ 0 <= j * (tc*b) < w * b }
    ensures { (j+1) * (tc*b) = j * (tc*b) + tc*b }
    ensures { 0 < rww tc w b j <= tc*b }
    ensures { rww tc w b j = tc*b \/ rww tc w b j = w*b - j * (tc*b) }
    ensures { rww tc w b j <= w*b - j * (tc*b) }
    ensures { rww tc w b j = (mn (j * tc + tc) w - j * tc) * b }
    ensures { let r = i * tr + k in r < h ->
               r * (w*b) + j * (tc*b) + rww tc w b j <= h * (w*b) /\ 0 <= r * (w*b) + j * (tc*b) /\
               r * (w*b) + j * (tc*b) = b * (r * w + j * tc) /\
               0 <= r * w <= h * (w*b) /\ 0 <= r * w + j * tc <= h * (w*b) }
  = tile_start tr h ny i; tile_start tc w nx j;
    mul_mono (j * tc + 1) w b;
    dist (j*tc) 1 b; assoc j tc b;
    mul_pos tc b; mul_pos w b;
    dist j 1 (tc*b);
    dist (j*tc) tc b;
    mul_mono 0 (j*tc) b;
    if j * tc + tc <= w then mul_mono (j*tc + tc) w b
    else mul_mono w (j * tc + tc) b;
    assert { mn ((j+1) * (tc*b)) (w*b) = mn (j * tc + tc) w * b };
    dist (mn (j * tc + tc) w - j * tc) (j * tc) b;
    assert { rww tc w b j = (mn (j * tc + tc) w - j * tc) * b };
    mul_mono 1 (mn (j * tc + tc) w - j * tc) b;
    let ghost r = i * tr + k in
    if r < h then begin
      mul_mono (r + 1) h (w * b);
      dist r 1 (w*b);
      mul_mono 0 r w; mul_mono 0 r (w*b); mul_mono 0 j tc; mul_mono 0 (r * w + j * tc) b;
      mul_mono 1 b (r * w + j * tc); mul_mono 1 b (r*w);
      assoc r w b; dist (r * w) (j * tc) b; comm b (r * w + j * tc); comm b (r * w);
      assert { r * (w*b) + j * (tc*b) = b * (r * w + j * tc) }
    end

  let ghost bytes_step (tr tc h w b ny nx i j k: int)
    requires { tiling tr tc h w b ny nx /\ 0 <= i < ny /\ 0 <= j < nx /\ 0 <= k < tr }
    ensures { w3 tr tc h w b i j (k+1) = w3 tr tc h w b i j k + if i * tr + k < h then rww tc w b j else 0 }
    ensures { 0 <= w3 tr tc h w b i j k <= w3 tr tc h w b i j (k+1) <= h * (w*b) }
  = facts tr tc h w b ny nx i j k;
    let ghost q = rin tr h i k in let ghost q1 = rin tr h i (k+1) in let ghost qt = rin tr h i tr in
    let ghost v = rww tc w b j in let ghost x = mn (j * (tc*b)) (w*b) in
    assert { x = j * (tc*b) };
    assert { q1 = q + if i * tr + k < h then 1 else 0 };
    dist q 1 v;
    assert { 0 <= q <= q1 <= qt };
    mul_mono 0 q v; mul_mono q1 qt v; mul_mono q q1 v;
    assert { x + v <= w*b };
    mul_mono (x + v) (w*b) qt;
    dist x v qt; comm qt x; comm qt v; comm qt (w*b);
    mul_mono 0 x qt;
    mul_mono (i * tr + qt) h (w*b);
    dist (i * tr) qt (w*b);
    mul_pos w b;
    mul_mono 0 (i * tr) (w*b);
    assert { w1 tr h w b i = (i * tr) * (w*b) }

  let ghost bytes_row_start (tr tc h w b ny nx i j: int)
    requires { tiling tr tc h w b ny nx /\ 0 <= i < ny /\ 0 <= j < nx }
    ensures { w3 tr tc h w b i j 0 = w2 tr tc h w b i j }
  = facts tr tc h w b ny nx i j 0; assert { rin tr h i 0 = 0 }
  let ghost bytes_row_end (tr tc h w b ny nx i j: int)
    requires { tiling tr tc h w b ny nx /\ 0 <= i < ny /\ 0 <= j < nx }
    ensures { w3 tr tc h w b i j tr = w2 tr tc h w b i (j+1) }
  = facts tr tc h w b ny nx i j 0;
    let ghost qt = rin tr h i tr in
    let ghost x = j * (tc*b) in let ghost v = rww tc w b j in
    assert { mn ((j+1) * (tc*b)) (w*b) = x + v };
    assert { mn (j * (tc*b)) (w*b) = x };
    dist x v qt; comm qt x; comm qt v; comm qt (x + v)
  let ghost bytes_tile_start (tr tc h w b ny nx i: int)
    requires { tiling tr tc h w b ny nx /\ 0 <= i < ny }
    ensures { w2 tr tc h w b i 0 = w1 tr h w b i }
  = mul_pos w b; assert { mn (0 * (tc*b)) (w*b) = 0 }
  let ghost bytes_tile_end (tr tc h w b ny nx i: int)
    requires { tiling tr tc h w b ny nx /\ 0 <= i < ny }
    ensures { w2 tr tc h w b i nx = w1 tr h w b (i+1) }
  = tile_start tr h ny i;
    mul_mono w (nx * tc) b; assoc nx tc b;
    assert { mn (nx * (tc*b)) (w*b) = w*b };
    let ghost qt = rin tr h i tr in
    assert { mn ((i+1) * tr) h = mn (i * tr) h + qt };
    dist (mn (i * tr) h) qt (w*b)
  let ghost bytes_end (tr tc h w b ny nx: int)
    requires { tiling tr tc h w b ny nx }
    ensures { w1 tr h w b ny = h * (w*b) /\ w1 tr h w b 0 = 0 }
  = ()
end

module Tiles0
  use int.Int
  use dims.Arith
  use TileArith
  let ghost tile_room (p q tr tc b: int)
    requires { 0 <= p < q /\ tr > 0 /\ tc > 0 /\ b > 0 }
    ensures { 0 <= p * (tr * (tc * b)) /\ p * (tr * (tc * b)) + tr * (tc * b) <= b * (q * (tr * tc)) }
    ensures { p * (tr * (tc * b)) = p * (b * tc * tr) /\ 0 < tc * b <= tr * (tc * b) }
  = mul_pos tc b; mul_pos tr (tc*b); mul_mono 1 tr (tc*b);
    mul_mono (p+1) q (tr * (tc*b)); dist p 1 (tr * (tc*b)); mul_mono 0 p (tr * (tc*b));
    assoc tr tc b; assoc q (tr * tc) b; comm b (q * (tr * tc)); comm tr (tc * b); comm tc b;
    mul_eq p (tr * (tc * b)) p (b * tc * tr);
    mul_eq q (tr * tc * b) q (tr * (tc * b))
end

module Tiles
  use Cxx.Cxx
  use Types.Types
  use dims.DimSpec
  use export TileArith
  use Tiles0

  (* number of tiles of a frame along x and y, bytes of a tile row and of a tile *)
  function ntx (d: seq zarrdim) : int = nch d (length d - 1)
  function nty (d: seq zarrdim) : int = nch d (length d - 2)
  function rowb (d: seq zarrdim) (b: int) : int = csz d (length d - 1) * b
  function tileb (d: seq zarrdim) (b: int) : int = csz d (length d - 2) * rowb d b
  (* bytes of a row of the frame, and of the frame *)
  function frow (d: seq zarrdim) (b: int) : int = asz d (length d - 1) * b
  function frameb (d: seq zarrdim) (b: int) : int = asz d (length d - 2) * frow d b
  (* first chunk of frame f, and position of its tiles in a chunk *)
  function fchunk0 (d: seq zarrdim) (f: int) : int = group d f 1
  function fpos (d: seq zarrdim) (b f: int) : int = intern d f 0 * tileb d b
  (* byte o of chunk c belongs to a tile of frame f *)
  predicate covers (d: seq zarrdim) (b f c o: int) =
    fchunk0 d f <= c < fchunk0 d f + nty d * ntx d /\ fpos d b f <= o < fpos d b f + tileb d b
  (* its row, and its byte column, in the frame *)
  function trow (d: seq zarrdim) (b f c o: int) : int =
    div (c - fchunk0 d f) (ntx d) * csz d (length d - 2) + div (o - fpos d b f) (rowb d b)
  function tcol (d: seq zarrdim) (b f c o: int) : int =
    mod (c - fchunk0 d f) (ntx d) * rowb d b + mod (o - fpos d b f) (rowb d b)
  predicate inframe (d: seq zarrdim) (b f c o: int) =
    covers d b f c o /\ trow d b f c o < asz d (length d - 2) /\ tcol d b f c o < frow d b
  function src (d: seq zarrdim) (b f c o: int) : int = trow d b f c o * frow d b + tcol d b f c o
  (* the chunk byte after frame f with the given bytes was stored over `was` *)
  function upd (d: seq zarrdim) (b f: int) (data: seq int) (was c o: int) : int =
    if inframe d b f c o then data[src d b f c o] else was

  predicate fitsF (d: seq zarrdim) =
    asz d (length d - 1) < 0x8000_0000 /\ asz d (length d - 2) < 0x8000_0000 /\
    csz d (length d - 1) < 0x8000_0000 /\ csz d (length d - 2) < 0x8000_0000 /\
    csz d (length d - 1) + asz d (length d - 1) < 0x8000_0000 /\ csz d (length d - 2) + asz d (length d - 2) < 0x8000_0000 /\
    frameb d 8 <= 0x7fff_ffff_ffff_ffff

  (* digits of a quotient, for every value of a range *)
  let rec ghost digits (lo hi q a: int)
    requires { a > 0 /\ q >= 0 /\ 0 <= hi - lo <= a /\ lo = q * a }
    ensures { forall x. lo <= x < hi -> div x a = q /\ mod x a = x - lo }
    variant { hi - lo }
  = if lo < hi then begin digits lo (hi-1) q a; div_unique (hi-1) a q (hi-1-lo) end

  (* a row of tiles: positions of row k of tile (i, j) *)
  let ghost row_of_tile (d: seq zarrdim) (b f i j k: int)
    requires { b > 0 /\ geom d /\ 0 <= i < nty d /\ 0 <= j < ntx d /\ 0 <= k < csz d (length d - 2) }
    ensures { let c = fchunk0 d f + i * ntx d + j in
              fchunk0 d f <= c < fchunk0 d f + nty d * ntx d /\
              (forall o. fpos d b f + k * rowb d b <= o < fpos d b f + (k+1) * rowb d b ->
                covers d b f c o /\ trow d b f c o = i * csz d (length d - 2) + k /\
                tcol d b f c o = j * rowb d b + (o - fpos d b f - k * rowb d b)) }
  = let ghost r = rowb d b in
    let ghost g = fchunk0 d f in
    let ghost p = fpos d b f in
    let ghost c = g + i * ntx d + j in
    mul_pos (csz d (length d - 1)) b;
    digit_bound i j (nty d) (ntx d);
    div_unique (i * ntx d + j) (ntx d) i j;
    assert { (k+1) * r = k * r + r };
    digits (k*r) ((k+1)*r) k r;
    mul_mono (k+1) (csz d (length d - 2)) r;
    mul_mono 0 k r;
    assert { c - g = i * ntx d + j };
    let ghost aux (o: int)
      requires { p + k * r <= o < p + (k+1) * r }
      ensures { covers d b f c o /\ trow d b f c o = i * csz d (length d - 2) + k /\
                tcol d b f c o = j * r + (o - p - k * r) }
    = assert { k*r <= o - p < (k+1)*r } in
    let rec ghost all (h: int)
      requires { h <= p + (k+1) * r }
      ensures { forall o. p + k * r <= o < h -> covers d b f c o /\ trow d b f c o = i * csz d (length d - 2) + k /\
                tcol d b f c o = j * r + (o - p - k * r) }
      variant { h - (p + k*r) }
    = if h > p + k*r then begin all (h-1); aux (h-1) end in
    all (p + (k+1)*r)

  (* ---- a frame being stored: all chunks before number n of the frame's are done *)
  type chunks = seq (seq int)
  predicate samesizes (g0 cur: chunks) =
    length cur = length g0 /\ (forall c. 0 <= c < length g0 -> length cur[c] = length g0[c])
  predicate done_to (d: seq zarrdim) (b f: int) (data: seq int) (g0 cur: chunks) (n: int) =
    forall c o. 0 <= c < length g0 /\ 0 <= o < length g0[c] ->
      cur[c][o] = if c < fchunk0 d f + n then upd d b f data g0[c][o] c o else g0[c][o]
  predicate row_to (d: seq zarrdim) (b f: int) (data: seq int) (g0 cur: chunks) (n k: int) =
    forall c o. 0 <= c < length g0 /\ 0 <= o < length g0[c] ->
      cur[c][o] = if c < fchunk0 d f + n \/ (c = fchunk0 d f + n /\ o < fpos d b f + k * rowb d b)
                  then upd d b f data g0[c][o] c o else g0[c][o]
  let ghost done_start (d: seq zarrdim) (b f: int) (data: seq int) (g0: chunks)
    ensures { done_to d b f data g0 g0 0 } = ()
  let ghost row_start (d: seq zarrdim) (b f: int) (data: seq int) (g0 cur: chunks) (n: int)
    requires { done_to d b f data g0 cur n }
    ensures { row_to d b f data g0 cur n 0 } = ()
  let ghost row_end (d: seq zarrdim) (b f: int) (data: seq int) (g0 cur: chunks) (n: int)
    requires { row_to d b f data g0 cur n (csz d (length d - 2)) }
    ensures { done_to d b f data g0 cur (n+1) } = ()
  let ghost done_end (d: seq zarrdim) (b f: int) (data: seq int) (g0 cur: chunks)
    requires { done_to d b f data g0 cur (nty d * ntx d) }
    ensures { forall c o. 0 <= c < length g0 /\ 0 <= o < length g0[c] -> cur[c][o] = upd d b f data g0[c][o] c o } = ()

  (* width in bytes of tile column j inside the frame *)
  function roww (d: seq zarrdim) (b j: int) : int = rww (csz d (length d - 1)) (asz d (length d - 1)) b j
  predicate til (d: seq zarrdim) (b: int) =
    tiling (csz d (length d - 2)) (csz d (length d - 1)) (asz d (length d - 2)) (asz d (length d - 1)) b (nty d) (ntx d)
  let ghost til_intro (d: seq zarrdim) (b: int)
    requires { geom d /\ b > 0 }
    ensures { til d b }
  = let ghost tr = csz d (length d - 2) in let ghost tc = csz d (length d - 1) in
    let ghost h = asz d (length d - 2) in let ghost w = asz d (length d - 1) in
    div_bounds (h + tr - 1) tr; div_bounds (w + tc - 1) tc; comm tr (nty d); comm tc (ntx d)
  let ghost row_step_ (d: seq zarrdim) (b f: int) (data: seq int) (g0 cur nxt: chunks) (n j k c0 r p: int)
    requires { samesizes g0 cur /\ samesizes cur nxt }
    requires { row_to d b f data g0 cur n k }
    requires { c0 = fchunk0 d f + n /\ p = fpos d b f + k * rowb d b /\ (k+1) * rowb d b = k * rowb d b + rowb d b /\ rowb d b > 0 }
    requires { forall o. p <= o < p + rowb d b ->
      covers d b f c0 o /\ trow d b f c0 o = r /\ tcol d b f c0 o = j * rowb d b + (o - p) }
    requires { roww d b j <= rowb d b /\ (roww d b j = rowb d b \/ roww d b j = frow d b - j * rowb d b) }
    requires { j * rowb d b + roww d b j <= frow d b }
    requires { forall c o. 0 <= c < length g0 /\ 0 <= o < length g0[c] ->
                 nxt[c][o] = if c = c0 /\ r < asz d (length d - 2) /\ p <= o < p + roww d b j
                             then data[r * frow d b + j * rowb d b + (o - p)] else cur[c][o] }
    ensures { row_to d b f data g0 nxt n (k+1) }
  = assert { forall o. p <= o < p + rowb d b -> r < asz d (length d - 2) -> o - p < roww d b j ->
      inframe d b f c0 o /\ src d b f c0 o = r * frow d b + j * rowb d b + (o - p) };
    assert { forall o. p <= o < p + rowb d b -> (r >= asz d (length d - 2) \/ o - p >= roww d b j) ->
      not (inframe d b f c0 o) }

  (* one row of tile (i, j) copied *)
  let ghost row_step (d: seq zarrdim) (b f: int) (data: seq int) (g0 cur nxt: chunks) (i j k: int)
    requires { b > 0 /\ geom d /\ 0 <= i < nty d /\ 0 <= j < ntx d /\ 0 <= k < csz d (length d - 2) }
    requires { samesizes g0 cur /\ samesizes cur nxt }
    requires { row_to d b f data g0 cur (i * ntx d + j) k }
    requires { let c0 = fchunk0 d f + (i * ntx d + j) in
               let r = i * csz d (length d - 2) + k in
               let p = fpos d b f + k * rowb d b in
               (forall c o. 0 <= c < length g0 /\ 0 <= o < length g0[c] ->
                 nxt[c][o] = if c = c0 /\ r < asz d (length d - 2) /\ p <= o < p + roww d b j
                             then data[r * frow d b + j * rowb d b + (o - p)] else cur[c][o]) }
    ensures { row_to d b f data g0 nxt (i * ntx d + j) (k+1) }
  = row_of_tile d b f i j k;
    let ghost tc = csz d (length d - 1) in let ghost w = asz d (length d - 1) in
    til_intro d b;
    facts (csz d (length d - 2)) tc (asz d (length d - 2)) w b (nty d) (ntx d) i j k;
    let ghost c0 = fchunk0 d f + (i * ntx d + j) in
    let ghost r = i * csz d (length d - 2) + k in
    let ghost p = fpos d b f + k * rowb d b in
    dist k 1 (rowb d b);
    assert { roww d b j = rww tc w b j /\ rowb d b = tc*b /\ frow d b = w*b };
    row_step_ d b f data g0 cur nxt (i * ntx d + j) j k c0 r p

  (* bytes stored so far *)
  function wr1 (d: seq zarrdim) (b i: int) : int = w1 (csz d (length d - 2)) (asz d (length d - 2)) (asz d (length d - 1)) b i
  function wr2 (d: seq zarrdim) (b i j: int) : int =
    w2 (csz d (length d - 2)) (csz d (length d - 1)) (asz d (length d - 2)) (asz d (length d - 1)) b i j
  function wr3 (d: seq zarrdim) (b i j k: int) : int =
    w3 (csz d (length d - 2)) (csz d (length d - 1)) (asz d (length d - 2)) (asz d (length d - 1)) b i j k

  let ghost bridge (d: seq zarrdim) (b r j: int)
    ensures { r * frow d b + j * rowb d b = r * (asz d (length d - 1) * b) + j * (csz d (length d - 1) * b) } = ()

  (* a writer's configuration, within the machine-size domain, and its chunk buffers *)
  function adims (c: awcfg) : seq zarrdim = match c.aw_dimensions with Some ad -> ad.ad_dims_ | None -> empty end
  function bpp (c: awcfg) : int = btype c.aw_dtype
  predicate cfgok (c: awcfg) =
    match c.aw_dimensions with Some ad -> ad.ad_dtype_ = c.aw_dtype /\ inr_arraydims ad /\ ad.ad_dims_ = adims c | None -> false end /\
    geom (adims c) /\ fitsA (adims c) /\ fitsN (adims c) /\ fitsC (adims c) /\ fitsF (adims c) /\
    0 <= c.aw_dtype < 10 /\ bpp c * prod C (adims c) 0 (length (adims c)) <= 0x7fff_ffff_ffff_ff00 /\ prod N (adims c) 1 (length (adims c)) <= 0x7fff_ffff
  (* one buffer per chunk of an append-step, each of the size of a chunk *)
  function chunkb (c: awcfg) : int = bpp c * prod C (adims c) 0 (length (adims c))
  predicate bufsok (c: awcfg) (g: chunks) =
    length g = prod N (adims c) 1 (length (adims c)) /\ (forall i. 0 <= i < length g -> length g[i] = chunkb c)

  let ghost frame_fits (c: awcfg) (g: chunks) (f: int)
    requires { cfgok c /\ bufsok c g /\ f >= 0 }
    ensures { 3 <= length (adims c) /\ geom (adims c) /\ fitsA (adims c) /\ fitsN (adims c) /\ fitsC (adims c) /\ fitsF (adims c) }
    ensures { 1 <= bpp c <= 8 /\ til (adims c) (bpp c) /\ 0 <= c.aw_dtype < 10 }
    ensures { 1 <= nty (adims c) <= 0x7fff_ffff /\ 1 <= ntx (adims c) <= 0x7fff_ffff }
    ensures { 0 <= fchunk0 (adims c) f /\ fchunk0 (adims c) f + nty (adims c) * ntx (adims c) <= length g }
    ensures { length g <= 0xffff_ffff /\ chunkb c <= 0x7fff_ffff_ffff_ffff }
    ensures { 0 <= fpos (adims c) (bpp c) f /\ fpos (adims c) (bpp c) f + tileb (adims c) (bpp c) <= chunkb c }
    ensures { fpos (adims c) (bpp c) f = intern (adims c) f 0 * (bpp c * csz (adims c) (length (adims c) - 1) * csz (adims c) (length (adims c) - 2)) }
    ensures { 0 < rowb (adims c) (bpp c) <= tileb (adims c) (bpp c) }
  = let ghost d = adims c in let ghost n = length d in let ghost b = bpp c in
    assert { geom d /\ 3 <= n /\ 1 <= b <= 8 /\ 0 <= c.aw_dtype < 10 };
    assert { length g = prod N d 1 n /\ chunkb c = b * prod C d 0 n /\ fitsF d };
    posC d 0; posN d 1; til_intro d b; group_bound d f 1;
    unfold_prod N d (n-2) n; unfold_prod N d (n-1) n; unfold_prod N d n n;
    nch_pos d (n-1); nch_pos d (n-2);
    assert { prod N d (n-2) n = nty d * ntx d };
    intern_bound d f 0; prod_cut C d 0 (n-2) n;
    unfold_prod C d (n-2) n; unfold_prod C d (n-1) n; unfold_prod C d n n;
    let ghost tr = csz d (n-2) in let ghost tc = csz d (n-1) in let ghost p = intern d f 0 in
    assert { prod C d (n-2) n = tr * tc };
    tile_room p (prod C d 0 (n-2)) tr tc b;
    mul_eq (prod C d 0 (n-2)) (prod C d (n-2) n) (prod C d 0 (n-2)) (tr * tc);
    mul_eq b (prod C d 0 n) b (prod C d 0 (n-2) * (tr * tc));
    assert { rowb d b = tc * b }; mul_eq tr (rowb d b) tr (tc*b);
    assert { tileb d b = tr * (tc * b) };
    mul_eq p (tileb d b) p (tr * (tc*b));
    assert { fpos d b f = p * (tr * (tc*b)) }
end
