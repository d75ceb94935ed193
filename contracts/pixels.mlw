(* Doubles, as far as the pixel functions use them: values that are whole
   quarters are computed exactly. *)
module Doubles
  use Cxx.Cxx

  type dbl
  (* a double that is exactly q/4 *)
  predicate exact (d: dbl)
  function q (d: dbl) : int
  (* q/4 has a 53-bit mantissa *)
  predicate rep (x: int) = -0x20_0000_0000_0000 <= x <= 0x20_0000_0000_0000 \/ (mod x 2 = 0 /\ -0x40_0000_0000_0000 <= x <= 0x40_0000_0000_0000) \/ (mod x 4 = 0 /\ -0x80_0000_0000_0000 <= x <= 0x80_0000_0000_0000)
  function quot (n d: int) : int = if n >= 0 then div n d else - (div (- n) d)

  lemma quot_half: forall s [quot (2 * s) 4]. quot (2 * s) 4 = quot s 2
  lemma quot_small: forall s d [quot s d]. d = 2 \/ d = 4 -> (s >= 0 -> 0 <= quot s d <= s) /\ (s <= 0 -> s <= quot s d <= 0)

  val function d_of_int (i: int) : dbl
  axiom d_of_int_exact: forall i [d_of_int i]. rep (4 * i) -> exact (d_of_int i) /\ q (d_of_int i) = 4 * i
  (* the literal x/4 *)
  val function d_lit (x: int) : dbl
  axiom d_lit_exact: forall x [d_lit x]. rep x -> exact (d_lit x) /\ q (d_lit x) = x
  val function d_add (a b: dbl) : dbl
  axiom d_add_exact: forall a b [d_add a b]. exact a -> exact b -> rep (q a + q b) -> exact (d_add a b) /\ q (d_add a b) = q a + q b
  val function d_sub (a b: dbl) : dbl
  axiom d_sub_exact: forall a b [d_sub a b]. exact a -> exact b -> rep (q a - q b) -> exact (d_sub a b) /\ q (d_sub a b) = q a - q b
  val function d_mul (a b: dbl) : dbl
  axiom d_mul_exact: forall a b x. exact a -> exact b -> q a * q b = 4 * x -> rep x -> exact (d_mul a b) /\ q (d_mul a b) = x
  val function d_div (a b: dbl) : dbl
  axiom d_div_exact: forall a b x. exact a -> exact b -> q b <> 0 -> 4 * q a = q b * x -> rep x -> exact (d_div a b) /\ q (d_div a b) = x
  (* what of it a float keeps *)
  val function d_float (a: dbl) : dbl

  lemma mul_1: forall a b [d_mul a b]. exact a -> exact b -> q a = 1 -> mod (q b) 4 = 0 -> rep (div (q b) 4) -> exact (d_mul a b) /\ q (d_mul a b) = div (q b) 4
  lemma mul_2: forall a b [d_mul a b]. exact a -> exact b -> q a = 2 -> mod (q b) 4 = 0 -> rep (2 * div (q b) 4) -> exact (d_mul a b) /\ q (d_mul a b) = 2 * div (q b) 4
  lemma mul_1r: forall a b [d_mul a b]. exact a -> exact b -> q b = 1 -> mod (q a) 4 = 0 -> rep (div (q a) 4) -> exact (d_mul a b) /\ q (d_mul a b) = div (q a) 4
  lemma mul_2r: forall a b [d_mul a b]. exact a -> exact b -> q b = 2 -> mod (q a) 4 = 0 -> rep (2 * div (q a) 4) -> exact (d_mul a b) /\ q (d_mul a b) = 2 * div (q a) 4
  lemma mul_4r: forall a b [d_mul a b]. exact a -> exact b -> q b = 4 -> rep (q a) -> exact (d_mul a b) /\ q (d_mul a b) = q a
  lemma mul_8r: forall a b [d_mul a b]. exact a -> exact b -> q b = 8 -> rep (2 * q a) -> exact (d_mul a b) /\ q (d_mul a b) = 2 * q a
  lemma mul_16r: forall a b [d_mul a b]. exact a -> exact b -> q b = 16 -> rep (4 * q a) -> exact (d_mul a b) /\ q (d_mul a b) = 4 * q a
  lemma mul_32r: forall a b [d_mul a b]. exact a -> exact b -> q b = 32 -> rep (8 * q a) -> exact (d_mul a b) /\ q (d_mul a b) = 8 * q a
  let lemma mul_ints (a b: dbl) (m n: int)
    requires { exact a /\ exact b /\ q a = 4 * m /\ q b = 4 * n /\ rep (4 * (m * n)) }
    ensures { exact (d_mul a b) /\ q (d_mul a b) = 4 * (m * n) }
  = assert { q a * q b = 4 * (4 * (m * n)) }

  (* conversion to an integer type drops the fraction; outside of the type it is undefined *)
  val d_trunc (lo hi: int) (d: dbl) : int
    requires { [@expl:conversion of a double to an integer] exact d -> lo <= quot (q d) 4 <= hi }
    ensures { lo <= result <= hi /\ (exact d -> result = quot (q d) 4) }
  (* ... to a 64-bit type: what does not fit is not a value a double holds exactly *)
  val d_trunc64 (lo hi: int) (d: dbl) : int
    ensures { lo <= result <= hi /\ (exact d -> lo <= quot (q d) 4 <= hi -> result = quot (q d) 4) }
  val d_eq (a b: dbl) : bool
    ensures { exact a -> exact b -> (result <-> q a = q b) }
  val d_lt (a b: dbl) : bool
    ensures { exact a -> exact b -> (result <-> q a < q b) }
  val d_le (a b: dbl) : bool
    ensures { exact a -> exact b -> (result <-> q a <= q b) }
end

module Pixels
  use Cxx.Cxx
  use Doubles
  use stream.Appending

  val fresh_seq (n: int) (lo hi: int) : seq int
    ensures { length result = n /\ forall k. 0 <= k < n -> lo <= result[k] <= hi }
    raises { Throw -> true }
  (* memset of n bytes at element off, elements of tsz bytes *)
  val set_bytes (s: seq int) (off v n tsz lo hi: int) : seq int
    requires { [@expl:memset within the array] 0 <= off <= length s /\ 0 <= n <= (length s - off) * tsz }
    ensures { length result = length s /\ forall k. 0 <= k < length s -> (lo <= s[k] <= hi -> lo <= result[k] <= hi) }

  (* the pixel of an image of h rows of w pixels, the last row and column repeated *)
  function px (s: seq int) (w h y x: int) : int = s[fpos (if y < h then y else h - 1) w + (if x < w then x else w - 1)]
  (* the sum of a 2 x 2 block *)
  function sum4 (s: seq int) (w h r c: int) : int =
    px s w h (2 * r) (2 * c) + px s w h (2 * r) (2 * c + 1) + px s w h (2 * r + 1) (2 * c) + px s w h (2 * r + 1) (2 * c + 1)
  (* values a double holds with room for two more bits *)
  constant big : int = 0x8_0000_0000_0000
  predicate small (v: int) = -big <= v <= big
  predicate small4 (s: seq int) (w h r c: int) =
    small (px s w h (2 * r) (2 * c)) /\ small (px s w h (2 * r) (2 * c + 1)) /\ small (px s w h (2 * r + 1) (2 * c)) /\ small (px s w h (2 * r + 1) (2 * c + 1))
  (* pixel (r, c) of the image of half size *)
  predicate mean_px (s: seq int) (w h: int) (d: seq int) (w2 r c: int) =
    small4 s w h r c -> d[fpos r w2 + c] = quot (sum4 s w h r c) 4
  (* values whose sum a double holds *)
  predicate small2 (a b: int) = -0x10_0000_0000_0000 <= a <= 0x10_0000_0000_0000 /\ -0x10_0000_0000_0000 <= b <= 0x10_0000_0000_0000
  (* the first n pixels of d are the means of those of a and b, the others are as in a *)
  predicate mean_two (a b d: seq int) (n k: int) =
    if k < n then small2 a[k] b[k] -> d[k] = quot (a[k] + b[k]) 2 else d[k] = a[k]
  function half (n: int) : int = div (n + 1) 2
  let rec ghost fpos_is (n f: int) requires { 0 <= n } ensures { fpos n f = n * f } variant { n } = if n > 0 then fpos_is (n - 1) f
  (* half of a size, squared: what fits *)
  let ghost halves (w h: int)
    requires { 1 <= w /\ 1 <= h }
    ensures { half w >= 1 /\ half h >= 1 /\ (2 * half w) * (2 * half h) <= 4 * (w * h) /\ half w <= w /\ half h <= h }
    ensures { (2 * half w) * (2 * half h) = 4 * (half h * half w) /\ half h * half w >= 1 /\ half h * half w <= h * w }
    ensures { w + mod w 2 = 2 * half w /\ h + mod h 2 = 2 * half h }
  = assert { half w <= w /\ half h <= h };
    assert { half w * half h <= w * half h };
    assert { w * half h <= w * h }
  (* a pixel of the image is in it *)
  let ghost px_in (w h y x: int)
    requires { 0 <= y < h /\ 0 <= x < w }
    ensures { 0 <= fpos y w + x < fpos h w }
  = fpos_mono y h w

  (* the block at (row, col): where its pixels are *)
  let ghost block (s: seq int) (w h row col: int)
    requires { 0 <= row < h /\ 0 <= col < w /\ fpos h w <= length s }
    requires { mod row 2 = 0 /\ mod col 2 = 0 }
    ensures { let i = row * w + col in let x = if col = w - 1 then 0 else 1 in let y = if row = h - 1 then 0 else w in
      0 <= row * w /\ 0 <= i /\ i + x + y < length s /\
      px s w h (2 * div row 2) (2 * div col 2) = s[i] /\ px s w h (2 * div row 2) (2 * div col 2 + 1) = s[i + x] /\
      px s w h (2 * div row 2 + 1) (2 * div col 2) = s[i + y] /\ px s w h (2 * div row 2 + 1) (2 * div col 2 + 1) = s[i + y + x] }
  = fpos_is row w; fpos_nonneg row w; assert { 2 * div row 2 = row /\ 2 * div col 2 = col };
    if row < h - 1 then begin fpos_mono (row + 1) h w; assert { fpos (row + 1) w = fpos row w + w } end else fpos_mono row h w

  (* one more pixel of row r0 *)
  let ghost one_more (s: seq int) (w h: int) (d d2: seq int) (w2 r0 c0: int)
    requires { 0 <= c0 < w2 /\ 0 <= r0 /\ fpos r0 w2 + c0 < length d }
    requires { length d2 = length d /\ forall k. 0 <= k < length d -> k <> fpos r0 w2 + c0 -> d2[k] = d[k] }
    requires { forall r c. 0 <= r < r0 /\ 0 <= c < w2 -> mean_px s w h d w2 r c }
    requires { forall c. 0 <= c < c0 -> mean_px s w h d w2 r0 c }
    requires { mean_px s w h d2 w2 r0 c0 }
    ensures { forall r c. 0 <= r < r0 /\ 0 <= c < w2 -> mean_px s w h d2 w2 r c }
    ensures { forall c. 0 <= c < c0 + 1 -> mean_px s w h d2 w2 r0 c }
  = fpos_nonneg r0 w2;
    for i = 0 to r0 - 1 do
      invariant { forall r c. 0 <= r < i /\ 0 <= c < w2 -> mean_px s w h d2 w2 r c }
      fpos_mono i r0 w2;
      assert { forall c. 0 <= c < w2 -> d2[fpos i w2 + c] = d[fpos i w2 + c] };
      assert { forall c. 0 <= c < w2 -> mean_px s w h d2 w2 i c }
    done;
    assert { forall c. 0 <= c < c0 -> d2[fpos r0 w2 + c] = d[fpos r0 w2 + c] }
end
