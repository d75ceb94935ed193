(* Files as maps from offsets to bytes. `file` is the logical content of the
   stream; f_disk is what has been handed to the operating system. *)
module FileIO
  use Cxx.Cxx
  use seq.Seq
  use map.Map as M
  type fmap = M.map int int
  function fget (m: fmap) (k: int) : int = M.get m k
  type fil = { f_bytes: fmap; f_disk: fmap; f_pos: int; f_fail: bool }
  (* m2 is m with the bytes of d stored at offset o, every other byte kept *)
  predicate stored (m m2: fmap) (o: int) (d: seq int) =
    (forall k. 0 <= k < length d -> fget m2 (o + k) = d[k]) /\
    (forall k. not (o <= k < o + length d) -> fget m2 k = fget m k)
  val fs_seekp (ref f: fil) (off: int) : unit
    writes { f }
    ensures { (old f).f_fail -> f = old f }
    ensures { not (old f).f_fail -> f.f_bytes = (old f).f_bytes /\ f.f_disk = (old f).f_disk }
    ensures { not f.f_fail -> f.f_pos = off /\ not (old f).f_fail }
  val fs_write (ref f: fil) (s: seq int) (from n: int) : unit
    requires { [@expl:write reads within the buffer] 0 <= from /\ 0 <= n /\ from + n <= length s }
    writes { f }
    ensures { (old f).f_fail -> f = old f }
    ensures { not f.f_fail -> not (old f).f_fail /\ f.f_pos = (old f).f_pos + n
              /\ (forall k. 0 <= k < n -> fget f.f_bytes ((old f).f_pos + k) = s[from + k])
              /\ (forall k. not ((old f).f_pos <= k < (old f).f_pos + n) -> fget f.f_bytes k = fget (old f).f_bytes k) }
  val fs_flush (ref f: fil) : unit
    writes { f }
    ensures { (old f).f_fail -> f = old f }
    ensures { f.f_bytes = (old f).f_bytes /\ f.f_pos = (old f).f_pos }
    ensures { not f.f_fail -> not (old f).f_fail /\ f.f_disk = f.f_bytes }
  val fs_fail (f: fil) : bool ensures { result <-> f.f_fail }

  (* gather writes *)
  type iov = { iov_base: seq int; iov_len: int }
  predicate inr_iov (v: iov) = 0 <= v.iov_len
  let rec function cat_bufs (b: seq (seq int)) (n: int) : seq int
    requires { 0 <= n <= length b }
    variant { n }
  = if n = 0 then empty else cat_bufs b (n-1) ++ b[n-1]
  let rec function cat_iov (v: seq iov) (n: int) : seq int
    requires { 0 <= n <= length v }
    requires { forall k. 0 <= k < n -> 0 <= v[k].iov_len <= length v[k].iov_base }
    variant { n }
  = if n = 0 then empty else cat_iov v (n-1) ++ v[n-1].iov_base[.. v[n-1].iov_len]
  let rec lemma cat_len (b: seq (seq int)) (n m: int)
    requires { 0 <= n <= m <= length b }
    ensures { length (cat_bufs b n) <= length (cat_bufs b m) }
    variant { m }
  = if n < m then begin
      cat_len b n (m-1);
      assert { length (cat_bufs b m) = length (cat_bufs b (m-1)) + length b[m-1] }
    end
  let rec lemma cat_same (b: seq (seq int)) (v: seq iov) (n: int)
    requires { 0 <= n <= length b /\ n <= length v }
    requires { forall k. 0 <= k < n -> v[k].iov_base = b[k] /\ v[k].iov_len = length b[k] }
    ensures { cat_iov v n = cat_bufs b n }
    variant { n }
  = if n > 0 then begin
      cat_same b v (n-1);
      assert { v[n-1].iov_base[.. v[n-1].iov_len] == b[n-1] }
    end
  (* pwritev: at most IOV_MAX buffers, a result below zero is a failure *)
  val fs_pwritev (ref f: fil) (ref written: int) (v: seq iov) (n off: int) : int
    requires { [@expl:number of buffers] 0 <= n <= length v }
    requires { [@expl:each buffer is as long as its descriptor says] forall k. 0 <= k < n -> 0 <= v[k].iov_len <= length v[k].iov_base }
    writes { f, written }
    ensures { result = written }
    ensures { -1 <= written <= length (cat_iov v n) }
    ensures { f.f_fail = (old f).f_fail /\ f.f_pos = (old f).f_pos }
    ensures { written >= 0 -> stored (old f).f_bytes f.f_bytes off (cat_iov v n)[.. written] }
    ensures { written = length (cat_iov v n) -> (cat_iov v n)[.. written] = cat_iov v n }

  (* rounding up to a multiple of a power of two *)
  predicate pow2 (p: int) = exists k. 0 <= k < 64 /\ p = f_pow2 k
  (* checked on 64-bit vectors for each of the 64 values of k by tools/selftest.py *)
  axiom and_align: forall x k. 0 <= x <= 0xffff_ffff_ffff_ffff -> 0 <= k < 64 ->
    f_and x (f_not 0xffff_ffff_ffff_ffff (f_pow2 k - 1)) = x - mod x (f_pow2 k)
  let lemma align_mod (x p: int)
    requires { 0 <= x /\ p > 0 }
    ensures { mod (x - mod x p) p = 0 /\ 0 <= mod x p < p }
  = assert { x - mod x p = p * div x p }
end
