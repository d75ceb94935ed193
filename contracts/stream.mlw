(* The stream: bytes in, frames out. *)
module Appending
  use Cxx.Cxx
  use Types.Types

  (* a writer takes whole frames of its size (ArrayWriter::write_frame, C04) *)
  val writer_put (w: writerobj) (d: seq int) : (writerobj, int)
    ensures { let (v, r) = result in v.wr_bytes = w.wr_bytes /\
      (if length d = w.wr_bytes then v.wr_frames = snoc w.wr_frames d /\ r = length d else v = w /\ r = 0) }
    raises { Throw -> true }

  (* n * f *)
  let rec function fpos (n f: int) : int variant { n } = if n <= 0 then 0 else fpos (n - 1) f + f
  let rec lemma fpos_is (n f: int) requires { 0 <= n } ensures { fpos n f = n * f } variant { n } = if n > 0 then fpos_is (n - 1) f
  predicate allbytes (b: seq int) = forall k. 0 <= k < length b -> 0 <= b[k] <= 255
  function frames_of (w: option writerobj) : seq (seq int) = match w with None -> empty | Some x -> x.wr_frames end
  function size_of (w: option writerobj) : int = match w with None -> 0 | Some x -> x.wr_bytes end

  (* the first p bytes of h are the frames fr, one after the other, and the first off bytes of buf *)
  predicate frame_at (d h: seq int) (f q: int) = length d = f /\ forall j. 0 <= j < f -> d[j] = h[q + j]
  predicate carried (fr: seq (seq int)) (buf: seq int) (off f: int) (h: seq int) (p: int) =
    p = fpos (length fr) f + off /\ 0 <= off <= f /\ 0 <= p <= length h /\
    (forall i. 0 <= i < length fr -> frame_at fr[i] h f (fpos i f)) /\
    (forall j. 0 <= j < off -> buf[j] = h[p - off + j])
  let rec lemma fpos_nonneg (n f: int)
    requires { 0 <= n /\ 0 <= f } ensures { 0 <= fpos n f } variant { n }
  = if n > 0 then begin fpos_nonneg (n - 1) f; assert { fpos n f = fpos (n - 1) f + f } end else assert { fpos 0 f = 0 }
  let rec lemma fpos_mono (i n f: int)
    requires { 0 <= i < n /\ 0 <= f } ensures { 0 <= fpos i f /\ fpos i f + f <= fpos n f } variant { n }
  = assert { fpos n f = fpos (n - 1) f + f }; fpos_nonneg i f; if i < n - 1 then fpos_mono i (n - 1) f
  let lemma carried_frame (fr fr2: seq (seq int)) (buf buf2 d: seq int) (off f: int) (h: seq int) (p: int)
    requires { carried fr buf off f h p /\ p - off + f <= length h }
    requires { fr2 = snoc fr d /\ frame_at d h f (p - off) /\ 0 <= f }
    ensures { carried fr2 buf2 0 f h (p - off + f) }
  = assert { p - off = fpos (length fr) f };
    fpos_nonneg (length fr) f;
    assert { length fr2 = length fr + 1 /\ fpos (length fr2) f = p - off + f };
    assert { forall i. 0 <= i < length fr2 -> frame_at fr2[i] h f (fpos i f) by if i < length fr then fr2[i] = fr[i] /\ frame_at fr[i] h f (fpos i f) else fr2[i] = d }
  (* the same bytes, with more to come *)
  let lemma frame_more (d h h2: seq int) (f q p: int)
    requires { frame_at d h f q /\ 0 <= q /\ q + f <= p /\ p <= length h /\ forall k. 0 <= k < length h -> h2[k] = h[k] }
    ensures { frame_at d h2 f q }
  = assert { forall j. 0 <= j < f -> d[j] = h[q + j] /\ h2[q + j] = h[q + j] }
  let ghost carried_more (fr: seq (seq int)) (buf: seq int) (off f: int) (h h2: seq int) (p: int)
    requires { carried fr buf off f h p /\ 0 <= f }
    requires { length h <= length h2 /\ forall k. 0 <= k < length h -> h2[k] = h[k] }
    ensures { carried fr buf off f h2 p }
  = fpos_nonneg (length fr) f;
    for i = 0 to length fr - 1 do
      invariant { forall j. 0 <= j < i -> frame_at fr[j] h2 f (fpos j f) }
      fpos_mono i (length fr) f;
      frame_more fr[i] h h2 f (fpos i f) p
    done;
    assert { forall j. 0 <= j < off -> buf[j] = h[p - off + j] /\ h2[p - off + j] = h[p - off + j] }
end
