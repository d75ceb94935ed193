# Downsampling of one image and the mean of two, for pixels of type {T} ({S} bytes).

fn scale_image<{T}>
  file zarr.stream.cpp
  sig (anonymous namespace)::scale_image<{T}>
  args src_ bytes_of_src width height
  arg src_ ptr {W}
  returns ("seq", {W})
  use pixels.Doubles stream.Appending pixels.Pixels
  locals src bytes_of_frame downscale bytes_of_type factor w_pad h_pad size_downscaled dst dst_idx row pad_height col src_idx pad_width here right down diag
  requires src__off = 0 /\ 1 <= width /\ 1 <= height
  requires [the source has the bytes it says] bytes_of_src <= length src_ * {S}
  requires [machine size: an image has at most 2^48 bytes] height * width * {S} <= 0x1_0000_0000_0000
  ensures [half the width and height, rounded up] width = half (old width) /\ height = half (old height)
  ensures [the size of the result] bytes_of_src = half (old height) * half (old width) * {S} /\ length result >= fpos height width
  ensures [a pixel is the mean of the 2x2 block it covers] forall r c. 0 <= r < height /\ 0 <= c < width -> mean_px src_ (old width) (old height) result width r c
  xensures [a source that is too small is refused] true
  ghost entry: let ghost w = width in let ghost h = height in let ghost w2 = pure { half w } in let ghost h2 = pure { half h } in
  ghost entry: halves w h; fpos_is h w; fpos_is h2 w2;
  ghost decl h_pad: assert { exact w_pad /\ q w_pad = 4 * (2 * w2) /\ exact h_pad /\ q h_pad = 4 * (2 * h2) };
  ghost decl h_pad: mul_ints w_pad h_pad (2 * w2) (2 * h2); assert { fpos h w = h * w /\ fpos h2 w2 = h2 * w2 /\ fpos h w <= length src_ };
  ghost decl size_downscaled: assert { size_downscaled = fpos h2 w2 * {S} };
  ghost decl here: assert { here = d_of_int (px src_ w h (2 * r0) (2 * c0)) };
  ghost decl diag: assert { small4 src_ w h r0 c0 -> exact here /\ q here = 4 * px src_ w h (2 * r0) (2 * c0) };
  ghost decl right: assert { right = d_of_int (px src_ w h (2 * r0) (2 * c0 + 1)) };
  ghost decl diag: assert { small4 src_ w h r0 c0 -> exact right /\ q right = 4 * px src_ w h (2 * r0) (2 * c0 + 1) };
  ghost decl down: assert { down = d_of_int (px src_ w h (2 * r0 + 1) (2 * c0)) };
  ghost decl diag: assert { small4 src_ w h r0 c0 -> exact down /\ q down = 4 * px src_ w h (2 * r0 + 1) (2 * c0) };
  ghost decl diag: assert { diag = d_of_int (px src_ w h (2 * r0 + 1) (2 * c0 + 1)) };
  ghost decl diag: assert { small4 src_ w h r0 c0 -> exact diag /\ q diag = 4 * px src_ w h (2 * r0 + 1) (2 * c0 + 1) };
  ghost decl pad_height: assert { pad_height <-> row = h - 1 };
  ghost decl pad_width: assert { pad_width <-> col = w - 1 };
  ghost decl pad_width: assert { width * (1 - (if pad_height then 1 else 0)) = if row = h - 1 then 0 else w };
  ghost decl diag: assert { small4 src_ w h r0 c0 -> let s = d_add (d_add (d_add here right) down) diag in exact s /\ q s = 4 * sum4 src_ w h r0 c0 && exact (d_mul (d_lit 1) s) /\ q (d_mul (d_lit 1) s) = sum4 src_ w h r0 c0 };
  loop 1
    invariant 0 <= $i <= h + 1 /\ mod $i 2 = 0
    invariant length dst_arr >= fpos h2 w2
    invariant dst_idx = fpos (div $i 2) w2
    invariant forall r c. 0 <= r < div $i 2 /\ 0 <= c < w2 -> mean_px src_ w h dst_arr w2 r c
    variant h + 1 - $i
  loop 2
    invariant 0 <= $i <= w + 1 /\ mod $i 2 = 0
    invariant length dst_arr >= fpos h2 w2
    invariant dst_idx = fpos (div $up1 2) w2 + div $i 2
    invariant forall r c. 0 <= r < div $up1 2 /\ 0 <= c < w2 -> mean_px src_ w h dst_arr w2 r c
    invariant forall c. 0 <= c < div $i 2 -> mean_px src_ w h dst_arr w2 (div $up1 2) c
    variant w + 1 - $i
    ghost body_begin: let ghost d0 = dst_arr in block src_ w h $up1 $i; let ghost r0 = pure { div $up1 2 } in let ghost c0 = pure { div $i 2 } in fpos_mono r0 h2 w2;
    ghost body_end: assert { length dst_arr = length d0 /\ forall k. 0 <= k < length d0 -> k <> fpos r0 w2 + c0 -> dst_arr[k] = d0[k] }; assert { small4 src_ w h r0 c0 -> dst_arr[fpos r0 w2 + c0] = quot (sum4 src_ w h r0 c0) 4 };
    ghost body_end: one_more src_ w h d0 dst_arr w2 r0 c0;
end

fn average_two_frames<{T}>
  file zarr.stream.cpp
  sig (anonymous namespace)::average_two_frames<{T}>
  args dst_ bytes_of_dst src_ bytes_of_src
  arg dst_ mptr {W}
  arg src_ ptr {W}
  opt frame
  use pixels.Doubles stream.Appending pixels.Pixels
  locals dst src num_pixels i
  requires src__off = 0
  requires [the frames have the bytes they say] bytes_of_src <= length src_ * {S} /\ bytes_of_dst <= length dst_ * {S}
  writes dst_
  ensures [frames of different sizes are refused] bytes_of_dst = bytes_of_src
  ensures [pixels are the means of the two frames] length dst_ = length (old dst_) /\ (forall k. 0 <= k < length dst_ -> mean_two (old dst_) src_ dst_ (div bytes_of_src {S}) k)
  xensures [frames of different sizes are refused] dst_ = old dst_
  ghost entry: let ghost d0 = dst_ in
  loop 1
    invariant 0 <= $i <= num_pixels /\ length dst_ = length d0
    invariant forall k. 0 <= k < length dst_ -> mean_two d0 src_ dst_ $i k
    variant num_pixels - $i
    ghost body_begin: let ghost d1 = dst_ in assert { mean_two d0 src_ d1 $i $i }; assert { d1[$i] = d0[$i] };
    ghost body_begin: assert { small2 d0[$i] src_[$i] -> let s = d_add (d_of_int d0[$i]) (d_of_int src_[$i]) in exact s /\ q s = 4 * (d0[$i] + src_[$i]) };
    ghost body_end: assert { forall k [dst_[k]]. 0 <= k < length dst_ -> mean_two d0 src_ d1 $i k /\ (k <> $i -> dst_[k] = d1[k]) };
    ghost body_end: assert { small2 d0[$i] src_[$i] -> dst_[$i] = quot (d0[$i] + src_[$i]) 2 };
end
