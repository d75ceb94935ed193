(* The resolution pyramid: geometry of the next lower resolution. *)
module Pyramid
  use Cxx.Cxx
  use Types.Types
  use dims.DimSpec

  constant t_channel : int = 1
  function half (n: int) : int = div (n + 1) 2
  function least (x y: int) : int = if x <= y then x else y
  function nchunks (d: zarrdim) : int = cdiv d.zd_array_size_px d.zd_chunk_size_px
  (* d is p at half the resolution *)
  predicate halved (p d: zarrdim) =
    if p.zd_type = t_channel then d = p
    else d.zd_name = p.zd_name /\ d.zd_type = p.zd_type /\ d.zd_array_size_px = half p.zd_array_size_px /\
      d.zd_chunk_size_px = (if p.zd_array_size_px = 0 then p.zd_chunk_size_px else least p.zd_chunk_size_px (half p.zd_array_size_px)) /\
      d.zd_shard_size_chunks = (if p.zd_array_size_px = 0 then 1 else least (nchunks d) p.zd_shard_size_chunks)
  predicate all_halved (p d: seq zarrdim) = length d = length p /\ forall k. 0 <= k < length p -> halved p[k] d[k]
  function cdims (c: awcfg) : seq zarrdim = match c.aw_dimensions with None -> empty | Some a -> a.ad_dims_ end
  predicate hasdims (c: awcfg) = match c.aw_dimensions with None -> false | Some a -> a.ad_dtype_ = c.aw_dtype /\ inr_arraydims a end
  predicate next_level (c d: awcfg) =
    hasdims d /\ all_halved (cdims c) (cdims d) /\ d.aw_level_of_detail = c.aw_level_of_detail + 1 /\ d.aw_dtype = c.aw_dtype /\
    d.aw_bucket_name = c.aw_bucket_name /\ d.aw_store_path = c.aw_store_path /\ d.aw_compression_params = c.aw_compression_params
  predicate no_larger (p d: zarrdim) = d.zd_array_size_px <= p.zd_array_size_px /\ d.zd_chunk_size_px <= p.zd_chunk_size_px /\
    (p.zd_shard_size_chunks > 0 -> 0 < d.zd_shard_size_chunks <= p.zd_shard_size_chunks)
  (* some dimension is left to halve *)
  predicate shrinkable (d: zarrdim) = d.zd_type <> t_channel /\ d.zd_array_size_px > 1
  predicate goes_on (c d: awcfg) =
    (forall k. 0 <= k < length (cdims d) -> (cdims d)[k].zd_chunk_size_px >= (cdims c)[k].zd_chunk_size_px) /\
    (exists k. 0 <= k < length (cdims d) /\ shrinkable (cdims d)[k])

  let lemma nchunks_pos (a c: int)
    requires { a > 0 /\ c > 0 } ensures { 1 <= cdiv a c <= a }
  = let q = cdiv_ (a + c - 1) c in
    assert { a + c - 1 = c * q + mod (a + c - 1) c };
    assert { q >= 1 by c * 1 <= a + c - 1 };
    if q > a then begin assert { c * q >= c * (a + 1) }; assert { c * (a + 1) = c * a + c }; assert { c * a >= a }; absurd end
  let lemma geom_halved (p d: seq zarrdim)
    requires { geom p /\ all_halved p d }
    ensures { geom d /\ forall k. 0 <= k < length p -> no_larger p[k] d[k] }
  = assert { forall k. 0 <= k < length p -> no_larger p[k] d[k] /\ csz d k > 0 /\ asz d k >= 0 /\ ssz d k >= 0 /\ (k > 0 -> asz d k > 0) /\ asz d k + csz d k < 0x1_0000_0000
      by halved p[k] d[k] /\ csz p k > 0 /\ asz p k >= 0 /\ ssz p k >= 0 /\ (k > 0 -> asz p k > 0) /\ asz p k + csz p k < 0x1_0000_0000 }

  (* sizes halve with each level, so there are few *)
  predicate bounded (d: seq zarrdim) (level: int) =
    forall k. 0 <= k < length d -> d[k].zd_type <> t_channel -> (d[k].zd_array_size_px - 1) * f_pow2 level <= 0xffff_ffff
  let lemma bounded_next (p d: seq zarrdim) (level: int)
    requires { bounded p level /\ all_halved p d /\ level >= 0 }
    requires { forall k. 0 <= k < length p -> p[k].zd_array_size_px >= 0 }
    ensures { bounded d (level + 1) }
  = let ghost q = pure { f_pow2 level } in
    assert { f_pow2 (level + 1) = 2 * q /\ q >= 1 };
    assert { forall k. 0 <= k < length d -> d[k].zd_type <> t_channel -> (d[k].zd_array_size_px - 1) * (2 * q) <= 0xffff_ffff
      by halved p[k] d[k] /\ p[k].zd_type <> t_channel /\ (d[k].zd_array_size_px - 1) * 2 <= p[k].zd_array_size_px - 1
      so (d[k].zd_array_size_px - 1) * 2 * q <= (p[k].zd_array_size_px - 1) * q }
  let rec lemma pow2_mono (i j: int)
    requires { 0 <= i <= j } ensures { f_pow2 i <= f_pow2 j } variant { j }
  = if i < j then pow2_mono i (j - 1)
  let lemma few_levels (d: seq zarrdim) (level k: int)
    requires { bounded d level /\ 0 <= k < length d /\ shrinkable d[k] /\ level >= 0 }
    ensures { level <= 31 }
  = assert { 1 * f_pow2 level <= (d[k].zd_array_size_px - 1) * f_pow2 level };
    if level > 31 then begin
      pow2_mono 32 level;
      assert { f_pow2 4 = 16 }; assert { f_pow2 8 = 256 }; assert { f_pow2 12 = 4096 }; assert { f_pow2 16 = 65536 };
      assert { f_pow2 20 = 1048576 }; assert { f_pow2 24 = 16777216 }; assert { f_pow2 28 = 268435456 }; assert { f_pow2 32 = 4294967296 }
    end
end

module Writers
  use Cxx.Cxx
  use Types.Types
  use dims.DimSpec
  use export Pyramid

  constant s_zstd : str = snoc (snoc (snoc (snoc empty 122) 115) 116) 100
  constant s_lz4 : str = snoc (snoc (snoc empty 108) 122) 52
  (* the compression a writer uses is the one configured *)
  predicate compresses (c: option cown) (p: option bcp) =
    match c, p with
    | None, None -> true
    | Some a, None -> a.co_compressor = 0
    | Some a, Some b -> a.co_compressor <> 0 /\ b.bc_clevel = a.co_level /\ b.bc_shuffle = a.co_shuffle /\
        (a.co_codec = 1 -> b.bc_codec_id = s_lz4) /\ (a.co_codec = 2 -> b.bc_codec_id = s_zstd)
    | _ -> false end
  function wcfg (w: option writerobj) : awcfg
  axiom wcfg_def: forall x. wcfg (Some x) = x.wr_cfg
  function wv3 (w: option writerobj) : bool
  axiom wv3_def: forall x. wv3 (Some x) = x.wr_v3
  predicate level0 (c: awcfg) (d: option arraydims) (t: int) (s3: option s3own) (path: str) (comp: option cown) =
    c.aw_dimensions = d /\ c.aw_dtype = t /\ c.aw_level_of_detail = 0 /\ c.aw_store_path = path /\
    c.aw_bucket_name = (match s3 with None -> None | Some s -> Some s.so_bucket_name end) /\ compresses comp c.aw_compression_params
  (* consecutive levels of a pyramid *)
  predicate levels (w: seq (option writerobj)) =
    (forall i. 0 <= i < length w -> w[i] <> None /\ geom (cdims (wcfg w[i])) /\ hasdims (wcfg w[i]) /\ (wcfg w[i]).aw_level_of_detail = i) /\
    (forall i. 0 <= i < length w - 1 -> next_level (wcfg w[i]) (wcfg w[i + 1]))
  predicate ongoing (w: seq (option writerobj)) = forall i. 0 <= i < length w - 1 -> goes_on (wcfg w[i]) (wcfg w[i + 1])
end
