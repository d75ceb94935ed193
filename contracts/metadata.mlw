(* Array metadata: what the documents of both versions say. *)
module ArrayMeta
  use Cxx.Cxx
  use Types.Types
  use dims.DimSpec
  use writer.Tiles
  use arrays.Writers
  use json.Json

  (* elements of the append dimension covered by f frames *)
  function covered (d: seq zarrdim) (f: int) : int = cdiv f (prod A d 1 (length d - 2))
  let lemma div_at (x m r: int)
    requires { 0 <= x /\ 0 < m /\ m * r <= x < m * (r + 1) }
    ensures { div x m = r }
  = let q = div x m in
    assert { x = m * q + mod x m /\ 0 <= mod x m < m };
    if q < r then begin assert { m * (q + 1) <= m * r }; assert { m * (q + 1) = m * q + m } end;
    if q > r then begin assert { m * (r + 1) <= m * q } end
  let lemma cdiv_cdiv (f a b: int)
    requires { 0 <= f /\ 0 < a /\ 0 < b }
    ensures { cdiv (cdiv f a) b = cdiv f (a * b) }
  = let q = cdiv f a in let r = cdiv q b in
    assert { a * (q - 1) < f <= a * q };
    assert { b * (r - 1) < q <= b * r };
    let m = a * b in
    assert { a * (b * r) = m * r };
    assert { f <= m * r };
    assert { b * (r - 1) <= q - 1 };
    assert { a * (b * (r - 1)) <= a * (q - 1) };
    assert { a * (b * (r - 1)) = m * (r - 1) };
    assert { m * (r - 1) < f };
    assert { m * (r - 1) + m = m * r /\ m * (r + 1) = m * r + m };
    assert { m * r <= f + m - 1 < m * (r + 1) };
    div_at (f + m - 1) m r
  let lemma cdiv_le (f a: int)
    requires { 0 <= f /\ 0 < a }
    ensures { 0 <= cdiv f a <= f }
  = let q = cdiv f a in
    assert { a * (q - 1) < f };
    if q > f then begin assert { a * (q - 1) >= a * f }; assert { a * f >= f } end

  let lemma comm (a b: int) ensures { a * b = b * a } = ()
  (* one step of the loop that computes it *)
  let lemma cover_step (d: seq zarrdim) (f i s: int)
    requires { 0 <= f /\ 0 < i <= length d - 3 /\ (forall k. 0 < k < length d -> 0 < asz d k) }
    requires { s = cdiv f (prod A d (i + 1) (length d - 2)) }
    ensures { div (s + asz d i - 1) (asz d i) = cdiv f (prod A d i (length d - 2)) }
    ensures { 0 <= s <= f }
  = unfold_prod A d i (length d - 2); prod_pos A d (i + 1) (length d - 2); prod_pos A d i (length d - 2);
    let p = pure { prod A d (i + 1) (length d - 2) } in
    cdiv_le f p; cdiv_cdiv f p (asz d i);
    assert { prod A d i (length d - 2) = asz d i * p };
    comm (asz d i) p;
    assert { cdiv s (asz d i) = div (s + asz d i - 1) (asz d i) }
  constant le_u : str = str"<"
  function dtype2 (t: int) : str =
    if t = 0 then str"<" ++ str"u1" else if t = 1 then str"<" ++ str"u2" else if t = 2 then str"<" ++ str"u4" else if t = 3 then str"<" ++ str"u8" else
    if t = 4 then str"<" ++ str"i1" else if t = 5 then str"<" ++ str"i2" else if t = 6 then str"<" ++ str"i4" else if t = 7 then str"<" ++ str"i8" else
    if t = 8 then str"<" ++ str"f4" else str"<" ++ str"f8"
  function dtype3 (t: int) : str =
    if t = 0 then str"uint8" else if t = 1 then str"uint16" else if t = 2 then str"uint32" else if t = 3 then str"uint64" else
    if t = 4 then str"int8" else if t = 5 then str"int16" else if t = 6 then str"int32" else if t = 7 then str"int64" else
    if t = 8 then str"float32" else str"float64"

  predicate has (j: json) (k: int) (v: json) = jmem j k = Some v
  predicate elems (j: json) (n: int) = jkind j = 2 /\ length (jelems j) = n
  predicate shape_doc (d: seq zarrdim) (f: int) (j: json) =
    elems j (length d) /\ (jelems j)[0] = jint_ (covered d f) /\ forall k. 1 <= k < length d -> (jelems j)[k] = jint_ (asz d k)
  predicate chunks_doc (d: seq zarrdim) (j: json) = elems j (length d) /\ forall k. 0 <= k < length d -> (jelems j)[k] = jint_ (csz d k)
  predicate shards_doc (d: seq zarrdim) (j: json) = elems j (length d) /\ forall k. 0 <= k < length d -> (jelems j)[k] = jint_ (ssz d k)
  predicate written (o s: option sinkobj) (path: str) (doc: json) =
    match s with None -> false | Some x -> x.sk_path = path /\ x.sk_data = overlay (match o with None -> empty | Some y -> y.sk_data end) 0 (jdump_ doc) end

  predicate compressor2 (p: option bcp) (j: json) =
    match p with
    | None -> j = jnull_
    | Some b -> has j key"id" (jstr_ str"blosc") /\ has j key"cname" (jstr_ b.bc_codec_id) /\ has j key"clevel" (jint_ b.bc_clevel) /\ has j key"shuffle" (jint_ b.bc_shuffle)
    end
  predicate document2 (c: awcfg) (f: int) (j: json) =
    has j key"zarr_format" (jint_ 2) /\
    shape_doc (adims c) f (jat_ j key"shape") /\ chunks_doc (adims c) (jat_ j key"chunks") /\
    has j key"dtype" (jstr_ (dtype2 c.aw_dtype)) /\
    has j key"fill_value" (jint_ 0) /\ has j key"order" (jstr_ str"C") /\ has j key"filters" jnull_ /\
    has j key"dimension_separator" (jstr_ str"/") /\
    compressor2 c.aw_compression_params (jat_ j key"compressor") /\ jmem j key"compressor" <> None

  predicate compressor3 (p: option bcp) (j: json) =
    match p with
    | None -> j = jnull_
    | Some b -> has j key"codec" (jstr_ str"https://purl.org/zarr/spec/codec/blosc/1.0") /\
                (let k = jat_ j key"configuration" in
                 has k key"cname" (jstr_ b.bc_codec_id) /\ has k key"clevel" (jint_ b.bc_clevel) /\ has k key"shuffle" (jint_ b.bc_shuffle))
    end
  predicate grid3 (d: seq zarrdim) (j: json) =
    has j key"type" (jstr_ str"regular") /\ has j key"separator" (jstr_ str"/") /\ chunks_doc d (jat_ j key"chunk_shape")
  predicate sharding3 (d: seq zarrdim) (j: json) =
    elems j 1 /\
    (let t = (jelems j)[0] in
     has t key"type" (jstr_ str"indexed") /\
     has t key"extension" (jstr_ str"https://purl.org/zarr/spec/storage_transformers/sharding/1.0") /\
     shards_doc d (jat_ (jat_ t key"configuration") key"chunks_per_shard"))
  predicate document3 (c: awcfg) (f: int) (j: json) =
    shape_doc (adims c) f (jat_ j key"shape") /\ grid3 (adims c) (jat_ j key"chunk_grid") /\
    has j key"data_type" (jstr_ (dtype3 c.aw_dtype)) /\
    has j key"fill_value" (jint_ 0) /\ has j key"chunk_memory_layout" (jstr_ str"C") /\
    compressor3 c.aw_compression_params (jat_ j key"compressor") /\ jmem j key"compressor" <> None /\
    sharding3 (adims c) (jat_ j key"storage_transformers")
end
