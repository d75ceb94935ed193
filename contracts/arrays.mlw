(* Array writers: sinks, compression, state of a writer. *)
module Store
  use Cxx.Cxx
  use Types.Types

  (* bytes of a file or object after writing b at offset o *)
  function overlay (d: seq int) (o: int) (b: seq int) : seq int =
    if length d = 0 then b else if o + length b <= length d then d[.. o] ++ b ++ d[o + length b ..] else d[.. o] ++ b
  (* a sink only grows *)
  val sink_write (ref s: sinkobj) (o: int) (b: seq int) : bool
    requires { [@expl:data is written without a gap] 0 <= o <= length s.sk_data }
    writes { s }
    ensures { s.sk_path = (old s).sk_path /\ s.sk_bucket = (old s).sk_bucket /\ length s.sk_data >= length (old s).sk_data }
    (* no file or object reaches 2^63 bytes *)
    ensures { length s.sk_data <= 0x7fff_ffff_ffff_ffff }
    ensures { result -> s.sk_data = overlay (old s).sk_data o b }
    raises { Throw -> s.sk_path = (old s).sk_path /\ s.sk_bucket = (old s).sk_bucket /\ length s.sk_data >= length (old s).sk_data /\ length s.sk_data <= 0x7fff_ffff_ffff_ffff }
  (* finalize_sink (C12, C13): a null sink needs nothing *)
  val sink_finalize (ref s: option sinkobj) (ref closed: seq sinkobj) : bool
    writes { s, closed }
    ensures { result -> s = None /\ closed = match (old s) with None -> (old closed) | Some x -> snoc (old closed) x end }
    ensures { not result -> s = old s /\ closed = old closed }

  (* blosc: `blosc_of level shuffle typesize codec raw out` is what decodes to raw *)
  predicate blosc_of (level shuffle typesize: int) (codec: str) (raw out: seq int)
  val blosc_compress (level shuffle typesize n: int) (raw: seq int) (ref out: seq int) (cap: int) (codec: str) : int
    requires { [@expl:compressor reads within the chunk] 0 <= n <= length raw }
    requires { [@expl:compressor writes within the buffer] 0 <= cap <= length out }
    requires { [@expl:room for incompressible data] cap >= n + 16 }
    requires { [@expl:compression level] 0 <= level <= 9 }
    requires { [@expl:shuffle filter] 0 <= shuffle <= 2 }
    requires { [@expl:type size] 1 <= typesize <= 255 }
    writes { out }
    ensures { length out = length (old out) }
    ensures { -0x8000_0000 <= result <= cap }
    (* it always fits: the only failure is Blosc's limit of 2 GiB per buffer *)
    ensures { n <= 0x7fff_ffef -> result > 0 }
    ensures { result > 0 -> blosc_of level shuffle typesize codec (if n = length raw then raw else raw[.. n]) out[.. result] }
  (* what is stored for a chunk *)
  predicate stored (c: option bcp) (typesize: int) (raw out: seq int) =
    match c with
    | None -> out = raw
    | Some p -> blosc_of p.bc_clevel p.bc_shuffle typesize p.bc_codec_id raw out
    end
end

module Writers
  use Cxx.Cxx
  use Types.Types
  use dims.DimSpec
  use writer.Tiles
  use export Store
  use export jobs.Jobs

  predicate zeroed (g: seq (seq int)) = forall c o. 0 <= c < length g /\ 0 <= o < length g[c] -> g[c][o] = 0
  (* frames of one append-step of chunks *)
  function fpc (d: seq zarrdim) : int = csz d 0 * prod A d 1 (length d - 2)
  (* frames of one layer of shards *)
  function fps0 (d: seq zarrdim) : int = csz d 0 * ssz d 0
  function fps (d: seq zarrdim) : int = fps0 d * prod A d 1 (length d - 2)
  predicate v3ok (c: awcfg) = sgeom (adims c) /\ fitsZ (adims c) /\ fps (adims c) <= 0xffff_ffff_ffff_ffff
  (* running product m * prod A d 1 i *)
  let ghost frames_start (d: seq zarrdim) (m: int)
    requires { geom d }
    ensures { m * prod A d 1 1 = m } = unfold_prod A d 1 1
  let ghost frames_step (d: seq zarrdim) (m i f: int)
    requires { geom d /\ m > 0 /\ 1 <= i < length d - 2 /\ f = m * prod A d 1 i }
    ensures { f * asz d i = m * prod A d 1 (i+1) <= m * prod A d 1 (length d - 2) }
  = posA d 1; prod_snoc A d 1 i; prod_prefix A d 1 (i+1) (length d - 2);
    mul_mono (prod A d 1 (i+1)) (prod A d 1 (length d - 2)) m;
    mul_eq f (asz d i) (m * prod A d 1 i) (asz d i); assoc m (prod A d 1 i) (asz d i);
    comm m (prod A d 1 (i+1)); comm m (prod A d 1 (length d - 2))
  let ghost frames_step3 (c: awcfg) (i f: int)
    requires { v3ok c /\ 1 <= i < length (adims c) - 2 /\ f = fps0 (adims c) * prod A (adims c) 1 i }
    ensures { f * asz (adims c) i = fps0 (adims c) * prod A (adims c) 1 (i+1) }
    ensures { 0 <= f * asz (adims c) i <= 0xffff_ffff_ffff_ffff }
  = let ghost d = adims c in mul_pos (csz d 0) (ssz d 0); frames_step d (fps0 d) i f; posA d 1; prod_pos A d 1 (i+1); mul_pos (fps0 d) (prod A d 1 (i+1))
  let ghost frames_end (d: seq zarrdim) (m: int)
    requires { geom d /\ m > 0 }
    ensures { m * prod A d 1 (length d - 2) >= 1 }
  = posA d 1; prod_pos A d 1 (length d - 2); mul_pos m (prod A d 1 (length d - 2))

  (* ---- which frames the buffers hold *)
  let rec ghost function content (d: seq zarrdim) (b: int) (h: seq (seq int)) (lo hi c o: int) : int
    variant { hi - lo }
  = if hi <= lo then 0 else let p = content d b h lo (hi-1) c o in pure { upd d b (hi-1) h[hi-1] p c o }
  (* buffers g hold frames lo .. hi-1 of the history h, and zeros elsewhere *)
  predicate holds (cfg: awcfg) (h: seq (seq int)) (lo hi: int) (g: seq (seq int)) =
    forall c o. 0 <= c < length g /\ 0 <= o < length g[c] -> g[c][o] = content (adims cfg) (bpp cfg) h lo hi c o
  (* first frame of the append-step frame f belongs to *)
  function lo_of (cfg: awcfg) (f: int) : int = div f (fpc (adims cfg)) * fpc (adims cfg)

  (* ---- paths *)
  type parts = Chunks | Shards
  function pfld (t: parts) (d: seq zarrdim) (k: int) : int = match t with Chunks -> nch d k | Shards -> nsh d k end
  function pcount (t: parts) (d: seq zarrdim) : int = match t with Chunks -> prod N d 1 (length d) | Shards -> prod S d 1 (length d) end
  (* root/c1/../ck where part j has coordinates c1..ck *)
  let rec ghost function ppath (t: parts) (d: seq zarrdim) (root: str) (k j: int) : str
    variant { k }
  = if k < 1 then root else let m = pure { pfld t d k } in let p = ppath t d root (k-1) (pure { div j m }) in pure { (p ++ snoc empty 47) ++ f_dec (mod j m) }
  function fileurl : str = snoc (snoc (snoc (snoc (snoc (snoc (snoc empty 102) 105) 108) 101) 58) 47) 47
  function fpath (p: str) : str = if length p >= 7 /\ p[.. 7] = fileurl then p[7 ..] else p
  function sinkpath (bucket: option str) (p: str) : str = match bucket with None -> fpath p | Some _ -> p end
  function newsink (bucket: option str) (p: str) : sinkobj = { sk_path = p; sk_data = empty; sk_bucket = bucket }
  predicate partsinks (bucket: option str) (root: str) (t: parts) (d: seq zarrdim) (s: seq (option sinkobj)) =
    length s = pcount t d /\ (forall i. 0 <= i < length s -> s[i] = Some (newsink bucket (ppath t d (sinkpath bucket root) (length d - 1) i)))
  val mk_data_sinks (bucket: option str) (root: str) (d: seq zarrdim) (t: parts) (ref s: seq (option sinkobj)) : bool
    requires { [@expl:geometry of the parts] match t with Chunks -> geom d | Shards -> sgeom d end }
    writes { s }
    ensures { result -> partsinks bucket root t d s }
    raises { Throw -> true }
  val mk_sink (bucket: option str) (p: str) : option sinkobj
    ensures { match result with None -> true | Some x -> x = newsink bucket (sinkpath bucket p) end }
    raises { Throw -> true }

  constant slash : str = snoc empty 47
  constant data_root_s : str = snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc empty 47) 100) 97) 116) 97) 47) 114) 111) 111) 116) 47
  constant slash_c : str = snoc (snoc empty 47) 99
  constant meta_root_s : str = snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc empty 47) 109) 101) 116) 97) 47) 114) 111) 111) 116) 47
  constant zarray_s : str = snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc empty 47) 46) 122) 97) 114) 114) 97) 121
  constant array_json_s : str = snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc (snoc empty 46) 97) 114) 114) 97) 121) 46) 106) 115) 111) 110
  function data_root (v3: bool) (c: awcfg) (a: int) : str =
    if v3 then c.aw_store_path ++ data_root_s ++ f_dec c.aw_level_of_detail ++ slash_c ++ f_dec a
    else c.aw_store_path ++ slash ++ f_dec c.aw_level_of_detail ++ slash ++ f_dec a
  function meta_path (v3: bool) (c: awcfg) : str =
    if v3 then c.aw_store_path ++ meta_root_s ++ f_dec c.aw_level_of_detail ++ array_json_s
    else c.aw_store_path ++ slash ++ f_dec c.aw_level_of_detail ++ zarray_s
  function kind_of (v3: bool) : parts = if v3 then Shards else Chunks
  (* path of data file i of append-step (or layer of shards) a *)
  function part_path (v3: bool) (c: awcfg) (a i: int) : str =
    ppath (kind_of v3) (adims c) (sinkpath c.aw_bucket_name (data_root v3 c a)) (length (adims c) - 1) i

  (* ---- state of a writer *)
  predicate cmpok (c: awcfg) =
    match c.aw_compression_params with None -> true
    | Some p -> 0 <= p.bc_clevel <= 9 /\ 0 <= p.bc_shuffle <= 2 /\ chunkb c <= 0x7fff_ffef end
  function nparts (v3: bool) (d: seq zarrdim) : int = pcount (kind_of v3) d
  function cps (d: seq zarrdim) : int = prod Z d 0 (length d)
  function u64max : int = 0xffff_ffff_ffff_ffff
  predicate sinkfits (o: option sinkobj) (off: int) (failed: bool) =
    match o with None -> false | Some x -> off <= length x.sk_data <= 0x7fff_ffff_ffff_ffff /\ (not failed -> off = length x.sk_data) end
  (* shard tables and offsets of a v3 writer *)
  predicate tabok (c: awcfg) (sinks: seq (option sinkobj)) (tables: seq (seq int)) (offs: seq int) (failed: bool) =
    let d = adims c in
    length tables = nparts true d /\ length offs = nparts true d /\
    (forall s. 0 <= s < length tables -> length tables[s] = 2 * cps d /\ 0 <= offs[s] <= 0x7fff_ffff_ffff_ffff) /\
    (length sinks = 0 \/ length sinks = nparts true d) /\
    (forall s. 0 <= s < length sinks -> sinkfits sinks[s] offs[s] failed) /\
    (length sinks = 0 -> forall s. 0 <= s < length offs -> offs[s] = 0)
  predicate sinksok (v3: bool) (c: awcfg) (sinks: seq (option sinkobj)) (tables: seq (seq int)) (offs: seq int) (failed: bool) =
    if v3 then v3ok c /\ tabok c sinks tables offs failed else length sinks = 0

  (* chunks below n that belong to shard s, in order *)
  let rec ghost function inshard (d: seq zarrdim) (s n: int) : seq int
    variant { n }
  = if n <= 0 then empty else let p = inshard d s (n-1) in pure { if shard d (n-1) 0 = s then snoc p (n-1) else p }

  (* bytes of 64-bit numbers, least significant first *)
  function le64 (t: seq int) : seq int
  axiom le64_length: forall t. length (le64 t) = 8 * length t
  val bytes_of_u64s (t: seq int) : seq int ensures { result = le64 t }

  (* b is stored at offset o of data *)
  predicate sits (data: seq int) (o: int) (b: seq int) =
    0 <= o /\ o + length b <= length data /\ (forall k. 0 <= k < length b -> data[o + k] = b[k])
  (* layer, within its layer of shards, of the chunks flushed after f frames *)
  function layer_of (d: seq zarrdim) (f: int) : int = mod (if f > 0 then div (f-1) (fpc d) else 0) (ssz d 0)
  function layer_cap (d: seq zarrdim) : int = div (cps d) (ssz d 0)
  (* position of chunk c in the table of its shard *)
  function tabpos (d: seq zarrdim) (f c: int) : int = layer_of d f * layer_cap d + slot d c 0
  let ghost layer_start (d: seq zarrdim) (f: int)
    requires { sgeom d /\ f >= 0 }
    ensures { 0 <= layer_of d f < ssz d 0 }
    ensures { layer_cap d = prod Z d 1 (length d) /\ layer_cap d > 0 /\ cps d = ssz d 0 * layer_cap d }
    ensures { 0 <= layer_of d f * layer_cap d <= cps d - layer_cap d }
  = frames_end d (csz d 0); unfold_prod Z d 0 (length d); slot_bound d 0 1;
    let ghost z = prod Z d 1 (length d) in
    comm (ssz d 0) z; assert { cps d = ssz d 0 * z }; assert { cps d = z * ssz d 0 };
    div_unique (cps d) (ssz d 0) z 0; assert { layer_cap d = z };
    if f > 0 then begin div_bounds (f-1) (fpc d); div_bounds (div (f-1) (fpc d)) (ssz d 0) end else div_bounds 0 (ssz d 0);
    let ghost l = layer_of d f in
    mul_mono (l+1) (ssz d 0) z; mul_mono 0 l z; dist l 1 z
  let ghost slot_in_layer (d: seq zarrdim) (c: int)
    requires { sgeom d /\ 0 <= c < prod N d 1 (length d) }
    ensures { 0 <= slot d c 0 < prod Z d 1 (length d) }
  = ccoord0 d c; unfold_slot d c 0; slot_bound d c 1; div_unique 0 (ssz d 0) 0 0
  let ghost tabpos_bound (d: seq zarrdim) (f c: int)
    requires { sgeom d /\ f >= 0 /\ 0 <= c < prod N d 1 (length d) }
    ensures { 0 <= tabpos d f c < cps d }
    ensures { tabpos d f c = layer_of d f * layer_cap d + slot d c 0 }
  = layer_start d f; slot_in_layer d c
  let ghost tabpos_distinct (d: seq zarrdim) (f c1 c2: int)
    requires { sgeom d /\ 0 <= c1 < prod N d 1 (length d) /\ 0 <= c2 < prod N d 1 (length d) /\ c1 <> c2 /\ shard d c1 0 = shard d c2 0 }
    ensures { tabpos d f c1 <> tabpos d f c2 }
  = if slot d c1 0 = slot d c2 0 then shard_slot_injective d c1 c2

  let rec ghost inshard_def (d: seq zarrdim) (s n: int)
    requires { n >= 0 }
    ensures { forall j. 0 <= j < length (inshard d s n) -> 0 <= (inshard d s n)[j] < n /\ shard d (inshard d s n)[j] 0 = s }
    ensures { forall i j. 0 <= i < j < length (inshard d s n) -> (inshard d s n)[i] < (inshard d s n)[j] }
    ensures { forall c. 0 <= c < n /\ shard d c 0 = s -> exists j. 0 <= j < length (inshard d s n) /\ (inshard d s n)[j] = c }
    ensures { length (inshard d s n) <= n }
    variant { n }
  = if n > 0 then begin
      inshard_def d s (n-1);
      let ghost p = inshard d s (n-1) in
      assert { inshard d s n = if shard d (n-1) 0 = s then snoc p (n-1) else p };
      assert { shard d (n-1) 0 = s -> (inshard d s n)[length p] = n-1 };
      assert { forall j. 0 <= j < length p -> (inshard d s n)[j] = p[j] }
    end
  let ghost inshard_step (d: seq zarrdim) (n: int)
    requires { n >= 0 }
    ensures { forall s. inshard d s (n+1) = if shard d n 0 = s then snoc (inshard d s n) n else inshard d s n }
  = ()

  (* the first j chunks of lst are in the file and in the table of their shard *)
  predicate shardpart (d: seq zarrdim) (f: int) (g: seq (seq int)) (lst: seq int) (j: int) (data0 data t0 t: seq int) (off: int) =
    sits data 0 data0 /\ length t = length t0 /\ off = length data /\
    (forall i. 0 <= i < j -> let k = tabpos d f lst[i] in t[2*k+1] = length g[lst[i]] /\ sits data t[2*k] g[lst[i]]) /\
    (forall q. 0 <= q < length t -> (forall i. 0 <= i < j -> q <> 2 * tabpos d f lst[i] /\ q <> 2 * tabpos d f lst[i] + 1) -> t[q] = t0[q])
  let ghost overlay_at (data b b2: seq int) (o o2: int)
    requires { sits data o b /\ o + length b <= o2 <= length data }
    ensures { sits (overlay data o2 b2) o b }
  = let ghost h = data[.. o2] in let ghost p = h ++ b2 in
    assert { forall k. 0 <= k < o2 -> h[k] = data[k] };
    assert { forall k. 0 <= k < o2 -> p[k] = data[k] };
    if length data = 0 then () else if o2 + length b2 <= length data then begin
      let ghost r = data[o2 + length b2 ..] in
      assert { overlay data o2 b2 = p ++ r };
      assert { forall k. 0 <= k < o2 -> (p ++ r)[k] = data[k] }
    end else assert { overlay data o2 b2 = p }
  let ghost overlay_new (data b2: seq int) (o2: int)
    requires { 0 <= o2 <= length data }
    ensures { sits (overlay data o2 b2) o2 b2 }
    ensures { o2 = length data -> length (overlay data o2 b2) = length data + length b2 }
  = let ghost p = data[.. o2] ++ b2 in
    assert { length p = o2 + length b2 };
    assert { forall k. 0 <= k < length b2 -> p[o2 + k] = b2[k] };
    if length data = 0 then () else if o2 + length b2 <= length data then begin
      let ghost r = data[o2 + length b2 ..] in
      assert { overlay data o2 b2 = p ++ r };
      assert { forall k. 0 <= k < length b2 -> (p ++ r)[o2 + k] = p[o2 + k] }
    end else assert { overlay data o2 b2 = p }
  let ghost shardpart_step (d: seq zarrdim) (f: int) (g: seq (seq int)) (lst: seq int) (j: int) (data0 data t0 t: seq int) (off c k: int)
    requires { sgeom d /\ f >= 0 }
    requires { 0 <= j < length lst /\ c = lst[j] /\ k = tabpos d f c /\ 2 * k + 1 < length t /\ 0 <= k }
    requires { forall i. 0 <= i < length lst -> 0 <= lst[i] < length g /\ 0 <= lst[i] < prod N d 1 (length d) /\ shard d lst[i] 0 = shard d c 0 }
    requires { forall i. 0 <= i < j -> lst[i] <> c }
    requires { length t = 2 * cps d }
    requires { shardpart d f g lst j data0 data t0 t off }
    ensures { shardpart d f g lst (j+1) data0 (overlay data off g[c]) t0 t[2*k <- off][2*k+1 <- length g[c]] (off + length g[c]) }
  = let ghost t' = t[2*k <- off][2*k+1 <- length g[c]] in
    let ghost data' = overlay data off g[c] in
    overlay_new data g[c] off; overlay_at data data0 g[c] 0 off;
    let rec ghost all (h: int)
      requires { 0 <= h <= j }
      ensures { forall i. 0 <= i < h -> let q = tabpos d f lst[i] in t'[2*q+1] = length g[lst[i]] /\ sits data' t'[2*q] g[lst[i]] }
      variant { h }
    = if h > 0 then begin
        all (h-1);
        let ghost i = h - 1 in
        tabpos_distinct d f lst[i] c; tabpos_bound d f lst[i];
        let ghost q = tabpos d f lst[i] in
        assert { q <> k };
        begin
        assert { t'[2*q] = t[2*q] /\ t'[2*q+1] = t[2*q+1] };
        overlay_at data g[lst[i]] g[c] t[2*q] off end
      end in
    all j;
    assert { t'[2*k+1] = length g[c] /\ t'[2*k] = off };
    assert { forall q. 0 <= q < length t -> q <> 2*k -> q <> 2*k+1 -> t'[q] = t[q] }

  let ghost frames_step2 (c: awcfg) (i f: int)
    requires { cfgok c /\ 1 <= i < length (adims c) - 2 /\ f = csz (adims c) 0 * prod A (adims c) 1 i }
    ensures { f * asz (adims c) i = csz (adims c) 0 * prod A (adims c) 1 (i+1) }
    ensures { 0 <= f * asz (adims c) i <= 0xffff_ffff_ffff_ffff }
  = let ghost d = adims c in
    frames_step d (csz d 0) i f; posA d 1; prod_pos A d 1 (i+1); mul_pos (csz d 0) (prod A d 1 (i+1))
  function data_of (o: option sinkobj) : seq int = match o with None -> empty | Some x -> x.sk_data end
  (* the open files are those of step a *)
  predicate named (v3: bool) (c: awcfg) (a: int) (sinks: seq (option sinkobj)) =
    forall s. 0 <= s < length sinks -> match sinks[s] with None -> false
      | Some x -> x.sk_path = part_path v3 c a s /\ x.sk_bucket = c.aw_bucket_name end
  (* data of file s before a flush *)
  function before (sinks: seq (option sinkobj)) (s: int) : seq int =
    if length sinks = 0 then empty else match sinks[s] with None -> empty | Some x -> x.sk_data end
  lemma partsinks_fresh: forall b r t d s. partsinks b r t d s -> forall i. 0 <= i < length s -> s[i] <> None /\ data_of s[i] = empty /\ (match s[i] with None -> false | Some x -> length x.sk_data = 0 end)
  lemma partsinks_named: forall v3 c a s. partsinks c.aw_bucket_name (data_root v3 c a) (kind_of v3) (adims c) s -> named v3 c a s /\ length s = nparts v3 (adims c)
  (* v2: one file per chunk, which holds the chunk *)
  predicate wrote2 (g: seq (seq int)) (sinks: seq (option sinkobj)) =
    length sinks = length g /\ (forall i. 0 <= i < length g -> match sinks[i] with None -> false | Some x -> x.sk_data = g[i] end)
  (* v3: shard s after flushing g; index: its table, whole: the shard is complete *)
  predicate wrote3 (d: seq zarrdim) (f: int) (g: seq (seq int)) (s: int) (data0 data t0 index: seq int) (whole: bool) =
    let lst = inshard d s (length g) in
    if whole then exists n. shardpart d f g lst (length lst) data0 data[.. n] t0 index n /\ 0 <= n <= length data /\ data = data[.. n] ++ le64 index
    else shardpart d f g lst (length lst) data0 data t0 index (length data)
  predicate wrote3s (d: seq zarrdim) (f: int) (g: seq (seq int)) (sinks0 sinks: seq (option sinkobj)) (tables0 index: seq (seq int)) (whole: bool) =
    length index = length tables0 /\
    (forall s. 0 <= s < length sinks -> match sinks[s] with None -> false
      | Some x -> wrote3 d f g s (before sinks0 s) x.sk_data tables0[s] index[s] whole end)
  predicate blank (tables: seq (seq int)) = forall s k. 0 <= s < length tables /\ 0 <= k < length tables[s] -> tables[s][k] = u64max
  predicate zeros (offs: seq int) = forall s. 0 <= s < length offs -> offs[s] = 0

  let ghost index_step (d: seq zarrdim) (f: int) (g: seq (seq int)) (s: int) (lst: seq int) (j: int) (data0 data t0 t: seq int) (off: int)
    requires { lst = inshard d s (length g) /\ j = length lst }
    requires { shardpart d f g lst j data0 data t0 t off }
    ensures { wrote3 d f g s data0 data t0 t false }
    ensures { wrote3 d f g s data0 (overlay data off (le64 t)) t0 t true }
  = let ghost x = overlay data off (le64 t) in
    assert { x == data ++ le64 t }; assert { x[.. off] == data };
    assert { x = x[.. off] ++ le64 t }

end

(* flushing and frames *)
module Frames
  use Cxx.Cxx
  use Types.Types
  use dims.DimSpec
  use writer.Tiles
  use Writers

  (* the files of step a are full after f frames *)
  predicate rolls (v3: bool) (c: awcfg) (f: int) = v3 -> mod f (fps (adims c)) = 0
  predicate idle (pending: int) (final: bool) (sinks: seq (option sinkobj)) = pending = 0 /\ (not final \/ length sinks = 0)
  (* what is handed to the files for the chunks raw *)
  predicate stored_all (c: awcfg) (raw fl: seq (seq int)) =
    length fl = length raw /\ (forall i. 0 <= i < length raw -> stored c.aw_compression_params (bpp c) raw[i] fl[i])
  (* files closed after closed0: those of step a, file i with data d[i] *)
  predicate closed2 (c: awcfg) (a: int) (fl: seq (seq int)) (closed0 closed: seq sinkobj) =
    length closed = length closed0 + length fl /\ (forall k. 0 <= k < length closed0 -> closed[k] = closed0[k]) /\
    (forall i. 0 <= i < length fl -> let x = closed[length closed0 + i] in x.sk_data = fl[i] /\ x.sk_path = part_path false c a i /\ x.sk_bucket = c.aw_bucket_name)
  (* data of shard s after a flush: the file is closed if rolled over *)
  function shard_data (rolled: bool) (sinks: seq (option sinkobj)) (closed0 closed: seq sinkobj) (s: int) : seq int =
    if rolled then closed[length closed0 + s].sk_data else data_of sinks[s]
  predicate shards_done (c: awcfg) (f: int) (fl: seq (seq int)) (rolled: bool) (sinks0 sinks: seq (option sinkobj)) (closed0 closed: seq sinkobj) (t0 index: seq (seq int)) (whole: bool) =
    forall s. 0 <= s < nparts true (adims c) -> wrote3 (adims c) f fl s (before sinks0 s) (shard_data rolled sinks closed0 closed s) t0[s] index[s] whole
  predicate shards_closed (c: awcfg) (a: int) (closed0 closed: seq sinkobj) =
    length closed = length closed0 + nparts true (adims c) /\ (forall k. 0 <= k < length closed0 -> closed[k] = closed0[k]) /\
    (forall s. 0 <= s < nparts true (adims c) -> closed[length closed0 + s].sk_path = part_path true c a s /\ closed[length closed0 + s].sk_bucket = c.aw_bucket_name)
  predicate opened (sinks: seq (option sinkobj)) = length sinks <= 0x7fff_ffff /\ (forall s. 0 <= s < length sinks -> sinks[s] <> None)
  let ghost nparts_le (v3: bool) (c: awcfg)
    requires { cfgok c /\ (v3 -> v3ok c) }
    ensures { 0 <= nparts v3 (adims c) <= 0x7fff_ffff }
  = if v3 then begin prodS_le (adims c) 1; assert { nparts v3 (adims c) = prod S (adims c) 1 (length (adims c)) } end
    else begin posN (adims c) 1; prod_pos N (adims c) 1 (length (adims c)); assert { nparts v3 (adims c) = prod N (adims c) 1 (length (adims c)) } end

  (* bytes of the frames of the current step *)
  function pend (c: awcfg) (f: int) : int = (f - lo_of c f) * frameb (adims c) (bpp c)
  (* state of a writer between calls: the buffers hold the frames of the current step *)
  predicate wok (v3: bool) (c: awcfg) (sinks: seq (option sinkobj)) (tables: seq (seq int)) (offs: seq int) (failed: bool) (appidx: int)
                (chunks hist: seq (seq int)) (frames pending: int) =
    cfgok c /\ cmpok c /\ sinksok v3 c sinks tables offs failed /\ named v3 c appidx sinks /\
    frames = length hist /\ fpc (adims c) * frameb (adims c) (bpp c) <= 0xffff_ffff_ffff_ffff /\
    pending = pend c frames /\
    appidx = div frames (if v3 then fps (adims c) else fpc (adims c)) /\
    ((length chunks = 0 /\ frames = 0) \/ (bufsok c chunks /\ holds c hist (lo_of c frames) frames chunks))

  let rec ghost content_ext (d: seq zarrdim) (b: int) (h1 h2: seq (seq int)) (lo hi c o: int)
    requires { hi <= length h1 /\ hi <= length h2 /\ 0 <= lo /\ (forall k. lo <= k < hi -> h1[k] = h2[k]) }
    ensures { content d b h1 lo hi c o = content d b h2 lo hi c o }
    variant { hi - lo }
  = if hi > lo then begin content_ext d b h1 h2 lo (hi-1) c o; assert { h1[hi-1] = h2[hi-1] } end
  let rec ghost holds_step_ (cfg: awcfg) (h h2: seq (seq int)) (lo hi: int) (data: seq int) (g g2: seq (seq int)) (n: int)
    requires { 0 <= lo <= hi /\ hi = length h /\ h2 = snoc h data /\ holds cfg h lo hi g /\ samesizes g g2 /\ 0 <= n <= length g }
    requires { forall c o. 0 <= c < length g /\ 0 <= o < length g[c] -> g2[c][o] = upd (adims cfg) (bpp cfg) hi data g[c][o] c o }
    ensures { forall c o. 0 <= c < n /\ 0 <= o < length g2[c] -> g2[c][o] = content (adims cfg) (bpp cfg) h2 lo (hi+1) c o }
    variant { n }
  = if n > 0 then begin
      holds_step_ cfg h h2 lo hi data g g2 (n-1);
      let rec ghost all (k: int)
        requires { 0 <= k <= length g[n-1] }
        ensures { forall o. 0 <= o < k -> g2[n-1][o] = content (adims cfg) (bpp cfg) h2 lo (hi+1) (n-1) o }
        variant { k }
      = if k > 0 then begin
          all (k-1);
          content_ext (adims cfg) (bpp cfg) h h2 lo hi (n-1) (k-1);
          assert { h2[hi] = data };
          assert { g[n-1][k-1] = content (adims cfg) (bpp cfg) h lo hi (n-1) (k-1) };
          assert { content (adims cfg) (bpp cfg) h2 lo (hi+1) (n-1) (k-1) = upd (adims cfg) (bpp cfg) hi data (content (adims cfg) (bpp cfg) h2 lo hi (n-1) (k-1)) (n-1) (k-1) }
        end in
      all (length g[n-1])
    end
  let ghost holds_step (cfg: awcfg) (h h2: seq (seq int)) (lo hi: int) (data: seq int) (g g2: seq (seq int))
    requires { 0 <= lo <= hi /\ hi = length h /\ h2 = snoc h data /\ holds cfg h lo hi g /\ samesizes g g2 }
    requires { forall c o. 0 <= c < length g /\ 0 <= o < length g[c] -> g2[c][o] = upd (adims cfg) (bpp cfg) hi data g[c][o] c o }
    ensures { holds cfg h2 lo (hi+1) g2 }
  = holds_step_ cfg h h2 lo hi data g g2 (length g)
  let lemma holds_none (cfg: awcfg) (h: seq (seq int)) (lo hi: int) (g: seq (seq int))
    requires { zeroed g /\ lo = hi }
    ensures { holds cfg h lo hi g }
  = assert { forall c o. content (adims cfg) (bpp cfg) h lo hi c o = 0 }
  let ghost next_div (f m: int)
    requires { m >= 1 /\ f >= 0 }
    ensures { mod (f+1) m = 0 -> div (f+1) m = div f m + 1 /\ div (f+1) m * m = f + 1 }
    ensures { mod (f+1) m <> 0 -> div (f+1) m = div f m }
    ensures { 0 <= div f m * m <= f < div f m * m + m }
  = div_bounds f m; div_bounds (f+1) m;
    let ghost q = div f m in let ghost r = f - q * m in
    dist q 1 m;
    if r + 1 = m then div_unique (f+1) m (q+1) 0 else div_unique (f+1) m q (r+1)
  (* steps of chunks within layers of shards *)
  let ghost fps_fpc (d: seq zarrdim) (f: int)
    requires { sgeom d /\ f >= 0 }
    ensures { fps d = fpc d * ssz d 0 /\ fpc d >= 1 /\ fps d >= fpc d }
    ensures { mod f (fps d) = 0 -> mod f (fpc d) = 0 }
  = let ghost a = prod A d 1 (length d - 2) in
    frames_end d (csz d 0);
    assoc (csz d 0) (ssz d 0) a; comm (ssz d 0) a; assoc (csz d 0) a (ssz d 0);
    mul_eq (csz d 0 * ssz d 0) a (fps0 d) a;
    mul_eq (csz d 0) (ssz d 0 * a) (csz d 0) (a * ssz d 0);
    mul_mono 1 (ssz d 0) (fpc d); comm (ssz d 0) (fpc d);
    div_bounds f (fps d); 
    let ghost q = div f (fps d) in
    if f = q * fps d then begin comm q (fps d); assoc (fpc d) (ssz d 0) q; comm (ssz d 0 * q) (fpc d); 
       mul_eq (fps d) q (fpc d * ssz d 0) q;
       div_unique f (fpc d) (ssz d 0 * q) 0 end

  let ghost shards_done_intro (c: awcfg) (f: int) (fl: seq (seq int)) (rolled: bool) (sinks0 w sinks: seq (option sinkobj)) (closed0 closed: seq sinkobj) (t0 index: seq (seq int)) (whole: bool)
    requires { wrote3s (adims c) f fl sinks0 w t0 index whole /\ length w = nparts true (adims c) }
    requires { if rolled then forall s. 0 <= s < length w -> w[s] = Some closed[length closed0 + s] else sinks = w }
    ensures { shards_done c f fl rolled sinks0 sinks closed0 closed t0 index whole }
  = assert { forall s. 0 <= s < length w -> data_of w[s] = shard_data rolled sinks closed0 closed s };
    assert { forall s. 0 <= s < length w -> wrote3 (adims c) f fl s (before sinks0 s) (data_of w[s]) t0[s] index[s] whole }
  let lemma sinksok_failed (v3: bool) (c: awcfg) (s: seq (option sinkobj)) (t: seq (seq int)) (o: seq int) (f0 f1: bool)
    requires { sinksok v3 c s t o f0 /\ (f0 -> f1) }
    ensures { sinksok v3 c s t o f1 }
  = if v3 then begin
      let rec ghost all (n: int)
        requires { 0 <= n <= length s /\ (forall k. 0 <= k < length s -> sinkfits s[k] o[k] f0) }
        ensures { forall k. 0 <= k < n -> sinkfits s[k] o[k] f1 }
        variant { n }
      = if n > 0 then begin all (n-1); match s[n-1] with None -> () | Some _ -> () end end in
      all (length s) end
  let ghost frame_bytes (c: awcfg)
    requires { cfgok c }
    ensures { frame_bytes_of (adims c) c.aw_dtype = frameb (adims c) (bpp c) }
    ensures { 1 <= frameb (adims c) (bpp c) <= 0x7fff_ffff_ffff_ffff }
  = let ghost d = adims c in let ghost b = bpp c in let ghost h = asz d (length d - 2) in let ghost w = asz d (length d - 1) in
    assert { 1 <= b <= 8 /\ h >= 1 /\ w >= 1 };
    assert { frow d b = w * b /\ frow d 8 = w * 8 };
    mul_eq h (frow d b) h (w * b); mul_eq h (frow d 8) h (w * 8);
    assoc b h w; comm b (h * w); assoc h w b;
    mul_pos h (w * b); mul_pos w b; mul_mono b 8 w; mul_mono (w*b) (w*8) h; comm w b; comm h (w*b); comm h (w*8)
  (* appending the frame f: what changes *)
  let ghost frame_step (v3: bool) (c: awcfg) (f: int)
    requires { cfgok c /\ (v3 -> v3ok c) /\ f >= 0 }
    requires { fpc (adims c) * frameb (adims c) (bpp c) <= 0xffff_ffff_ffff_ffff }
    ensures { 0 <= lo_of c f <= f }
    ensures { 0 <= pend c f /\ pend c f + frameb (adims c) (bpp c) <= 0xffff_ffff_ffff_ffff }
    ensures { pend c (f+1) = if mod (f+1) (fpc (adims c)) = 0 then 0 else pend c f + frameb (adims c) (bpp c) }
    ensures { lo_of c (f+1) = if mod (f+1) (fpc (adims c)) = 0 then f + 1 else lo_of c f }
    ensures { let m = if v3 then fps (adims c) else fpc (adims c) in div (f+1) m = div f m + (if mod (f+1) m = 0 then 1 else 0) }
    ensures { v3 -> mod (f+1) (fps (adims c)) = 0 -> mod (f+1) (fpc (adims c)) = 0 }
  = let ghost d = adims c in let ghost m = fpc d in let ghost fb = frameb d (bpp c) in
    frame_bytes c; frames_end d (csz d 0); next_div f m;
    let ghost lo = div f m * m in
    assert { lo = lo_of c f };
    let ghost k = f - lo in
    dist k 1 fb; mul_mono (k + 1) m fb; mul_pos (k + 1) fb; mul_mono 0 k fb;
    mul_eq k fb (f - lo_of c f) fb; assert { pend c f = k * fb };
    if pure { mod (f+1) m = 0 } then begin assert { lo_of c (f+1) = f + 1 }; mul_eq 0 fb (f + 1 - lo_of c (f+1)) fb end
    else begin assert { lo_of c (f+1) = lo }; mul_eq (k+1) fb (f + 1 - lo_of c (f+1)) fb end;
    if v3 then begin fps_fpc d (f+1); next_div f (fps d) end
  let ghost lo_zero (c: awcfg)
    requires { cfgok c }
    ensures { lo_of c 0 = 0 }
  = frames_end (adims c) (csz (adims c) 0); div_unique 0 (fpc (adims c)) 0 0
end
