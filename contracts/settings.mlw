(* Settings of a stream: what is valid. *)
module Settings
  use Cxx.Cxx
  use Types.Types

  (* ---- strings *)
  predicate is_space (c: int) = c = 32 \/ 9 <= c <= 13
  val function f_isspace (c: int) : int
  axiom f_isspace_def: forall c. f_isspace c <> 0 <-> is_space c
  val c_isspace (c: int) : int ensures { result <> 0 <-> is_space c }
  (* std::find_if *)
  val find_if (s: str) (lo hi: int) (p: int -> bool) : int
    requires { [@expl:search within the string] 0 <= lo <= hi <= length s }
    ensures { lo <= result <= hi /\ (forall k. lo <= k < result -> not (p s[k])) /\ (result < hi -> p s[result]) }
  (* ... backwards, as the position after the character found *)
  val find_last_if (s: str) (p: int -> bool) : int
    ensures { 0 <= result <= length s /\ (forall k. result <= k < length s -> not (p s[k])) /\ (result > 0 -> p s[result - 1]) }
  function erased (s: str) (lo hi: int) : str
  axiom erased_def: forall s lo hi. 0 <= lo <= hi <= length s -> length (erased s lo hi) = length s - (hi - lo) /\
    forall k. 0 <= k < length s - (hi - lo) -> (erased s lo hi)[k] = if k < lo then s[k] else s[k + (hi - lo)]
  val serase (s: str) (lo hi: int) : str
    requires { [@expl:erase within the string] 0 <= lo <= hi <= length s }
    ensures { result = erased s lo hi }
  (* r is s without the spaces around it *)
  predicate trims_at (s r: str) (a: int) =
    0 <= a /\ a + length r <= length s /\ (forall k. 0 <= k < length r -> r[k] = s[a + k]) /\
      (forall k. 0 <= k < length s -> not (a <= k < a + length r) -> is_space s[k]) /\
      (length r > 0 -> not (is_space r[0]) /\ not (is_space r[length r - 1]))
  predicate trims (s r: str) = exists a. trims_at s r a
  let lemma trims_nothing (s r: str)
    requires { length s = 0 /\ length r = 0 }
    ensures { trims s r }
  = assert { trims_at s r 0 }
  let lemma trims_erased (s: str) (a b n: int)
    requires { 0 <= a <= length s /\ n = length s - a /\ 0 <= b <= n }
    requires { forall k. 0 <= k < a -> is_space s[k] }
    requires { a < length s -> not (is_space s[a]) }
    requires { forall k. b <= k < n -> is_space (erased s 0 a)[k] }
    requires { b > 0 -> not (is_space (erased s 0 a)[b - 1]) }
    ensures { trims s (erased (erased s 0 a) b n) }
  = let ghost r = pure { erased (erased s 0 a) b n } in
    assert { length r = b };
    assert { forall k. 0 <= k < b -> r[k] = s[a + k] };
    assert { forall k. a + b <= k < length s -> (erased s 0 a)[k - a] = s[k] };
    assert { forall k [s[k]]. a + b <= k < length s -> (erased s 0 a)[k - a] = s[k] /\ is_space (erased s 0 a)[k - a] };
    assert { forall k. a + b <= k < length s -> is_space s[k] };
    assert { b > 0 -> r[0] = s[a] /\ r[b - 1] = (erased s 0 a)[b - 1] };
    assert { trims_at s r a }
  predicate allspace (s: str) = forall k. 0 <= k < length s -> is_space s[k]
  let lemma trims_empty (s r: str)
    requires { trims s r }
    ensures { length r = 0 <-> allspace s }
  = if length r > 0 then assert { exists a. 0 <= a < length s /\ s[a] = r[0] }

  val cstr_first (s: option str) : int
    requires { [@expl:null string] s <> None }
    ensures { result = 0 <-> oval s = empty }
  lemma oval_some: forall s: option str, x: str. s = Some x -> oval s = x

  (* ---- the file system and JSON: what they say about a path or a text *)
  function f_parent (p: str) : str
  val fs_parent (p: str) : str ensures { result = f_parent p }
  predicate p_exists (p: str)
  val fs_exists (p: str) : bool ensures { result <-> p_exists p }
  predicate p_isdir (p: str)
  val fs_is_directory (p: str) : bool ensures { result <-> p_isdir p }
  function f_perms (p: str) : int
  val fs_perms (p: str) : int ensures { result = f_perms p }
  predicate json_text (s: str)
  type parsed
  function text_of (j: parsed) : str
  val json_parse (s: str) : parsed ensures { text_of result = s }
  val json_discarded (j: parsed) : bool ensures { result <-> not (json_text (text_of j)) }

  (* ---- valid settings *)
  constant dot : str = snoc empty 46
  function dir_of (p: str) : str = if length (f_parent p) = 0 then dot else f_parent p
  (* any of the three write permissions: 0222 *)
  predicate usable_path (p: str) = p_exists (dir_of p) /\ p_isdir (dir_of p) /\ f_and (f_perms (dir_of p)) 146 <> 0
  predicate named_str (s: option str) = match s with None -> false | Some x -> not (allspace x) end
  predicate valid_s3 (s: s3set) =
    named_str s.sq_endpoint /\ named_str s.sq_access_key_id /\ named_str s.sq_secret_access_key /\
    match s.sq_bucket_name with None -> false | Some b -> forall r. trims b r -> 3 <= length r <= 63 end
  predicate valid_comp (c: cset) =
    0 <= c.cq_compressor <= 1 /\ 0 <= c.cq_codec <= 2 /\ (c.cq_compressor <> 0 -> c.cq_codec <> 0) /\ c.cq_level <= 9 /\ 0 <= c.cq_shuffle <= 2
  predicate valid_dim (d: dimprop) (version: int) (append: bool) =
    named_str d.dp_name /\ 0 <= d.dp_type <= 3 /\ (append \/ d.dp_array_size_px > 0) /\ d.dp_chunk_size_px > 0 /\
    (version = 3 -> d.dp_shard_size_chunks > 0)
  predicate valid_metadata (m: option str) = match m with None -> true | Some x -> x = empty \/ json_text x end
  predicate valid_store (s: zsettings) =
    match s.zs_store_path with None -> false | Some p -> length p > 0 /\
      match s.zs_s3_settings with Some q -> valid_s3 q | None -> usable_path p end end
  predicate valid_dims (s: zsettings) =
    match s.zs_dimensions with None -> false | Some d -> s.zs_dimension_count >= 3 /\
      d[s.zs_dimension_count - 1].dp_type = 0 /\ d[s.zs_dimension_count - 2].dp_type = 0 /\
      (forall i. 0 <= i < s.zs_dimension_count -> if i = 0 then valid_dim d[i] s.zs_version true else valid_dim d[i] s.zs_version false) end
  predicate valid_settings (s: zsettings) =
    (s.zs_version = 2 \/ s.zs_version = 3) /\ valid_store s /\ 0 <= s.zs_data_type < 10 /\
    match s.zs_compression_settings with None -> true | Some c -> valid_comp c end /\
    valid_metadata s.zs_custom_metadata /\ valid_dims s
  (* the dimension pointer points to dimension_count dimensions *)
  predicate dims_there (s: zsettings) = match s.zs_dimensions with None -> true | Some d -> length d = s.zs_dimension_count end
  lemma trims_same: forall s r1 r2. trims s r1 -> trims s r2 -> length r1 = length r2

  (* ---- settings as the stream keeps them *)
  val new_dims (d: seq zarrdim) (t: int) : arraydims
    ensures { length d > 2 /\ result.ad_dims_ = d /\ result.ad_dtype_ = t }
    raises { Throw -> length d <= 2 }
  predicate kept_dim (p: dimprop) (d: zarrdim) =
    p.dp_name = Some d.zd_name /\ d.zd_type = p.dp_type /\ d.zd_array_size_px = p.dp_array_size_px /\
    d.zd_chunk_size_px = p.dp_chunk_size_px /\ d.zd_shard_size_chunks = p.dp_shard_size_chunks
  predicate kept_str (p: option str) (s: str) = match p with None -> false | Some x -> trims x s end
  constant empty_object : str = snoc (snoc empty 123) 125
  predicate kept_s3 (p: option s3set) (s: option s3own) =
    match p, s with
    | None, None -> true
    | Some a, Some b -> kept_str a.sq_endpoint b.so_endpoint /\ kept_str a.sq_bucket_name b.so_bucket_name /\
        kept_str a.sq_access_key_id b.so_access_key_id /\ kept_str a.sq_secret_access_key b.so_secret_access_key
    | _ -> false end
  predicate kept_comp (p: option cset) (s: option cown) =
    match p, s with
    | None, None -> true
    | Some a, Some b -> b.co_compressor = a.cq_compressor /\ b.co_codec = a.cq_codec /\ b.co_level = a.cq_level /\ b.co_shuffle = a.cq_shuffle
    | _ -> false end
end
