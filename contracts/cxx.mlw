(* Model of the C++ primitives used by the translation.  Every `val` below is an
   assumed contract on the language or the standard library. *)
module Cxx
  use export int.Int
  use export int.EuclideanDivision
  use export seq.Seq
  use export option.Option

  exception Throw

  (* machine arithmetic: a value stored at a C++ integer type must fit, no silent wrap *)
  let chk (lo hi x: int) : int
    requires { [@expl:integer overflow] lo <= x <= hi }
    ensures { result = x }
  = x
  (* conversion of an enumeration value to int is modulo 2^32 *)
  let as_s32 (x: int) : int
    ensures { result = if x <= 0x7fff_ffff then x else x - 0x1_0000_0000 }
  = if x <= 0x7fff_ffff then x else x - 0x1_0000_0000
  val cdiv_ (x y: int) : int
    requires { [@expl:division by zero] y > 0 }
    requires { [@expl:division of a negative value] x >= 0 }
    ensures { result = div x y }
  val cmod_ (x y: int) : int
    requires { [@expl:division by zero] y > 0 }
    requires { [@expl:division of a negative value] x >= 0 }
    ensures { result = mod x y }
  let uinc (m x: int) : int
    ensures { result = if x = m then 0 else x + 1 }
  = if x = m then 0 else x + 1
  let udec (m x: int) : int
    ensures { result = if x = 0 then m else x - 1 }
  = if x = 0 then m else x - 1
  let neg_wrap (m x: int) : int
    requires { 0 <= x < m }
    ensures { result = if x = 0 then 0 else m - x }
  = if x = 0 then 0 else m - x
  function f_and (x y: int) : int
  axiom f_and_bound: forall x y. x >= 0 -> y >= 0 -> 0 <= f_and x y <= x /\ f_and x y <= y
  axiom f_and_01: forall x. (x = 0 \/ x = 1) -> f_and x 1 = x /\ f_and x 0 = 0 /\ f_and 1 x = x /\ f_and 0 x = 0
  val bit_and (x y: int) : int  ensures { result = f_and x y }
  function f_or (x y: int) : int
  axiom f_or_bound: forall x y. x >= 0 -> y >= 0 -> x <= f_or x y <= x + y /\ y <= f_or x y
  val bit_or (x y: int) : int  ensures { result = f_or x y }
  (* x & ~(p-1): rounding down to a power of two *)
  function f_not (m x: int) : int = m - x
  val bit_not (m x: int) : int  requires { 0 <= x <= m } ensures { result = f_not m x }
  function f_pow2 (k: int) : int
  axiom f_pow2_0: f_pow2 0 = 1
  axiom f_pow2_s: forall k. k >= 0 -> f_pow2 (k+1) = 2 * f_pow2 k
  axiom f_pow2_pos: forall k. k >= 0 -> f_pow2 k >= 1
  val bit_shl (x y: int) : int
    requires { [@expl:shift amount] 0 <= y < 64 }
    requires { x >= 0 }
    ensures { result = x * f_pow2 y }
  val bit_shr (x y: int) : int
    requires { [@expl:shift amount] 0 <= y < 64 }
    requires { x >= 0 }
    ensures { result = div x (f_pow2 y) }
  let imin (x y: int) : int ensures { result = if x <= y then x else y } = if x <= y then x else y
  let imax (x y: int) : int ensures { result = if x >= y then x else y } = if x >= y then x else y
  let beq (x y: bool) : bool ensures { result <-> (x = y) } = if x then y else not y

  (* containers *)
  val sget (s: seq 'a) (i: int) : 'a
    requires { [@expl:index in bounds] 0 <= i < length s }
    ensures { result = s[i] }
  val sset (s: seq 'a) (i: int) (v: 'a) : seq 'a
    requires { [@expl:index in bounds] 0 <= i < length s }
    ensures { result = s[i <- v] }
  val slen (s: seq 'a) : int ensures { result = length s }
  val sempty (s: seq 'a) : bool ensures { result <-> length s = 0 }
  val spush (s: seq 'a) (v: 'a) : seq 'a ensures { result = snoc s v }
  val spop_front (s: seq 'a) : seq 'a
    requires { [@expl:pop of empty container] length s > 0 }
    ensures { result = s[1 ..] }
  val spop_back (s: seq 'a) : seq 'a
    requires { [@expl:pop of empty container] length s > 0 }
    ensures { result = s[.. length s - 1] }
  val smake (n: int) (v: 'a) : seq 'a
    requires { [@expl:container size] n >= 0 }
    ensures { length result = n }
    ensures { forall k. 0 <= k < n -> result[k] = v }
  val sresize (s: seq 'a) (n: int) (v: 'a) : seq 'a
    requires { [@expl:container size] n >= 0 }
    ensures { length result = n }
    ensures { forall k. 0 <= k < n -> result[k] = if k < length s then s[k] else v }
    ensures { n <= length s -> result = s[.. n] }
  val sfill (s: seq 'a) (lo hi: int) (v: 'a) : seq 'a
    requires { [@expl:fill within bounds] 0 <= lo <= hi <= length s }
    ensures { length result = length s }
    ensures { forall k. 0 <= k < length s -> result[k] = if lo <= k < hi then v else s[k] }
  (* copy of a[lo..hi) over d at offset o *)
  val sblit (a: seq 'a) (lo hi: int) (d: seq 'a) (o: int) : seq 'a
    requires { [@expl:copy reads within the source] 0 <= lo <= hi <= length a }
    requires { [@expl:copy writes within the destination] 0 <= o /\ o + (hi - lo) <= length d }
    ensures { length result = length d }
    ensures { forall k. 0 <= k < length d ->
              result[k] = if o <= k < o + (hi - lo) then a[lo + (k - o)] else d[k] }
  val sspan (s: seq 'a) (o n: int) : seq 'a
    requires { [@expl:view within bounds] 0 <= o /\ 0 <= n /\ o + n <= length s }
    ensures { result = s[o .. o + n] }
  val oget (o: option 'a) : 'a
    requires { [@expl:null pointer or empty optional] o <> None }
    ensures { o = Some result }
  val oset (o: option 'a) (v: 'a) : option 'a
    requires { [@expl:null pointer or empty optional] o <> None }
    ensures { result = Some v }
  val is_some (o: option 'a) : bool ensures { result <-> o <> None }
  function oval (o: option 'a) : 'a
  axiom oval_def: forall x: 'a. oval (Some x) = x

  (* strings are sequences of chars *)
  type str = seq int
  val constant str_any : str
  let constant str_empty : str = empty
  let cat (a b: str) : str ensures { result = a ++ b } = a ++ b
  val str_eq (a b: str) : bool ensures { result <-> a = b }
  val str_starts (a b: str) : bool
    ensures { result <-> (length b <= length a /\ a[.. length b] = b) }
  val str_substr (a: str) (i: int) : str
    requires { 0 <= i <= length a }
    ensures { result = a[i ..] }
  val cstr_get (o: option 'a) : 'a
    requires { [@expl:null string] o <> None }
    ensures { o = Some result }
  function f_dec (x: int) : str
  val dec (x: int) : str ensures { result = f_dec x }
  (* decimal numerals: distinct numbers have distinct, non-empty numerals *)
  axiom f_dec_inj: forall x y. f_dec x = f_dec y -> x = y
  (* the data pointer of a view is null at most when the view is empty *)
  val data_nonnull (s: seq 'a) : bool ensures { length s > 0 -> result }

  (* locks *)
  let under_lock (l: bool) : unit
    requires { [@expl:shared state is used under its lock] l } = ()
  let own_lock (o: bool) : unit
    requires { [@expl:a lock released is held] o } = ()
  let no_lock (o: bool) : unit
    requires { [@expl:a lock is not taken twice] not o } = ()

  (* nondeterminism *)
  val any_int (lo hi: int) : int requires { lo <= hi } ensures { lo <= result <= hi }
  val any_bool () : bool
  val any_throw () : bool
end
