(* Synonyms: where the words of a key lead in the reference *)
module SynBase
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxFlt
  use cxx.CxxFst
  use cxx.CxxSym
  predicate st_in (f: fst_t) (s: int) = 0 <= s < length f.f_arcs
  predicate arcs_ok (f: fst_t) (s: int) = forall i [get (get f.f_arcs s) i]. 0 <= i < length (get f.f_arcs s) -> st_in f (get (get f.f_arcs s) i).arc_nextstate
  predicate well (f: fst_t) = length f.f_final = length f.f_arcs /\ forall s [get f.f_arcs s | arcs_ok f s | st_in f s]. st_in f s -> arcs_ok f s
  (* among the first n numbers of a list *)
  predicate inq (r: seq int) (t: int) = exists k. 0 <= k < length r /\ get r k = t
end

module SynPath
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxFst
  use cxx.CxxSym
  use SynBase
  (* the arc carries word p of the key and leaves the state *)
  predicate carries (sy: symtab_t) (key: seq str) (p s: int) (x: r_StdArc) = sym_find sy (get key p) <> -1 /\ x.arc_ilabel = sym_find sy (get key p) /\ x.arc_nextstate <> s
  (* from s the words p.. of the key lead to t *)
  inductive leads (f: fst_t) (sy: symtab_t) (key: seq str) (p s t: int) =
  | L_end: forall f sy key p s. p >= length key -> leads f sy key p s s
  | L_step: forall f sy key p s t i. 0 <= p < length key -> 0 <= i < length (get f.f_arcs s) -> carries sy key p s (get (get f.f_arcs s) i) ->
      leads f sy key (p + 1) (get (get f.f_arcs s) i).arc_nextstate t -> leads f sy key p s t
  predicate over (f: fst_t) (sy: symtab_t) (key: seq str) (p s t: int) (x: r_StdArc) = carries sy key p s x /\ leads f sy key (p + 1) x.arc_nextstate t
  predicate over_any (f: fst_t) (sy: symtab_t) (key: seq str) (p s t n: int) = exists i. 0 <= i < n /\ over f sy key p s t (get (get f.f_arcs s) i)
  predicate listed (r: seq int) (f: fst_t) (sy: symtab_t) (key: seq str) (p s n: int) = forall t [inq r t | over_any f sy key p s t n]. inq r t <-> over_any f sy key p s t n
  predicate ends (r: seq int) (f: fst_t) (sy: symtab_t) (key: seq str) (p s: int) = forall t [inq r t | leads f sy key p s t]. inq r t <-> leads f sy key p s t
  predicate states_of (r: seq int) (f: fst_t) = forall t [inq r t]. inq r t -> st_in f t
  lemma inq_0: forall t [inq (empty: seq int) t]. not inq empty t
  let lemma inq_1 (r: seq int) (x t: int) : unit
    ensures { inq (snoc r x) t <-> inq r t \/ t = x }
  = assert { forall k. 0 <= k < length r -> get (snoc r x) k = get r k };
    assert { get (snoc r x) (length r) = x }
  let lemma inq_app (r q: seq int) (t: int) : unit
    ensures { inq (r ++ q) t <-> inq r t \/ inq q t }
  =
    assert { forall k. 0 <= k < length q -> get q k = t -> get (r ++ q) (length r + k) = t };
    assert { forall k. 0 <= k < length r -> get r k = t -> get (r ++ q) k = t };
    assert { forall k. 0 <= k < length (r ++ q) -> get (r ++ q) k = t -> if k < length r then get r k = t else get q (k - length r) = t }
  lemma over_0: forall f sy key p s t [over_any f sy key p s t 0]. not over_any f sy key p s t 0
  lemma over_s: forall f sy key p s t n m [over_any f sy key p s t n, over_any f sy key p s t m]. 0 <= n -> m = n + 1 ->
    (over_any f sy key p s t m <-> over_any f sy key p s t n \/ over f sy key p s t (get (get f.f_arcs s) n))
  lemma leads_end: forall f sy key p s t [leads f sy key p s t]. p >= length key -> (leads f sy key p s t <-> t = s)
  lemma leads_down: forall f sy key p s t. 0 <= p < length key -> leads f sy key p s t -> over_any f sy key p s t (length (get f.f_arcs s))
  lemma leads_up: forall f sy key p s t. 0 <= p < length key -> over_any f sy key p s t (length (get f.f_arcs s)) -> leads f sy key p s t
  lemma leads_iff: forall f sy key p s t [leads f sy key p s t]. 0 <= p < length key -> (leads f sy key p s t <-> over_any f sy key p s t (length (get f.f_arcs s)))
  lemma listed_0: forall f sy key p s. listed empty f sy key p s 0
  let lemma listed_skip (r: seq int) (f: fst_t) (sy: symtab_t) (key: seq str) (p s n: int) : unit
    requires { 0 <= n /\ listed r f sy key p s n /\ not carries sy key p s (get (get f.f_arcs s) n) }
    ensures { listed r f sy key p s (n + 1) }
  = assert { forall t. inq r t <-> over_any f sy key p s t n };
    assert { forall t. over_any f sy key p s t (n + 1) <-> over_any f sy key p s t n }
  let lemma listed_add (r q: seq int) (f: fst_t) (sy: symtab_t) (key: seq str) (p s n: int) : unit
    requires { 0 <= n /\ listed r f sy key p s n /\ carries sy key p s (get (get f.f_arcs s) n) /\ ends q f sy key (p + 1) (get (get f.f_arcs s) n).arc_nextstate }
    ensures { listed (r ++ q) f sy key p s (n + 1) }
  = assert { forall t. inq (r ++ q) t <-> inq r t \/ inq q t };
    assert { forall t. inq q t <-> over f sy key p s t (get (get f.f_arcs s) n) };
    assert { forall t. over_any f sy key p s t (n + 1) <-> over_any f sy key p s t n \/ over f sy key p s t (get (get f.f_arcs s) n) }
  let lemma ends_all (r: seq int) (f: fst_t) (sy: symtab_t) (key: seq str) (p s: int) : unit
    requires { 0 <= p < length key /\ listed r f sy key p s (length (get f.f_arcs s)) }
    ensures { ends r f sy key p s }
  = assert { forall t. inq r t <-> leads f sy key p s t }
  let lemma ends_none (f: fst_t) (sy: symtab_t) (key: seq str) (p s: int) : unit
    requires { 0 <= p < length key /\ sym_find sy (get key p) = -1 }
    ensures { ends empty f sy key p s }
  = assert { forall t. not over_any f sy key p s t (length (get f.f_arcs s)) }
  let lemma ends_one (r: seq int) (f: fst_t) (sy: symtab_t) (key: seq str) (p s: int) : unit
    requires { p >= length key /\ r = snoc empty s }
    ensures { ends r f sy key p s }
  = assert { forall t. inq r t <-> t = s };
    assert { forall t. leads f sy key p s t <-> t = s }
end

(* the same states in the order of the arcs *)
module SeekDef
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxMap
  use cxx.CxxFlt
  use cxx.CxxFst
  use cxx.CxxSym
  use SynBase
  use SynPath
  let rec ghost function seekd (f: fst_t) (sy: symtab_t) (key: seq str) (p s: int) : seq int variant { (if p >= length key then 0 else length key - p), 1, 0 }
  = if p >= pure { length key } then pure { snoc (empty: seq int) s } else if pure { sym_find sy (get key p) = -1 } then pure { (empty: seq int) } else seeknd f sy key p s (pure { length (get f.f_arcs s) })
  with ghost function seeknd (f: fst_t) (sy: symtab_t) (key: seq str) (p s n: int) : seq int variant { (if p >= length key then 0 else length key - p), 0, n }
  = if n <= 0 || p >= pure { length key } then pure { (empty: seq int) } else let r = seeknd f sy key p s (n - 1) in
    if pure { carries sy key p s (get (get f.f_arcs s) (n - 1)) } then let m = seekd f sy key (p + 1) (pure { (get (get f.f_arcs s) (n - 1)).arc_nextstate }) in pure { r ++ m } else r
end

module SeekApi
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxMap
  use cxx.CxxFlt
  use cxx.CxxFst
  use cxx.CxxSym
  use SynBase
  use SynPath
  function seek (f: fst_t) (sy: symtab_t) (key: seq str) (p s: int) : seq int
  function seek_n (f: fst_t) (sy: symtab_t) (key: seq str) (p s n: int) : seq int
  axiom seek_end: forall f sy key p s [seek f sy key p s]. p >= length key -> seek f sy key p s = snoc empty s
  axiom seek_none: forall f sy key p s [seek f sy key p s]. p < length key -> sym_find sy (get key p) = -1 -> seek f sy key p s = empty
  axiom seek_all: forall f sy key p s [seek f sy key p s]. p < length key -> sym_find sy (get key p) <> -1 -> seek f sy key p s = seek_n f sy key p s (length (get f.f_arcs s))
  axiom seek_0: forall f sy key p s [seek_n f sy key p s 0]. seek_n f sy key p s 0 = empty
  axiom seek_s: forall f sy key p s n m [seek_n f sy key p s n, seek_n f sy key p s m]. 0 <= n -> m = n + 1 -> p < length key -> seek_n f sy key p s m =
    if carries sy key p s (get (get f.f_arcs s) n) then seek_n f sy key p s n ++ seek f sy key (p + 1) (get (get f.f_arcs s) n).arc_nextstate else seek_n f sy key p s n
end

module SeekReal
  use SeekDef
  clone SeekApi with function seek = seekd, function seek_n = seeknd
end

module SynPlanBase
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxMap
  use cxx.CxxFlt
  use cxx.CxxFst
  use cxx.CxxSym
  use SynBase
  type link = pair int r_StdArc
  (* the work in progress: the grown automaton, the arcs to add, the number of the next alternative, the words *)
  type plan = { pf: fst_t; pa: seq link; pid: int; ps: symtab_t }
  type rules = cmap (seq str) (seq (seq str))
  function arc_to (w t: int) : r_StdArc = { arc_ilabel = w; arc_olabel = w; arc_weight = f_lit 1 0 1; arc_nextstate = t }
  function n_of (q: plan) : int = length q.pf.f_arcs
  function link_to (s w t: int) : link = { first = s; second = arc_to w t }
  function known (sy: symtab_t) (w: str) : symtab_t = if sym_find sy w = -1 then sym_add sy w else sy
  (* one more word: a new state, reached from the newest one *)
  function f_word (q: plan) (w: str) : plan = { pf = fst_add_state q.pf; pa = snoc q.pa (link_to (n_of q - 1) (sym_find (known q.ps w) w) (n_of q)); pid = q.pid; ps = known q.ps w }
  function f_close (q: plan) (w t: int) : plan = { q with pa = snoc q.pa (link_to (n_of q - 1) w t) }
  function label_of (id n m: int) : str = (((((("___" ++ itos id) ++ "_SYN_") ++ itos n) ++ "-") ++ itos m) ++ "___")
  function f_open (q: plan) (s: int) (key alt: seq str) : plan =
    let l = label_of q.pid (length key) (length alt) in
    { pf = fst_add_state q.pf; pa = snoc q.pa (link_to s (sym_find (sym_add q.ps l) l) (n_of q)); pid = q.pid + 1; ps = sym_add q.ps l }
  function lab (q: plan) (key alt: seq str) : int = let l = label_of q.pid (length key) (length alt) in sym_find (sym_add q.ps l) l
  (* a rule is filed under its first word, if the table has it *)
  function f_file (m: cmap int (seq (seq str))) (sy: symtab_t) (k: seq str) : cmap int (seq (seq str)) =
    let id = sym_find sy (get k 0) in
    if id = -1 then m else let m1 = if mmem m id then m else madd m id empty in madd m1 id (snoc (mget m1 id) k)
  function put (f: fst_t) (s: int) (x: r_StdArc) : fst_t = { f_start = f.f_start; f_arcs = set f.f_arcs s (snoc (get f.f_arcs s) x); f_final = f.f_final }
  function f_lay (f: fst_t) (l: link) : fst_t = put f l.first l.second
end

module SynPlanDef
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxMap
  use cxx.CxxFlt
  use cxx.CxxFst
  use cxx.CxxSym
  use SynBase
  use SynPath
  use SeekApi
  use SynPlanBase
  let rec ghost function filedd (sy: symtab_t) (ks: seq (seq str)) (n: int) : cmap int (seq (seq str)) variant { n }
  = if n <= 0 then pure { (mempty: cmap int (seq (seq str))) } else let r = filedd sy ks (n - 1) in pure { f_file r sy (get ks (n - 1)) }
  let rec ghost function speltd (q: plan) (alt: seq str) (n: int) : plan variant { n }
  = if n <= 0 then pure { q } else let r = speltd q alt (n - 1) in pure { f_word r (get alt (n - 1)) }
  let rec ghost function closesd (q: plan) (w: int) (ts: seq int) (n: int) : plan variant { n }
  = if n <= 0 then pure { q } else let r = closesd q w ts (n - 1) in pure { f_close r w (get ts (n - 1)) }
  function alternatived (q: plan) (s: int) (key alt: seq str) (ts: seq int) : plan = closesd (speltd (f_open q s key alt) alt (length alt)) (lab q key alt) ts (length ts)
  let rec ghost function altsd (q: plan) (s: int) (key: seq str) (vs: seq (seq str)) (ts: seq int) (n: int) : plan variant { n }
  = if n <= 0 then pure { q } else let r = altsd q s key vs ts (n - 1) in pure { alternatived r s key (get vs (n - 1)) ts }
  function candidated (q: plan) (s: int) (ru: rules) (key: seq str) : plan = let ts = seek q.pf q.ps key 0 s in if length ts = 0 then q else altsd q s key (mget ru key) ts (length (mget ru key))
  let rec ghost function candsd (q: plan) (s: int) (ru: rules) (ks: seq (seq str)) (n: int) : plan variant { n }
  = if n <= 0 then pure { q } else let r = candsd q s ru ks (n - 1) in pure { candidated r s ru (get ks (n - 1)) }
  function at_arcd (q: plan) (s: int) (ru: rules) (ix: cmap int (seq (seq str))) (x: r_StdArc) : plan = if x.arc_nextstate = s \/ not mmem ix x.arc_ilabel then q else candsd q s ru (mget ix x.arc_ilabel) (length (mget ix x.arc_ilabel))
  let rec ghost function arcsd (q: plan) (f: fst_t) (s: int) (ru: rules) (ix: cmap int (seq (seq str))) (n: int) : plan variant { n }
  = if n <= 0 then pure { q } else let r = arcsd q f s ru ix (n - 1) in pure { at_arcd r s ru ix (get (get f.f_arcs s) (n - 1)) }
  function at_stated (q: plan) (f: fst_t) (s: int) (ru: rules) (ix: cmap int (seq (seq str))) : plan = arcsd q f s ru ix (length (get f.f_arcs s))
  let rec ghost function sttsd (q: plan) (f: fst_t) (ru: rules) (ix: cmap int (seq (seq str))) (n: int) : plan variant { n }
  = if n <= 0 then pure { q } else let r = sttsd q f ru ix (n - 1) in pure { at_stated r f (n - 1) ru ix }
  let rec ghost function laidd (f: fst_t) (ls: seq link) (n: int) : fst_t variant { n }
  = if n <= 0 then pure { f } else let r = laidd f ls (n - 1) in pure { f_lay r (get ls (n - 1)) }
end

module SynPlanApi
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxMap
  use cxx.CxxFlt
  use cxx.CxxFst
  use cxx.CxxSym
  use SynBase
  use SynPath
  use SeekApi
  use SynPlanBase
  function filed (sy: symtab_t) (ks: seq (seq str)) (n: int) : cmap int (seq (seq str))
  axiom filed_0: forall sy ks [filed sy ks 0]. filed sy ks 0 = (mempty: cmap int (seq (seq str)))
  axiom filed_s: forall sy ks n m [filed sy ks n, filed sy ks m]. 0 <= n -> m = n + 1 -> filed sy ks m = f_file (filed sy ks n) sy (get ks n)
  function spelt (q: plan) (alt: seq str) (n: int) : plan
  axiom spelt_0: forall q alt [spelt q alt 0]. spelt q alt 0 = q
  axiom spelt_s: forall q alt n m [spelt q alt n, spelt q alt m]. 0 <= n -> m = n + 1 -> spelt q alt m = f_word (spelt q alt n) (get alt n)
  function closes (q: plan) (w: int) (ts: seq int) (n: int) : plan
  axiom closes_0: forall q w ts [closes q w ts 0]. closes q w ts 0 = q
  axiom closes_s: forall q w ts n m [closes q w ts n, closes q w ts m]. 0 <= n -> m = n + 1 -> closes q w ts m = f_close (closes q w ts n) w (get ts n)
  function alternative (q: plan) (s: int) (key alt: seq str) (ts: seq int) : plan = closes (spelt (f_open q s key alt) alt (length alt)) (lab q key alt) ts (length ts)
  function alts (q: plan) (s: int) (key: seq str) (vs: seq (seq str)) (ts: seq int) (n: int) : plan
  axiom alts_0: forall q s key vs ts [alts q s key vs ts 0]. alts q s key vs ts 0 = q
  axiom alts_s: forall q s key vs ts n m [alts q s key vs ts n, alts q s key vs ts m]. 0 <= n -> m = n + 1 -> alts q s key vs ts m = alternative (alts q s key vs ts n) s key (get vs n) ts
  function candidate (q: plan) (s: int) (ru: rules) (key: seq str) : plan = let ts = seek q.pf q.ps key 0 s in if length ts = 0 then q else alts q s key (mget ru key) ts (length (mget ru key))
  function cands (q: plan) (s: int) (ru: rules) (ks: seq (seq str)) (n: int) : plan
  axiom cands_0: forall q s ru ks [cands q s ru ks 0]. cands q s ru ks 0 = q
  axiom cands_s: forall q s ru ks n m [cands q s ru ks n, cands q s ru ks m]. 0 <= n -> m = n + 1 -> cands q s ru ks m = candidate (cands q s ru ks n) s ru (get ks n)
  function at_arc (q: plan) (s: int) (ru: rules) (ix: cmap int (seq (seq str))) (x: r_StdArc) : plan = if x.arc_nextstate = s \/ not mmem ix x.arc_ilabel then q else cands q s ru (mget ix x.arc_ilabel) (length (mget ix x.arc_ilabel))
  function arcs (q: plan) (f: fst_t) (s: int) (ru: rules) (ix: cmap int (seq (seq str))) (n: int) : plan
  axiom arcs_0: forall q f s ru ix [arcs q f s ru ix 0]. arcs q f s ru ix 0 = q
  axiom arcs_s: forall q f s ru ix n m [arcs q f s ru ix n, arcs q f s ru ix m]. 0 <= n -> m = n + 1 -> arcs q f s ru ix m = at_arc (arcs q f s ru ix n) s ru ix (get (get f.f_arcs s) n)
  function at_state (q: plan) (f: fst_t) (s: int) (ru: rules) (ix: cmap int (seq (seq str))) : plan = arcs q f s ru ix (length (get f.f_arcs s))
  function stts (q: plan) (f: fst_t) (ru: rules) (ix: cmap int (seq (seq str))) (n: int) : plan
  axiom stts_0: forall q f ru ix [stts q f ru ix 0]. stts q f ru ix 0 = q
  axiom stts_s: forall q f ru ix n m [stts q f ru ix n, stts q f ru ix m]. 0 <= n -> m = n + 1 -> stts q f ru ix m = at_state (stts q f ru ix n) f n ru ix
  function laid (f: fst_t) (ls: seq link) (n: int) : fst_t
  axiom laid_0: forall f ls [laid f ls 0]. laid f ls 0 = f
  axiom laid_s: forall f ls n m [laid f ls n, laid f ls m]. 0 <= n -> m = n + 1 -> laid f ls m = f_lay (laid f ls n) (get ls n)
end

module SynPlanReal
  use SynPlanDef
  clone SynPlanApi with function filed = filedd, function spelt = speltd, function closes = closesd, function alts = altsd, function cands = candsd, function arcs = arcsd, function stts = sttsd, function laid = laidd
end

module SynGrow
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxMap
  use cxx.CxxFlt
  use cxx.CxxFst
  use cxx.CxxSym
  use SynBase
  use SynPlanBase
  predicate front (a b: seq r_StdArc) = length a <= length b /\ forall i [get b i]. 0 <= i < length a -> get b i = get a i
  (* g is f with more states, none of them final, and more arcs: everything of f is there, in its place *)
  predicate grown (f g: fst_t) = g.f_start = f.f_start /\ length f.f_arcs <= length g.f_arcs /\ length g.f_final = length g.f_arcs /\
    (forall s [get g.f_final s]. 0 <= s < length g.f_final -> get g.f_final s = if s < length f.f_arcs then get f.f_final s else f_inf) /\
    (forall s [get g.f_arcs s]. 0 <= s < length f.f_arcs -> front (get f.f_arcs s) (get g.f_arcs s))
  (* not an arc more *)
  predicate bare (f g: fst_t) = grown f g /\ forall s [get g.f_arcs s]. 0 <= s < length g.f_arcs -> get g.f_arcs s = if s < length f.f_arcs then get f.f_arcs s else empty
  predicate fits (l: link) (n: int) = 0 <= l.first < n /\ 0 <= l.second.arc_nextstate < n
  predicate placed (ls: seq link) (n: int) = forall i [get ls i]. 0 <= i < length ls -> fits (get ls i) n
  lemma bare_0: forall f [bare f f]. length f.f_final = length f.f_arcs -> bare f f
  lemma bare_s: forall f g [bare f (fst_add_state g)]. bare f g -> bare f (fst_add_state g)
  lemma well_s: forall f [well (fst_add_state f)]. well f -> well (fst_add_state f)
  let lemma grown_put (f g h: fst_t) (s: int) (x: r_StdArc) : unit
    requires { grown f g /\ 0 <= s < length g.f_arcs /\ h = put g s x }
    ensures { grown f h }
  = let ghost a = g.f_arcs in let ghost b = h.f_arcs in
    assert { b = set a s (snoc (get a s) x) };
    assert { length b = length a /\ h.f_final = g.f_final /\ h.f_start = g.f_start };
    assert { forall r. 0 <= r < length a -> r <> s -> get b r = get a r };
    assert { get b s = snoc (get a s) x };
    assert { s < length f.f_arcs -> front (get f.f_arcs s) (get a s) };
    assert { s < length f.f_arcs -> front (get f.f_arcs s) (get b s) };
    assert { forall r. 0 <= r < length f.f_arcs -> front (get f.f_arcs r) (get b r) }
  let lemma well_put (g h: fst_t) (s: int) (x: r_StdArc) : unit
    requires { well g /\ 0 <= s < length g.f_arcs /\ 0 <= x.arc_nextstate < length g.f_arcs /\ h = put g s x }
    ensures { well h }
  = let ghost a = g.f_arcs in let ghost b = h.f_arcs in
    assert { b = set a s (snoc (get a s) x) };
    assert { length b = length a };
    assert { forall r. st_in h r <-> st_in g r };
    assert { forall r. 0 <= r < length a -> r <> s -> get b r = get a r };
    assert { get b s = snoc (get a s) x };
    assert { st_in g s };
    assert { arcs_ok g s };
    assert { forall i. 0 <= i < length (get a s) -> st_in g (get (get a s) i).arc_nextstate };
    assert { st_in h x.arc_nextstate };
    assert { forall i. 0 <= i < length (get b s) -> st_in h (get (get b s) i).arc_nextstate };
    assert { arcs_ok h s };
    assert { forall r. st_in h r -> r <> s -> arcs_ok g r };
    assert { forall r. st_in h r -> arcs_ok h r }
  lemma placed_s: forall ls l n [placed (snoc ls l) n]. placed ls n -> fits l n -> placed (snoc ls l) n
  lemma fits_up: forall l n m [fits l n, fits l m]. fits l n -> n <= m -> fits l m
  lemma placed_up: forall ls n m [placed ls n, placed ls m]. placed ls n -> n <= m -> placed ls m
  predicate in_rules (ru: rules) (ks: seq (seq str)) = forall i [get ks i]. 0 <= i < length ks -> mmem ru (get ks i)
  predicate filed_ok (ru: rules) (m: cmap int (seq (seq str))) = forall id [mget m id | mmem m id]. mmem m id -> in_rules ru (mget m id)
  lemma set_same: forall s: seq (seq str), i v [set s i v]. 0 <= i < length s -> v = get s i -> set s i v = s
  lemma filed_0: forall ru. filed_ok ru mempty
  lemma filed_s: forall ru m sy k [filed_ok ru (f_file m sy k)]. filed_ok ru m -> mmem ru k -> filed_ok ru (f_file m sy k)
  predicate in_size (vs: seq (seq str)) = forall i [get vs i]. 0 <= i < length vs -> length (get vs i) < 2147483647
  predicate keys_ok (ru: rules) = forall k [mmem ru k]. mmem ru k -> 0 < length k < 2147483647 /\ in_size (mget ru k)
end
