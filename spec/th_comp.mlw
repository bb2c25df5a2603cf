(* The composition of two automata: numbered pairs of states *)
module CompBase
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxMap
  use cxx.CxxSet
  use cxx.CxxFlt
  use cxx.CxxFst
  use cxx.CxxSym
  (* a finite automaton: as many states as fit an int, every arc leads to one of them; no cycles (st_rank falls along every arc) *)
  predicate st_in (f: fst_t) (s: int) = 0 <= s < length f.f_arcs
  predicate arcs_ok (f: fst_t) (s: int) = forall i [get (get f.f_arcs s) i]. 0 <= i < length (get f.f_arcs s) -> st_in f (get (get f.f_arcs s) i).arc_nextstate
  predicate well (f: fst_t) = length f.f_arcs <= 2147483647 /\ length f.f_final = length f.f_arcs /\ forall s [get f.f_arcs s | arcs_ok f s | st_in f s]. st_in f s -> arcs_ok f s
  function st_rank (f: fst_t) (s: int) : int
  predicate falls (f: fst_t) (s: int) = forall i [get (get f.f_arcs s) i]. 0 <= i < length (get f.f_arcs s) -> st_rank f (get (get f.f_arcs s) i).arc_nextstate < st_rank f s
  predicate acyclic (f: fst_t) = forall s [get f.f_arcs s | falls f s | st_in f s]. st_in f s -> 0 <= st_rank f s /\ falls f s
  (* pairs and their numbers, one to one *)
  type cp = pair int int
  predicate numbered (cs: cmap cp int) (rs: cmap int cp) (n: int) = 0 <= n /\
    (forall p [mmem cs p]. mmem cs p -> 0 <= mget cs p < n /\ mmem rs (mget cs p) /\ mget rs (mget cs p) = p) /\
    (forall i [mmem rs i]. mmem rs i -> 0 <= i < n /\ mmem cs (mget rs i) /\ mget cs (mget rs i) = i)
  predicate placed (cs: cmap cp int) (fa fb: fst_t) = forall p [mmem cs p]. mmem cs p -> st_in fa p.first /\ st_in fb p.second
  predicate kept (cs cs': cmap cp int) = forall p [mmem cs' p]. mmem cs p -> mmem cs' p /\ mget cs' p = mget cs p
  predicate kept_r (rs rs': cmap int cp) = forall i [mmem rs' i]. mmem rs i -> mmem rs' i /\ mget rs' i = mget rs i
end

(* reaching the way out of a synonym: only matching words and empty arcs on the way *)
module CompReach
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxFst
  use CompBase
  inductive reach (fa fb: fst_t) (l a b: int) =
  | R_here: forall fa fb l a b i. 0 <= i < length (get fa.f_arcs a) -> (get (get fa.f_arcs a) i).arc_olabel = l -> reach fa fb l a b
  | R_eps: forall fa fb l a b i. 0 <= i < length (get fa.f_arcs a) -> (get (get fa.f_arcs a) i).arc_olabel = 0 -> reach fa fb l (get (get fa.f_arcs a) i).arc_nextstate b -> reach fa fb l a b
  | R_both: forall fa fb l a b i j. 0 <= i < length (get fa.f_arcs a) -> (get (get fa.f_arcs a) i).arc_olabel <> 0 -> 0 <= j < length (get fb.f_arcs b) ->
      (get (get fa.f_arcs a) i).arc_olabel = (get (get fb.f_arcs b) j).arc_ilabel -> reach fa fb l (get (get fa.f_arcs a) i).arc_nextstate (get (get fb.f_arcs b) j).arc_nextstate -> reach fa fb l a b
  predicate meets (fa fb: fst_t) (l: int) (x y: r_StdArc) = x.arc_olabel = y.arc_ilabel /\ reach fa fb l x.arc_nextstate y.arc_nextstate
  predicate meets_any (fa fb: fst_t) (l: int) (x: r_StdArc) (b n: int) = exists j. 0 <= j < n /\ meets fa fb l x (get (get fb.f_arcs b) j)
  predicate via (fa fb: fst_t) (l: int) (x: r_StdArc) (b: int) =
    x.arc_olabel = l \/ (if x.arc_olabel = 0 then reach fa fb l x.arc_nextstate b else meets_any fa fb l x b (length (get fb.f_arcs b)))
  predicate via_any (fa fb: fst_t) (l a b n: int) = exists i. 0 <= i < n /\ via fa fb l (get (get fa.f_arcs a) i) b
  lemma meets_0: forall fa fb l x b [meets_any fa fb l x b 0]. not meets_any fa fb l x b 0
  lemma meets_s: forall fa fb l x b n m [meets_any fa fb l x b n, meets_any fa fb l x b m]. 0 <= n -> m = n + 1 -> (meets_any fa fb l x b m <-> meets_any fa fb l x b n \/ meets fa fb l x (get (get fb.f_arcs b) n))
  lemma meets_all: forall fa fb l x b n m [meets_any fa fb l x b n, meets_any fa fb l x b m]. n <= m -> meets_any fa fb l x b n -> meets_any fa fb l x b m
  lemma via_0: forall fa fb l a b [via_any fa fb l a b 0]. not via_any fa fb l a b 0
  lemma via_s: forall fa fb l a b n m [via_any fa fb l a b n, via_any fa fb l a b m]. 0 <= n -> m = n + 1 -> (via_any fa fb l a b m <-> via_any fa fb l a b n \/ via fa fb l (get (get fa.f_arcs a) n) b)
  lemma via_all: forall fa fb l a b n m [via_any fa fb l a b n, via_any fa fb l a b m]. n <= m -> via_any fa fb l a b n -> via_any fa fb l a b m
  lemma reach_down: forall fa fb l a b. reach fa fb l a b -> via_any fa fb l a b (length (get fa.f_arcs a))
  lemma reach_up: forall fa fb l a b. via_any fa fb l a b (length (get fa.f_arcs a)) -> reach fa fb l a b
  lemma reach_iff: forall fa fb l a b [reach fa fb l a b]. reach fa fb l a b <-> via_any fa fb l a b (length (get fa.f_arcs a))
  type ce = pair int int
  predicate more (s s': cset ce) = forall p [smem s' p | smem s p]. smem s p -> smem s' p
  (* exits are only added at states of no higher rank *)
  predicate below (fa: fst_t) (a: int) (s s': cset ce) = forall p [smem s' p]. smem s' p -> smem s p \/ st_rank fa p.first <= st_rank fa a
end

(* the steps the alignment rules allow at a pair of states *)
module StepBase
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxMap
  use cxx.CxxSet
  use cxx.CxxFlt
  use cxx.CxxFst
  use cxx.CxxSym
  use CompBase
  use CompReach
  type conf = { ca: fst_t; cb: fst_t; csy: symtab_t; csv: seq bool; cev: seq bool; cex: cset ce; cins: flt; cdel: flt; csub: flt; cdl: int }
  type step = { s_in: int; s_out: int; s_w: flt; s_a: int; s_b: int }
  function arc_a (c: conf) (a i: int) : r_StdArc = get (get c.ca.f_arcs a) i
  function arc_b (c: conf) (b i: int) : r_StdArc = get (get c.cb.f_arcs b) i
  function n_a (c: conf) (a: int) : int = length (get c.ca.f_arcs a)
  function n_b (c: conf) (b: int) : int = length (get c.cb.f_arcs b)
  function zero_w : flt = f_lit 1 0 1
  predicate optional (w: flt) = f_le w zero_w
  predicate is_syn (c: conf) (l: int) = sym_some c.csy /\ get c.csv l
  predicate is_ent (c: conf) (l: int) = is_syn c l \/ (sym_some c.csy /\ get c.cev l)
  predicate enters (c: conf) (a b: int) (x: r_StdArc) =
    smem c.cex { first = a; second = x.arc_olabel } \/ not is_syn c x.arc_olabel \/ reach c.ca c.cb x.arc_olabel x.arc_nextstate b
  (* a reference word against a hypothesis word: match; insertion of an optional word; substitution when both are optional *)
  function f_match (x y: r_StdArc) (s: seq step) : seq step =
    if x.arc_olabel = y.arc_ilabel then snoc s { s_in = x.arc_ilabel; s_out = y.arc_olabel; s_w = zero_w; s_a = x.arc_nextstate; s_b = y.arc_nextstate } else s
  function f_ins (c: conf) (a: int) (y: r_StdArc) (s: seq step) : seq step =
    if optional y.arc_weight then snoc s { s_in = 0; s_out = y.arc_olabel; s_w = c.cins; s_a = a; s_b = y.arc_nextstate } else s
  function f_sub (c: conf) (x y: r_StdArc) (s: seq step) : seq step =
    if optional x.arc_weight /\ optional y.arc_weight then snoc s { s_in = x.arc_ilabel; s_out = y.arc_olabel; s_w = c.csub; s_a = x.arc_nextstate; s_b = y.arc_nextstate } else s
  function facing (c: conf) (a: int) (x y: r_StdArc) (s: seq step) : seq step = f_sub c x y (f_ins c a y (f_match x y s))
  function hit (x y: r_StdArc) : int = if x.arc_olabel = y.arc_ilabel then 1 else 0
  (* the reference is used up: only optional words of the hypothesis, inserted *)
  function f_tail (c: conf) (a: int) (y: r_StdArc) (s: seq step) : seq step =
    if f_lt zero_w y.arc_weight then s else snoc s { s_in = 0; s_out = y.arc_olabel; s_w = c.cins; s_a = a; s_b = y.arc_nextstate }
end

module StepDef
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxFst
  use StepBase
  let rec ghost function againstd (c: conf) (a b: int) (x: r_StdArc) (s: seq step) (k: int) : seq step variant { k }
  = if k <= 0 then s else let p = againstd c a b x s (k-1) in pure { facing c a x (arc_b c b (k-1)) p }
  let rec ghost function hitsd (c: conf) (b: int) (x: r_StdArc) (n k: int) : int variant { k }
  = if k <= 0 then n else let p = hitsd c b x n (k-1) in pure { p + hit x (arc_b c b (k-1)) }
  let rec ghost function taild (c: conf) (a b k: int) : seq step variant { k }
  = if k <= 0 then pure { (empty: seq step) } else let p = taild c a b (k-1) in pure { f_tail c a (arc_b c b (k-1)) p }
end

module StepApi
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxFst
  use StepBase
  function against (c: conf) (a b: int) (x: r_StdArc) (s: seq step) (k: int) : seq step
  axiom against_0: forall c a b x s [against c a b x s 0]. against c a b x s 0 = s
  axiom against_s: forall c a b x s k m [against c a b x s k, against c a b x s m]. 0 <= k -> m = k + 1 -> against c a b x s m = facing c a x (arc_b c b k) (against c a b x s k)
  function hits (c: conf) (b: int) (x: r_StdArc) (n k: int) : int
  axiom hits_0: forall c b x n [hits c b x n 0]. hits c b x n 0 = n
  axiom hits_s: forall c b x n k m [hits c b x n k, hits c b x n m]. 0 <= k -> m = k + 1 -> hits c b x n m = hits c b x n k + hit x (arc_b c b k)
  function tail (c: conf) (a b k: int) : seq step
  axiom tail_0: forall c a b [tail c a b 0]. tail c a b 0 = empty
  axiom tail_s: forall c a b k m [tail c a b k, tail c a b m]. 0 <= k -> m = k + 1 -> tail c a b m = f_tail c a (arc_b c b k) (tail c a b k)
end

module StepReal
  use StepDef
  clone StepApi with function against = againstd, function hits = hitsd, function tail = taild
end

module PlanBase
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxFlt
  use cxx.CxxFst
  use StepBase
  use StepApi
  (* what the reference arc x adds: nothing for a loop, a free step over an empty arc or into a class or an enterable synonym; otherwise the word against each
     word of the hypothesis, and its deletion if nothing has matched so far, or its weight asks for it *)
  function adv (c: conf) (a b: int) (x: r_StdArc) (s: seq step) (n: int) : seq step =
    if x.arc_nextstate = a then s
    else if x.arc_olabel = 0 then snoc s { s_in = 0; s_out = 0; s_w = zero_w; s_a = x.arc_nextstate; s_b = b }
    else if is_ent c x.arc_olabel then (if enters c a b x then snoc s { s_in = x.arc_ilabel; s_out = c.cdl; s_w = zero_w; s_a = x.arc_nextstate; s_b = b } else s)
    else let r = against c a b x s (n_b c b) in
      if hits c b x n (n_b c b) = 0 \/ f_lt x.arc_weight zero_w then snoc r { s_in = x.arc_ilabel; s_out = 0; s_w = c.cdel; s_a = x.arc_nextstate; s_b = b } else r
  function adv_n (c: conf) (a b: int) (x: r_StdArc) (n: int) : int =
    if x.arc_nextstate = a \/ x.arc_olabel = 0 then n
    else if is_ent c x.arc_olabel then (if enters c a b x then n + 1 else n) else hits c b x n (n_b c b)
end

module PlanDef
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxFst
  use StepBase
  use PlanBase
  let rec ghost function matchesd (c: conf) (a b k: int) : int variant { k }
  = if k <= 0 then 0 else let p = matchesd c a b (k-1) in pure { adv_n c a b (arc_a c a (k-1)) p }
  let rec ghost function pland (c: conf) (a b k: int) : seq step variant { k }
  = if k <= 0 then pure { (empty: seq step) } else let p = pland c a b (k-1) in let n = matchesd c a b (k-1) in pure { adv c a b (arc_a c a (k-1)) p n }
end

module PlanApi
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxFst
  use StepBase
  use PlanBase
  function matches (c: conf) (a b k: int) : int
  axiom matches_0: forall c a b [matches c a b 0]. matches c a b 0 = 0
  axiom matches_s: forall c a b k m [matches c a b k, matches c a b m]. 0 <= k -> m = k + 1 -> matches c a b m = adv_n c a b (arc_a c a k) (matches c a b k)
  function plan (c: conf) (a b k: int) : seq step
  axiom plan_0: forall c a b [plan c a b 0]. plan c a b 0 = empty
  axiom plan_s: forall c a b k m [plan c a b k, plan c a b m]. 0 <= k -> m = k + 1 -> plan c a b m = adv c a b (arc_a c a k) (plan c a b k) (matches c a b k)
end

module PlanReal
  use PlanDef
  clone PlanApi with function matches = matchesd, function plan = pland
end

module StepSpec
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxMap
  use cxx.CxxSet
  use cxx.CxxSym
  use cxx.CxxFlt
  use cxx.CxxFst
  use CompBase
  use CompReach
  use StepBase
  use StepApi
  use PlanBase
  use PlanApi
  function steps_at (c: conf) (a b: int) : seq step = if n_a c a = 0 then tail c a b (n_b c b) else plan c a b (n_a c a)
  function conf_of (t: r_AdaptedCompositionFst) : conf = { ca = t.adaptedCompositionFst_fstA_; cb = t.adaptedCompositionFst_fstB_; csy = t.adaptedCompositionFst_symbols_;
    csv = t.adaptedCompositionFst_synonyms_label_ids; cev = t.adaptedCompositionFst_entity_label_ids; cex = t.adaptedCompositionFst_entity_exit_states; cins = t.adaptedCompositionFst_insertion_cost;
    cdel = t.adaptedCompositionFst_deletion_cost; csub = t.adaptedCompositionFst_substitution_cost; cdl = t.adaptedCompositionFst_del_label_id_ }
  (* every label of the reference is in the tables *)
  predicate label_ok (c: conf) (l: int) = l = 0 \/ (0 <= l < length c.csv /\ l < length c.cev)
  predicate labels_ok (c: conf) = forall a i [arc_a c a i]. st_in c.ca a -> 0 <= i < n_a c a -> label_ok c (arc_a c a i).arc_olabel
  (* the arc is the step, its target the number of the pair *)
  predicate stands (cs: cmap cp int) (o: r_StdArc) (s: step) =
    o.arc_ilabel = s.s_in /\ o.arc_olabel = s.s_out /\ o.arc_weight = s.s_w /\ (let p = { first = s.s_a; second = s.s_b } in mmem cs p /\ mget cs p = o.arc_nextstate)
  predicate spells (cs: cmap cp int) (o base: seq r_StdArc) (s: seq step) =
    length o = length base + length s /\ (forall i [get o i]. 0 <= i < length base -> get o i = get base i) /\
    (forall i [get s i]. 0 <= i < length s -> stands cs (get o (length base + i)) (get s i))
  lemma stands_kept: forall cs cs' o s [stands cs' o s, kept cs cs']. kept cs cs' -> stands cs o s -> stands cs' o s
  lemma kept_trans: forall x y z: cmap cp int [kept x y, kept y z]. kept x y -> kept y z -> kept x z
  lemma spells_start: forall cs o. spells cs o o (empty: seq step)
  let lemma spells_snoc (cs cs': cmap cp int) (o base: seq r_StdArc) (s: seq step) (x: r_StdArc) (y: step)
    requires { spells cs o base s } requires { kept cs cs' } requires { stands cs' x y }
    ensures { spells cs' (snoc o x) base (snoc s y) }
  = assert { forall i [get (snoc s y) i]. 0 <= i < length s -> stands cs' (get (snoc o x) (length base + i)) (get (snoc s y) i) };
    assert { get (snoc o x) (length base + length s) = x }
  lemma spells_add: forall cs cs' o base s x y [spells cs' (snoc o x) base (snoc s y), kept cs cs']. spells cs o base s -> kept cs cs' -> stands cs' x y -> spells cs' (snoc o x) base (snoc s y)
  (* the exits at state a do not change *)
  predicate same_exits (s s': cset ce) (a: int) = forall l [smem s' { first = a; second = l } | smem s { first = a; second = l }]. smem s' { first = a; second = l } <-> smem s { first = a; second = l }
  let lemma exit_keep (fa: fst_t) (a n l: int) (s t u: cset ce) requires { same_exits s t a } requires { more t u } requires { below fa n t u } requires { st_rank fa n < st_rank fa a }
    ensures { smem u { first = a; second = l } <-> smem s { first = a; second = l } }
  = let ghost p = pure { ({ first = a; second = l } : ce) } in
    assert { p.first = a };
    assert { smem u p -> smem t p };
    assert { smem t p -> smem u p };
    assert { smem t p <-> smem s p }
  lemma exits_keep: forall fa a n s t u [same_exits s u a, below fa n t u]. same_exits s t a -> more t u -> below fa n t u -> st_rank fa n < st_rank fa a -> same_exits s u a
end

(* which labels of the table are synonyms, which are other entities *)
module Marks
  use int.Int
  use cxx.CxxSeq
  use cxx.CxxSym
  use th_text.TextBase
  predicate kind_of (t: str) (syn: bool) = entity t /\ (occurs t "_SYN_" <-> syn)
  predicate seen (t: symtab_t) (k n: int) = exists i. 0 <= i < n /\ sym_key t i = k
  predicate marked (v: seq bool) (t: symtab_t) (n: int) (syn: bool) =
    length v = sym_avail t /\ forall k [get v k | seen t k n]. 0 <= k < length v -> (get v k <-> seen t k n /\ kind_of (sym_name t k) syn)
  lemma seen_0: forall t k [seen t k 0]. not seen t k 0
  lemma seen_s: forall t k n m [seen t k n, seen t k m]. 0 <= n -> m = n + 1 -> (seen t k m <-> seen t k n \/ sym_key t n = k)
end
