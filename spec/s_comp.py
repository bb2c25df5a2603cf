UNIT = "AdaptedComposition.cpp"
T = ["th_comp.CompBase"]
F = "@this.adaptedCompositionFst_"
CS, RS, NX, FA, FB = F + "composed_states", F + "reversed_composed_states", F + "current_composed_next_state_id", F + "fstA_", F + "fstB_"
SYN, ENT = F + "synonyms_label_ids", F + "entity_label_ids"
EX = F + "entity_exit_states"
INV = f"numbered {CS} {RS} {NX}"
WELL = [("both automata are well formed", f"well {FA} /\\ well {FB}")]
PLACED = f"placed {CS} {FA} {FB}"
o = lambda s: s.replace("@this", "(old @this)")
SAME = "@this = {{ (old @this) with adaptedCompositionFst_composed_states = {0}; adaptedCompositionFst_reversed_composed_states = {1}; adaptedCompositionFst_current_composed_next_state_id = {2} }}".format(CS, RS, NX)
COMMON = [INV, PLACED, f"kept cs0 {CS}", f"kept_r rs0 {RS}", f"conf_of @this = {{ c with cex = {EX} }}", f"more c.cex {EX}", f"same_exits c.cex {EX} a"]
PAIR = "{ first = @a; second = @b }"
SPECS = {
    "AdaptedCompositionFst::GetOrCreateComposedState/2": dict(theories=T,
        requires=[("pairs are numbered one to one", INV), ("states of both automata", f"0 <= @a < 2147483648 /\\ 0 <= @b < 2147483648")],
        ensures=[("the pair has the number returned", f"mmem {CS} {PAIR} /\\ mget {CS} {PAIR} = result"), ("pairs are numbered one to one", INV), ("a pair keeps its number", f"kept {o(CS)} {CS}"),
                 ("a number keeps its pair", f"kept_r {o(RS)} {RS}"), ("no other pair is numbered", f"forall p [mmem {CS} p]. mmem {CS} p -> p = {PAIR} \\/ mmem {o(CS)} p"), ("nothing else changes", SAME)]),
    "AdaptedCompositionFst::DoesComposedStateExist/1": dict(theories=T,
        ensures=[("whether the number is in use", f"result <-> mmem {RS} @a"), ("nothing changes", "@this = old @this")]),
    "AdaptedCompositionFst::DoesComposedStateExist/2": dict(theories=T,
        requires=[("states of both automata", f"0 <= @a < 2147483648 /\\ 0 <= @b < 2147483648")],
        ensures=[("whether the pair has a number", f"result <-> mmem {CS} {PAIR}"), ("nothing changes", "@this = old @this")]),
    "AdaptedCompositionFst::Final/1": dict(theories=T,
        requires=WELL + [("pairs are numbered one to one", INV), ("the pairs are pairs of states", PLACED)],
        ensures=[("a pair is final exactly when both states are", f"mmem {RS} @stateId -> let p = mget {RS} @stateId in result = if not f_eq (get {FA}.f_final p.first) w_zero /\\ not f_eq (get {FB}.f_final p.second) w_zero then w_one else w_zero"),
                 ("nothing changes", "@this = old @this")]),
    "AdaptedCompositionFst::Start/0": dict(theories=T,
        requires=WELL + [("pairs are numbered one to one", INV), ("the pairs are pairs of states", PLACED), ("both automata have a start", f"st_in {FA} {FA}.f_start /\\ st_in {FB} {FB}.f_start")],
        ensures=[("the start is the pair of starts", f"mmem {CS} {{ first = {FA}.f_start; second = {FB}.f_start }} /\\ mget {CS} {{ first = {FA}.f_start; second = {FB}.f_start }} = result"),
                 ("pairs are numbered one to one", INV), ("the pairs are pairs of states", PLACED), ("a pair keeps its number", f"kept {o(CS)} {CS}"), ("nothing else changes", SAME)]),
    "AdaptedCompositionFst::IsEntityLabel/1": dict(theories=T,
        requires=[("the label is in the table", f"sym_some {F}symbols_ -> 0 <= @labelId < length {F}entity_label_ids")],
        ensures=[("whether it is marked as an entity", f"result <-> sym_some {F}symbols_ /\\ get {F}entity_label_ids @labelId"), ("nothing changes", "@this = old @this")]),
    "AdaptedCompositionFst::IsSynonymLabel/1": dict(theories=T,
        requires=[("the label is in the table", f"sym_some {F}symbols_ -> 0 <= @labelId < length {F}synonyms_label_ids")],
        ensures=[("whether it is marked as a synonym", f"result <-> sym_some {F}symbols_ /\\ get {F}synonyms_label_ids @labelId"), ("nothing changes", "@this = old @this")]),
    "AdaptedCompositionFst::IsEntityReacheable/3": dict(theories=T + ["th_comp.CompReach"], recursive=True, variant=f"st_rank {FA} @refA",
        requires=WELL + [("the reference has no cycle", f"acyclic {FA}"), ("states of both automata", f"st_in {FA} @refA /\\ st_in {FB} @refB")],
        ensures=[("whether the label can be reached over matching words", f"result <-> reach {FA} {FB} @target_entity_label_id @refA @refB"),
                 ("exits are kept", f"more {o(EX)} {EX}"), ("and only added further on", f"below {FA} @refA {o(EX)} {EX}"), ("nothing else changes", f"@this = {{ (old @this) with adaptedCompositionFst_entity_exit_states = {EX} }}")],
        ghost={"entry": [f"let ghost fa = {FA} in let ghost fb = {FB} in let ghost t0 = @this in let ghost l = @target_entity_label_id in", "assert { arcs_ok fa @refA /\\ falls fa @refA /\\ arcs_ok fb @refB };"],
               "loop0:begin": ["let ghost x = get (get fa.f_arcs @refA) @aiter in"],
               "loop1:end": [], "loop0:end": []},
        loops={0: dict(inv=[f"0 <= @aiter <= length (get fa.f_arcs @refA)", "not via_any fa fb l @refA @refB @aiter", f"more t0.adaptedCompositionFst_entity_exit_states {EX}", f"below fa @refA t0.adaptedCompositionFst_entity_exit_states {EX}",
                            f"@this = {{ t0 with adaptedCompositionFst_entity_exit_states = {EX} }}"], var="length (get fa.f_arcs @refA) - @aiter"),
               1: dict(inv=[f"0 <= @aiterB <= length (get fb.f_arcs @refB)", "not meets_any fa fb l x @refB @aiterB", f"more t0.adaptedCompositionFst_entity_exit_states {EX}", f"below fa @refA t0.adaptedCompositionFst_entity_exit_states {EX}",
                            f"@this = {{ t0 with adaptedCompositionFst_entity_exit_states = {EX} }}"], var="length (get fb.f_arcs @refB) - @aiterB")}),
    "AdaptedCompositionFst::TryGetArcsAtState/2": dict(theories=T + ["th_comp.CompReach", "th_comp.StepBase", "th_comp.StepApi", "th_comp.PlanBase", "th_comp.PlanApi", "th_comp.StepSpec"], sp=True,
        requires=WELL + [("the reference has no cycle", f"acyclic {FA}"), ("pairs are numbered one to one", INV), ("the pairs are pairs of states", PLACED),
                  ("the labels of the reference are in the tables", "labels_ok (conf_of @this)")],
        ensures=[("a pair that was never offered has no steps", f"not mmem {o(RS)} @fromStateId -> not result /\\ @out_vector = old @out_vector /\\ @this = old @this"),
                 ("exactly the allowed steps, in order, each to the number of its pair", f"mmem {o(RS)} @fromStateId -> let p = mget {o(RS)} @fromStateId in result /\\ spells {CS} @out_vector (old @out_vector) (steps_at (conf_of (old @this)) p.first p.second)"),
                 ("pairs are numbered one to one", INV), ("the pairs are pairs of states", PLACED), ("a pair keeps its number", f"kept {o(CS)} {CS}"), ("a number keeps its pair", f"kept_r {o(RS)} {RS}"),
                 ("rules and automata stay", f"conf_of @this = {{ (conf_of (old @this)) with cex = {EX} }}"), ("exits are kept", f"more {o(EX)} {EX}")],
        ghost={"entry": [f"let ghost c = conf_of @this in let ghost base = @out_vector in let ghost p = mget {RS} @fromStateId in let ghost a = p.first in let ghost b = p.second in let ghost cs0 = {CS} in let ghost rs0 = {RS} in"],
               "loop0:before": ["assert { st_in c.ca a /\\ st_in c.cb b /\\ @refA = a /\\ @refB = b };", "assert { arcs_ok c.ca a /\\ arcs_ok c.cb b /\\ falls c.ca a };"],
               "loop0:begin": ["let ghost k0 = @aiter in let ghost x = arc_a c a k0 in let ghost s0 = plan c a b k0 in let ghost m0 = matches c a b k0 in", "assert { label_ok c x.arc_olabel /\\ st_in c.ca x.arc_nextstate /\\ st_rank c.ca x.arc_nextstate < st_rank c.ca a };",
                               "assert { plan c a b (k0 + 1) = adv c a b x s0 m0 /\\ matches c a b (k0 + 1) = adv_n c a b x m0 };"],
               "loop1:begin": ["let ghost k1 = @aiterB in let ghost y = arc_b c b k1 in let ghost s1 = against c a b x s0 k1 in", "assert { st_in c.cb y.arc_nextstate };",
                               "assert { against c a b x s0 (k1 + 1) = facing c a x y s1 /\\ hits c b x m0 (k1 + 1) = hits c b x m0 k1 + hit x y };"],
               "loop2:begin": ["let ghost k2 = @aiterB in let ghost y2 = arc_b c b k2 in", "assert { st_in c.cb y2.arc_nextstate };", "assert { tail c a b (k2 + 1) = f_tail c a y2 (tail c a b k2) };"],
               },
        loops={0: dict(inv=COMMON + [f"0 <= @aiter <= n_a c a", f"spells {CS} @out_vector base (plan c a b @aiter)", "@num_match = matches c a b @aiter"], var="n_a c a - @aiter"),
               1: dict(inv=COMMON + [f"0 <= @aiterB <= n_b c b", f"spells {CS} @out_vector base (against c a b x s0 @aiterB)", "@num_match = hits c b x m0 @aiterB"], var="n_b c b - @aiterB"),
               2: dict(inv=COMMON + [f"0 <= @aiterB <= n_b c b", f"spells {CS} @out_vector base (tail c a b @aiterB)"], var="n_b c b - @aiterB")}),
    "AdaptedCompositionFst::SetSymbols/1": dict(theories=["th_text.TextBase", "th_comp.CompBase", "th_comp.Marks"],
        ensures=[("the synonym labels of the table, and no others, are marked", f"marked {SYN} @symbols (sym_count @symbols) true"), ("so are its other entity labels", f"marked {ENT} @symbols (sym_count @symbols) false"),
                 ("there is a table", f"{F}symbols_ = @symbols /\\ @symbols = old @symbols"), ("nothing else changes", f"@this = {{ (old @this) with adaptedCompositionFst_symbols_ = @symbols; adaptedCompositionFst_synonyms_label_ids = {SYN}; adaptedCompositionFst_entity_label_ids = {ENT} }}")],
        ghost={"loop0:begin": ["let ghost n0 = @siter in"]},
        loops={0: dict(inv=["0 <= @siter <= sym_count @symbols", f"marked {SYN} @symbols @siter true", f"marked {ENT} @symbols @siter false",
                            f"@this = {{ (old @this) with adaptedCompositionFst_symbols_ = @symbols; adaptedCompositionFst_synonyms_label_ids = {SYN}; adaptedCompositionFst_entity_label_ids = {ENT} }}"], var="sym_count @symbols - @siter")}),
    "AdaptedCompositionFst::AdaptedCompositionFst/3": dict(theories=["th_text.TextBase", "th_comp.CompBase", "th_comp.Marks"],
        ensures=[("the labels of the table are marked", f"marked {SYN} @symbols (sym_count @symbols) true /\\ marked {ENT} @symbols (sym_count @symbols) false /\\ {F}symbols_ = @symbols /\\ @symbols = old @symbols"),
                 ("no pair is numbered yet", f"numbered {CS} {RS} {NX} /\\ placed {CS} {FA} {FB} /\\ {NX} = 0"), ("the two automata", f"{FA} = @fstA /\\ {FB} = @fstB"),
                 ("no exit is known yet", f"{EX} = sempty"), ("the documented costs", f"{F}insertion_cost = f_lit 1 1 1 /\\ {F}deletion_cost = f_lit 1 1 1 /\\ {F}substitution_cost = f_lit 1 3 2"),
                 ("the label of a deletion", f"{F}del_label_id_ = sym_find @symbols \"<del>\"")]),
}
