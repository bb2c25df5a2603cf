UNIT = "SynonymEngine.cpp"
T = ["th_syn.SynBase", "th_syn.SynPath"]
SPECS = {
    "SeekForward/5": dict(theories=T + ["th_syn.SeekApi"], recursive=True, variant="length @lhs - @lhsPos",
        requires=[("the automaton is well formed", "well @fst"), ("a state of it", "st_in @fst @startingStateId"), ("a word of the key, or its end", "0 <= @lhsPos <= length @lhs"), ("the key is no longer than a transcript", "length @lhs < 2147483647")],
        ensures=[("exactly the states the rest of the key leads to", "ends result @fst @symbol @lhs @lhsPos @startingStateId"), ("in the order of the arcs", "result = seek @fst @symbol @lhs @lhsPos @startingStateId"), ("states of the automaton", "states_of result @fst"),
                 ("nothing changes", "@fst = old @fst /\\ @symbol = old @symbol /\\ @lhs = old @lhs")],
        ghost={"entry": ["let ghost f0 = @fst in let ghost sy0 = @symbol in let ghost key = @lhs in let ghost p = @lhsPos in let ghost s = @startingStateId in"],
               "loop0:before": ["assert { arcs_ok f0 s };"],
               "loop0:begin": ["let ghost k0 = @aiter in let ghost r0 = @lastStates in ", "assert { st_in f0 (get (get f0.f_arcs s) k0).arc_nextstate };"],
               "assign:lastStates": [],
               "loop0:end": ["assert { listed @lastStates f0 sy0 key p s (k0 + 1) };"]},
        loops={0: dict(inv=["0 <= @aiter <= length (get f0.f_arcs s)", "listed @lastStates f0 sy0 key p s @aiter", "states_of @lastStates f0", "@lastStates = seek_n f0 sy0 key p s @aiter", "@fst = f0 /\\ @symbol = sy0 /\\ @lhs = key"], var="length (get f0.f_arcs s) - @aiter")}),
}
RU = "@this.synonymEngine_synonyms"
G = "@fst = q.pf"
ST = lambda q: [f"@fst = ({q}).pf", f"@arcsToAdd = ({q}).pa", f"@synonym_replacement_id = ({q}).pid", f"@symbol = ({q}).ps"]
KEEP = ["@this = t0", "@firstWordInRules = ix"]
OK = ["bare f0 @fst", "well @fst", "placed @arcsToAdd (length @fst.f_arcs)"]
SPECS["SynonymEngine::ApplyToFst/2"] = dict(theories=T + ["th_syn.SeekApi", "th_syn.SynPlanBase", "th_syn.SynPlanApi", "th_syn.SynGrow"],
    requires=[("the reference is well formed", "well @fst"), ("no rule has an empty key; keys and values are no longer than a transcript", f"keys_ok {RU}")],
    ensures=[("exactly one alternative per value at each place where a key occurs", f"let ix = filed (old @symbol) (mkeys {RU}) (length (mkeys {RU})) in let p = stts {{{{ pf = old @fst; pa = empty; pid = 100000; ps = old @symbol }}}} (old @fst) {RU} ix (length (old @fst).f_arcs) in @fst = laid p.pf p.pa (length p.pa) /\\ @symbol = p.ps".replace("{{", "{").replace("}}", "}")),
             ("everything of the reference stays in its place", "grown (old @fst) @fst"), ("every arc leads to a state", "well @fst"), ("the rules stay", "@this = old @this")],
    ghost={"entry": [f"let ghost t0 = @this in let ghost f0 = @fst in let ghost sy0 = @symbol in let ghost ru = {RU} in let ghost ks = mkeys ru in let ghost ix = filed sy0 ks (length ks) in let ghost q0 = {{ pf = f0; pa = empty; pid = 100000; ps = sy0 }} in let ghost nn = length f0.f_arcs in"],
           "loop0:begin": ["let ghost e0 = @i in let ghost m0 = filed sy0 ks e0 in", "assert { mmem ru (get ks e0) };"],
           "loop0:end": ["assert { filed sy0 ks (e0 + 1) = f_file m0 sy0 (get ks e0) };"],
           "loop1:before": ["assert { @firstWordInRules = ix /\\ filed_ok ru ix };"],
           "loop1:begin": ["let ghost s = @siter in let ghost q1 = stts q0 f0 ru ix s in"],
           "loop1:end": ["assert { stts q0 f0 ru ix (s + 1) = arcs q1 f0 s ru ix (length (get f0.f_arcs s)) };"],
           "loop2:begin": ["let ghost k = @aiter in let ghost x = get (get f0.f_arcs s) k in let ghost q2 = arcs q1 f0 s ru ix k in", "assert { arcs q1 f0 s ru ix (k + 1) = at_arc q2 s ru ix x };"],
           "loop3:before": ["let ghost cs = @candidates in", "assert { cs = mget ix x.arc_ilabel /\\ in_rules ru cs };"],
           "loop3:begin": ["let ghost c = @i in let ghost key = get cs c in let ghost q3 = cands q2 s ru cs c in", "assert { mmem ru key /\\ 0 < length key < 2147483647 /\\ in_size (mget ru key) };", "assert { cands q2 s ru cs (c + 1) = candidate q3 s ru key };"],
           "loop4:before": ["let ghost ts = @lastTargetStates in let ghost vs = mget ru key in", "assert { ts = seek q3.pf q3.ps key 0 s };"],
           "loop4:begin": ["let ghost a = @i in let ghost alt = get vs a in let ghost q4 = alts q3 s key vs ts a in let ghost q5 = f_open q4 s key alt in let ghost w = lab q4 key alt in let ghost q6 = spelt q5 alt (length alt) in", "assert { length alt < 2147483647 };", "assert { alts q3 s key vs ts (a + 1) = alternative q4 s key alt ts };"],
           
           "loop5:begin": ["let ghost j = @j in"],
           
           "loop6:begin": ["let ghost z = @i in", "assert { inq ts (get ts z) };", "assert { st_in q3.pf (get ts z) };"],
           "loop6:end": [],
           "loop7:before": ["let ghost fin = stts q0 f0 ru ix nn in", "assert { @fst = fin.pf /\\ @arcsToAdd = fin.pa };"],
           "loop7:begin": ["let ghost z = @i in", "assert { fits (get @arcsToAdd z) (length fin.pf.f_arcs) };"]},
    loops={0: dict(inv=["@firstWordInRules = filed sy0 ks @i", "filed_ok ru @firstWordInRules", "@this = t0", "@fst = f0", "@symbol = sy0"]),
           1: dict(inv=["0 <= @siter <= nn"] + ST("stts q0 f0 ru ix @siter") + KEEP + OK, var="nn - @siter"),
           2: dict(inv=["0 <= @aiter <= length (get f0.f_arcs s)", "@stateId = s"] + ST("arcs q1 f0 s ru ix @aiter") + KEEP + OK, var="length (get f0.f_arcs s) - @aiter"),
           3: dict(inv=["@candidates = cs", "@stateId = s"] + ST("cands q2 s ru cs @i") + KEEP + OK),
           4: dict(inv=["@candidates = cs", "@lastTargetStates = ts", "states_of ts q3.pf"] + ["length q3.pf.f_arcs <= length @fst.f_arcs"] + ST("alts q3 s key vs ts @i") + KEEP + OK),
           5: dict(inv=["0 <= @j <= length alt", "@currState = length @fst.f_arcs - 1", "length q3.pf.f_arcs <= length @fst.f_arcs"] + ST("spelt q5 alt @j") + KEEP + OK, var="length alt - @j"),
           6: dict(inv=["@currState = length @fst.f_arcs - 1", "length q3.pf.f_arcs <= length @fst.f_arcs", "@fst = q6.pf"] + ST("closes q6 w ts @i") + KEEP + OK),
           7: dict(inv=["@fst = laid fin.pf fin.pa @i", "grown f0 @fst", "well @fst", "length @fst.f_arcs = length fin.pf.f_arcs", "@symbol = fin.ps", "@this = t0"])})
