UNIT = "Nlp.cpp"
TK, UC, NORM = "@this.nlpFstLoader_mToken", "@this.nlpFstLoader_mUseCase", "@this.nlpFstLoader_mJsonNorm"
A = "@transducer.f_arcs"
P = f"{A} y norm keep"
# the automaton of an NLP transcript
SPECS = {
    "NlpFstLoader::convertToFst/2": dict(theories=["th_load.LoadBase", "th_text.TextBase", "th_nlpload.NlpSym", "th_nlpfst.NfstBase", "th_nlpfst.NfstApi", "th_nlpfst.NfstSpec"], sp=True,
        ensures=[("it starts at state 0", "result.f_start = 0"),
                 ("a step per token, and between the two tags of an entity the choice of its alternatives, word by word",
                  f"steps result.f_arcs @symbol {NORM} {UC} {TK} @map (length {TK})"),
                 ("an empty step leads to the end", f"one_arc result.f_arcs (pv {NORM} {TK} (length {TK})) (eps_of @symbol) (f_lit 1 0 1) (nx {NORM} {TK} (length {TK}))"),
                 ("which is the only final state", f"ends_at result (nx {NORM} {TK} (length {TK}))")],
        ghost={"entry": [f"let ghost norm = {NORM} in let ghost keep = {UC} in let ghost toks = {TK} in let ghost y = @symbol in let ghost m = @map in let ghost aF = ref (empty: seq (seq r_StdArc)) in let ghost fF = ref (empty: seq flt) in"],
               "loop0:begin": [f"let ghost k0 = @i in let ghost x0 = nx norm toks k0 in let ghost a0 = {A} in let ghost f0 = @transducer.f_final in let ghost a4 = ref ({A}) in let ghost f4 = ref (@transducer.f_final) in"],
               "assign:wc": ["let ghost p0 = pv norm toks k0 in let ghost l0 = key_of y (get toks k0) in let ghost w0 = cost_at m k0 in", "assert { 0 <= p0 < length a0 };", f"assert {{ length {A} = length a0 + 1 }};", 
                          f"assert {{ get {A} p0 = snoc (get a0 p0) {{ arc_ilabel = l0; arc_olabel = l0; arc_weight = w0; arc_nextstate = x0 }} }};",
                          f"assert {{ forall i [get {A} i]. 0 <= i < length a0 -> i <> p0 -> get {A} i = get a0 i }};", f"assert {{ get {A} x0 = empty }};",
                          "assert { @transducer.f_final = snoc f0 f_inf };",
                          f"assert {{ linked a0 {A} (length a0 + 1) (pv norm toks k0) (key_of y (get toks k0)) (cost_at m k0) x0 }};",
                          f"enter a0 {A} y norm keep toks m k0;", "assert { open_ends @transducer (x0 + 1) };", f"a4 := {A};", "f4 := @transducer.f_final;"],
               "loop1:before": ["assert { @transducer.f_final = snoc (snoc !f4 f_inf) f_inf };", "assert { length !f4 = x0 + 1 };", "assert { forall i [get !f4 i]. 0 <= i < x0 + 1 -> get !f4 i = f_inf };",
                                "assert { length @transducer.f_final = x0 + 3 };", "assert { forall i [get @transducer.f_final i]. 0 <= i < x0 + 3 -> get @transducer.f_final i = f_inf };", f"assert {{ length {A} = x0 + 3 }};",
                                "assert { open_ends @transducer (x0 + 3) };", "assert { woff norm @token 0 = 0 };",
                                f"assert {{ length {A} = x0 + 3 /\\ length !a4 = x0 + 1 }};", f"assert {{ forall i [get {A} i]. 0 <= i < x0 + 1 -> get {A} i = get !a4 i }};",
                                f"entered_keep !a4 {A} y norm keep toks m k0;", f"assert {{ get {A} x0 = empty }};", f"assert {{ get {A} (x0 + 2) = empty }};",
                                f"assert {{ get {A} (x0 + 1) = snoc empty {{ arc_ilabel = key_of y @token; arc_olabel = key_of y @token; arc_weight = f_lit 1 0 1; arc_nextstate = x0 + 2 }} }};",
                                f"assert {{ frame_of {A} y @token x0 }};",
                                f"assert {{ entered {P} toks m k0 }};", f"assert {{ between {P} @token x0 0 }};"],
               "loop1:begin": [f"let ghost c1 = @i in let ghost a1 = {A} in let ghost a3 = ref ({A}) in", f"assert {{ inside {P} @token x0 c1 0 }};"],
               "loop2:begin": [f"let ghost w1 = @i in let ghost a2 = {A} in"],
               "loop2:end": ["let ghost p2 = at_state norm @token x0 c1 w1 in let ghost q2 = wst norm @token x0 c1 w1 in let ghost l2 = wkey y norm keep @token c1 w1 in",
                             "assert { 0 <= p2 < length a2 };", f"assert {{ length {A} = length a2 + 1 }};", "assert { length a2 = q2 };",
                             f"assert {{ get {A} p2 = snoc (get a2 p2) {{ arc_ilabel = l2; arc_olabel = l2; arc_weight = f_lit 1 0 1; arc_nextstate = q2 }} }};",
                             f"assert {{ forall i [get {A} i]. 0 <= i < length a2 -> i <> p2 -> get {A} i = get a2 i }};",
                             f"assert {{ get {A} q2 = empty }};",
                             f"assert {{ linked a2 {A} (length a2 + 1) (at_state norm @token x0 c1 w1) (wkey y norm keep @token c1 w1) (f_lit 1 0 1) (wst norm @token x0 c1 w1) }};",
                             f"alt_step a2 {A} y norm keep @token x0 c1 w1;", f"entered_keep a2 {A} y norm keep toks m k0;"],
               "loop2:after": [f"a3 := {A};"],
               "loop1:end": [f"assert {{ linked !a3 {A} (length !a3) (at_state norm @token x0 c1 (clen norm @token c1)) (eps_of y) (f_lit 1 0 1) (x0 + 1) }};",
                             f"alt_close !a3 {A} y norm keep @token x0 c1 (clen norm @token c1);", f"entered_keep !a3 {A} y norm keep toks m k0;"],
               "loop0:after": [f"aF := {A};", "fF := @transducer.f_final;"],
               "return": [f"assert {{ linked !aF {A} (length !aF + 1) (pv norm toks (length toks)) (eps_of y) (f_lit 1 0 1) (nx norm toks (length toks)) }};",
                          f"steps_keep !aF {A} y norm keep toks m (length toks);", "let ghost e9 = nx norm toks (length toks) in", f"assert {{ get {A} e9 = empty }};",
                          "assert { @transducer.f_final = set (snoc !fF f_inf) e9 (f_lit 1 0 1) };", "assert { length !fF = e9 };", "assert { forall i [get !fF i]. 0 <= i < e9 -> get !fF i = f_inf };",
                          "assert { forall i [get @transducer.f_final i]. 0 <= i < e9 -> get @transducer.f_final i = f_inf };"],
               "loop0:end": [f"assert {{ entity (get toks k0) -> between {P} (get toks k0) x0 (ncands norm (get toks k0)) }};", f"assert {{ steps {P} toks m (k0 + 1) }};"],
               },
        loops={0: dict(inv=[f"0 <= @i <= length {TK}", "@wc = @i", f"steps {P} toks m @i", f"get {A} (pv norm toks @i) = empty", "@prevState = pv norm toks @i", "@nextState = nx norm toks @i",
                            "@transducer.f_start = 0", "open_ends @transducer (nx norm toks @i)", "@eps_sym = eps_of y"], var=f"length {TK} - @i"),
               1: dict(inv=["0 <= @i <= ncands norm @token", f"entered {P} toks m k0", f"between {P} @token x0 @i", "@nextState = x0 + 2 + woff norm @token @i",
                            "open_ends @transducer (x0 + 3 + woff norm @token @i)", "@transducer.f_start = 0"], var="ncands norm @token - @i"),
               2: dict(inv=[f"entered {P} toks m k0", f"inside {P} @token x0 c1 @i", "@nextState = wst norm @token x0 c1 @i - 1", "@prevState = at_state norm @token x0 c1 @i",
                            "open_ends @transducer (wst norm @token x0 c1 @i)", "@transducer.f_start = 0"])}),
}
