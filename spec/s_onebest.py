UNIT = "OneBestFstLoader.cpp"
T = ["th_load.LoadBase"]
TK, UC = "@this.oneBestFstLoader_mToken", "@this.oneBestFstLoader_mUseCase"
SPECS = {
    "OneBestFstLoader::OneBestFstLoader/1": dict(theories=T, ensures=[("remembers whether case is kept", "@this.oneBestFstLoader_mUseCase = @use_case")]),
    "OneBestFstLoader::BuildFromString/1": dict(theories=T, ensures=[("the words of the text, appended in order", "@this.oneBestFstLoader_mToken = (old @this).oneBestFstLoader_mToken ++ words @content"),
        ("case setting unchanged", "@this.oneBestFstLoader_mUseCase = (old @this).oneBestFstLoader_mUseCase")]),
    "OneBestFstLoader::LoadTextFile/1": dict(theories=T, throws=True, ensures=[("the words of the file, appended in order", "@this.oneBestFstLoader_mToken = (old @this).oneBestFstLoader_mToken ++ words (file_text @filename)"),
        ("case setting unchanged", "@this.oneBestFstLoader_mUseCase = (old @this).oneBestFstLoader_mUseCase")]),
    "OneBestFstLoader::addToSymbolTable/1": dict(theories=T,
        ensures=[("every token is known", "knows @symbol @this.oneBestFstLoader_mToken @this.oneBestFstLoader_mUseCase (length @this.oneBestFstLoader_mToken)"),
                 ("old symbols keep their key", "extends (old @symbol) @symbol"),
                 ("nothing else is added", "only_adds (old @symbol) @symbol @this.oneBestFstLoader_mToken @this.oneBestFstLoader_mUseCase (length @this.oneBestFstLoader_mToken)")],
        ghost={"entry": ["let ghost t0 = @symbol in"], "loop0:begin": ["let ghost t1 = @symbol in"],
               "loop0:end": ["assert { extends t1 @symbol }; assert { knows @symbol "+TK+" "+UC+" @i };"]},
        loops={0: dict(inv=[f"0 <= @i <= length {TK}", "extends t0 @symbol", f"knows @symbol {TK} {UC} @i", f"only_adds t0 @symbol {TK} {UC} @i"], var=f"length {TK} - @i")}),
    "OneBestFstLoader::convertToIntVector/1": dict(theories=T,
        ensures=[("one key per token, in order", f"ids result @symbol {TK} {UC} (length {TK})"),
                 ("every token is known", f"knows @symbol {TK} {UC} (length {TK})"),
                 ("old symbols keep their key", "extends (old @symbol) @symbol")],
        loops={0: dict(inv=[f"0 <= @i <= length {TK}", f"ids @vect @symbol {TK} {UC} @i"], var=f"length {TK} - @i")}),
    "OneBestFstLoader::convertToFst/2": dict(theories=T,
        ensures=[("a chain that spells the tokens", f"chain result @symbol {TK} {UC} @map (length {TK})"),
                 ("closed by one empty step", f"let n = length {TK} in length (get result.f_arcs n) = 1 /\\ arc_is (get (get result.f_arcs n) 0) (sym_find @symbol \"<eps>\") (f_lit 1 0 1) (n + 1)"),
                 ("the end is the only final state", f"ends_at result (length {TK} + 1)")],
        loops={0: dict(inv=[f"0 <= @i <= length {TK}", "@wc = @i", "@prevState = @i", "@nextState = @i + 1", f"chain @transducer @symbol {TK} {UC} @map @i", "open_ends @transducer (@i + 1)", "length (get @transducer.f_arcs @i) = 0"], var=f"length {TK} - @i")}),
}
