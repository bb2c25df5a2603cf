UNIT = "Nlp.cpp"
T = ["th_load.LoadBase"]
TK, UC, ROWS = "@this.nlpFstLoader_mToken", "@this.nlpFstLoader_mUseCase", "@this.nlpFstLoader_mNlpRows"
NORM = "@this.nlpFstLoader_mJsonNorm"
S = T + ["th_text.TextBase", "th_nlpload.NlpSym"]
SPECS = {
    "NlpFstLoader::addToSymbolTable/1": dict(theories=S,
        ensures=[("old symbols keep their key", "extends (old @symbol) @symbol"),
                 ("every token is known", f"knows_entries @symbol {TK} (length {TK})"),
                 ("so is every word of the alternatives", f"knows_all_alts @symbol {NORM} {UC} {TK} (length {TK})")],
        ghost={"entry": [f"let ghost t0 = @symbol in let ghost norm = {NORM} in let ghost keep = {UC} in let ghost toks = {TK} in"],
               "loop0:begin": ["let ghost tb = @symbol in"], "loop0:end": ["assert { extends tb @symbol };", "assert { sym_find @symbol (entry @tk) >= 0 };", "assert { entity @tk -> knows_alts @symbol norm keep @tk (ncands norm @tk) };"],
               "loop1:begin": ["let ghost t1 = @symbol in let ghost c1 = @i in"], "loop1:end": ["assert { extends t1 @symbol };"],
               "loop2:begin": ["let ghost t2 = @symbol in"], "loop2:end": ["assert { extends t2 @symbol };"]},
        loops={0: dict(inv=["extends t0 @symbol", "knows_entries @symbol toks @i0", "knows_all_alts @symbol norm keep toks @i0"]),
               1: dict(inv=["0 <= @i <= ncands norm @tk", "extends tb @symbol", "knows_alts @symbol norm keep @tk @i", "sym_find @symbol @tk >= 0"], var="ncands norm @tk - @i"),
               2: dict(inv=["extends t1 @symbol", "knows_cand @symbol norm keep @tk c1 @i"])}),
    "NlpFstLoader::convertToIntVector/1": dict(theories=S,
        ensures=[("one key per token, in order", f"ids result @symbol {TK} true (length {TK})"),
                 ("every token is known", f"knows_entries @symbol {TK} (length {TK})"), ("old symbols keep their key", "extends (old @symbol) @symbol")],
        loops={0: dict(inv=[f"0 <= @i <= length {TK}", f"ids @vect @symbol {TK} true @i"], var=f"length {TK} - @i")}),
    "NlpFstLoader::GetProperSymbolId/3": dict(theories=S,
        ensures=[("the key of the token, of the noise code without its detail, or of an unknown word", "result = (if sym_find @symbol @token <> -1 then sym_find @symbol @token else if bracketed @token /\\ sfind @token \":\" 0 <> npos_ then sym_find @symbol (slice @token 0 (sfind @token \":\" 0) ++ \">\") else sym_find @symbol @symUnk)")]),
}
