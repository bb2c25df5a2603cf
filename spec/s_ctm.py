UNIT = "Ctm.cpp"
T = ["th_load.LoadBase"]
TK, UC, ROWS = "@this.ctmFstLoader_mToken", "@this.ctmFstLoader_mUseCase", "@this.ctmFstLoader_mCtmRows"
SPECS = {
    "CtmFstLoader::CtmFstLoader/2": dict(theories=T + ["th_ctm.CtmBase"],
        requires=[("a fresh object", f"length {TK} = 0")],
        ensures=[("one token per row, in order", f"ctm_tokens {TK} @records @use_case (length @records)"), ("the rows are kept", f"{ROWS} = @records"), ("case setting", f"{UC} = @use_case"), ("rows unchanged", "@records = old @records")],
        loops={0: dict(inv=[f"ctm_tokens {TK} @records @use_case @i", f"{ROWS} = @records", f"{UC} = @use_case"])}),
    "CtmFstLoader::addToSymbolTable/1": dict(theories=T,
        ensures=[("every token is known", f"knows @symbol {TK} true (length {TK})"), ("old symbols keep their key", "extends (old @symbol) @symbol"),
                 ("nothing else is added", f"only_adds (old @symbol) @symbol {TK} true (length {TK})")],
        ghost={"entry": ["let ghost t0 = @symbol in"], "loop0:begin": ["let ghost t1 = @symbol in"],
               "loop0:end": ["assert { extends t1 @symbol };"]},
        loops={0: dict(inv=["extends t0 @symbol", f"knows @symbol {TK} true @i", f"only_adds t0 @symbol {TK} true @i"])}),
    "CtmFstLoader::convertToIntVector/1": dict(theories=T,
        ensures=[("one key per token, in order", f"ids result @symbol {TK} true (length {TK})"), ("every token is known", f"knows @symbol {TK} true (length {TK})"),
                 ("old symbols keep their key", "extends (old @symbol) @symbol")],
        loops={0: dict(inv=[f"0 <= @i <= length {TK}", f"ids @vect @symbol {TK} true @i"], var=f"length {TK} - @i")}),
    "CtmFstLoader::convertToFst/2": dict(theories=T,
        ensures=[("a chain that spells the tokens", f"chain result @symbol {TK} {UC} @map (length {TK})"), ("the end is the only final state", f"ends_at result (length {TK})")],
        loops={0: dict(inv=[f"0 <= @i <= length {TK}", "@wc = @i", "@prevState = @i", "@nextState = @i + 1", f"chain @transducer @symbol {TK} {UC} @map @i", "open_ends @transducer (@i + 1)", "length (get @transducer.f_arcs @i) = 0"], var=f"length {TK} - @i")}),
    **{"read_from_disk_%s_conf/1" % w: dict(theories=["th_ctm.CtmFile"], ensures=[("one record per row, field by field", f"ctm_rows result @filename {c} (csv_rows ctm_fmt @filename)")],
        loops={0: dict(inv=["0 <= @input_ctm_row <= csv_rows ctm_fmt @filename", f"ctm_rows @vect @filename {c} @input_ctm_row"], var="csv_rows ctm_fmt @filename - @input_ctm_row")}) for w, c in (("no", "false"), ("with", "true"))},
    "CtmReader::read_from_disk/1": dict(theories=["th_ctm.CtmFile", "th_load.FieldsBase", "th_load.FieldsApi"],
        ensures=[("an empty file has no rows", "length (file_text @filename) = 0 -> length result = 0"),
                 ("confidence is read when there is a sixth field", "length (file_text @filename) > 0 -> let l = line_first (file_text @filename) in ctm_rows result @filename (fields l (length l) > 5) (csv_rows ctm_fmt @filename)")],
        loops={0: dict(inv=["@sz = fields @first_line @i", "@i = 0 -> not blank @lastChar", "0 < @i -> @lastChar = get @first_line (@i - 1)"])}),
}
