UNIT = "FstLoader.cpp"
T = ["th_load.LoadBase"]
SPECS = {
    "FstLoader::AddSymbolIfNeeded/2": dict(theories=T, ensures=[("the symbol is known", "sym_find @symbol @str_value >= 0"), ("old symbols keep their key", "extends (old @symbol) @symbol"),
        ("nothing else is added", "forall x [sym_find @symbol x]. x <> @str_value -> sym_find @symbol x = sym_find (old @symbol) x")]),
}
