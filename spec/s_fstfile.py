UNIT = "FstFileLoader.cpp"
F = "@this.fstFileLoader_filename_"
SPECS = {
    "FstFileLoader::FstFileLoader/1": dict(ensures=[("the file is remembered", f"{F} = @filename")]),
    "FstFileLoader::addToSymbolTable/1": dict(ensures=[("an automaton file brings no symbols of its own", "@symbol = old @symbol")]),
    "FstFileLoader::convertToFst/2": dict(ensures=[("the automaton of the file, unchanged", f"result = fst_file {F}")]),
    "FstFileLoader::convertToIntVector/1": dict(ensures=[("it has no token list", "length result = 0 /\\ @symbol = old @symbol")]),
}
