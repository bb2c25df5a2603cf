UNIT = "utilities.cpp"
T = ["th_text.TextBase"]
M = ["th_text.TrimApi"]
L = ["th_text.LabelBase", "th_text.LabelApi", "th_text.TextBase", "th_text.IdApi"]
SPECS = {
    "iequals/2": dict(theories=T, ensures=[("equal up to case", "result <-> same_ci @str1 @str2")]),
    "EndsWithCaseInsensitive/2": dict(theories=T, ensures=[("ends with, up to case", "result <-> ends_ci @value @ending")]),
    "ltrim/1": dict(theories=M, ensures=[("the leading blanks are gone and nothing else", "@s = slice (old @s) (lead (old @s)) (length (old @s))")],
        ghost={"entry": ["let ghost s0 = @s in let ghost l0 = lead s0 in"], "assign:s": ["assert { length @s = length s0 - l0 };", "assert { seq_eq @s (slice s0 l0 (length s0)) };"]}),
    "rtrim/1": dict(theories=M, ensures=[("the trailing blanks are gone and nothing else", "@s = slice (old @s) 0 (trail (old @s))")],
        ghost={"entry": ["let ghost s0 = @s in let ghost l0 = trail s0 in"], "assign:s": ["assert { length @s = l0 };", "assert { seq_eq @s (slice s0 0 l0) };"]}),
    "trim/1": dict(theories=M, ensures=[("the blanks at both ends are gone and nothing else", "trimmed (old @s) @s (lead (old @s)) (lead (old @s) + length @s)")],
        ghost={"entry": ["let ghost s0 = @s in let ghost l0 = lead s0 in let ghost s1 = slice s0 l0 (length s0) in let ghost n = trail s1 in",
            "assert { seq_eq (slice s1 0 n) (slice s0 l0 (l0 + n)) };", "assert { forall q [get s0 q]. l0 <= q < length s0 -> get s0 q = get s1 (q - l0) };", "assert { forall q. l0 + n <= q < length s0 -> is_space (get s0 q) };",
            "assert { n > 0 -> get s1 (n - 1) = get s0 (l0 + n - 1) };", "assert { n > 0 -> l0 < length s0 };", "assert { trimmed s0 (slice s1 0 n) l0 (l0 + n) };"]}),
    "trim_copy/1": dict(theories=M, ensures=[("the blanks at both ends are gone and nothing else", "trimmed @s result (lead @s) (lead @s + length result)")]),
    "string_join/2": dict(theories=T + ["th_text.JoinApi"], ensures=[("nothing to join", "length @elements = 0 -> length result = 0"),
        ("the elements with the separator in between", "length @elements > 0 -> result = joined @elements @separator (length @elements)")]),
    "isValidNgram/1": dict(theories=T, ensures=[("no special token inside", "result <-> plain @token")]),
    "isEntityLabel/1": dict(theories=T, ensures=[("entity label", "result <-> entity @token")]),
    "isSynonymLabel/1": dict(theories=T, ensures=[("synonym label", 'result <-> (entity @token /\\ occurs @token "_SYN_")')],
        ghost={"entry": ['assert { entity @token <-> sfind @token "___" 0 = 0 };', 'assert { occurs @token "_SYN_" <-> sfind @token "_SYN_" 0 <> npos_ };']}),
    "IsNoisecodeToken/1": dict(theories=T, ensures=[("noise code", "result <-> noisecode @token")],
        ghost={"entry": ['let ghost f = sfind @token ">" 0 in let ghost n = vsize @token in assert { get "<" 0 = 60 /\\ get ">" 0 = 62 /\\ length "<" = 1 /\\ length ">" = 1 };',
            'assert { forall i [get @token i | match_at @token lit__3e i]. match_at @token ">" i <-> (0 <= i < n /\\ get @token i = 62) };', 'assert { match_at @token "<" 0 <-> (0 < n /\\ get @token 0 = 60) };', 'assert { sfind @token "<" 0 = 0 <-> (0 < n /\\ get @token 0 = 60) };',
            'assert { f = n - 1 -> (0 < n /\\ match_at @token ">" (n - 1)) };', 'assert { f = n - 1 -> forall q [get @token q]. 0 <= q < n - 1 -> not match_at @token ">" q };', 'assert { 0 < n -> get @token (n - 1) = 62 -> (forall q [get @token q]. 0 <= q < n - 1 -> get @token q <> 62) -> match_at @token ">" (n - 1) /\\ f <= n - 1 };', 'assert { 0 < n -> get @token (n - 1) = 62 -> (forall q [get @token q]. 0 <= q < n - 1 -> get @token q <> 62) -> match_at @token ">" f /\\ get @token f = 62 };', 'assert { f = n - 1 <-> (0 < n /\\ get @token (n - 1) = 62 /\\ forall q. 0 <= q < n - 1 -> get @token q <> 62) };']}),
    "getLabelIdFromToken/1": dict(theories=L, ensures=[("the id", "result = label_id @token"), ("no label, no id", "not entity @token -> length result = 0"),
        ("the id of a label with a class", "forall c p. entity @token -> is_class_at @token c p -> p > 3 -> result = slice @token 3 p"),
        ("a label without class is its own id", "entity @token -> length @token >= 6 -> (forall k. 3 <= k < length @token - 3 -> get @token k <> 95) -> result = slice @token 3 (length @token - 3)")]),
    "GetClassLabel/1": dict(theories=T, ensures=[("nothing for nothing", "length @best_label = 0 -> length result = 0"),
        ("wrapped, with colons replaced", "length @best_label > 0 -> wraps result @best_label")]),
    "UnicodeLowercase/1": dict(ensures=[("ICU lower case", "result = slower @token")], ghost={"return": ["assert { seq_eq @result (slower @token) };"]}),
}
