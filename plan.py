"""What each property's check runs: harness entries, their bounds, and what must be reached."""

PLAN = {}


def prop(pid, runs, outside, assume=(), crate="core"):
    PLAN[pid] = {"crate": crate, "runs": runs, "outside": outside, "assume": list(assume)}


def run(entry, quick, bound, thorough=None, less=(), covers=(), limit=None):
    r = {"entry": entry, "quick": list(quick), "bound": bound, "less": [list(x) for x in less], "covers": list(covers)}
    if thorough is not None:
        r["thorough"] = list(thorough)
    if limit:
        r["limit"] = limit
    return r


# ------------------------------------------------------------------ versions: parsing
prop("P01", [
    run("h_p01_ascii", [4], "every ASCII text (all 128 bytes) of length <= param", [5], [[3], [2]], [1, 2]),
    run("h_p01_long", [2], "eight long texts (26 digits, 20 components, 68 letters, ...) with up to param symbolic bytes before, inside or after", [3], [[1]], [1, 2]),
    run("h_p01_utf8", [0, 0], "one symbolic 2-, 3- or 4-byte character after one of five prefixes", [1, 0], [], [1]),
    run("h_p01_size", [6], "texts made of a prefix, a piece (letters, digits, words, separators, multi-byte characters) repeated as often as the first param of 20 sizes up to 300 say, and a symbolic byte", [20], [[4]], [1, 2]),
    run("h_p01_again", [2], "two texts of <= param symbolic bytes, alone or inside long ones, handled in turn and again", [3], [[1]], [1, 2]),
    run("h_p01_dict", [40, 1], "versions around one of the first p0 of 40 words release names are made of, one letter of it any letter, up to p1 digits behind", [40, 3], [[20, 1]], [1]),
], "longer free texts; characters outside the selected lead bytes")
prop("P02", [
    run("h_p02_text", [4], "every ASCII text of length <= param", [5], [[3], [2]], [1]),
    run("h_p02_long", [1], "eight long texts with up to param symbolic bytes before, inside or after", [2], [], [1]),
    run("h_p02_utf8", [0, 0], "one symbolic multi-byte character with neighbours", [1, 0], [], [1]),
    run("h_p02_size", [6], "texts made of a prefix, a piece (letters, digits, words, separators, multi-byte characters) repeated as often as the first param of 20 sizes up to 300 say, and a symbolic byte", [20], [[4]], [1]),
    run("h_p02_again", [2], "two texts of <= param symbolic bytes, alone or inside long ones, handled in turn and again", [2], [[1]], [1]),
    run("h_p02_dict", [40, 1], "versions around one of the first p0 of 40 words, one letter of it any letter, up to p1 digits behind", [40, 2], [[20, 1]], [1]),
], "longer free texts")
prop("P03", [
    run("h_p03_ascii", [4], "every ASCII text of length <= param", [5], [[3], [2]], [1, 2]),
    run("h_p03_class", [5], "texts of length <= param over 0 9 z A . _ - + ! and space", [6], [[4], [3]], [1, 2]),
    run("h_p03_long", [2], "three long texts with up to param symbolic bytes at seven places", [3], [[1]], [1, 2]),
    run("h_p03_digits", [10], "a run of up to param symbolic digits in five contexts, value <= 2147483647", [10], [[6]], [1]),
    run("h_p03_epoch", [6], "an epoch of up to param symbolic digits, value <= 32767", [9], [], [1]),
    run("h_p03_size", [6], "texts made of a prefix, a piece (letters, digits, words, separators, multi-byte characters) repeated as often as the first param of 20 sizes up to 300 say, and a symbolic byte", [20], [[4]], [1, 2]),
    run("h_p03_again", [2], "two texts of <= param symbolic bytes, alone or inside long ones, handled in turn and again", [3], [[1]], [1, 2]),
    run("h_p03_dict", [40, 1], "versions around one of the first p0 of 40 words, one letter of it any letter, up to p1 digits behind", [40, 3], [[20, 1]], [1]),
    run("h_p03_any", [7], "any word of <= param letters in four contexts", [9], [[5]], [1]),
    run("h_p03_utf8", [8], "texts around words with one of the first param of 31 ideographs, kana or faces, in 25 contexts", [31], [[3]], [1]),
], "longer free texts; digit runs above i32::MAX (F2)")
prop("P04", [
    run("h_p04_ascii", [4], "every ASCII text of length <= param", [5], [[3], [2]], [1, 2]),
    run("h_p04_class", [5], "texts of length <= param over 0 9 a . + ! - and space", [6], [[4], [3]], [1, 2]),
    run("h_p04_markers", [2], "up to param markers ('!' or '+') at every position of four longer texts", [3], [[1]], [1, 2]),
    run("h_p04_epoch", [], "epochs of 0..6 symbolic digits", None, [], [1, 2]),
    run("h_p04_size", [6], "texts made of a prefix, a piece (letters, digits, words, separators, multi-byte characters) repeated as often as the first param of 20 sizes up to 300 say, and a symbolic byte, with a symbolic marker before or behind", [20], [[4]], [1, 2]),
    run("h_p04_zeros", [8], "epochs and parts that begin with as many zeros as the first param of 20 sizes up to 300 say, and a symbolic digit", [20], [], [1, 2]),
    run("h_p04_again", [2], "two texts of <= param symbolic bytes, alone or inside long ones, handled in turn and again", [3], [[1]], [1, 2]),
    run("h_p04_dict", [20, 1], "versions around one of the first p0 of 40 words, one letter of it any letter, up to p1 digits behind, a marker before or behind", [40, 2], [[10, 1]], [1, 2]),
], "longer free texts; epochs written with other Unicode digits")
prop("P05", [
    run("h_p05_swap", [2], "1..param words (any letter or digit, two-byte mixes, post1) joined by any two choices of separators, with and without epoch and local label", [3], [[1]], [1]),
    run("h_p05_map", [4], "every text of length <= param over 0 9 z A . _ -, its separators replaced, doubled, or added at either end", [5], [[3], [2]], [1]),
    run("h_p05_size", [6], "versions of as many components as the first param of 20 sizes up to 300 say, separators exchanged, doubled, many in a row", [20], [[4]], [1]),
    run("h_p05_dict", [40], "one of the first param of 40 words, one letter of it any letter, and a number between any separators, or none", [40], [[20]], [1]),
    run("h_p05_utf8", [8], "words with one of the first param of 31 ideographs, kana or faces between any separators", [31], [], [1]),
], "separators inside the local label (they are text there); texts with more separators than the bound")

# ------------------------------------------------------------------ versions: order
prop("P06", [
    run("h_p06_short", [2], "pairs of texts of length <= param over 0 1 9 a Z . ! + -", [3], [[1]], [1, 2, 3]),
    run("h_p06_struct", [2], "pairs of versions of <= param components (any digit, any letter, dev, post, rc), with and without epoch", [2], [[1]], [1, 2, 3]),
    run("h_p06_parts", [2], "pairs of versions of <= param components with any 31-bit number, letters, dev, post, any epoch, local labels", [3], [[1]], [1, 2, 3]),
    run("h_p06_long", [], "versions of 4, 9, 17 and 40 components that differ at one symbolic component", None, [], [1, 2, 3]),
    run("h_p06_size", [5], "pairs with a common prefix of as many pieces as the first param of 20 sizes up to 300 say and two symbolic tails", [8], [[4]], [1, 2, 3]),
    run("h_p06_first", [6], "pairs of long versions whose first components are symbolic, any two of the first param of 20 lengths up to 300", [20], [[4]], [1, 2, 3]),
    run("h_p06_again", [2], "comparisons repeated after other ones, on the same, fresh and cloned objects, texts of <= param symbolic bytes", [3], [[1]], [1, 2, 3]),
    run("h_p06_dict", [6, 4], "pairs that differ in a word (the first p0 of 40, one letter any letter, and the first p1), a digit behind it, or in having it", [20, 12], [[4, 4]], [1, 2, 3]),
    run("h_p06_utf8", [2], "pairs that differ in words with one of the first param of 31 ideographs, kana or faces", [6], [[1]], [1, 2, 3]),
], "pairs of versions beyond these sizes")
prop("P07", [
    run("h_p07_parts", [2], "triples of versions of <= param components with any 31-bit number, letters, dev, post, local labels", [2], [[1]], [1, 2, 3]),
    run("h_p07_tail", [2], "triples: the same component, then up to param numbers of any 31-bit value or words", [3], [[1]], [1, 2, 3]),
    run("h_p07_text", [2], "triples of texts of length <= param over 0 1 2 a B . -", [2], [[1]], [1, 2, 3]),
    run("h_p07_deep", [2], "triples of versions of <= param components 0, 1, 2, b, Dev, post, with and without epoch", [3], [[1]], [1, 2, 3]),
    run("h_p07_size", [6], "triples with a long common prefix (the first param of 20 sizes up to 300) and symbolic or zero tails", [20], [[4]], [1, 2, 3]),
    run("h_p07_dict", [8, 6], "triples out of words (the first p0 of 40, one letter any letter, and the first p1), numbers and absent components", [20, 10], [[5, 5]], [1, 2, 3]),
], "longer versions; the pairs of known finding F1", ["pairs whose first differing components are an explicit 0 and a post/local component are excluded (F1)"])
prop("P08", [
    run("h_p08_parts", [4], "pairs of versions of 1..param symbolic 31-bit numbers", [6], [[2]], [1, 2, 3]),
    run("h_p08_text", [2, 3], "pairs of 1..p0 dotted numbers of 1..p1 symbolic digits", [3, 3], [[2, 2]], [1, 2, 3]),
    run("h_p08_digits", [], "pairs of numbers of 1..10 symbolic digits, value <= 2147483647, after three prefixes", None, [], [1, 2, 3]),
    run("h_p08_zeros", [6], "up to param trailing zero components on either side", [10], [[3]], [2, 3]),
    run("h_p08_size", [6], "pairs of long dotted numbers (the first param of 20 sizes up to 300) that differ in one component of any value and in length", [20], [[4]], [1, 2, 3]),
    run("h_p08_lead", [20], "the first param of 20 numbers of leading zeros, up to 300, before a symbolic digit", [20], [], [1, 2, 3]),
], "numbers above i32::MAX (F2)")
prop("P09", [
    run("h_p09_letters", [2], "pairs of suffixes of <= param letters out of d e v p o s t a z in either case", [2], [[1]], [15, 16, 19]),
    run("h_p09_words", [], "dev and post in every letter case, and words that contain or resemble them, against seven classes of suffix, three releases", None, [], [10, 11, 12, 13, 15, 19]),
    run("h_p09_numbered", [7], "numbered phases (dev, a, beta, rc, post) with numbers of <= param symbolic digits", [9], [[3]], [1, 2, 3]),
    run("h_p09_size", [6], "phases after long releases, phase words deep inside long words (the first param of 20 sizes up to 300)", [20], [[4]], [10, 11, 12, 13, 15, 19]),
    run("h_p09_dict", [40, 40], "two of the first p0 and p1 of 40 words release names are made of, one letter of the first any letter", [40, 40], [[20, 20]], [10, 11, 12, 13, 15, 16, 17, 18, 19]),
    run("h_p09_any", [6], "any word of <= param letters against dev, post, n and nothing", [7], [[5], [4]], [10, 11, 12, 13, 14, 15, 16, 17, 22, 23, 24, 25]),
    run("h_p09_utf8", [8], "words with one of the first param of 31 ideographs, kana or faces, also around dev and POST", [16], [[2]], [10, 11, 12, 13, 14, 15, 16, 17, 22, 23, 24, 25]),
], "suffix words beyond these lengths")
prop("P10", [
    run("h_p10_epoch", [3], "pairs of epochs of <= param symbolic digits, value <= 32767, with tails of any byte or one of four texts", [4], [[2]], [1, 2, 3]),
    run("h_p10_parts", [1], "pairs of any two epochs 1..32767 before <= param components of any 31-bit number, letters, dev, post, local label", [2], [], [1, 2]),
    run("h_p10_size", [6], "symbolic epochs before long tails (any two of the first param of 20 sizes up to 300)", [20], [[4]], [1, 2]),
    run("h_p10_dict", [10, 5], "epochs before pairs that differ in a word (the first p0 and p1 of 40, one letter any letter)", [20, 12], [[5, 4]], [1]),
    run("h_p10_bare", [], "any two epochs 0..32767 with nothing, any one component, or a label behind", None, [], [1, 2]),
], "longer tails")
prop("P11", [
    run("h_p11_case", [2], "every text of <= param letters, digits 0 1 and dots with every subset of letters changed in case, against five versions", [3], [], [1]),
    run("h_p11_words", [], "dev, post, alpha, rc, b, z in every letter case in four contexts", None, [], [1]),
    run("h_p11_size", [6], "long words and versions (the first param of 20 sizes up to 300), all, the last or half of their letters changed in case", [20], [[4]], [1]),
    run("h_p11_dict", [16], "the first param of 40 words in every two mixtures of case, four contexts", [30], [[8]], [1]),
    run("h_p11_any", [4], "any word of <= param letters and the same in the other case", [5], [[3]], [1]),
], "letters outside ASCII; longer words")
prop("P12", [
    run("h_p12_local", [2], "pairs of labels of <= param bytes (any ASCII byte but the markers) after five public parts", [3], [[1]], [1, 2, 3]),
    run("h_p12_long", [], "long labels that differ in up to two symbolic bytes at four places", None, [], [1, 2, 3]),
    run("h_p12_public", [2], "public parts of 1..param symbolic components that differ", [3], [], [1]),
    run("h_p12_size", [6], "long labels (the first param of 20 sizes up to 300), also after long public versions, with a symbolic byte at either end", [20], [[4]], [1, 2, 3]),
    run("h_p12_dict", [20, 10], "labels of words (the first p0 of 40, one letter any letter, and the first p1) and numbers", [40, 20], [[10, 5]], [1, 2, 3]),
    run("h_p12_number", [4], "labels of numbers of <= param symbolic digits", [7], [[3]], [1, 2, 3]),
    run("h_p12_utf8", [8], "labels with one of the first param of 31 ideographs, kana or faces", [31], [[3]], [1, 2, 3]),
], "labels beyond these lengths")
prop("P13", [
    run("h_p13_text", [3], "pairs of texts of length <= param over 0 1 9 a Z . + -", [3], [[2]], [1, 2]),
    run("h_p13_parts", [2], "pairs of versions of <= param components with any 31-bit number, letters, dev, post, any epoch, local labels", [3], [[1]], [1, 2]),
    run("h_p13_long", [], "prefixes of 1, 3, 8 and 20 components, extended by up to two symbolic components, or with one component replaced", None, [], [1, 2]),
    run("h_p13_size", [5], "pairs with a long common prefix (the first param of 20 sizes up to 300) and symbolic tails", [12], [[4]], [1, 2]),
    run("h_p13_first", [6], "long versions whose first components are symbolic, any two of the first param of 20 lengths", [20], [[4]], [1, 2]),
    run("h_p13_again", [2], "prefix tests repeated after other ones", [3], [[1]], [1, 2]),
    run("h_p13_dict", [10, 5], "pairs that differ in a word (the first p0 of 40, one letter any letter, and the first p1), a digit behind it, or in having it", [20, 12], [[5, 4]], [1, 2]),
    run("h_p13_utf8", [2], "pairs that differ in words with one of the first param of 31 ideographs, kana or faces", [8], [[1]], [1, 2]),
], "longer versions")
prop("P14", [
    run("h_p14_table", [], "all ten operators", None, [], [1]),
    run("h_p14_parts", [1], "eight operators over pairs of versions of <= param components", [2], [], [1, 2]),
    run("h_p14_text", [2], "eight operators over pairs of texts of length <= param", [2], [[1]], [1, 2]),
    run("h_p14_size", [3], "eight operators over pairs with a long common prefix (the first param of 20 sizes)", [5], [[2]], [1, 2]),
], "evaluation of ~= and !~= (F3); longer versions")
prop("P15", [
    run("h_p15_round", [], "all ten operators", None, [], [1]),
    run("h_p15_sign", [8], "every ASCII text of length <= param as a sign", [12], [[4]], [1, 2]),
    run("h_p15_name", [8], "every ASCII text of length <= param as a name", [13], [[4]], [1, 2]),
    run("h_p15_near", [], "every sign and name with symbolic padding, letter case, and one byte replaced, added or removed", None, [], [1, 2]),
    run("h_p15_size", [6], "long padding on either side, long texts (the first param of 20 sizes up to 300), one symbolic byte", [20], [[4]], [1, 2]),
], "non-ASCII padding and letters")

# ------------------------------------------------------------------ specs
prop("P16", [
    run("h_p16_text", [2, 1], "seven operators, operand of <= p0 bytes over 0 1 9 a Z . ! + - _, version of <= p1 bytes", [2, 2], [], [1, 2]),
    run("h_p16_ascii", [2], "seven operators, operand of <= param printable bytes, four versions", [2], [[1]], [1, 2]),
    run("h_p16_struct", [1], "seven operators, structured versions of <= param components with epochs and local labels on either side", [1], [], [1, 2]),
    run("h_p16_size", [5], "long operands (the first param of 20 sizes up to 300) against versions that differ in a symbolic tail", [8], [[4]], [1, 2]),
    run("h_p16_again", [1], "two specs and five versions asked in turn, twice, operands of <= param symbolic bytes", [2], [], [1]),
    run("h_p16_dict", [6, 6], "seven operators, words (the first p0 of 40, one letter any letter, and the first p1)", [16, 16], [[4, 4]], [1, 2]),
    run("h_p16_utf8", [2], "seven operators, words with one of the first param of 31 ideographs, kana or faces", [8], [[1]], [1, 2]),
], "evaluation of ~= (F3); operands that hold white space, '*' or combining characters")
prop("P17", [
    run("h_p17_text", [2, 1], "ten wildcard forms, prefix of <= p0 bytes, version of <= p1 bytes", [2, 2], [], [1, 2]),
    run("h_p17_struct", [1], "ten wildcard forms, structured prefix of <= param components, equal or different version with four tails", [1], [], [1, 2]),
    run("h_p17_size", [5], "long prefixes (the first param of 20 sizes up to 300) against versions that differ in a symbolic tail", [8], [[4]], [1, 2]),
    run("h_p17_again", [2], "two wildcard specs and five versions asked in turn, twice, prefixes of <= param symbolic bytes", [3], [[1]], [1]),
    run("h_p17_dict", [4, 4], "ten wildcard forms, words (the first p0 of 40, one letter any letter, and the first p1)", [12, 8], [[3, 3]], [1, 2]),
    run("h_p17_utf8", [2], "ten wildcard forms, words with one of the first param of 31 ideographs, kana or faces", [8], [[1]], [1, 2]),
], "longer prefixes")
prop("P18", [
    run("h_p18_ascii", [2], "every ASCII text of length <= param", [3], [[1]], [1, 2]),
    run("h_p18_ops", [3], "texts of length <= param over = < > ! ~ * . 1 a space + @", [4], [[2]], [1, 2]),
    run("h_p18_parts", [1], "fourteen operators x operand of <= param ASCII bytes x six tails", [2], [], [1, 2]),
    run("h_p18_regex", [2], "^...$ with up to param pieces out of sixteen, well formed or not", [2], [[1]], [1, 2]),
    run("h_p18_utf8", [1], "six multi-byte characters with up to param operator bytes before and after", [1], [[0]], [1, 2]),
    run("h_p18_size", [5], "ten operators, one of ten pieces repeated (the first param of 20 sizes up to 300), a symbolic byte, with and without .*", [12], [[4]], [1, 2, 3]),
    run("h_p18_again", [2], "two texts of <= param symbolic bytes, alone or inside long ones, handled in turn and again", [2], [[1]], [1, 2]),
    run("h_p18_dict", [20], "thirteen operators, good and bad, before a version with one of the first param of 40 words, one letter of it any letter, five tails", [40], [[10]], [1, 2]),
], "which regular expressions are well formed is left to the regex crate")
prop("P19", [
    run("h_p19_glob", [1, 2], "patterns of 2..2+p0 bytes over 1 a * . with an inner wildcard, texts of <= p1 bytes", [1, 3], [], [1, 2]),
    run("h_p19_shape", [1], "four shapes of inner wildcard with symbolic literals, texts of four shapes", None, [], [1, 2]),
    run("h_p19_regex", [2, 2], "anchored expressions of <= p0 pieces out of eight kinds, texts of <= p1 bytes", [2, 3], [[1, 2]], [1, 2]),
    run("h_p19_size", [6], "long literals and many wildcards (the first param of 20 sizes up to 66)", [20], [[4]], [1, 2]),
    run("h_p19_again", [2], "two globs and an expression matched in turn on eight texts, twice", [2], [[1]], [1]),
], "glob specs that hold other regex metacharacters; top-level alternation between the anchors")
prop("P20", [
    run("h_p20_ascii", [2], "every ASCII spec of length <= param", [3], [], [1, 2]),
    run("h_p20_ops", [3], "specs of length <= param over = < > ! ~ * . 1 a @ ^ $", [4], [[2]], [1, 2]),
    run("h_p20_at", [2], "specs with '@' of length <= param", [3], [], [1, 2]),
    run("h_p20_only", [2], "exact specs and versions of length <= param", [2], [[1]], [1, 2]),
    run("h_p20_tree", [3], "compound specs of <= param atoms", [4], [], [1]),
    run("h_p20_size", [6], "long specs (the first param of 20 sizes up to 300) with a symbolic byte", [20], [[4]], [1, 2]),
    run("h_p20_long", [6], "long texts with @, one byte apart (the first param of 20 sizes)", [20], [[4]], [1, 2]),
    run("h_p20_again", [2], "two texts of <= param symbolic bytes, alone or inside long ones, handled in turn and again", [2], [[1]], [1, 2]),
], "longer specs")

# ------------------------------------------------------------------ compound specs
prop("P21", [
    run("h_p21_text", [5], "every text of length <= param over ( ) | , 1 9", [7], [[4]], [1, 2]),
    run("h_p21_space", [3], "sequences of <= param tokens out of fourteen, white space and regexes included", [4], [[2]], [1, 2]),
    run("h_p21_expr", [4], "well-formed expressions of <= param atoms, redundant parentheses included", [5], [[3]], [1, 2]),
    run("h_p21_chain", [4], "chains of param atoms joined in six ways, every truth assignment", [6], [[3]], [1, 2]),
    run("h_p21_version", [2], "seven compound specs on every version text of length <= param over 0 1 2 3 9 a .", [3], [[1]], [1, 2]),
    run("h_p21_list", [2], "lists of <= param members under either combinator", [3], [], [1, 2]),
    run("h_p21_wide", [8], "wide conjunctions and disjunctions (the first param of 20 sizes up to 66), all members alike but one, in nine contexts", [20], [[4]], [1, 2]),
    run("h_p21_deep", [8], "six ways of nesting as deep as the first param of 20 sizes up to 66", [20], [[4]], [1, 2]),
    run("h_p21_again", [], "two compound specs parsed and asked in turn", None, [], [1, 2]),
], "expressions beyond these sizes")
prop("P22", [
    run("h_p22_ascii", [2], "every ASCII text of length <= param", [2], [[1]], [1, 2]),
    run("h_p22_text", [5], "every text of length <= param over ( ) | , 1 space", [7], [[4]], [1, 2]),
    run("h_p22_toks", [3], "sequences of <= param tokens out of twelve", [4], [[2]], [1, 2]),
    run("h_p22_broken", [], "four long expressions with one byte removed, added or replaced at every place", None, [], [1, 2]),
    run("h_p22_deep", [], "nesting 1..66 deep, balanced or not", None, [], [1, 2]),
    run("h_p22_list", [3], "lists of <= param texts out of eleven", [4], [], [1, 2]),
    run("h_p22_size", [6], "wide and deep expressions (the first param of 20 sizes up to 66) with one byte removed or a symbolic one added", [8], [[4]], [1, 2]),
    run("h_p22_again", [2], "two texts of <= param bytes over ( ) | , 1 handled in turn and again", [3], [[1]], [1, 2]),
], "which regular expressions are well formed is left to the regex crate")
prop("P23", [
    run("h_p23_text", [5], "every text of length <= param over ( ) | , 1 9", [7], [[4]], [1]),
    run("h_p23_expr", [4], "well-formed expressions of <= param atoms", [5], [[3]], [1]),
    run("h_p23_kinds", [2], "up to param specs of twelve kinds combined", [3], [], [1]),
    run("h_p23_build", [2, 2], "every tree with 2..p0 parts per node, depth <= p1", [3, 2], [], [1, 2]),
    run("h_p23_list", [2], "lists of <= param members under either combinator", [3], [], [1, 2]),
    run("h_p23_wide", [8], "wide expressions (the first param of 20 sizes up to 66) in nine contexts", [20], [[4]], [1]),
    run("h_p23_deep", [8], "six ways of nesting as deep as the first param of 20 sizes up to 66", [20], [[4]], [1]),
    run("h_p23_nodes", [8], "trees put together from nodes with 2..42 parts in five positions", [20], [[4]], [1, 2]),
    run("h_p23_many", [6], "lists of 2..42 members", [20], [[4]], [1, 2]),
    run("h_p23_again", [2], "two expressions of <= param atoms handled in turn and again", [2], [[1]], [1]),
], "hand-built trees that hold a node without parts (they have no text)")
prop("P24", [
    run("h_p24_eq", [2, 1], "every pair of trees with <= p0 parts per node, depth <= p1, odd ones included", [3, 1], [], [1, 2]),
    run("h_p24_edit", [2], "every tree of depth <= param and every single edit of it", [2], [], [1, 2]),
    run("h_p24_text", [2], "pairs of spec texts: one of three beginnings and <= param bytes over 1 a A . 0", [3], [], [1, 2]),
    run("h_p24_debug", [2, 2], "debug output of every tree with <= p0 parts per node, depth <= p1, odd ones included", [2, 2], [], [1, 2]),
    run("h_p24_size", [6], "trees of 1..66 members, nested up to 20 deep, that differ at one place or not at all", [20], [[4]], [1, 2]),
    run("h_p24_long", [6], "the debug output of wide and deep trees", [20], [[4]], [1]),
    run("h_p24_again", [2], "equality asked again after other comparisons, trees of <= param atoms", [2], [[1]], [1, 2]),
], "larger trees")

# ------------------------------------------------------------------ repodata
prop("P25", [
    run("h_p25_text", [1], "one text field of <= param printable bytes, three field orders, unknown fields", [2], [], [1]),
    run("h_p25_version", [1], "version texts with <= param symbolic printable bytes in either map", [2], [], [1, 2]),
    run("h_p25_escape", [], "a version character spelled as any \\u0020..\\u007e escape", None, [], [1]),
    run("h_p25_number", [1], "numeric fields with <= param symbolic digits after four prefixes, so around every limit", [2], [], [1, 2]),
    run("h_p25_many", [2], "up to param records per map, four versions each", [2], [[1]], [1]),
    run("h_p25_fields", [1], "every text field and the file name with <= param symbolic printable bytes, next to multi-byte characters, quotes and backslashes", [2], [], [1]),
    run("h_p25_size", [3], "1, 5, 17 (40) records with one that has a 321-byte text, a long version, 60 list entries", [4], [], [1]),
    run("h_p25_again", [], "documents loaded in turn and again", None, [], [1]),
], "larger documents")
prop("P26", [
    run("h_p26_cut", [], "a document cut at every byte", None, [], [1, 2]),
    run("h_p26_byte", [0, 400], "a document with any one byte replaced by any of 256 values", None, [], [1, 2]),
    run("h_p26_any", [2], "every file of <= param bytes", [3], [], [1]),
    run("h_p26_fields", [], "thirteen missing fields, sixteen values of a wrong type or range, a missing file", None, [], [1, 2, 3]),
    run("h_p26_version", [3], "version texts of <= param bytes over ! + a 1 . -", [4], [[2]], [1, 2]),
    run("h_p26_two", [2], "a document with two bytes replaced, at any place and 1, 2 (7, 40) further on", [4], [[1]], [1, 2]),
    run("h_p26_size", [3], "nine kinds of malformed record at three places of documents with 2, 9, 33 records", [3], [], [1, 2]),
    run("h_p26_tail", [1], "0..param bytes of any value, another document, or blanks and any byte, before or behind the document", [3], [], [1, 2]),
    run("h_p26_utf8", [45], "well-formed and malformed version texts with multi-byte characters after 0..param ASCII ones, also repeated 20 and 70 times", [130], [[20]], [1, 2]),
], "several faults at once; I/O errors in the middle of a file")

# ------------------------------------------------------------------ components, custom parsers, errors, output, clones, histories
prop("P30", [
    run("h_p30_pair", [3], "pairs of components: any 16-bit epoch, any 32-bit number, texts of <= param bytes, empty", [4], [[2]], [1, 2, 3]),
    run("h_p30_words", [], "pairs of texts built around dev and post in symbolic letter case, near misses included", None, [], [1, 2, 3]),
    run("h_p30_triple", [3], "triples of components with texts of <= param bytes", [4], [[2]], [1, 2, 3]),
    run("h_p30_size", [6], "long texts (the first param of 20 sizes up to 300) with symbolic bytes at either end", [20], [[4]], [1, 2, 3]),
    run("h_p30_dict", [40, 20], "words (the first p0 of 40, one letter any letter, and the first p1), alone or before a digit", [40, 40], [[20, 10]], [1, 2, 3]),
    run("h_p30_utf8", [31], "texts with one of the first param of 31 ideographs, kana or faces", [31], [], [1, 2, 3]),
], "longer free texts; letters outside ASCII")
prop("P31", [
    run("h_p31_parse", [4, 3], "texts with up to p0 symbolic ASCII bytes, long and multi-byte ones, every list of <= p1 components, every error with a text of <= p0 ASCII bytes", [5, 4], [[2, 2]], [1, 2]),
    run("h_p31_order", [2], "pairs of lists of <= param components of any kind, any 32-bit number", [3], [[1]], [1, 2, 3]),
    run("h_p31_size", [6], "long lists (the first param of 20 sizes up to 300) that differ in one symbolic component and in length", [20], [[4]], [1, 2, 3]),
], "texts and lists beyond these sizes")
prop("P32", [
    run("h_p32_version", [5], "every text of <= param bytes over ! + 1 a . 3 and space", [6], [[4]], [1, 2]),
    run("h_p32_size", [6], "long texts (the first param of 20 sizes up to 300) with up to two symbolic markers at either end", [20], [[4]], [1, 2]),
    run("h_p32_spec", [3], "eight beginnings and operands of <= param bytes over ! + 1 a . * = $ and space", [4], [[2]], [1, 2]),
    run("h_p32_tree", [], "compound texts and lists of two of eight members, well formed or not", None, [], [1, 2, 3]),
    run("h_p32_equal", [3], "pairs of errors with texts of <= param ASCII bytes", [4], [[2]], [10, 11]),
], "texts beyond these sizes; the wording of messages that quote a spec")
prop("P33", [
    run("h_p33_part", [4], "components of each kind: 100 numbers around every number of digits, texts of <= param ASCII bytes", [8], [[2]], [1]),
    run("h_p33_version", [2], "lists of <= param such components", [3], [[1]], [1]),
    run("h_p33_text", [4], "parsed texts of <= param bytes", [5], [[3]], [1]),
    run("h_p33_size", [6], "long parsed texts (the first param of 20 sizes up to 300)", [20], [[4]], [1]),
], "numbers outside the table")
prop("P34", [
    run("h_p34_version", [3], "versions of <= param symbolic bytes, alone or after a long beginning", [4], [[2]], [10, 11]),
    run("h_p34_part", [3], "any component, texts of <= param ASCII bytes", [12], [[2]], [1]),
    run("h_p34_spec", [2], "ten beginnings and six ends of single and compound specs around <= param symbolic bytes", [3], [[1]], [1, 2]),
], "longer texts")
prop("P35", [
    run("h_p35_text", [3], "malformed texts of <= param bytes over ! + 1 a . alone or beside a long text, seven interfaces, six operators, nine specs", [5], [[2]], [1, 2, 3, 4, 5, 6, 7]),
], "longer malformed texts", ["a panic is taken as the proper end of the call; unwinding is not followed"])
prop("P36", [
    run("h_p36_read", [2, 2], "documents with a text of <= p0 symbolic bytes and <= p1 components, numbers around the 32-bit limits, three field orders", [3, 3], [[1, 1]], [1]),
    run("h_p36_bad", [], "a document cut at every byte, sixteen malformed ones, and one with any byte replaced by any of eleven", None, [], [1, 2, 3]),
], "longer documents")
prop("P37", [
    run("h_p37_mix", [1], "four calls of six kinds on two texts of <= param symbolic bytes (alone or inside long ones), in one order and the reverse", [2], [], [1, 2]),
    run("h_p37_keep", [1], "values asked again after other calls of six kinds on five further texts", [2], [], [10, 11]),
    run("h_p37_fresh", [1], "a call of six kinds on two texts of <= param symbolic bytes (alone or inside long ones) after two other calls, against the same call on its own", [2], [[0]], [1, 2]),
    run("h_p37_shapes", [2], "two specs of one of eleven shapes with param symbolic bytes each, the second after the first against the second on its own", [3], [[1]], [2]),
    run("h_p37_specs", [2], "two specs of one of eight shapes with param symbolic bytes each, asked about five versions, in one order and the other", [3], [[1]], [2]),
], "longer histories; the per-property histories are the _again entries of the other properties")

prop("P39", [
    run("h_p39_text", [3], "pairs of texts of length <= param over 0 1 9 a Z . ! + -", [4], [[2]], [1, 2, 3]),
    run("h_p39_parts", [3], "pairs of versions of <= param components with any 31-bit number, letters, dev, post, any epoch, local labels", [4], [[2]], [1, 2, 3]),
    run("h_p39_tail", [3], "versions of 1 to 9 components, one continued by up to param of any kind and value", [4], [[2]], [1, 2, 3]),
    run("h_p39_dict", [10, 5], "pairs that differ in a word (the first p0 of 40, one letter any letter, and the first p1), a digit behind it, or in having it", [20, 12], [[5, 4]], [1, 2, 3]),
    run("h_p39_size", [5], "pairs with a common prefix of as many pieces as the first param of 20 sizes up to 300 say and two symbolic tails", [10], [[4]], [1, 2, 3]),
    run("h_p39_first", [8], "long versions of any two of the first param of 20 lengths up to 300 that differ in a symbolic component at one of three places", [20], [[4]], [1, 2, 3]),
    run("h_p39_utf8", [3], "pairs that differ in words with one of the first param of 31 ideographs, kana or faces", [10], [[1]], [1, 2, 3]),
], "longer versions")

# ------------------------------------------------------------------ Python
prop("P27", [
    run("h_p27_text", [2], "pairs of texts of length <= param over 0 1 9 a Z . + - !", [3], [[1]], [1, 2, 3]),
    run("h_p27_struct", [2], "structured pairs of <= param components", [3], [[1]], [1, 2, 3]),
    run("h_p27_any", [3], "every ASCII text of length <= param against 1.5", [4], [[2]], [1, 2, 3]),
    run("h_p27_size", [4], "pairs of long texts (the first param of 8 sizes up to 300) that differ in a symbolic byte at either end", [8], [[3]], [1, 2, 3]),
    run("h_p27_again", [2], "questions asked again in another order", [2], [[1]], [1, 2, 3]),
], "the C API glue of rust-cpython itself: the class body is taken from /repo, the py_class! macro is a stand-in", ["rust-cpython's argument and result conversion is replaced by a stand-in that passes values through"], crate="py")

prop("P29", [
    run("h_p29_ascii", [4], "every ASCII text of length <= param", [5], [[3]], [1, 2]),
    run("h_p29_class", [5], "texts of length <= param over 0 9 a . + ! - and space", [6], [[4]], [1, 2]),
    run("h_p29_markers", [2], "up to param markers ('!' or '+') at every position of four longer texts", [3], [[1]], [1, 2]),
    run("h_p29_size", [4], "texts made of a prefix, a piece (letters, digits, words, separators, multi-byte characters) repeated as often as the first param of 8 sizes up to 300 say, and a symbolic byte, with a symbolic marker before or behind", [8], [[3]], [1, 2]),
    run("h_p29_again", [2], "two texts of <= param symbolic bytes, alone or inside long ones, handled in turn and again", [3], [[1]], [1, 2]),
], "longer free texts; the C API glue of rust-cpython itself", ["rust-cpython's argument and result conversion is replaced by a stand-in; a panic counts as a violation because rust-cpython 0.3 aborts the interpreter on one"], crate="py")



def _findings():
    import os
    import re

    out = []
    for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_findings.txt")):
        m = re.match(r"finding: id=(\S+) property=(\S+) entry=(\S+) (.*)", l)
        if m:
            out.append(dict(zip(("id", "property", "entry", "what"), m.groups())))
    return out


FINDINGS = _findings()
