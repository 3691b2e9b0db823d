NA = {
 "Z02": "Equality of parse(print(m)) and m for every media type quantifies over string contents flowing through a hand-written scanner; dataflow can show which pieces are copied (H10) but not that scanning inverts concatenation for all strings.",
 "Z04": "Progress under every schedule is a liveness property of the async runtime and of the wrapped reader; no sound static argument in reach bounds it.",
 "Z05": "Inverse of quoting and unquoting over all strings: as Z02; the safety half (text cannot leave its quotes) is H10.",
 "Z06": "A statement about the quality of a random generator's outputs at run time.",
}

# ---------------------------------------------------------------- the deciding method, per property
TABLE = "decision-table extraction by abstract interpretation of the type-checked MIR (each table is compared row by row with its partner table)"
TECH.update({
 "H01": "interprocedural backward value-flow analysis of text, with demands on fields and arguments closed over the whole crate",
 "H02": "interprocedural backward value-flow analysis of name text, with demands on fields and arguments closed over the whole crate",
 "H03": "effect analysis of the map operations on every path, inlined down to HashMap",
 "H04": "inductive non-emptiness analysis of stored value lists over every storing function",
 "H05": "abstract interpretation of every Header implementation: name constants, look-up sites and effects of apply_header",
 "H06": "dataflow analysis of which field lines and list members reach an accepted outcome",
 "H07": "path-sensitive typestate analysis of the look-up result (found / not found) against the outcome",
 "H08": "taint analysis with implicit flows from hash iteration order, clocks, randomness, addresses and hidden state to the produced text",
 "H09": "vocabulary agreement: literals of the writer's text terms against the constants the reader's paths compare text with",
 "H10": "quote-state automaton run over the symbolic text of every header value, with backward value-flow for the parts inside quotes",
 "B01": "path-sensitive analysis of the byte counter with difference-bound facts",
 "B02": "abstract interpretation of every body constructor (length, media type and reader terms)",
 "B03": "effect analysis of the body operations on every path",
 "B04": "abstract interpretation of Body::chain over every path",
 "M01": "abstract interpretation of setter/getter compositions",
 "M02": "abstract interpretation of Clone composed with every getter",
 "M03": "ownership and typestate analysis of the channel ends, with trait-solver facts",
 "M04": "summary comparison of sibling methods (effects, results, fields) over the type-checked program",
 "M05": "path-sensitive abstract interpretation of the accessors: the source of each answer and what is known of the sources before it",
 "M06": "summary comparison: the single operation each wrapper performs, its receiver, arguments and result, on every path",
 "V01": "compile-time obligations: the compiler's trait solver over a fixed list of marker-trait facts",
 "E01": "abstract interpretation of the Status implementations over every path",
 "E02": "abstract interpretation of the error functions and of the expansions of the exported macros in a witness crate",
 "X01": "keyed-effect analysis: type parameter of each key against the type parameter of the operation",
 "P01": "abstract interpretation with path facts and difference-bound reasoning: every panicking construct is an obligation",
 "P02": "status-flow analysis: every error outcome of every reader, traced through each helper and `?`",
 "T01": TABLE, "T02": TABLE, "T03": TABLE, "T04": TABLE, "T05": TABLE, "D01": TABLE, "D02": TABLE, "D03": TABLE, "Z01": TABLE, "Z03": TABLE,
 "I01": "inductive state analysis of every iterator implementation from an arbitrary state",
 "S01": TABLE, "S02": "effect analysis of every policy builder and of the rendered text",
 "N01": "path-sensitive analysis of negotiate: the facts under which an outcome is returned",
 "N02": "path-sensitive value-range analysis at every construction of a weighted type",
 "N03": "path-sensitive analysis of the matching function: the facts under which it answers true, false, or goes on",
 "N04": "abstract interpretation of every construction, lookup and removal; the guard facts of every addition in the parser",
 "C01": "must-effect analysis of every turn of every conversion loop, plus abstract interpretation of the message conversions",
})
NOTE.update({
 "P01": "Panics only: not termination, stack depth or allocation. Arithmetic is judged with overflow checks on. Relies on H04 (stored lists are not empty) and H01 (stored text is ASCII). The `From<&str>` conveniences, which are documented to panic, are not counted.",
 "H01": "Relies on the listed unsafe constructors staying unsafe; code that calls them from outside this crate is outside the property.",
 "H09": "Keywords written as literals or as members of an enumeration; keywords that are pieced together at run time are reported as undecided.",
 "D01": "Boundary rows per field (smallest and largest legal, first illegal on either side); the day-of-month limit is 31 for every month, as the code documents.",
 "D03": "Month starts and ends of 28 chosen years (thorough: all years 1970-9998), a leap February day by day, all hours, minutes and seconds of a day.",
 "Z01": "Month starts and ends of 28 chosen years (thorough: all years 1970-9998), a leap February day by day, all hours, minutes and seconds of a day.",
 "D02": "Every month of every year 1970-9999 through the extracted formula; rows whose branch conditions could not be evaluated are counted as undecided.",
 "N03": "Text comparison is taken to be equality up to letter case: the parser lowers the names.",
 "N04": "A list search written as a hand-made loop in the parser is reported as undecided.",
 "T04": "The weekday number is private: it is observed through acceptance and through the printer.",
 "Z03": "Weights are one representative per region that the comparison's own constants cut out of [0,1].",
 "M04": "The two messages agree; what both get wrong alike is for M01, B03, M03 and H03.",
 "M05": "In Forwarded, a host or remote is named by a pair name=value between semicolons; what else that field may hold is for H09.",
 "I01": "Standard-library iterators behave as documented.",
})
