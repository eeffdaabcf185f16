"""What decides each property."""
TRUSTED = [
    "clang 18's AST of the code and the translation in vt/trans.py (semantics listed in DESIGN.md)",
    "vt/prelude.mlw: contracts of the standard containers and integer conversions",
    "Why3 1.6 (VC generation), z3 4.8.12, cvc5 1.1.2, z3-new",
]
NAC = ("-fno-access-control",)
BND = "concrete cases generated on every run, bounded by the time given to the harness; labelled bounded, never counted as proved"
SCAN = ["what Lexer::generate and LogParser::add_rules build (exercised by the harness): the root of the lexer's automaton is not accepting, a newline is a token, m_is_first_char are the characters the root has a transition for, "
        "and the reserved rules match what they are named for (the newline rule exactly one newline, the timestamp behind a newline a text that starts with one; no rule has the ids of the end or of static text)",
        "the reader stores characters only at the requested place and reports success only with at least one; no character is the byte 0xFD, which stands for the start of the input",
        "buffers of at most 2^29 characters"]
PARSER = SCAN + ["ReaderParser and BufferParser, which call LogParser::parse, read_into_input and increase_capacity in a loop, are only exercised by the harness (bounded)"]
LEX = ("lexer", "Lexer::.*|RegexDFAState::next")
NEXTSYM = ("nextsym", ".*")
PARSE = ("parser", "LogParser::parse")
OUT = ("outview", ".*")
CHECKS = {
    "P01": dict(
        harness="p01.cpp", level="exploration", budget=12, budget_thorough=240, instances=3,
        rule="random patterns and rule lists (nesting up to 4, repetition bounds up to 4, sets that touch each other); a case is one automaton, compared with a derivative-based reference on every reachable pair of states (all strings, up to 3000 pairs); distinct texts count",
    ),
    "P02": dict(
        harness="p02.cpp", level="exploration", budget=12, budget_thorough=240, instances=3,
        rule="random rule lists turned into automata; a case is one list, the deterministic automaton is compared with the nondeterministic one on every reachable pair of states and all 256 bytes (up to 2000 pairs); distinct texts count",
    ),
    "P03": dict(
        units=[("group", ".*")], harness="p03.cpp", flags=NAC, level="proof", budget=12, budget_thorough=240, instances=2,
        rule="random sets of ranges (overlapping, adjacent, at the limits); a case is one set or pattern, compared at every boundary code point; distinct texts count",
        assumptions=["callers add only ranges of code points (at most 0x10FFFF, ends in order) and fewer than 2^32 delimiters",
                     "std::sort leaves the elements in order"],
    ),
    "P04": dict(
        harness="p04.cpp", level="exploration", budget=12, budget_thorough=240, instances=3,
        rule="random pairs of deterministic automata; a case is one pair, compared with the types found by a product search; distinct texts count",
    ),
    "P05": dict(
        harness="p05.cpp", level="exploration", budget=12, budget_thorough=240, instances=3,
        rule="random patterns with captures; a case is one pattern, every accepting path up to a length is walked; distinct texts count",
    ),
    "P06": dict(
        harness="p06.cpp", lib=True, level="exploration", budget=25, budget_thorough=300, instances=5,
        rule="random schema texts printed from patterns, with random spacing, and broken texts; a case is one text, the patterns read are compared with those printed; distinct texts count",
    ),
    "P07": dict(
        units=[("group", "RegexASTGroup::(set_possible_inputs_to_true|remove_delimiters_from_wildcard)")], harness="p07.cpp", lib=True, level="exploration", budget=20, budget_thorough=300, instances=5,
        rule="random schemas (several delimiters rules, repeated names, patterns that match delimiters); a case is one schema; distinct texts count",
    ),
    "P08": dict(
        units=[PARSE, LEX, NEXTSYM, OUT], assumptions=PARSER,
        harness="p08.cpp", lib=True, level="exploration", budget=20, budget_thorough=300, instances=5,
        rule="random schemas and texts, through both parsers; a case is one schema and text; distinct ones count",
    ),
    "P09": dict(
        units=[LEX, NEXTSYM], assumptions=PARSER,
        harness="p09.cpp", lib=True, level="exploration", budget=20, budget_thorough=300, instances=5,
        rule="random schemas and texts; a case is one schema and text, tokens compared with a reference that sees the whole text; distinct ones count",
    ),
    "P10": dict(
        units=[LEX, NEXTSYM, ("inbuf", ".*")], assumptions=PARSER, harness="p10.cpp", lib=True, level="exploration", budget=25, budget_thorough=300, instances=5,
        rule="random schemas and long texts (tokens around the buffer boundaries, growth); a case is one schema and text; distinct ones count",
    ),
    "P11": dict(
        units=[PARSE, ("nextsym", "LogParser::get_next_symbol")], assumptions=PARSER,
        harness="p11.cpp", lib=True, level="exploration", budget=20, budget_thorough=300, instances=5,
        rule="random schemas with and without timestamps and multi-line texts; a case is one schema and text; distinct ones count",
    ),
    "P12": dict(
        units=[PARSE, LEX, ("nextsym", "LogParser::(get_next_symbol|reset)")], assumptions=PARSER,
        harness="p12.cpp", lib=True, asan=True, level="exploration", budget=20, budget_thorough=300, instances=5,
        rule="random texts handed to the buffer parser in random pieces; a case is one schema, text and division; distinct ones count",
    ),
    "P13": dict(
        units=[("lexer", "Lexer::(reset|prepend_start_of_file_char)"), ("nextsym", "LogParser::reset"), ("inbuf", "ParserInputBuffer::reset|Buffer::reset"), ("outview", "LogParserOutputBuffer::reset")], assumptions=PARSER,
        harness="p13.cpp", lib=True, level="exploration", budget=20, budget_thorough=300, instances=5,
        rule="random sequences of parses interrupted by resets; a case is one schema and history; distinct ones count",
    ),
    "P14": dict(
        harness="p14.cpp", lib=True, level="exploration", budget=20, budget_thorough=300, instances=4,
        rule="random events read through both parsers, deep copies asked after the parser moved on; a case is one schema and text; distinct ones count",
    ),
    "P15": dict(
        units=[("token", ".*")], harness="p15.cpp", lib=True, only=["Token.cpp"], asan=True, level="proof", budget=8, budget_thorough=120, instances=2,
        rule="random buffers and token positions (wrapping ones, empty ones, all operations repeated); a case is one token; distinct ones count",
    ),
    "P16": dict(
        units=[("outbuf", ".*"), ("inbuf", "Buffer::.*|ParserInputBuffer::(increase_capacity|reset|set_storage)")],
        harness="p16.cpp", lib=True, only=["LogParserOutputBuffer.cpp", "ParserInputBuffer.cpp", "Token.cpp"], asan=True, level="proof",
        assumptions=["buffers of at most 2^31-1 items", "moving the vectors of the dynamic storages keeps their elements in place (std::vector move)",
                     "callers access items only within the size of the active storage (the caller's side is proved for ParserInputBuffer and LogParserOutputBuffer)"], budget=10, budget_thorough=180, instances=2,
        rule="random operation sequences on the buffers under the address sanitizer; a case is one sequence; distinct ones count",
    ),
    "P17": dict(
        units=[("registers", ".*")], harness="p17.cpp", lib=True, only=["PrefixTree.cpp"], asan=True, level="proof",
        budget=6, budget_thorough=120,
        rule="random operation sequences on a tree and on a register handler, numbers in and out of range; a case is one sequence, compared with explicit histories",
        assumptions=["fewer than 2^32-1 nodes are inserted into one tree"],
    ),
    "P18": dict(
        units=[("symbols", ".*")], harness="p18.cpp", lib=True, level="proof", budget=10,
        assumptions=["fewer than 2^32-1 names in one parser", "LALR1Parser::add_production, which also numbers the heads of the grammar of schema files, is only exercised by the harness"], budget_thorough=180, instances=3,
        rule="random sequences of rule names (reserved ones, repeated ones) and schemas, both directions of the lookup compared with a map; a case is one sequence; distinct ones count",
    ),
    "P19": dict(
        units=[("filereader", ".*")], trusted=["contracts of fopen, fclose, fread, getdelim, ferror, feof and errno (specs/filereader.py)"],
        assumptions=["getdelim does not fail for lack of memory", "the file does not change while it is read"],
        harness="p19.cpp", lib=True, only=["FileReader.cpp"], asan=True, level="proof", budget=8, budget_thorough=120, instances=2,
        rule="random files (empty, with zero bytes, long lines, no last delimiter) and random sequences of block and line reads; a case is one file and sequence; distinct ones count",
    ),
    "P20": dict(
        harness="p20.cpp", flags=NAC, level="exploration", budget=10, budget_thorough=180, instances=2,
        rule="random operation sequences on a tree, compared with a list of intervals, with the balance checked; a case is one sequence; distinct ones count",
    ),
    "P21": dict(
        harness="p21.cpp", flags=NAC, level="exploration", budget=10, budget_thorough=180, instances=2,
        rule="automata of random patterns and random graphs (cycles, unreachable states, tagged transitions); a case is one automaton, its printed form compared byte by byte with an independent breadth-first walk; distinct ones count",
    ),
}
for c in CHECKS.values():
    c.setdefault("bounded", BND)
    if c.get("units"):
        c["rule"] = "obligations of the functions under contract, all inputs; and, bounded: " + c["rule"]
