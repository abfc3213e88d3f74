"""Which harnesses decide which property, and within what bounds."""


def H(name, what, reach=(), **kw):
    d = dict(name=name, what=what, reach=list(reach))
    d.update(kw)
    return d


PROPS = {}

PROPS["C04"] = dict(
    harnesses=[
        H("uses1", "one edit of any sort on a program that has every instruction kind; all operand choices",
          [1, 2, 3, 4, 5, 6, 7, 8]),
        H("uses2", "two edits in sequence", [1, 2, 3, 4, 5, 6, 7]),
        H("uses_wide", "an edit of instructions with up to 33 operands and values with up to 33 users", [0]),
        H("uses_funcs", "three edits of globals used by three functions, which are removed and put back", [1, 2, 3, 4]),
        H("uses3", "three edits in sequence", [2, 3, 4, 5], quick=dict(skip=True), thorough=dict(timeout=1200)),
    ],
    bounds="sequences of up to 2 (thorough: 3) edits from a program of about 35 values that has every instruction "
           "kind; operands from 2 to 4 candidates each, integer constants symbolic over 32 bits; one edit of instructions with "
           "up to 33 operands and values with up to 33 users; three edits of globals shared by three functions that come and go",
    outside="operations on values that do not exist; a value made to use itself; edits through `bbs_mut`/`params_mut` "
            "that bypass the graph")

PROPS["C05"] = dict(
    harnesses=[
        H("build_data", "constants, aggregates of up to three elements, allocations"),
        H("build_mem", "load, store, getptr, getelemptr, ret with operands of every type", [0, 1, 2, 3, 4, 101, 102, 103]),
        H("build_bin", "every binary operator, every pair of operand types", [0, 100]),
        H("build_jump", "jumps to blocks with 0 to 2 parameters and 0 to 3 arguments", [0, 1, 100, 101]),
        H("build_branch", "branches without arguments", [0, 100]),
        H("build_branch1", "branches with up to one argument a side", [0, 100], thorough=dict(skip=True)),
        H("build_branch2", "branches with up to two arguments a side", [0, 100]),
        H("build_call", "calls with 0 to 3 arguments of functions with 0 to 2 parameters", [0, 100]),
        H("build_global", "global values", [0]),
        H("build_names", "names of values, blocks and functions; types of parameters", [0, 1, 2, 100, 101, 102]),
        H("build_wide", "four to 33 operands or parameters, all right or with one flaw at any place",
          [0, 1, 2, 3, 4, 100, 101, 102, 103, 104]),
        H("build_tall", "operand types of up to twelve layers that agree but for one layer",
          [0, 1, 2, 3, 4, 5, 6, 7, 100, 101, 104, 105, 106, 107]),
        H("build_moved", "functions made on their own, taken out of a program and put back or into another; calls, globals and operands there",
          [0, 1, 2, 100, 101, 102]),
        H("build_params", "blocks some of whose parameters were taken away or put in another order", [0, 100]),
        H("build_odd_names", "long names, names that are not ASCII, names with every kind of first character", [0, 100]),
    ],
    bounds="operands from a pool of 14 values covering i32, unit, arrays, pointers to each, pointer to pointer and "
           "function types, constant or not, local or global; lists of up to three operands of any kinds, and of up to 33 with one flaw; "
           "names of up to three symbolic bytes below 0x80, and 28 long or unusual ones; new values and replacements; operand "
           "types of up to 12 layers; functions moved between two programs; blocks whose parameter lists were edited",
    outside="operands that do not exist")

PROPS["C06"] = dict(
    harnesses=[
        H("type_identity", "two types of at most one constructor each", [1, 2], opts=dict(hash_mode=2)),
        H("type_identity12", "types of at most one and two constructors", [1, 2], opts=dict(hash_mode=2)),
        H("type_identity2", "two types of at most two constructors each", [1, 2], opts=dict(hash_mode=2),
          quick=dict(skip=True), thorough=dict(timeout=2400)),
        H("type_size", "sizes for any length and any pointer size", [0], opts=dict(hash_mode=2)),
        H("type_text", "the printed form", [0], opts=dict(hash_mode=2), deep="type_text2"),
        H("type_zero_len", "arrays of length zero", opts=dict(hash_mode=2)),
        H("type_many", "forty types at once"),
        H("type_wide", "function types of up to 65 parameters, and those that differ in one place", [0, 1, 2]),
        H("type_tall", "types of up to 40 layers, and those that differ in one layer, any pointer size", [0],
          opts=dict(hash_mode=2)),
        H("type_long", "array lengths of up to 64 bits", [0]),
    ],
    bounds="types of nesting up to 2 with up to two parameters per function type; array lengths symbolic: 64 bits for "
           "identity, 8 bits for sizes (with a pointer size of 16 bits), below 1000 for the printed form; function types of up to "
           "65 parameters and types of up to 40 layers that differ in one place",
    outside="sizes that do not fit the machine word; several threads (the pool of types is per thread)")

PROPS["C07"] = dict(
    harnesses=[
        H("frame_local", "one edit of a function, everything else compared", [0, 1, 2, 3, 4]),
        H("frame_global", "one edit of a program, everything else compared", [0, 1]),
        H("handles_many", "66000 handles of one sort, kept or removed again", [0],
          opts=dict(max_steps=3000000000)),
        H("handles5", "up to five creations and removals over two programs", [0], deep="handles6"),
        H("lists6", "the lists of globals and functions after each of six (thorough: seven) creations and removals", [0],
          deep="lists7"),
    ],
    bounds="one edit on a program with every instruction kind; histories of 5 (thorough: 6) creations and removals of "
           "values, blocks and functions over two programs; 66000 handles of one sort",
    outside="more than 2^30 values (handles are 32-bit counters)")

PROPS["C08"] = dict(
    harnesses=[
        H("layout2", "two operations on the lists of blocks and instructions, every operand", [1, 2, 3, 4, 5, 6]),
        H("layout_many", "up to 40 blocks, up to 65 instructions in one, two operations anywhere", [0, 1, 2, 3, 4, 5, 6],
          opts=dict(max_steps=3000000000)),
        H("layout3", "three operations", [1, 2, 3, 4, 5, 6], extra=True, thorough=dict(timeout=1500)),
        H("layout_pop", "taking the first or last one off a list"),
    ],
    bounds="sequences of 3 of 18 list operations over 4 blocks and 5 instructions, from a layout of "
           "three blocks with 3, 1 and 0 instructions; 2 operations anywhere in layouts of up to 40 blocks and 65 instructions",
    outside="one instruction put into two blocks at once; putting a removed block node back in with its instructions")

PROPS["C09"] = dict(
    harnesses=[
        H("eq_inst", "pairs of instructions of each kind, all operand choices, integers symbolic", [0, 1]),
        H("eq_zoo", "all pairs of values of a program that has every instruction kind", [0, 1]),
        H("eq_alike", "pairs that differ only in a parameter's number, a callee or a target of the same type", [0, 1]),
        H("eq_wide", "up to 64 operands or layers, one of which is a symbolic integer", [0, 1]),
        H("eq_nest", "pairs of nested expressions over symbolic integers", [0, 1]),
    ],
    bounds="expressions of depth up to 4; integer constants symbolic over 32 bits; operands from up to 9 candidates; up to 64 "
           "operands or layers with one symbolic integer anywhere",
    outside="cyclic value graphs")

PROPS["C02"] = dict(
    harnesses=[
        H("parse_edit", "a text with one of everything, one token replaced, inserted or left out anywhere", [1, 2],
          opts=dict(max_steps=6000000), deep="parse_edit2", thorough=dict(timeout=2400)),
        H("parse_byte", "the same text with one byte (any of 256) inserted or replaced anywhere", [1, 2],
          opts=dict(hash_mode=2, max_steps=6000000)),
        H("parse_bytes", "every text of up to three (thorough: five) bytes", [2], opts=dict(max_steps=6000000),
          deep="parse_bytes5"),
        H("parse_cut", "the text cut off anywhere", [1, 2], opts=dict(max_steps=6000000)),
        H("parse_io", "the input failing anywhere", [0, 1], opts=dict(max_steps=6000000)),
        H("parse_many", "thousands of comments, blank lines and items in a row", [0, 1],
          opts=dict(max_depth=400, max_steps=100000000)),
        H("parse_chain", "hundreds of blocks in a row", [0], opts=dict(max_depth=400, max_steps=100000000)),
    ],
    bounds="a text of 150 tokens with one edit from 46 tokens (thorough: two edits within 9 tokens), with one symbolic "
           "byte, cut off or failing at every byte; every text of at most 3 (thorough: 5) bytes; a run takes at most six "
           "million IR instructions; eight sorts of repetition (thousands natively)",
    outside="texts that nest thousands deep (the parser recurses)")

PROPS["C10"] = dict(
    harnesses=[
        H("llvm_arith", "two operations, all operators, operands and run-time values", [100, 101]),
        H("llvm_mem", "globals, allocations, aggregates, pointers, loads and stores", [100, 101]),
        H("llvm_flow", "loops, exchanges of block parameters, branches, loose jumps", [100]),
        H("llvm_call", "calls of earlier, later, recursive and external functions", [100]),
        H("llvm_types", "values of any type in calls, memory and block parameters", [100], deep="llvm_types2"),
        H("llvm_names", "names that collide in two (thorough: three) of nine places", [100], deep="llvm_names3"),
        H("llvm_ops2", "every instruction, any two operands replaced", [100]),
        H("llvm_huge", "up to 300 of one sort of thing: elements, globals, functions, parameters, instructions, users, blocks, arguments", [100],
          opts=dict(max_steps=3000000000)),
        H("llvm_aggs", "aggregates of up to nine elements wherever one can be written", [100]),
        H("llvm_many", "a dozen of everything, named in six ways", [100]),
        H("llvm_long", "names around the length limit", [100]),
    ],
    bounds="programs of up to four blocks and five functions from eight families, names from nine candidates, types of "
           "nesting 1 (thorough: 2); all 32-bit arguments and results of external calls; up to 8 blocks executed a run "
           "(16 with calls); up to 300 elements, globals, functions, parameters, instructions, users, blocks or arguments",
    outside="programs that the documented typing rules exclude; blocks with parameters that nothing jumps to; names "
            "with characters the text form does not allow; runs past a division by zero, a shift out of range or an "
            "access out of bounds")

PROPS["C01"] = dict(
    harnesses=[
        H("text_arith", "expressions, all operators and operands", [0]),
        H("text_mem", "globals, allocations, aggregates, pointers, loads and stores", [0]),
        H("text_flow", "loops, block parameters, branches, loose jumps", [0]),
        H("text_call", "calls of earlier and external functions", [0]),
        H("text_names", "names that collide in two (thorough: three) of nine places", [0], deep="text_names3"),
        H("text_types", "values of any type", [0], deep="text_types2"),
        H("text_ops2", "every instruction, any two operands replaced", [0]),
        H("text_huge", "up to 300 of one sort of thing: elements, globals, functions, parameters, instructions, users, blocks, arguments", [0],
          opts=dict(max_steps=3000000000)),
        H("text_aggs", "aggregates of up to nine elements wherever one can be written", [0]),
        H("text_many", "a dozen of everything, named in six ways", [0]),
        H("text_long", "names around the length limit", [0]),
        H("text_ints", "integers of up to three digits and around the limits", [0], deep="text_ints5",
          thorough=dict(timeout=1800)),
    ],
    bounds="programs of up to four blocks and five functions from eight families, names from nine candidates, types of "
           "nesting 1 (thorough: 2), integers of up to 3 (thorough: 5) digits and next to the limits; up to 300 of one sort of thing",
    outside="what the text form cannot say: blocks that cannot be reached, functions used before they are defined, "
            "aggregates and initializers as block arguments; names with characters the text form does not allow")

PROPS["C03"] = dict(
    harnesses=[
        H("lex_bytes", "every ASCII text of up to three (thorough: four) bytes", [0, 1], deep="lex_bytes4"),
        H("lex_words", "every word of the language with one byte replaced or added, between other words", [0, 1]),
        H("lex_ints", "integer literals around the limits of 64 bits", [0, 1]),
        H("lex_long", "long tokens, comments and gaps, and what follows them, in pieces", [0], deep="lex_long5"),
        H("lex_comments", "comments of any bytes and what follows them", [0, 1], deep="lex_comments5"),
    ],
    bounds="every ASCII text of up to 3 (thorough: 4) bytes; 46 words with one symbolic byte; integers of up to 25 digits "
           "of which two are symbolic; comments with up to 3 (thorough: 5) symbolic bytes; "
           "tokens and gaps of 62 to 4089 (thorough: 65529) bytes",
    outside="bytes above 0x7f outside comments (only refused or accepted without failing: C02)")

PROPS["C14"] = dict(
    harnesses=[
        H("front_edit", "a text with one of everything, one token replaced, inserted or left out anywhere", [0, 1]),
        H("front_byte", "the same text with one byte (any ASCII) inserted or replaced anywhere", [0, 1],
          opts=dict(hash_mode=2, max_steps=6000000)),
        H("front_dom", "visibility in every control flow of three (thorough: four) blocks", [0, 1], deep="front_dom4",
          thorough=dict(timeout=1500)),
        H("front_meet", "visibility where paths part and meet again, four blocks", [0, 1]),
        H("front_flow", "block parameters, the entry as target, targets that do not exist", [0, 1]),
        H("front_stmts", "one statement of each kind over operands and types of all sorts", [0, 1],
          deep="front_stmts7"),
        H("front_init", "initial values against types", [0, 1]),
        H("front_args", "argument lists against parameter lists", [0, 1]),
        H("front_names", "names that collide in two (thorough: three) of twelve places", [0, 1], deep="front_names3"),
        H("front_two", "two functions with the same names, one name (thorough: two) of either replaced", [0, 1], deep="front_two2"),
        H("front_twin", "two names with a symbolic character each", [0, 1], opts=dict(hash_mode=2)),
        H("front_ints", "integers with symbolic digits wherever they can stand", [0, 1], opts=dict(hash_mode=2)),
        H("front_gaps", "spaces and comments between any two tokens", [0, 1]),
        H("front_items", "definitions in any order, three (thorough: four) out of eight", [0, 1], deep="front_items4"),
        H("front_big", "lists, chains, names and types of 8 to 130 parts with at most one mistake", [0, 1],
          opts=dict(max_depth=2000, max_steps=1000000000)),
        H("front_toks", "up to three (thorough: four) of 22 tokens in the place of a statement, type or initial value",
          [0, 1], deep="front_toks4", thorough=dict(timeout=1500)),
    ],
    bounds="the sample text of 150 tokens with one edit (46 tokens) or one symbolic byte anywhere; control flow of 3 "
           "(thorough: 4) blocks with one definition and one use; one statement over 5 (thorough: 7) types; two "
           "(thorough: three) colliding names; lists of up to 3 parameters and 4 arguments; lists, chains, names and types of up "
           "to 130 parts with at most one mistake anywhere",
    outside="`ret` followed by `}` on its line or by a constant on the next one (the language does not say); bytes above "
            "0x7f (C02); what is reported about a rejected text beyond that something is")

PROPS["C15"] = dict(
    harnesses=[
        H("report_bytes", "a source of up to two (thorough: three) bytes of any value, an error anywhere in it", [1, 2],
          deep="report_bytes3"),
        H("report_lines", "where the report says the error is, lines with symbolic bytes", [1, 2, 3]),
        H("report_long", "reports over one to 257 of up to 300 lines", [3, 10]),
        H("report_wide", "reports in lines of up to 300 characters, with tabs", [2, 3]),
        H("report_counts", "how many errors and warnings a report counts", [0]),
        H("report_many", "drivers one after the other", [0, 1]),
        H("report_apart", "drivers created before others run", [0]),
        H("file_bytes", "a source file of up to two (thorough: three) bytes through the whole driver", [0, 1],
          deep="file_bytes3"),
        H("file_edit", "a source file with one byte of any value somewhere", [0, 1]),
        H("file_none", "a source file that cannot be opened, read or is not there", [0]),
    ],
    bounds="files of up to 2 (thorough: 3) bytes of any value with any reported part; files of 9 to 12 lines; the sample "
           "text of 150 tokens with one of nine odd byte strings anywhere; six reports of seven sorts in any order; up to "
           "25 mistakes; pairs out of six texts through two drivers; reports over up to 257 of 300 lines and in lines of up to 300 characters",
    outside="colours and the exact layout of what is shown; how many errors one mistake leads to")

PROPS["C11"] = dict(
    harnesses=[
        H("raw_arith", "expressions, all operators and operands", [0]),
        H("raw_mem", "globals, allocations, aggregates, pointers, loads and stores", [0]),
        H("raw_flow", "loops, block parameters, branches, loose jumps", [0, 1]),
        H("raw_call", "calls of earlier and external functions", [0]),
        H("raw_names", "names that collide in two places, and no names", [0]),
        H("raw_types", "values of any type", [0], deep="raw_types2"),
        H("raw_ops2", "every instruction, any two operands replaced", [0]),
        H("raw_huge", "up to 300 of one sort of thing: elements, globals, functions, parameters, instructions, users, blocks, arguments", [0],
          opts=dict(max_steps=3000000000)),
        H("raw_aggs", "aggregates of up to nine elements wherever one can be written", [0]),
        H("raw_many", "a dozen of everything, named in six ways", [0]),
        H("raw_loose", "values and blocks outside of the layout", [0, 1]),
        H("raw_twice", "several programs with one builder", [0]),
        H("raw_deep", "hundreds of blocks and functions in a row", [0], opts=dict(max_depth=400, max_steps=100000000)),
        H("raw_write", "a raw program written by C code from scratch", [0]),
        H("raw_write_mem", "the same with memory and types of all sorts", [0]),
        H("raw_errors", "one field of a raw program wrong", [0, 1, 7, 8, 9, 10]),
        H("raw_ints", "any 32-bit integer", [0], opts=dict(hash_mode=2)),
    ],
    bounds="programs of up to four blocks and five functions from seven families; types of nesting 1 (thorough: 2); up to 300 of one sort of thing; up to "
           "three programs a builder; one mistake in a raw program; integers symbolic over 32 bits",
    outside="pointers that point nowhere, lists whose length is wrong, cyclic types: what C code must not pass")

PROPS["C12"] = dict(
    harnesses=[
        H("threads_two", "two threads, each doing one of six jobs, two (thorough: three) interruptions", [0],
          deep="threads_two3", thorough=dict(timeout=1200)),
        H("threads_three", "three threads creating every sort of thing, two interruptions", [0]),
        H("threads_size", "the size of pointers in threads", [0]),
    ],
    bounds="two threads (three for creations), each doing one of: creating every sort of thing, building and printing a program, "
           "reading a valid text, reading a faulty one, types, the C interface; switches where a thread ends or waits, and "
           "up to 2 (thorough: 3) more before any access to memory that threads share, the schedule being symbolic",
    outside="effects of weak memory order beyond interleavings; one program used by two threads at once (the types forbid it)")

PROPS["C13"] = dict(
    harnesses=[
        H("c_string", "texts put into C strings, any buffer length", [0, 6]),
        H("c_null", "names with any ASCII byte in C strings", [0, 5], opts=dict(hash_mode=2)),
        H("c_parse_string", "C strings with odd bytes", [0, 1, 3], deep="c_parse_string2"),
        H("c_parse_all", "texts from files, descriptors and standard input, in pieces and with interruptions", [0, 3]),
        H("c_parse_none", "what cannot be opened or read to the end", [0, 1]),
        H("c_dump_all", "texts to files, descriptors and standard output, in pieces and with interruptions", [0]),
        H("c_dump_full", "the disk full after any number of bytes", [0, 1]),
        H("c_big_out", "texts of 1023 to 16385 bytes, to anywhere, and the disk full at the usual places", [0, 1],
          opts=dict(max_steps=3000000000)),
        H("c_big_string", "texts of 1023 to 16385 bytes in C strings", [0, 6],
          opts=dict(max_steps=3000000000)),
        H("c_big_in", "something around the 1024th to 16384th byte of a text, from anywhere", [0, 3],
          opts=dict(max_steps=3000000000)),
        H("c_dump_none", "what cannot be opened or written", [0]),
        H("gen_sink", "writers that take little, stop, or fail anywhere", [0, 1]),
        H("gen_visitor", "a visitor of the user's own, run four times, failing anywhere", [0, 1]),
        H("gen_again", "generators used twice, also after a failure", [0, 1]),
    ],
    bounds="four programs, ten texts; buffers of any length (64 bits); failures after any number of bytes (texts under 250 "
           "bytes, else nine places); transfers of 1, 3, 5, 7 bytes or all at once; strings with one symbolic byte beside "
           "22 byte strings (thorough: two symbolic bytes); texts of 1023 to 16385 bytes with the ends and faults at nine places; a "
           "visitor of the user's own, failing anywhere",
    outside="descriptors that the caller goes on using (the calls close them); standard output failing; files that change "
            "while they are read")

PROPS["C16"] = dict(
    harnesses=[
        H("pass_runs", "pass managers with passes that look, add and remove", [0, 1, 2, 3], deep="pass_runs4"),
        H("pass_many", "up to 17 passes over up to 33 functions, one pass of another sort", [0],
          opts=dict(max_steps=3000000000)),
    ],
    bounds="up to 3 (thorough: 4) passes of five sorts, three ways to register them, up to 3 functions at first, one or two "
           "runs; up to 17 passes over up to 33 functions",
    outside="the order in which a function pass meets the functions")

PROPS["C17"] = dict(
    harnesses=[
        H("names_plain", "names of the text form, asked for in any order", [0, 1, 2], deep="names_plain4"),
        H("names_custom", "names with other prefixes and a length limit", [0, 1, 2], deep="names_custom3"),
        H("names_scopes", "three functions one after another, names in between", [0, 1, 2], deep="names_scopes3"),
        H("names_scopes_one", "the same with one space for values and labels", [0, 1, 2]),
        H("names_again", "three functions one after the other that want the same up to 100 names", [0]),
        H("names_many", "56 things that want the same names", [0]),
        H("names_crowd", "65 to 130 things of one sort that want the same name", [0], opts=dict(max_steps=1000000000)),
        H("names_cut", "names of characters of one to four bytes and every length limit", [0, 1]),
        H("names_scope", "entering and leaving functions, names of constants", [0]),
    ],
    bounds="3 (thorough: 4) and 2 (thorough: 3) requests in one function and one in the next, and requests in and between three functions, for two functions, globals, "
           "blocks and values each and temporary names, wanting any of 5 to 7 names; four naming styles; names of up to 18 bytes with every length limit from 2 to 17; up to 100 names wanted again in three functions; up to 130 things that want one name",
    outside="how a name that is taken is changed; the length of changed names; prefixes that make two names alike")

PROPS["C18"] = dict(
    feature="nolog",
    harnesses=[
        H("quiet_bytes", "a text of up to three (thorough: four) bytes of any value, read by both builds", [0, 1], deep="quiet_bytes4"),
        H("quiet_edit", "the sample text with one token replaced, inserted or left out anywhere", [0, 1]),
        H("quiet_byte", "the sample text with one byte of any value inserted or replaced anywhere", [0, 1], opts=dict(hash_mode=2)),
        H("quiet_cut", "the sample text cut off, or failing to be read, anywhere", [0, 1]),
        H("quiet_front", "eight families of texts that follow or break one rule", [0, 1],
          opts=dict(hash_mode=2, max_depth=2000, max_steps=1000000000)),
        H("quiet_many", "up to 25 mistakes of two of seven sorts", [0, 1]),
        H("quiet_apart", "three texts one after the other, from files and memory, with reports in between", [0, 1]),
        H("quiet_reports", "three reports of six sorts by users of spans, at places with symbolic bytes", [0]),
    ],
    bounds="texts of up to 3 (thorough: 4) bytes of any value; the sample text of 150 tokens with one edit, one symbolic byte, one "
           "end or one failure anywhere; the families init, args, names, twin, items, flow, two and big of C14; up to 25 mistakes; three "
           "drivers in a row",
    outside="whether the decision common to both builds is right (C14); the texts of the messages themselves; warnings, which the quiet build drops")

PROPS["C19"] = dict(
    harnesses=[
        H("tree_edit", "the sample text with one token replaced, inserted or left out anywhere", [0, 1, 2]),
        H("tree_byte", "the sample text with one byte (any ASCII) inserted or replaced anywhere", [0, 1, 2], opts=dict(hash_mode=2)),
        H("tree_parts", "two (thorough: three) of 16 statements between two of eight definitions, each in order or not", [0, 1],
          deep="tree_parts3"),
        H("tree_names", "names with symbolic bytes, used five times", [0, 1], opts=dict(hash_mode=2)),
        H("tree_front", "eight families of texts that follow or break one rule", [0, 1, 2],
          opts=dict(hash_mode=2, max_depth=2000, max_steps=1000000000)),
    ],
    bounds="the sample text of 150 tokens with one edit (46 tokens) or one symbolic byte anywhere; up to 2 (thorough: 3) statements of "
           "16 sorts and two definitions of eight sorts with several mistakes; the families init, args, stmts, items, toks, gaps, flow "
           "and big of C14",
    outside="what follows a token that stands where nothing begins with it; where the span of a faulty part ends; tokens that the "
            "lexer refuses (C03); the wording of the reports")

PROPS["C20"] = dict(
    harnesses=[
        H("same_edit", "the sample text with one token replaced, inserted or left out anywhere, read twice", [0, 1, 2]),
        H("same_byte", "the sample text with one byte (any ASCII) inserted or replaced anywhere, read twice", [0, 1], opts=dict(hash_mode=2)),
        H("same_front", "ten families of texts that follow or break one rule, read twice", [0, 1, 2],
          opts=dict(max_depth=2000, max_steps=1000000000)),
        H("same_many", "2 to 17 blocks, parameters, values or items with the same mistake, in any of four orders, with eight "
          "orders of hash tables", [0, 1, 2]),
        H("same_after", "seven texts, read before and after two of four other activities", [0, 1]),
        H("same_text", "eight families of programs, written by three generators of each sort", [0]),
        H("same_ops", "every instruction kind and constant, written by three generators of each sort", [0]),
    ],
    bounds="two readings of each text, the hash tables of the second ordered in another way than those of the first (the seed of std's "
           "hasher differs; eight seeds in same_many, two elsewhere); the sample text of 150 tokens with one edit or one symbolic "
           "byte; ten families of C14; 2 to 17 mistakes of one sort; seven texts around two other activities; nine families of programs",
    outside="orders of hash tables that no seed among these gives; the order in which function passes visit functions, and of users in raw programs, "
            "which nobody promises")

