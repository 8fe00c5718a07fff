"""What each property's check builds and runs."""
CHECKS = {}

def add(prop, rule, exes, **kw):
    CHECKS[prop] = dict(rule=rule, exes=exes, **kw)

def exe(src, loads, name=None, **kw):
    d = dict(src=src, name=name or src[:-4], loads=loads)
    d.update(kw)
    return d

add("L01",
    "Random greedy rule sets spelled in random equivalent ways, tokenised through three iterator kinds; a case is a "
    "(rule set, input) pair; non-trivial when at least two different rules win a token in it.",
    [exe("l01.cpp", [("small", 2400, 30000), ("bytes", 800, 8000), ("keywords", 120, 1200), ("deep", 400, 5000)])],
    expect={"matched_tokens": 10000, "unknown_tokens": 1000})

add("L03",
    "Random rule sets mixing anchored and unanchored rules (whole rules and single alternatives), with and without states, skip and "
    "continuation rules, and rules that take a line end or need one to follow, on multi-line inputs from both line-start settings; non-trivial when at least two rules win, an anchored "
    "rule matches and an anchored rule is refused for its anchor only.",
    [exe("l03.cpp", [("fixed", 1, 1), ("narrow", 1600, 20000), ("wide", 700, 8000), ("across", 900, 9000), ("either", 900, 9000)])],
    expect={"bol_rule_matches": 2000, "eol_rule_matches": 2000, "anchor_blocked_matches": 2000, "line_end_taken": 5000, "line_end_not_taken": 5000, "end_of_input_instead": 1000})

add("L02",
    "Random machines using every rule feature, lexed to the end (and past it) through pointers at exact heap bounds, library iterators and "
    "an iterator that aborts on any access outside the input, including NUL, high and random characters; the monitor rebuilds the input "
    "from the reported bounds; non-trivial when the lexing delivered both matched and unknown tokens.",
    [exe("l02.cpp", [("narrow", 1500, 20000), ("wide", 800, 8000)])],
    expect={"matched_tokens": 20000, "unknown_tokens": 5000, "checked_reads": 10000, "gaps": 100, "minimal_results": 500})

add("L04",
    "Random 16 and 32 bit rule sets around byte and plane borders with arbitrary ranges, inputs drawn from the neighbours of every range "
    "border; and narrow against wide machines from one rule text; non-trivial when a rule wins and an unknown character occurs "
    "(model cases), or two rules win (narrow/wide cases).",
    [exe("l04.cpp", [("w16", 900, 12000), ("w32", 900, 12000), ("same", 500, 6000)])],
    expect={"matched_tokens": 20000, "unknown_tokens": 5000, "narrow_wide_comparisons": 1000})

add("L05",
    "Random rule sets over 2 to 5 lexer states with jumps, pushes with and without return state, pops, lists and wildcards, from any start "
    "state, and deeply nested bracket languages whose stack is compared element by element; non-trivial when at least two states are visited.",
    [exe("l05.cpp", [("narrow", 1400, 16000), ("wide", 400, 5000), ("nesting", 300, 4000)])],
    expect={"matched_tokens": 20000, "underflows": 200, "tokens_changing_state": 5000, "max_stack_depth": 10})

add("L06",
    "Random rule sets with skip and id-less rules in one or more states, and the usual comment idiom, compared token by token with the "
    "reference lexer; non-trivial when text was skipped or pieces joined and at least two tokens were delivered.",
    [exe("l06.cpp", [("narrow", 1400, 16000), ("wide", 500, 6000), ("comment", 300, 4000)])],
    expect={"matched_tokens": 20000, "skipped_stretches": 2000})

add("L08",
    "Random machines over every combination of features, lexed with results declaring every superset of the machine's features, with and "
    "without advance and with and without a stack, compared with the reference lexer; non-trivial when tokens matched and characters were "
    "left to the caller.",
    [exe("l08.cpp", [("narrow", 640, 9600), ("wide", 192, 3200)])],
    expect={"matched_tokens": 100000, "characters_left_to_the_caller": 50000, "exact_feature_runs": 5000, "plain_runs": 20000, "stack_runs": 20000,
            "max_feature_sets_and_kinds": 128})

add("L07",
    "Rules of the form opening, non-greedy repeat of a set, closing text (up to six pieces, in repeated groups too, with every operator and bounds, with a greedy repeat at the end), trailing "
    "non-greedy operators in nested groups and several alternatives, beside each other and beside greedy rules, compared with the "
    "shortest-prefix reference (with several repeats: closing text begun before a match may go on, a repeat never); bounded repeats overlapping their closing text (a known finding) must still never begin another repeat "
    "after the first match; non-trivial when a delivered token could also have been matched longer by its rule.",
    [exe("l07.cpp", [("fixed", 1, 1), ("narrow", 2400, 30000), ("wide", 700, 8000), ("overlap", 1500, 20000), ("dropped", 1000, 10000)]),
     exe("l07.cpp", [("narrow", 300, 5000), ("overlap", 200, 3000), ("dropped", 150, 2000)], name="l07-debug", san="debug")],
    expect={"matched_tokens": 20000, "matches_with_a_longer_alternative": 5000, "greedy_ends": 30, "shared_openings": 30, "kept_branches": 1000})

add("R04",
    "Every category, block and script name of the shipped data files, each probed over every code point (negations of blocks and scripts: "
    "over the neighbourhood of every range border), random unions of properties and ranges inside brackets in three rule/input character "
    "type combinations, and names that do not exist (every name cut, lengthened or misspelt); non-trivial is every distinct expression probed.",
    [exe("r04.cpp", [("fixed", 1, 1), ("every", 1200, 1200), ("mixed", 400, 6000)], opt="-O1")],
    expect={"properties_checked": 1000, "characters_probed": 100000000, "bad_names_rejected": 30000})

add("R01",
    "Random single-character expressions in every notation (nested classes, negation, named classes, properties, all escapes, set "
    "difference and union chains) probed with every narrow character or with the neighbourhood of every border of the expected set, for "
    "four character types and two narrow locales; and texts that denote no set. Non-trivial: more than one notation or character.",
    [exe("r01.cpp", [("narrow", 1500, 30000), ("w16", 250, 4000), ("w32", 250, 4000), ("reject", 2000, 20000), ("followed", 114, 114)])],
    expect={"expressions_checked": 8000, "invalid_texts_rejected": 1500, "wrong_class_names": 100, "characters_probed": 2000000})

add("R05",
    "Every cased letter of the shipped data alone and inside ranges, random single-character expressions and whole regexes with the option "
    "given globally, inline, nested and switched off again, for narrow (two locales), 16 and 32 bit lexers; probed on the expected sets, "
    "their neighbourhoods and the other case of those. Non-trivial: distinct expressions denoting more than one character.",
    [exe("r05.cpp", [("narrow", 800, 20000), ("w16", 200, 4000), ("w32", 250, 4000), ("letters", 6000, 6000), ("texts", 1200, 16000)])],
    expect={"expressions_checked": 4000, "letters_checked": 10000, "characters_probed": 1000000, "lookups": 50000})

add("R02",
    "Random regex trees, each spelled four ways (minimal; with redundant groups, quoted strings, comments, ignorable white space, scoped "
    "and nested options, alternative escapes and repeat notations) under different global options, all compared with one reference; and "
    "a hand-written table of operators, precedence and malformed texts. Non-trivial: a spelling that both matches and rejects text.",
    [exe("r02.cpp", [("fixed", 1, 1), ("narrow", 1200, 16000), ("wide", 400, 5000), ("counts", 120, 3000)])],
    expect={"spellings": 5000, "scoped_groups": 2000, "quoted_runs": 500, "matched_tokens": 20000, "hand_written": 60})

add("R03",
    "Random token soups and damaged regexes against an independent parser of the documented grammar (accepted or refused, and if accepted "
    "the meaning on random inputs); the same texts with arbitrary characters given as rules, macros, state and exit names under random "
    "options in five character type combinations, built and run through an iterator that aborts outside the input; names; every two repeats in a "
    "row, brought together by spaces, comments or macros; 34000 near misses of property names. Non-trivial: distinct texts that were refused, or accepted and built.",
    [exe("r03.cpp", [("fixed", 1, 1), ("grammar", 1600, 24000), ("anything", 1200, 20000), ("names", 200, 2000)]),
     exe("r03.cpp", [("fixed", 1, 1), ("grammar", 300, 5000), ("anything", 300, 5000)], name="r03-debug", san="debug")],
    expect={"invalid_texts": 10000, "valid_texts": 5000, "machines": 2000, "names": 5000, "inputs_compared": 10000, "two_repeats": 50000, "wrong_property_names": 30000})

add("R08",
    "Malformed pieces of about 100 kinds put behind random valid text, inside groups, before valid, random or no text, and random token soups, given "
    "as rules of two lexer states and as macros in three character types; the error must name the id or the macro, and the position, less the "
    "length of what stands before, must lie within the piece and be that found when it follows a single group. Non-trivial: distinct refused texts.",
    [exe("r03.cpp", [("messages", 1600, 24000)])],
    expect={"refusals": 30000, "positions": 20000, "positions_placed": 10000})

add("R06",
    "Random macros defined through each other (sets, sequences, repeats, alternations) and used anywhere in rules, under any operator and as "
    "operands of set difference and union, compared with the reference on the expanded tree and with the machine of the expanded text; "
    "macros defined under other options than those of the rule; non-greedy operators in and around macros; macros with anchors at either end, used "
    "at the beginning, inside and at the end of rules and of other macros; refused definitions in between. "
    "Non-trivial: a rule with macros matched something.",
    [exe("r06.cpp", [("narrow", 1500, 20000), ("wide", 400, 5000), ("options", 300, 4000), ("lazy", 400, 5000), ("anchors", 500, 8000)]),
     exe("r06.cpp", [("narrow", 250, 4000), ("options", 60, 800), ("lazy", 100, 1500)], name="r06-debug", san="debug")],
    expect={"macro_uses": 3000, "macro_set_operations": 300, "matched_tokens": 20000, "refused_macros": 1000, "option_inputs": 5000, "lazy_inputs": 3000, "anchor_inputs": 8000, "macro_anchors": 3000, "macro_carets": 2000, "macro_dollars": 2000})

add("R07",
    "Random rule sets with anchors, states and skip rules, reversed once and compared with the reference on mirrored trees, reversed twice "
    "and compared with the reference and the unreversed machine; rules with macros, quotes and nested repeats on every text over three "
    "letters up to length six; rules with non-greedy operators against the same rules written backwards. Non-trivial: a reversed machine matched something.",
    [exe("r07.cpp", [("fixed", 1, 1), ("narrow", 1200, 16000), ("wide", 400, 5000), ("every", 300, 5000), ("lazy", 1500, 30000)]),
     exe("r07.cpp", [("narrow", 250, 4000), ("lazy", 300, 6000)], name="r07-debug", san="debug")],
    expect={"matched_tokens": 20000, "double_reversals": 5000, "lazy_sets": 800, "lazy_inputs": 40000, "was_bol_inputs": 500, "was_eol_inputs": 500, "texts_matched": 5000})

add("B01",
    "Random rule sets built to hide each other wholly or partly, in several states, with anchors and alternatives, under every combination "
    "of the two options; what is reportable is decided by an exhaustive search over all texts (product of simulated expressions), and every "
    "accepted rule is run on the text found for it. Non-trivial: a refused set, or an accepted set of several rules.",
    [exe("b01.cpp", [("fixed", 1, 1), ("narrow", 1600, 24000), ("wide", 400, 6000), ("chars", 400, 6000)])],
    expect={"empty_matching_reported": 150, "unreachable_reported": 1000, "accepted_sets": 2000, "witnesses": 2000})

add("M01",
    "Random machines with any mixture of features, word lists with many equal tails, and rules that differ from another only in identifier, action, anchor or one transition, compared before and after minimising (from every "
    "lexer state and both line-start settings, rows counted, minimised again); character machines through an interpreter of their fields. "
    "Non-trivial: rows were removed and tokens matched.",
    [exe("m01.cpp", [("narrow", 900, 12000), ("wide", 300, 4000), ("merge", 300, 4000), ("twins", 500, 8000)]),
     exe("m01.cpp", [("narrow", 200, 3000), ("merge", 80, 1000), ("twins", 120, 2000)], name="m01-debug", san="debug")],
    expect={"twin_rows_removed": 1000, "twin_states_removed": 1000, "rows_removed": 1000, "states_removed": 500, "matched_tokens": 20000})

add("M02",
    "Random machines with any mixture of features: the character machine built directly, and (narrow) converted from the table machine, run "
    "through an interpreter of their documented fields and compared token by token with lookups; transition sets inspected for overlap; the non-deterministic form followed as sets of paths. "
    "Non-trivial: at least two rules win, or paths branch.",
    [exe("m02.cpp", [("narrow", 1000, 14000), ("wide", 400, 5000), ("paths", 600, 8000)])],
    expect={"matched_tokens": 20000, "states_inspected": 10000, "underflows": 200, "path_prefixes": 30000, "path_accepts": 10000, "branching_texts": 3000})

add("M03",
    "Random machines of five character types and four id widths saved and loaded into fresh, used and equal machines through narrow and wide "
    "streams, saved again, several in one stream; every truncation point of small machines and samples of large ones, letters in place of "
    "digits, foreign headers and absurd counts. Non-trivial: the loaded machine matched something.",
    [exe("m03.cpp", [("fixed", 1, 1), ("machines", 450, 6000)])],
    expect={"loads": 900, "truncations": 20000, "corruptions": 4000, "mixed_loads": 36, "matched_tokens": 2000, "grouping_locale_cases": 50})

add("M04",
    "Random machines (every mixture of features, five character types, four id widths, minimised or not) and machines with thirty states or "
    "pushes in a single state written out as C++ in both table layouts, compiled with sanitizers, and run next to lookup from both line "
    "positions and every lexer state over pointers and list iterators. Non-trivial: something matched.",
    [exe("m04.cpp", [("fixed", 1, 1), ("batches", 64, 800)], libs=["-ldl"], flags=["-rdynamic", "-fno-sanitize=function"])],
    expect={"runs_compared": 8000, "functions_compiled": 700, "matched_tokens": 10000, "grouping_locale_cases": 100})

add("M05",
    "Text and graph dumps of random machines (built both ways, narrow and wide, and machines made of awkward sets and numbers; every pair and "
    "range of 8-bit characters) read back by an independent reader and compared with the machine; the read-back machine also lexes. "
    "Non-trivial: distinct machines dumped.",
    [exe("m05.cpp", [("fixed", 1, 1), ("built-narrow", 500, 12000), ("built-wide", 300, 6000), ("made-narrow", 2500, 60000), ("made-wide", 2500, 60000)])],
    expect={"text_dumps_read": 10000, "graphs_read": 6000, "pairs": 65536, "matched_tokens": 2000, "grouping_locale_cases": 500})

add("M06",
    "Dumps of random rule sets (all features, three character types, three id widths) and of rules with macros, read by an independent reader, "
    "pushed into new rules and compared rule by rule and by lexing; every pair and range of 8-bit characters as the text of a rule. "
    "Non-trivial: something matched.",
    [exe("m06.cpp", [("fixed", 1, 1), ("any-narrow", 2500, 60000), ("any-wide", 1200, 30000), ("macros", 3000, 70000)], opt="-O1", fixed_shards=8),
     exe("m06.cpp", [("any-narrow", 300, 6000), ("macros", 400, 8000)], name="m06-debug", san="debug")],
    expect={"pairs": 65536, "dumps_read": 6000, "rules_read": 150000, "macros_named_in_rules": 4000, "pieces_alike": 500, "with_anchors": 500, "matched_tokens": 100000, "several_states": 1000,
            "pushing_sets": 1000, "grouping_locale_cases": 1000})

add("D01",
    "Every pair of subsets of eight characters at both ends of three alphabets under union, difference, intersection and range insertion; "
    "random operation histories on four sets over 8, 16 and 32 bit alphabets checked after every step, with equality and order laws. "
    "Non-trivial: distinct sets reached.",
    [exe("d01.cpp", [("fixed", 1, 1), ("narrow", 8000, 200000), ("wide16", 8000, 200000), ("wide32", 8000, 200000)], opt="-O1")],
    expect={"subset_pairs": 393216, "inserts": 100000, "intersections_overlapping": 20000, "differences": 50000, "charset_intersections": 20000})

add("D02",
    "Every code point through every iterator; every one and two byte sequence, every lead byte with representative continuations, every 16-bit "
    "unit and surrogate combination, from exactly sized buffers; random walks forwards and backwards over five kinds of source, output "
    "positions compared with each other, damaged texts that must fail exactly at the damage, and lexing. Non-trivial: texts of several characters.",
    [exe("d02.cpp", [("fixed", 1, 1), ("texts", 3000, 80000), ("lexing", 2500, 60000)], opt="-O1", fixed_shards=2)],
    expect={"code_points": 1112064, "byte_sequences": 300000, "errors_seen": 300000, "steps": 500000, "units_encoded": 300000, "tokens_compared": 20000})

add("D03",
    "Random machines lexing streams delivered in random pieces through buffers and increments of 1 to 1024 characters, with nothing, the "
    "beginning or earlier results held alive; histories of creating, copying, assigning, stepping, comparing and destroying iterators of "
    "several streams; long streams with a heap meter. Non-trivial: distinct histories, and machines that matched.",
    [exe("d03.cpp", [("fixed", 1, 1), ("narrow", 500, 8000), ("wide", 300, 4000), ("histories", 12000, 200000)])],
    expect={"tokens_compared": 20000, "kept_texts_read": 10000, "copies": 40000, "assignments": 40000, "steps": 40000, "equal_pairs": 2000, "long_streams": 6})

add("D04",
    "Histories of opening, re-opening, closing and destroying one to three views of files of 23 sizes around page borders, empty, missing, "
    "too long, looping and unmappable paths, with open, stat and map failures injected, four character sizes and descriptor 0 free or not; "
    "contents, the process's mappings and descriptors inspected after every step. Non-trivial: distinct histories.",
    [exe("d04.cpp", [("fixed", 1, 1), ("histories", 8000, 200000)], fixed_shards=4,
         flags=["-Wl,--wrap=open,--wrap=fstat,--wrap=mmap", "-fno-sanitize=address"])],
    expect={"pairs": 3600, "views_compared": 20000, "states_inspected": 40000, "failures_injected": 3000, "refused": 3000})

add("D05",
    "Random machines with every feature (skip, continuation, anchors, states, pushes), all eighteen overloads with all kinds of input and "
    "output iterators, replacement texts with embedded NULs, and tables that cover some ids, unknown characters and absent ids, compared with "
    "the edit the machine's tokens describe. Non-trivial: at least two tokens replaced.",
    [exe("d05.cpp", [("fixed", 1, 1), ("narrow", 500, 8000), ("wide", 300, 5000)])],
    expect={"calls_compared": 30000, "tokens_replaced": 3500, "unknown_tokens": 1000, "copied_gaps": 300, "unfinished_ends": 20, "underflows": 500, "c_string_inputs": 500})

add("D06",
    "Random machines lexed through string, pointer, vector and list iterators in every alias of results and iterators; every accessor with "
    "all kinds of offsets, comparisons field by field, results cleared and reset (also from another text to a part of this one) at random points and used again; token iterators walked "
    "by both increments, copied, resumed, compared, through ranges and algorithms. Non-trivial: at least two tokens.",
    [exe("d06.cpp", [("narrow", 500, 8000), ("wide", 250, 4000), ("wide32", 250, 4000)]),
     exe("d06.cpp", [("narrow", 250, 4000)], name="d06-debug", san="debug")],
    expect={"results_read": 40000, "offset_pairs": 100000, "comparisons": 10000, "clears": 2000, "resets": 6000, "resets_elsewhere": 6000, "arguments_left_out": 2000, "iterator_results": 100000, "iterator_walks": 5000, "underflows": 500})

add("B02",
    "Histories of rule, macro, state, option, reverse and clear operations, valid and invalid, over two rules objects, one of which is "
    "spared the refused operations; everything visible of both compared after every step, machines built from copies, moved, assigned and "
    "refilled objects compared bit for bit, cut-short loads; and every allocation of a build or load failing in turn. "
    "Non-trivial: distinct histories with a refused operation and a build.",
    [exe("b02.cpp", [("narrow", 900, 20000), ("wide", 300, 6000), ("alloc", 160, 2000)])],
    expect={"operations_refused": 5000, "operations_done": 5000, "builds": 1500, "failed_builds": 1500, "rebuilds": 10000, "failed_loads": 300, "states_cleared": 5000,
            "allocation_failures": 10000, "character_machine_failures": 10000, "load_failures": 2500})

add("B03",
    "One rule set built with 8, 16, 32 and 64 bit ids in both machine forms: random sets with every feature, and sets made to end within a "
    "few of the 8-bit limit of rows, character classes, character sets, lexer states or rules (some of them unmatchable); compared on texts "
    "leading to every row, before and after minimising. The 16-bit limits from both sides. Non-trivial: the widest machine matched.",
    [exe("b03.cpp", [("limits", 900, 16000), ("limits-wide", 250, 5000), ("random", 700, 8000)]),
     exe("b03.cpp", [("fixed", 1, 1)], name="b03-big", san="plain", opt="-O2", flags=["-DB03_BIG"], fixed_shards=4)],
    expect={"built_alike": 2500, "refused_as_too_small": 800, "refused_alike": 150, "inputs_compared": 150000, "character_inputs_compared": 100000,
            "row_sets": 200, "class_sets": 200, "charset_sets": 200, "state_sets": 200, "rule_sets": 200, "sixteen_bit_limits": 18})

add("C01",
    "Two to six threads over one machine, one character machine and one rules object: lookups through pointers, lists, streams and "
    "iterators that yield in the middle of lookups, token iterators, replacement, builds, dumps, generated source, saving, minimised copies "
    "and rules of their own, under a race detector; every thread's results compared with the same operations run alone afterwards. "
    "Non-trivial: cases in which operations overlapped in time.",
    [exe("c01.cpp", [("lookups", 700, 12000), ("everything", 900, 16000)], san="tsan", opt="-O1")],
    expect={"operations": 100000, "lookups": 5000000, "overlapping_operations": 100000, "threads": 4000, "max_kinds_of_overlap": 100})
