#!/usr/bin/env python3
# Writes /verif/properties.jsonl. The properties are authored here.
import json, os
I = "include/lexertl/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[I+f if not f.startswith("/") else f[1:] for f in files],
            mechanism=[dict(name=n, where=I+w) for n, w in mech],
            observe_at=observe or [], hook_needed=None)))

p("L01", "Longest match wins, earliest rule breaks ties",
  "For a set of greedy rules over narrow characters, each lookup returns the longest prefix of the remaining input that any rule of the current state matches, with the id and user id of the earliest pushed rule matching that length. When no rule matches a non-empty prefix, the lookup reports the unknown id instead.",
  ["inputs", "programs"], "all rule sets of greedy regexes, all narrow inputs, all positions",
  "the suite only checks that malformed regexes throw; no test tokenises an input with a built machine",
  ["generator.hpp", "lookup.hpp", "parser/parser.hpp", "partition/equivset.hpp", "partition/charset.hpp"],
  [("subset construction with rule-order priority", "generator.hpp closure, closure_ex, build_equiv_list"),
   ("charset partitioning", "generator.hpp partition_charsets, build_set_mapping"),
   ("maximal munch loop", "lookup.hpp next, end_state")], ["lookup results"])
p("L02", "Tokens tile the input; lexing always advances and ends",
  "Repeated lookups yield contiguous, non-empty tokens in input order whose concatenation (counting skipped stretches, one-character unknown tokens, and continuation text cut short by an unknown character or the end) is exactly the input, followed by the end-of-input token, which then repeats unchanged on further lookups. No lookup reads outside the input range, and lexing any input with a machine whose rules cannot match empty finishes in at most one token per character.",
  ["inputs", "programs", "histories"], "all machines with non-empty rules, all inputs including NUL bytes, high bytes, newlines and the empty input, all iterator kinds",
  "needs every machine/input pair; tests never run a lookup loop",
  ["lookup.hpp", "iterator.hpp", "range.hpp", "match_results.hpp"],
  [("unknown token advances by one", "lookup.hpp inc_end"), ("end token only moved on accept", "lookup.hpp end_state"),
   ("end-of-input test", "lookup.hpp next")], ["first/second/eoi of each result"])
p("L03", "Line anchors match exactly at line starts and line ends",
  "A rule beginning with ^ matches only at the start of the input (if lexing starts at a line start) or right after a newline, wherever the previous token or unknown character ended, and other rules are unaffected by being at a line start. A rule ending with $ matches only where the text it consumed is followed by a carriage return, a newline or the end of input, and consumes neither of them; it is preferred to a rule without $ matching the same text. One rule may take the line end in one alternative and end with $ in the last: it takes the line end if it is there, and matches without it at the end of the input.",
  ["inputs", "programs", "histories"], "all rule sets mixing anchored and unanchored rules (no rule spelling out a line terminator after text a $ rule also matches), all inputs, both initial line-start settings",
  "anchors are a function of the token history; no test lexes with anchors",
  ["lookup.hpp", "generator.hpp", "parser/parser.hpp", "rules.hpp"],
  [("beginning-of-line start state", "lookup.hpp bol_start_state"), ("bol tracking", "lookup.hpp bol, reset_end_bol"),
   ("end-of-line transition", "lookup.hpp is_eol, check_eol"), ("eol/newline clash repair", "generator.hpp fix_clashes, prune_eol_clashes"),
   ("anchor feature detection", "rules.hpp push")], ["match_results bol, id, first, second"])
p("L04", "Wide-character lexers match by code point like the narrow ones",
  "Machines over 16-bit and 32-bit characters obey the same longest-match, priority and anchor rules on every code point sequence, with sets and ranges anywhere in the code space (crossing byte and plane boundaries) matching exactly the code points they contain. Text in the shared range is tokenised identically by narrow and wide machines built from the same rules.",
  ["inputs", "programs", "configurations"], "all rule sets and inputs for wchar_t, char16_t and char32_t lexers",
  "wide machines use a separate byte-sliced construction that no test executes",
  ["parser/parser.hpp", "lookup.hpp", "generator.hpp", "sm_traits.hpp"],
  [("byte slicing of ranges", "parser/parser.hpp slice_range, insert_range, push_ranges"), ("multi-byte stepping", "lookup.hpp next_char"),
   ("eol clash repair in sliced machines", "generator.hpp fix_clashes")], ["lookup results"])
p("L05", "Lexer states, pushes and pops follow the rules' declarations",
  "After each token the lexer is in the start state named by the matched rule: the current one, a named one, the one pushed for later return, or the one on top of the pushed-state stack for a pop, with only the current state's rules eligible. A pop with nothing pushed raises a runtime error instead of continuing, and rules given for several or all states apply in each of them.",
  ["inputs", "programs", "histories"], "all multi-state rule sets (jumps, pushes with and without explicit return state, pops, lists and wildcards), all inputs",
  "state is history dependent; no test has more than one lexer state",
  ["lookup.hpp", "rules.hpp", "generator.hpp", "match_results.hpp"],
  [("next state on accept", "lookup.hpp reset_start_state, start_state"), ("state stack", "lookup.hpp pop"),
   ("state names and exits", "rules.hpp push, push_state")], ["match_results state and stack"])
p("L06", "Skip rules vanish and continuation rules extend the token",
  "Text matched by a skip rule produces no token and lexing resumes after it in the state the rule selects. Text matched by a rule without an id is joined to what follows, so the delivered token starts where the first piece started and ends where the first identified piece ends, with that piece's id.",
  ["inputs", "programs", "histories"], "all rule sets with skip and id-less rules in one or more states, all inputs",
  "composition over several internal matches per delivered token; untested",
  ["lookup.hpp", "rules.hpp"],
  [("skip loop", "lookup.hpp next (skip label)"), ("again loop", "lookup.hpp next (again label), is_id_eoi")], ["lookup results"])
p("L07", "Non-greedy repeats match as little as possible",
  "A rule made of a fixed opening, a non-greedy repeat of a character set and a closing literal text matches the shortest prefix of the input the rule as a whole can match. With several such repeats in a row, or a group of them repeated a fixed number of times, a repeat never takes the rule on past a match. A greedy repeat of a set at the end of such a rule goes on from its shortest match, taking all it can, and rules of plain text that begin like the rule leave it as it is. A non-greedy operator at the very end of a rule contributes only its minimum number of repeats, and each top-level alternative of a rule that uses non-greedy operators behaves as if pushed as its own rule with the same id.",
  ["inputs", "programs"], "rules of the stated shapes with every non-greedy operator and bounds (repeats in rules ending with $ not crossing line ends), alone and beside rules with distinct first characters, all inputs",
  "one test looks at one pruned token list; no matching is executed",
  ["abstemious.hpp", "rules.hpp", "generator.hpp", "partition/equivset.hpp", "parser/tree/iteration_node.hpp"],
  [("trailing operator pruning", "abstemious.hpp prune"), ("splitting of alternatives", "rules.hpp split"),
   ("dropping abstemious transitions at accepts", "generator.hpp build_dfa"), ("greedy merging", "partition/equivset.hpp process_greedy")], ["lookup results"])
p("L08", "Results may track only the features a machine uses",
  "A results type declaring any set of features that includes the machine's gives the same tokens and lexer states (and line-start results, where declared and used) as one declaring all of them. Without the advance feature a character that no rule matches is reported as an unknown token of no length, and once the caller has moved the end past it lexing goes on exactly as with that feature.",
  ["configurations", "programs", "inputs"], "all machines, all sets of result features covering the machine's, with and without a state stack, all inputs",
  "no test instantiates results of its own, and the features of a machine decide which code of a lookup exists",
  ["lookup.hpp", "match_results.hpp", "rules.hpp", "generator.hpp"],
  [("feature-dependent steps", "lookup.hpp lookup_state"), ("features of rules and machine", "rules.hpp push; generator.hpp create"), ("unknown token left in place", "lookup.hpp inc_end")], ["lookup results"])
p("R01", "Character sets and escapes denote exactly their characters",
  "Every way of writing a single-character pattern - literal, dot, quoted text, bracket set with ranges, negation, named class or nested escape, shorthand class, octal, hex and control escapes, and set difference or union - matches exactly the characters its documented meaning contains and no others. This holds for the whole narrow alphabet and across the wide code space (properties and the named classes defined by them: where the character type holds every code point; a smaller type refuses them).",
  ["inputs"], "all spellings of a single-character pattern and all characters",
  "tests only check that malformed sets are rejected, never which characters a valid one matches",
  ["parser/tokeniser/re_tokeniser_helper.hpp", "parser/tokeniser/re_tokeniser.hpp", "rules.hpp", "string_token.hpp"],
  [("set parsing", "parser/tokeniser/re_tokeniser_helper.hpp charset, process_range, posix"), ("escape decoding", "parser/tokeniser/re_tokeniser_helper.hpp escape_sequence, chr, decode_hex, decode_octal, decode_control"),
   ("set difference and union", "rules.hpp check_diff")], ["which characters match"])
p("R02", "Equivalent spellings of a regex give equivalent lexers",
  "The operators | juxtaposition () ? * + {n} {n,} {n,m} have their standard meaning and precedence, and re-spelling a regex with redundant groups, quotes, escapes, comments, ignorable white space in extended mode, or scoped inline flags does not change what it matches. Inline flags apply only inside their group and combine with the flags given for the rules.",
  ["programs", "inputs"], "all regex syntax trees, all spellings, all inputs",
  "meaning of accepted regexes is never checked by a test",
  ["parser/tokeniser/re_tokeniser.hpp", "parser/tokeniser/re_token.hpp", "parser/parser.hpp", "parser/tokeniser/re_tokeniser_state.hpp"],
  [("operator precedence", "parser/tokeniser/re_token.hpp precedence"), ("repeat expansion", "parser/parser.hpp repeatn, one_or_more, optional"),
   ("flag scoping", "parser/tokeniser/re_tokeniser.hpp read_options"), ("comments and white space", "parser/tokeniser/re_tokeniser.hpp comment, skip")], ["lookup results"])
p("R03", "Any regex text is accepted or rejected cleanly",
  "Giving any character sequence as a rule, macro, state name or exit state either succeeds or raises the library's runtime error, never undefined behaviour, a crash, a hang or another exception; text violating the documented grammar is rejected. Whatever is accepted can then be built, or is refused with that error when built, and the machine run on any input without undefined behaviour (a skip or continuation rule matching the empty text, possible only under match_zero_len, repeats forever and is not run).",
  ["inputs"], "all byte strings (narrow and wide) as regexes, macros and names, with all flag settings",
  "86 hand-picked malformed regexes are tested; arbitrary text, wide text and macros are not",
  ["parser/tokeniser/re_tokeniser.hpp", "parser/tokeniser/re_tokeniser_helper.hpp", "rules.hpp", "parser/parser.hpp", "abstemious.hpp", "generator.hpp"],
  [("error reporting in the tokeniser", "parser/tokeniser/re_tokeniser_state.hpp error, unexpected_end"), ("syntax check by precedence", "rules.hpp check_diff_error"),
   ("name validation", "rules.hpp validate")], ["exceptions, sanitizer reports"])
p("R04", "Unicode properties match the shipped Unicode data",
  "In a lexer over 32-bit characters, a property, block or script escape matches exactly the code points that the Unicode data files shipped with the library assign to it, including code points that the data gives only as the first and last of a range; the negated form matches exactly the others. Major classes are the union of their minor classes.",
  ["inputs"], "every property, block and script name, every code point up to U+10FFFF",
  "about 5000 generated table lines that no test looks at",
  ["parser/tokeniser/unicode.hpp", "parser/tokeniser/blocks.hpp", "parser/tokeniser/scripts.hpp", "parser/tokeniser/table.inc", "parser/tokeniser/re_tokeniser_helper.hpp", "/gen_unicode_hpp/main.cpp"],
  [("generated tables", "parser/tokeniser/unicode.hpp"), ("name lookup", "parser/tokeniser/re_tokeniser_helper.hpp charset_token")], ["which code points match"])
p("R05", "Case-insensitive matching is exactly simple case equivalence",
  "With case-insensitive matching on, a letter in a literal, set, range or escape also matches its other-case counterpart (the locale's for narrow lexers, the Unicode simple mapping of lowercase letters to upper case and uppercase letters to lower case for wide ones) and matches nothing else in addition. Characters without case are unaffected, and turning the option off restores exact matching.",
  ["inputs"], "all letters, ranges and sets, all code points, global and inline option",
  "no test matches case-insensitively; the fold tables are generated data",
  ["parser/tokeniser/re_tokeniser_helper.hpp", "parser/tokeniser/fold2.inc", "parser/tokeniser/fold4.inc", "parser/tokeniser/re_tokeniser.hpp"],
  [("folding", "parser/tokeniser/re_tokeniser_helper.hpp fold"), ("fold tables", "parser/tokeniser/fold4.inc")], ["which characters match"])
p("R06", "A macro means its parenthesised definition",
  "Using a macro in a rule or another macro has the same effect as writing its definition in parentheses at that point, however deeply macros nest and whatever operators follow the use, with the flags in force where it was defined (a ^ at the beginning or $ at the end of a definition is an anchor if the use begins or ends the rule, and the character itself anywhere else); a macro that is a single set can be an operand of set difference or union. Undefined, redefined or self-referring macros are rejected without affecting macros or rules already accepted.",
  ["programs", "inputs"], "all macro definitions and all uses, all inputs",
  "tests only cover malformed macro names",
  ["rules.hpp"], [("macro substitution", "rules.hpp process_macro, insert_macro")], ["lookup results", "exceptions"])
p("R07", "Reversed rules match the mirror image",
  "After the rules are reversed, each rule matches a text exactly when the original matched the text written backwards, with line-start and line-end anchors exchanged. A rule with non-greedy operators behaves, reversed, as the same rule written backwards. Reversing twice restores the original behaviour.",
  ["programs", "inputs"], "all rule sets including groups, repeats and anchors (a non-greedy repeat at the very end of a rule is dropped when the rule is added and not part of its mirror image), all inputs",
  "reversal is never called by a test",
  ["rules.hpp"], [("token reversal", "rules.hpp reverse")], ["lookup results"])
p("R08", "A refusal says which regex is wrong, and where",
  "When a regex is refused as malformed, the error's text names the rule id or the macro it was given as (an undefined macro is named itself). A position it states is one in the regex, at the wrong part of it: not before that begins, not behind its end, and the same place in it whatever stands before and after.",
  ["inputs"], "malformed regexes of every kind the documentation excludes, inside any valid or invalid text, as rules and macros, in all character types",
  "the tests compare whole messages for 86 short texts that hold little but the error, all as rules of id 1",
  ["parser/tokeniser/re_tokeniser_state.hpp", "parser/tokeniser/re_tokeniser.hpp", "parser/tokeniser/re_tokeniser_helper.hpp", "rules.hpp"],
  [("naming the rule or macro", "parser/tokeniser/re_tokeniser_state.hpp error"), ("positions", "parser/tokeniser/re_tokeniser_state.hpp index"), ("syntax errors", "rules.hpp check_diff_error; rules.hpp process_diff")], ["text of the exceptions"])
p("B01", "Empty-matching and unreachable rules are reported exactly",
  "Building fails with a runtime error if and only if, under the default options, some lexer state has no rules, some rule can match the empty text or some rule can never be the winner on any input, and the error names such a rule or state. (Of two rules, one ending with $ and one spelling out the line end after the same text, the later counts as unable to win.) Each check is disabled by its option and by nothing else, and a build that succeeds gives every rule at least one input on which it wins.",
  ["programs"], "all rule sets, all option combinations",
  "tests do not build rule sets that are valid regexes but invalid together",
  ["generator.hpp", "rules.hpp"], [("zero length check", "generator.hpp check_zero_len"), ("unused rule check", "generator.hpp check_suppressed")], ["exceptions"])
p("B02", "A failed operation changes nothing; building is repeatable",
  "When adding a rule, macro or state or building or loading a machine raises a runtime error (or an allocation fails while building or loading), the rules and the target machine behave afterwards exactly as they did before the call. Building the same rules again, in the same or a copied or cleared-and-refilled object, gives a machine with identical tables and leaves the rules unchanged. Clearing one lexer state removes everything its rules left and nothing of the others.",
  ["histories", "fault_sequences", "programs"], "all sequences of successful and failing operations, including allocation failure at any point of a build",
  "needs failures at every point of every operation; tests never use an object after an error",
  ["rules.hpp", "generator.hpp", "state_machine.hpp", "internals.hpp"],
  [("temporary machine then swap", "generator.hpp build"), ("validation before mutation", "rules.hpp push, insert_macro")], ["machine tables before and after", "exceptions"])
p("B03", "Too-small id types are refused, never silently wrong",
  "For every unsigned id type, a build either raises a runtime error or gives a machine that tokenises exactly like the machine built from the same rules with the widest id type. Adding more states, character classes or table rows than the id type can number is always reported, and a rule set that needs less than half of what the type can number is never refused for its size.",
  ["configurations", "programs"], "8, 16, 32 and 64 bit id types; rule sets around and beyond the 8-bit and 16-bit limits",
  "no test instantiates another id type",
  ["parser/parser.hpp", "generator.hpp", "rules.hpp"], [("overflow checks", "generator.hpp build, build_dfa; parser/parser.hpp lookup; rules.hpp push_state")], ["exceptions", "lookup results"])
p("M01", "Minimising a machine preserves its behaviour",
  "After minimisation a machine returns the same tokens, ids, user ids, states and line-start results for every input as before, in every lexer state, never has more rows, and no two of its rows are equal; minimising again changes nothing. The same holds for the character machine form, whose accepting states keep their ids, pushes and pops.",
  ["programs", "inputs"], "all built machines, narrow and wide, table and character form, all inputs",
  "minimise is never called by a test",
  ["state_machine.hpp"], [("row merging", "state_machine.hpp minimise_dfa")], ["lookup results", "character machine transitions"])
p("M02", "The character machine agrees with the table machine",
  "A character machine, whether generated directly or converted from a table machine, describes in each lexer state the same matching as the table machine: following its transitions by character set gives the same accepts, ids, user ids, next states, pushes and pops for every input. The transition sets leaving one of its states never overlap. In the non-deterministic form (is_dfa false) of a plain rule set the paths spelling a text end in accepting states exactly when a rule matches the text; every such state carries the id of a rule that does and one of them that of the first.",
  ["programs", "inputs"], "all rule sets, narrow and wide, all inputs; the non-deterministic form for rules without anchors, skip or non-greedy operators",
  "character machines are not exercised by tests",
  ["state_machine.hpp", "sm_to_csm.hpp", "generator.hpp"], [("row conversion", "state_machine.hpp append"), ("table to character conversion", "sm_to_csm.hpp")], ["character machine contents"])
p("M03", "A saved machine loads back identical",
  "Saving a machine and loading it into any machine object of the same character and id type gives a machine with identical tables and therefore identical behaviour, whatever the target held before, and saving that again gives the same bytes, whatever the locale and number format the streams or the program use at either end. Loading data written for another character or id width, for another format version, truncated data, or data with anything but numbers in range raises a runtime error.",
  ["programs", "histories", "fault_sequences"], "all machines, all id types, every truncation point, corrupted headers",
  "serialisation is not run by any test",
  ["serialise.hpp", "internals.hpp"], [("stream format and header checks", "serialise.hpp save, load")], ["tables after load", "exceptions"])
p("M04", "Generated C++ lexers behave like the machine they came from",
  "The C++ source generated from a machine compiles, and the lexer it defines returns on every input the same sequence of ids, user ids, token bounds, lexer states and (where the machine uses line starts) line-start results as looking up with the machine itself, whatever the locale and number format of the stream written to. This holds with either table layout and for every combination of machine features.",
  ["programs", "inputs", "configurations"], "all machines, both layouts, with and without skip, continuation, anchors, states, pushes; narrow and wide; all inputs",
  "generated code is never compiled or run by a test",
  ["generate_cpp.hpp"], [("code generation", "generate_cpp.hpp generate_cpp")], ["results of compiled generated lexer"])
p("M05", "Machine dumps describe the machine faithfully",
  "The text dump of a machine lists, for each lexer state, exactly its states, which of them accept with which id, user id, next state, push and pop, its line start and line end transitions and exactly its other transitions with the characters they are taken on, so that interpreting a dump as an automaton gives the same matches as the machine. The graph dump shows the same states, the accepting ids (except of a start state), the same character transitions and the next lexer state of every accepting state, in well-formed DOT.",
  ["programs"], "all machines, narrow and wide, all printable and unprintable character sets",
  "dumps are only included by tests, never produced",
  ["debug.hpp", "dot.hpp", "string_token.hpp"], [("text dump", "debug.hpp dump"), ("graph dump", "dot.hpp dump"), ("set printing", "string_token.hpp escape_char")], ["dump text"])
p("M06", "The dump of a set of rules reads back as the same rules",
  "The text dump of a set of rules lists its lexer states, its macros and, state by state and in order, every rule with its text, the id it returns and the lexer state it enters, pushes or pops. Read as declared there, the dump gives rules that lex every input, from every lexer state, exactly as the dumped ones do (user ids are not part of the dump); no text of a rule or macro is ambiguous or unprintable, whatever characters it is made of, and the locale in use does not matter. Dumping does not change the rules.",
  ["programs", "inputs"], "all sets of rules and macros over narrow and wide characters, all features, all inputs",
  "no test dumps rules (the function could not even be instantiated)",
  ["debug.hpp", "rules.hpp", "parser/tokeniser/re_token.hpp"], [("rule dump", "debug.hpp dump(rules&)"), ("macros put back", "debug.hpp insert_macros"), ("escaping", "debug.hpp dump_charset, dump_char")], ["dump text", "tokens"])
p("D01", "Character sets form a correct set algebra",
  "Insertion of characters, ranges and sets, removal, intersection, negation, comparison and clearing of the character set type give exactly the mathematical set result over the whole alphabet, for any sequence of operations on different set objects. The stored ranges stay sorted, disjoint and non-adjacent, so equal sets compare equal.",
  ["inputs", "histories"], "all operation sequences over 8, 16 and 32 bit alphabets including the extreme characters",
  "the set type is only touched indirectly by tests",
  ["string_token.hpp", "partition/charset.hpp"], [("range insertion and merging", "string_token.hpp insert"), ("intersection and removal", "string_token.hpp intersect, remove"), ("negation", "string_token.hpp negate")], ["set contents"])
p("D02", "UTF iterators convert exactly and stay inside the input",
  "Decoding well-formed UTF-8 or UTF-16 through the input iterators yields exactly the encoded code points, encoding through the output iterators yields exactly the standard encoding, the two are inverse, and stepping forwards or backwards (over well-formed text) visits the same boundaries. Output iterators compare equal only at the same position. Ill-formed sequences (bytes that cannot lead or continue a sequence, truncation, unpaired surrogates) raise an error and never cause a read outside the input.",
  ["inputs"], "all code points, all byte and 16-bit sequences, all positions, both byte orders of stepping",
  "one test covers a handful of strings",
  ["utf_iterators.hpp"], [("UTF-8 decode", "utf_iterators.hpp basic_utf8_in_iterator"), ("UTF-16 decode", "utf_iterators.hpp basic_utf16_in_iterator"), ("encoders", "utf_iterators.hpp basic_utf8_out_iterator, basic_utf16_out_iterator")], ["decoded/encoded values", "exceptions"])
p("D03", "Lexing a stream equals lexing the same text in memory",
  "Tokens obtained through stream iterators have the same text, ids and positions as those from the in-memory text, for every buffer size, every chunking of the stream and any number of live iterator copies that stay readable while they exist. Copying, assigning and destroying iterators in any order neither leaks nor corrupts the shared buffer, which does not grow while no old position is held.",
  ["inputs", "histories", "configurations"], "all texts, buffer sizes and increments of at least one character, all histories of copy/assign/advance/destroy",
  "the header is only compiled by a test",
  ["stream_shared_iterator.hpp"], [("shared buffer refill", "stream_shared_iterator.hpp check_buf, reload_buffer"), ("reference counting", "stream_shared_iterator.hpp copy/assign/destroy")], ["token texts"])
p("D04", "A memory-mapped file shows the file and frees its resources",
  "Opening a file gives a read-only view with exactly the file's bytes and size; opening a missing or unreadable file leaves an empty view; and opening, re-opening, closing and destroying in any order leaves no mapping or descriptor behind and never closes or unmaps anything it does not own.",
  ["histories", "inputs", "fault_sequences"], "all sequences of open/close over existing, empty, missing and unmappable files of all sizes and character widths",
  "the header is only compiled by a test",
  ["memory_file.hpp"], [("open/close", "memory_file.hpp open, close")], ["view contents", "/proc/self/fd and maps"])
p("D05", "Replacing tokens edits only the selected text",
  "Replace returns the text with every token the lexer delivers (single unknown characters included) substituted by the given text, or by what the given table holds for its id, and everything else - skipped text, tokens without a table entry, an unfinished token at the end - copied unchanged and in order. This holds for plain and pushing machines and every overload (ranges, strings, C strings, any output iterator, which is returned advanced), and the result never depends on which overload is used.",
  ["inputs", "programs"], "all machines with and without skip rules, all texts and replacement texts, all overloads",
  "the header is only compiled by a test",
  ["replace.hpp"], [("replacement loop", "replace.hpp replace")], ["returned or written text"])
p("D06", "Result objects and iterators present one consistent view",
  "The text, substring and view accessors of a result all describe the same bounds with the same offsets dropped, length equals the distance between the bounds, and clearing or resetting a result makes it behave like a new one. Incrementing an iterator (pre or post, or through a range) visits exactly the sequence of results that repeated lookups give and equals the end iterator exactly when the input is exhausted.",
  ["inputs", "histories"], "all machines, inputs, character and iterator types, offsets and reuse histories",
  "no test reads a result or advances an iterator",
  ["match_results.hpp", "iterator.hpp", "range.hpp"], [("accessors", "match_results.hpp str, substr, view, subview"), ("iteration", "iterator.hpp operator++")], ["accessor values"])
p("C01", "A built machine can be shared by concurrent lexers",
  "Any number of threads may look up tokens with one machine at the same time, each with its own results or iterator, and several threads may build from one shared rules object, without data races. Every thread obtains exactly the tokens it would obtain alone.",
  ["schedules", "programs"], "all machines, inputs and interleavings of reader and builder threads",
  "tests are single threaded",
  ["lookup.hpp", "state_machine.hpp", "generator.hpp", "rules.hpp", "iterator.hpp"], [("const machine access", "state_machine.hpp data() const"), ("per-lexer state in results", "match_results.hpp")], ["race reports", "per-thread token sequences"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=True) + "\n")
print(len(P), "properties")
