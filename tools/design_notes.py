N = {}
def n(i, **k): N[i] = k
n("L01", Oracle="reference matcher on the generated trees: per position the longest end over all rules, earliest rule on ties, id and user id compared; unknown id when none matches.",
  Bounds="trees up to about 40 nodes, 1-12 rules (keyword sets up to about 200), inputs up to some hundred characters biased to near-matches (sampled from the trees and mutated).",
  Reaches="the subset construction, charset partition and maximal-munch loop are executed on thousands of rule sets rather than none.")
n("L02", Oracle="conservation: the monitor rebuilds the input from reported bounds; the probe iterator aborts on a read outside; token count bound; end token repeated.",
  Bounds="inputs to 200 characters, all iterator kinds, any feature mix, user-chosen minimal result flags.", Reaches="arbitrary bytes incl. NUL and high bytes at exact heap bounds.")
n("L03", Oracle="reference lexer with anchors as zero-width assertions tracked over the token history; `blocked` counters prove anchors also refuse.",
  Bounds="a rule that spells out a line terminator after text another rule with $ also matches is excluded (the generator removes the later of the two, and B01 checks that it is reported); within one rule both are tested (`either`).", Reaches="anchors depend on where earlier tokens, skips and unknown characters ended.")
n("L04", Oracle="reference over code points for 16/32 bit; narrow vs wide machine of one text.", Bounds="code points at neighbours of every border in the rule set, random elsewhere.", Reaches="byte-sliced machines have millions of paths; borders are aimed at.")
n("L05", Oracle="reference lexer with state and stack, compared after each token, stack element by element.", Bounds="2-5 states, nesting to depth about 60.", Reaches="state is history dependent.")
n("L06", Oracle="reference lexer implementing skip and continuation.", Bounds="states and anchors mixed in.", Reaches="compositions of several internal matches.")
n("L07", Oracle="shortest prefix matcher; with several repeats, an upper bound that follows which repeats may go on after a match (`goes_on`).",
  Bounds="the shapes in the statement: general non-greedy semantics in a DFA lexer is order dependent and unspecified (see limits).", Reaches="the rule-splitting, pruning and greedy-merging code is executed with every operator and bounds.")
n("L08", Oracle="reference lexer; the 128 result types are instantiated from one table.", Bounds="pointers over char and char16_t; a stack needs the multi_state feature (does not compile otherwise); looking up again without passing the character is not tested.", Reaches="2 x 64 instantiations of the lookup loop instead of the one everybody uses.")
n("R01", Oracle="independent evaluation of a set expression tree to an interval set; every narrow character probed, border neighbourhoods for wide.", Bounds="four character types, two narrow locales, expression depth up to 4.", Reaches="every notation next to every other one; digits after escapes (`followed`).")
n("R02", Oracle="all spellings of one tree against one reference matcher.", Bounds="trees to about 30 nodes; repeat counts to several thousand (`counts`).", Reaches="precedence and flag scoping in arbitrary contexts.")
n("R03", Oracle="independent recursive-descent parser of the documented grammar (accept/refuse, and meaning); sanitizers; probe iterator; time limit.", Bounds="texts to about 60 characters; at most three digits in a count (repeat expansion is proportional).", Reaches="arbitrary token soups and damage.")
n("R08", Oracle="the place where the malformed piece was put, and the same piece in the simplest of texts.", Bounds="one malformed piece per text with a known place; any text for the name and the range of the position.", Reaches="every message with arbitrary text around it, as macros, in wide character types.")
n("R04", Oracle="UnicodeData/Blocks/Scripts files shipped in the repository parsed by the harness.", Bounds="exhaustive over names and code points for plain and negated categories.", Reaches="5000 generated lines, each code point looked up.")
n("R05", Oracle="simple case mappings from the shipped data (wide), C++ locale (narrow).", Bounds="every cased letter, random ranges.", Reaches="exhaustive over letters.")
n("R06", Oracle="reference on the expanded tree and the machine of the textually expanded rule.", Bounds="macro nesting to 4; operators directly after a macro with an anchor, and alternatives at the top level of one, are excluded.", Reaches="any use under any operator, anchors at every place a macro can be used (`anchors`).")
n("R07", Oracle="reference on mirrored trees and mirrored inputs; double reversal against the unreversed machine.", Bounds="greedy rules; `every`: all texts over 3 letters to length 6.", Reaches="never called by tests.")
n("B01", Oracle="NFA product search over all texts (exact, not sampled): which rule wins where, both line-start modes; the report and its named rule/state.", Bounds="up to 6 rules, 3 states; the search is exhaustive for each set.", Reaches="if-and-only-if over rule sets valid alone but invalid together.")
n("B02", Oracle="twin objects, one spared the refused operations, compared completely after each step; allocation k fails for every k.", Bounds="histories of about 25 operations.", Reaches="failures at every point.")
n("B03", Oracle="the 64 bit machine of the same rules; counts computed from it decide whether refusal is legitimate.", Bounds="8 bit limits from both sides in five quantities, 16 bit limits in fixed cases.", Reaches="no test instantiates another id type.")
n("M01", Oracle="behaviour before = after from every state and line position; row counts; idempotence.", Bounds="`twins` differ in exactly one field of a row.", Reaches="merging of almost-equal rows.")
n("M02", Oracle="an interpreter of the documented character-machine fields against lookup; path sets for the NFA form against the reference.", Bounds="as L01-L06 generators.", Reaches="never exercised.")
n("M03", Oracle="table equality, byte equality of the second save; every truncation point; header and number corruption.", Bounds="five character types x four id widths.", Reaches="every cut of every field.")
n("M04", Oracle="generated source compiled (with sanitizers) and run next to lookup.", Bounds="64/800 batches of about 12 functions each.", Reaches="generated code never compiled by tests.")
n("M05", Oracle="an independent reader of both dump formats; read-back automaton compared and run.", Bounds="every pair and range of 8 bit characters.", Reaches="dumps are never produced by tests.")
n("M06", Oracle="an independent reader of the rule dump; the rules it gives compared one by one and by lexing.", Bounds="number format flags set by the user on the stream are respected, so not varied (locales are); macros have alternatives or non-greedy repeats, not both (recorded finding).", Reaches="every pair of 8 bit characters as rule text; dumping rules could not even be compiled.")
n("D01", Oracle="bitmap / interval model after every step; law checks.", Bounds="all pairs of subsets of 8 chosen characters x 3 alphabets; random histories.", Reaches="exhaustive small scope plus histories.")
n("D02", Oracle="own UTF coder; exact-size buffers under ASan.", Bounds="all code points, all 1-2 byte sequences, representatives of longer ones.", Reaches="exhaustive over code points.")
n("D03", Oracle="in-memory lexing of the same text; heap meter; ASan for the shared buffer.", Bounds="buffers of 1-1024 with any chunking.", Reaches="refill at every offset of a token.")
n("D04", Oracle="file contents, /proc/self/maps and fd before/after; wrapped open, fstat, mmap.", Bounds="three views, histories of about 20 steps.", Reaches="faults at every system call.")
n("D05", Oracle="the edit described by the machine's own tokens (L-properties validate those).", Bounds="all overloads.", Reaches="overload agreement on every machine kind.")
n("D06", Oracle="model of a result object; iterator walk vs repeated lookup.", Bounds="four iterator types, three character widths.", Reaches="all aliases and accessor pairs.")
n("C01", Oracle="ThreadSanitizer, and each thread's results vs the same work run alone afterwards.", Bounds="2-6 threads; injected yields inside lookups; overlap measured, not assumed.", Reaches="interleavings of hundreds of operation-kind pairs.")

TAIL = """
## Genuine defects found

`known_findings.txt` lists the repaired ones (one `fix:` commit each, with what
failed) and four recorded findings:

* L07 `Ba??a` matches all of `Baa`: a bounded non-greedy repeat whose set
  overlaps its closing text continues past the shortest match. The generator
  drops abstemious transitions at accepting states only when the whole position
  set is abstemious; repairing it changes the construction for every mixed rule,
  so it is recorded. The check still requires that no further repeat begins
  after the first match.
* L07 `A\\x101*?\\x101[b\\x100]*` over 16/32 bit characters matches all of
  `A\\u0101\\u0101`: wide machines work on bytes, and the leading byte is shared by
  the non-greedy repeat and the greedy repeat at the end of the rule. Equivalent-set
  merging then makes the byte greedy (`process_greedy`: greedy wins), so a
  transition into the non-greedy repeat survives the accepting state. Same root
  as the first one. Greedy ends are generated for narrow lexers only, the wide
  case is the fixed one.
* L07 `c(a*?|b)` does not match `c`: pruning drops the branch altogether (an
  empty branch cannot be written, and making the group optional instead would
  also change which rules are refused as matching nothing, so it is recorded).
  The check requires that the other branches are kept.
* M06 `(a{1,2}|a*?b)|c` is split at its outer `|` only when it is pushed, but the
  dump then lists `(a{1,2}|a*?b)` as a rule of its own, and that one is split
  when read. Splitting recursively on push would change what such rules match
  (`aaab` entirely instead of `aa`), so it is recorded. Random macros have
  either alternatives or non-greedy repeats for that reason.

## False alarms met on the way, and what was corrected

* L03: a `$` rule and a plain rule matching the same text: the end-of-line row
  is taken first by design; the statement says so now.
* L05: skip rules and stack: the stack entries of a skip rule are part of the model.
* L07: several repeats in one rule. Closing text begun before a match may go on
  after it; equivalent-set merging makes which of two competing repeats wins
  order dependent. The statement covers only what is fixed. Non-greedy beside greedy rules that share a
  first character are excluded for the same reason.
* L07/B01: top-level alternatives of a rule with non-greedy operators are
  separate rules (also in the reports of B01).
* R02/R03: a quoted run followed by a repeat applies it to the last character
  only; `(?-is:` has unclear meaning: neither is generated.
* R03: skip and continuation rules matching the empty text loop by definition
  under `match_zero_len`; not run.
* R06: a macro with an anchor that anchors the rule is not bracketed, so it is
  only used with a sequence as its body and without an operator after it.
* R06: the check's own expansion took the escaped brace of `[a-\\{m}...` for a
  macro use (once in 20000 cases, thorough tier only).
* B01: messages are cut at NUL characters; `icase` may empty a negated set.
* B03: distinct-charset count asserted for narrow only (wide is byte sliced);
  the 16 bit charset build is quadratic, so only the refusal is tested there.
* M05: the graph does not show pushes and anchors; the statement was narrowed.
* D02: overlong forms are unspecified. D03: the position of an unread original
  after its copy advanced is the earliest live copy. D05: unknown characters are
  replaced too (documented). D06: the iterator also visits an unfinished end token.

## Mutation runs over the headers

Besides planted bugs, some 1250 single-line mutants of the headers (conditions
negated, constants and comparisons changed, statements dropped; generated by a
throw-away script) were run against the quick workloads of the checks. What
survived was read one by one: most are equivalent (lines for another platform,
initialisers overwritten, text of an error message); the others
led to work on the checks: L07 (non-greedy repeats in branches of groups, greedy ends,
openings shared with plain rules), R01 (near-miss class names, a class as the end
of a range), M01 (no two rows equal after minimising), M06 (macros and rules
differing only in the repeat operator).

## Not covered

Repeat counts wrapping 64 bits; `basic_rules<unsigned char,...>` (no such locale
facet in libstdc++); negative characters of signed narrow rule text in wide
rules; `debug::dump` of rules over `char16_t` (not provided for); the
generator programs under `gen_unicode_hpp` (their output is R04/R05).
"""
MISSED = {
 "r07-lazy-count": "missed; rules with non-greedy operators added to R07",
 "r02-skip-vt": "missed; every kind of white space and comment added to the spellings",
 "b02-clear-state": "missed; states cleared one by one added to B02",
 "l07-leaf-greed": "missed; counted non-greedy repeats added to L07",
 "l07-copy-greed": "missed; repeated groups added to L07",
 "b01-same-id": "missed; rules sharing an id added to B01",
 "r01-octal-eight": "missed; `followed` workload added to R01",
 "r06-macro-split": "missed; `lazy` workload added to R06",
 "m01-push-merge": "missed; `twins` workload added to M01",
}
DROPPED = """Dropped while planting: l07-last-greed (breaks only behaviour that is
unspecified), l01-hash-only (its demo never triggers: equal hashes always meant
equal sets), b03-one-state-more (indistinguishable through the public interface).
"""
