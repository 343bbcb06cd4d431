#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                    "mechanism": [{"name": a, "where": b} for a, b in mech],
                    "observe_at": observe, "hook_needed": None}})

TP = "crates/text-pos/src/lib.rs"
p("P01", "Byte offsets and UTF-16 positions convert exactly, in both directions",
  "For every text, a byte offset that lies on a character boundary of the text converts to the zero-based line (lines end at `\\n`) and the zero-based UTF-16 column it has in the text, and that position converts back to the same offset. Every other offset (past the end, inside a character) and every other position (line or column that does not exist, past the end of its line, inside a surrogate pair) converts to nothing instead of to a wrong value or a panic.",
  ["inputs"], "all texts (any mix of 1- to 4-byte characters, \\n and \\r) x all offsets x all (line, column) pairs, including u32 extremes",
  "The repository samples two ASCII texts and 13 offsets through a private helper; no test uses a non-ASCII character, a UTF-16 column, or an invalid position.",
  [TP, "crates/text-size-util/src/lib.rs"],
  [("PositionDb::position_utf16 / text_size_utf16 over line_index::LineIndex", TP)],
  ["PositionDb::position_utf16", "PositionDb::text_size_utf16"],
  [("PositionDb.inner", "line starts and per-line table of wide characters", TP)])
p("P02", "Range conversions, line splitting and end position agree with the text",
  "For every text and every ordered range of it, converting the range between byte and UTF-16 form converts exactly its two ends, and yields nothing precisely when one of the ends has no counterpart. Splitting a byte range into lines yields consecutive non-empty pieces that concatenate to the range and break exactly after each `\\n` inside it; the reported length and end position are those of the text.",
  ["inputs"], "all texts x all ordered offset pairs x all ordered position pairs",
  "Three texts are split into lines, always over the full range; range conversions and the end position have no test.",
  [TP], [("range_utf16, text_range_utf16, lines, len, end_position_utf16", TP)],
  ["PositionDb::range_utf16", "PositionDb::text_range_utf16", "PositionDb::lines", "PositionDb::end_position_utf16", "PositionDb::len"])
AC = "crates/apply-changes/src/lib.rs"
p("P03", "A batch of edits equals applying the edits one at a time",
  "Applying a batch of changes to a text gives the text obtained by applying each change in order, where every ranged change is interpreted as UTF-16 positions in the text left by the changes before it, and a change without a range replaces the whole text. The order in which edits touch lines (top-down, bottom-up, overlapping, adding or removing lines) never matters to that.",
  ["histories", "inputs"], "all initial texts and all sequences of ranged and whole-document changes",
  "There is no test of this component; the cached line index makes the outcome depend on the whole edit history.",
  [AC, TP], [("index_valid: lazily rebuilt position index", AC), ("rposition of the last whole-document change", AC)],
  ["apply_changes::get"], [("index_valid", "first line the cached index is no longer valid for", AC)])
p("P04", "An edit at positions that do not exist is skipped without damage",
  "A change whose range has an end that does not denote a place in the current text (nonexistent line, column past the end of its line, middle of a surrogate pair, huge numbers) is ignored: the text is left as it was and the changes after it still apply as if it were absent. No batch whose ranges have their start not after their end makes the call panic.",
  ["histories", "inputs"], "all sequences mixing valid and invalid ranged changes at every position of the batch",
  "No test of this component exists; a language server receives such positions from clients that are out of sync.",
  [AC, TP], [("`if let Some(range)` guard on the converted range", AC), ("bounds check in text_size_utf16", TP)],
  ["apply_changes::get"])
CM = "crates/chain-map/src/lib.rs"
p("P05", "The chain map is observationally a map, whatever its layering",
  "After any sequence of inserts, bulk extends, appends, removals, mutable accesses, consolidations, drains and clones, looking keys up, iterating, emptiness and every operation's return value are those of an ordinary map that received the same operations: the latest value of each key wins and iteration yields each present key exactly once, however the iterator is used. Appending moves all entries of the other map over this map's entries and leaves the other map empty, and no value is leaked or dropped twice.",
  ["histories"], "all operation sequences over a small key set, plus long insertion chains with every placement of other operations",
  "The only test inserts one key; shadowing, appending, consolidation and iteration over several layers are never exercised together.",
  [CM], [("stack of shared layers searched from the top", CM), ("consolidate_ merging layers bottom-up", CM)],
  ["ChainMap::{insert,get,iter,get_mut,remove,iter_mut,drain,consolidate,append,is_empty,into_iter,extend,from_iter}"],
  [("stack", "layers, later shadow earlier", CM)])
p("P06", "Clones of a chain map never affect each other",
  "A clone starts with the contents of its original, and afterwards no operation on any one of the clones and originals changes what any other of them contains, in any interleaving of operations on them, in the single-threaded and in the thread-safe configuration alike.",
  ["histories", "schedules", "configurations"], "all interleavings of operation sequences on up to three handles related by cloning; feature `sync` off and on",
  "No test clones a map; the thread-safe configuration is not even run by the tests.",
  [CM], [("Rc::try_unwrap / Rc::make_mut copy-on-write", CM)],
  ["ChainMap::clone and all mutating methods"], [("stack", "layers shared between clones", CM)])
EP = "crates/event-parse/src/lib.rs"
RS = "crates/event-parse/src/rowan_sink.rs"
p("P07", "Parsing loses, duplicates and reorders no token",
  "Whatever a parser built on the framework does, once a root construct was parsed the tokens delivered to the sink are, in order and unmodified, exactly the input tokens up to the first significant token the parser did not consume (all of the input when it consumed every significant token), trivia included. Looking ahead, opening, closing, abandoning or preceding constructs, errors and backtracking never change that.",
  ["inputs", "programs", "histories"], "all token lists (any mix of trivia and significant tokens) x all legal sequences of parser calls",
  "The component has lib.test = false: it has no tests at all.",
  [EP], [("Parser::finish replaying events and interleaving trivia", EP), ("eat_trivia", EP)],
  ["Sink::token", "RowanSink::finish"], [("tok_idx", "cursor into the token list", EP), ("events", "recorded parse events", EP)])
p("P08", "The syntax tree has exactly the shape the parser calls described",
  "The sink receives a balanced sequence of enters and exits in which every construct that was closed around at least one delivered token appears exactly once with its kind, containing exactly the tokens and constructs recorded while it was open; preceding a completed construct makes the new one its parent, starting where the completed one started. Abandoned constructs leave their contents to their parent, constructs around no token disappear, and if nothing at all was delivered the outermost first construct alone is delivered empty.",
  ["programs", "histories", "inputs"], "all legal sequences of enter/exit/abandon/precede/bump calls, including chains of precede, precede after an abandoned precede, and deep nesting",
  "No tests exist for this component; a broken event order shows only for particular call sequences.",
  [EP], [("Event::Enter parent links set by precede", EP), ("to_enter stack delaying enters", EP)],
  ["Sink::enter", "Sink::exit"], [("events", "Enter/Exit/Token/Error events, None for abandoned", EP)])
p("P09", "Trivia is kept outside the constructs it surrounds",
  "Trivia between two tokens is attached at the first moment after the earlier token at which a nested construct begins, a top-level construct of the root ends, or the next token is due, so that no construct other than a root ever begins with trivia and trivia after a top-level construct belongs to the root. Trivia at the end of the input belongs to the root.",
  ["inputs", "programs"], "all placements of trivia in token lists x all legal sequences of parser calls",
  "No tests exist for this component.",
  [EP], [("eat_trivia at Enter, at Exit to level 1 and before each token", EP), ("levels", EP)],
  ["order of Sink::enter/token/exit"])
p("P10", "Failed speculation leaves no trace; successful speculation is free",
  "Resolving a save point answers whether no error was recorded since the save; if one was, everything from then on - tokens seen, tree and errors delivered - is as if nothing had happened since the save, and if none was, everything recorded since stays. This holds for nested and repeated saves and for any parser calls in between that keep to the constructs opened since the save.",
  ["histories", "programs"], "all legal call sequences with nested save points at every position, succeeding or failing",
  "No tests exist for this component.",
  [EP], [("Parser::save / ok_since truncating events and resetting the cursor", EP)],
  ["Parser::ok_since", "peek after it", "Sink calls after finish"], [("Save", "cursor and event count", EP)])
p("P11", "Lookahead sees exactly the upcoming significant tokens and has no effect",
  "Peeking n tokens ahead yields the n-th significant token not yet consumed (nothing if there is none), skipping trivia, and no kind of lookahead changes the result of any later call or of the parse. Consuming a token yields exactly the token that lookahead showed; the conditional consume consumes and returns it when its kind matches, and otherwise consumes nothing and records exactly the corresponding expectation error.",
  ["inputs", "histories"], "all token lists x all interleavings of lookahead (all distances), conditional and unconditional consumption",
  "No tests exist for this component.",
  [EP], [("peek, peek_n, at, at_n, bump, eat", EP)],
  ["Parser::{peek,peek_n,at,at_n,bump,eat}"], [("tok_idx", "cursor, may rest on trivia or past it", EP)])
p("P12", "Every error surfaces once, in order, located at the token it was raised at",
  "Each error recorded outside failed speculation is delivered exactly once, in recording order, after all tokens consumed before it and before the first one consumed after it. In the tree builder for rowan it carries the range and kind of the next significant token delivered after it, or of the last delivered token if there is none; the tree that is built has exactly the delivered tokens' texts, ranges and the described nodes.",
  ["histories", "inputs", "programs"], "all token lists (multi-byte texts included) x all legal call sequences with errors at any point",
  "No tests exist for this component or for its rowan sink.",
  [EP, RS], [("RowanSink::extend_errors", RS), ("Event::Error replay", EP)],
  ["RowanSink::finish", "Sink::error"], [("cur / no_range", "range of the current token, errors waiting for a range", RS)])
p("P13", "Construct markers are enforced and report emptiness truthfully",
  "A marker of an open construct that is dropped without being closed or abandoned panics, and one that is consumed does not. The marker of a closed construct reports being empty exactly when no token was consumed inside that construct, including inside a construct it was made the parent of, whatever lookahead happened in between; preceding the same completed construct again while the first attempt is still open or was closed is rejected, after an abandoned attempt it works. A panic of the caller's own while constructs are open comes out unchanged.",
  ["histories", "programs"], "all legal call sequences with lookahead and trivia at every position; every single omitted close",
  "No tests exist for this component.",
  [EP], [("DropBomb in Entered", EP), ("Exited::is_empty", EP), ("assertion on the parent link in precede", EP)],
  ["Exited::is_empty", "drop of Entered", "Parser::precede"], [("Entered.tok_idx / Exited.is_empty", "where the construct began", EP)])
PM = "crates/pattern-match/src/alg.rs"
PMX = "crates/pattern-match/src/matrix.rs"
PMT = "crates/pattern-match/src/types.rs"
p("P14", "Reported missing patterns are exactly the unmatched values",
  "For every list of well-typed patterns over a type, the reported missing patterns together cover exactly those values of the type that none of the patterns matches; in particular there are none if and only if the match is exhaustive. Missing patterns contain no or-pattern.",
  ["inputs", "programs"], "all pattern lists up to a bound over finite, nested, recursive, infinite and empty types, with wildcards, nested and top-level or-patterns and omitted trailing arguments; both eager and lazy constructor splitting",
  "The component has lib.test = false: it has no tests at all.",
  [PM, PMX, PMT], [("useful() recursion building witnesses", PM), ("specialize", PM), ("Matrix::push expanding or-patterns", PMX)],
  ["pattern_match::check -> Check.missing"])
p("P15", "Reported unreachable patterns are exactly the useless ones",
  "For every list of well-typed patterns, an identified pattern or sub-pattern is reported unreachable if and only if no value is matched through it: a value reaches it when no earlier pattern of the list matches the value, its own whole pattern does, and no earlier alternative of any or-pattern around it already matches there. Identifiers not occurring in the patterns are never reported.",
  ["inputs", "programs"], "all pattern lists up to a bound over finite, nested, recursive, infinite and empty types, with or-patterns nested anywhere",
  "The component has no tests at all.",
  [PM, PMX, PMT], [("get_pat_indices then removal of every index found useful", PM), ("or-pattern alternatives added to the matrix in turn", PM)],
  ["pattern_match::check -> Check.unreachable"])
p("P16", "Pattern checking turns bad input and language failures into errors",
  "If a language callback fails during a check, the check ends with that very error, at whichever call the failure happens, and it neither panics nor returns a result. A pattern whose constructor has more arguments than its type allows, or a wildcard pattern with arguments, is answered with an error and not with a panic or a result; well-typed patterns never cause an error.",
  ["fault_sequences", "inputs"], "every callback call of every explored check as failure point; every position of a malformed sub-pattern",
  "The component has no tests at all.",
  [PM, PMT], [("`?` on every Lang call", PM), ("argument checks in specialize", PM)],
  ["pattern_match::check -> Err"])
TS = "crates/topo-sort/src/lib.rs"
TG = "crates/topo-sort/src/graph.rs"
p("P17", "An acyclic graph is ordered completely, dependencies first",
  "For every finite directed graph without a cycle, sorting succeeds and the order contains every node exactly once - nodes mentioned only as neighbours included - with each node after all of its neighbours.",
  ["inputs"], "all directed graphs up to a bound on nodes, every choice of which sink nodes have their own entry; large chains, stars and layered graphs with every small modification",
  "The tests contain five acyclic graphs.",
  [TS, TG], [("depth-first work list with Start/End actions", TS), ("Visitor for Graph", TG)],
  ["topo_sort::graph::get -> Ok"], [("cur / ret.done", "elements in progress / finished", TS)])
p("P18", "A cycle is always detected, and the witness lies on one",
  "For every finite directed graph, sorting fails if and only if the graph has a cycle (self-loops included), it always terminates, and the witness it reports is a node that can reach itself.",
  ["inputs"], "all directed graphs up to a bound on nodes; larger graphs with every placement of up to two extra edges",
  "The tests contain three cyclic graphs and ignore the witness.",
  [TS, TG], [("insertion into the in-progress set fails -> cycle", TS)],
  ["topo_sort::graph::get -> Err", "CycleError::witness", "Ret.cycle"], [("cur", "elements in progress", TS)])
p("P19", "The sorting visitor protocol is respected for arbitrary visitors",
  "For any visitor and any initial work, every element the visitor agrees to enter is processed exactly once and exited exactly once, its exit comes after the exits of everything it (transitively) requested that was not already in progress, and the level passed on exit is the number of elements still in progress. At the end the finished set is exactly the set of exited elements, and a cycle is reported exactly when an element in progress was requested again and not refused.",
  ["histories", "programs"], "all visitor behaviours (accept/refuse answers per call, any requested lists with duplicates) up to a bound on calls, for each provided set type",
  "Tests only go through the graph visitor, never refuse an element and never look at levels or the finished set.",
  [TS], [("Work::run", TS), ("Set implementations", TS)],
  ["Visitor::{enter,process,exit} call sequence", "Ret.done", "Ret.cycle"], [("actions", "LIFO of Start/End", TS), ("level", "number of End actions", TS)])
PA = "crates/paths/src/lib.rs"
p("P20", "Clean paths are absolute and lexically normal, however they are made",
  "A clean path can be made from exactly the absolute paths; it is then the lexical normal form of its input: absolute, no `.` or `..` or repeated or trailing separators, with `..` removing the component before it and ignored at the root. Pushing or joining any path onto a clean path gives the clean path of the concatenation (or of the pushed path alone if absolute), a parent is the path without its last component, and a path and its owned form compare, order and hash alike.",
  ["inputs", "histories"], "all path strings up to a length over separators, dots and names (spaces, non-ASCII and non-UTF-8 bytes too), all sequences of pushes and parents",
  "One test and two doc examples normalise one `..` each.",
  [PA], [("CleanPathBuf::new_unchecked component loop", PA), ("CleanPathBuf::push re-cleaning", PA)],
  ["CleanPathBuf::{new,push}", "CleanPath::{join,parent,to_owned}", "Borrow lookups"])
p("P21", "Path identifiers and paths correspond one to one",
  "In a path store, asking for identifiers (with a borrowed or owned path) gives equal identifiers exactly for equal paths, an identifier always gives back its path, and identifiers stay valid and unchanged by later operations. Combining another store reports, for each path of the other store exactly once, a pair of the identifiers that path has in the other store and in this one, and afterwards this store contains all paths of both.",
  ["histories"], "all sequences of lookups and combines over several stores; stores with tens of thousands of paths",
  "No test touches the store.",
  [PA, "crates/idx/src/lib.rs"], [("id_to_path / path_to_id kept in step", PA), ("combine via get_id_owned", PA)],
  ["Store::{get_id,get_id_owned,get_path,combine}", "PathMap/PathSet"], [("id_to_path, path_to_id", "the two directions of the bijection", PA)])
p("P22", "The in-memory file system behaves like the real one",
  "For every set of text files, the in-memory file system holding them and the real file system holding the same files under a directory agree on which clean paths are files, on the text and bytes of every file, on failing to read what is not a file, and on the set of files found by walking from any directory (listing, then descending into what is not a file). Listing a directory never yields the directory itself or anything outside it, and the real one reports failures as errors and passes contents through unchanged.",
  ["inputs", "fault_sequences"], "all file sets over a small tree of names (with names that are prefixes of one another), all query paths; missing files, directories, non-UTF-8 contents as failures",
  "No test touches either file system.",
  [PA], [("MemoryFileSystem::{read_to_string,read_to_bytes,read_dir,is_file}", PA), ("RealFileSystem delegating to std::fs", PA)],
  ["trait FileSystem methods of both implementations"])
SP = "crates/str-process/src/lib.rs"
p("P23", "The string cursor reads and slices exactly what it passed over",
  "For every string and every sequence of cursor operations, the current byte and index are those of the string at the number of bytes advanced; a conditional skip advances to the first byte its condition rejects (or the end), a prefix is eaten if and only if it comes next, and advancing by a character ends on the next character boundary. The slice since a mark is exactly the bytes passed over since the mark, the mark correctly answers whether anything was passed over, and demanding a non-empty slice panics exactly when there is none. A mark that is dropped without being asked panics in debug builds only, and never while the caller itself is panicking.",
  ["inputs", "histories"], "all strings (multi-byte included) up to a length x all operation sequences within the string, debug and release builds",
  "The component has no tests.",
  [SP], [("St.idx arithmetic", SP), ("Marker with drop bomb", SP)],
  ["St::{cur,cur_idx,bump,bump_while,mark,since,non_empty_since,did_bump_since,eat_prefix,next_str}"], [("idx", "bytes advanced", SP)])
IC = "crates/identifier-case/src/lib.rs"
p("P24", "Identifier case conversions are exact and inverse on regular names",
  "Converting to pascal case removes every underscore, upper-cases the first character of the string and each character that directly follows a run of underscores, and lower-cases all others; converting to snake case lower-cases everything and puts one underscore before each upper-case letter except at the very start; letters outside ASCII are left alone. Names made of lower-case words joined by single underscores survive the round trip to pascal case and back, and names in pascal case survive the opposite round trip.",
  ["inputs"], "all strings up to a length over lower, upper, underscore, digit and non-ASCII characters; long names",
  "Seven doc examples.",
  [IC], [("snake_to_pascal", IC), ("pascal_to_snake", IC)],
  ["identifier_case::{snake_to_pascal,pascal_to_snake}"])
MD = "crates/code-h2-md-map/src/lib.rs"
p("P25", "The Markdown map has one exact entry per code heading",
  "For every document, the result has exactly one entry per level-2 heading consisting of inline code, keyed by that code; its text is the starting text supplied for that key followed by each line up to the next such heading, every one preceded by a line break, and lines before the first heading are dropped. The starting text is asked for once per heading in order, a heading for the backtick character is keyed by it, and two headings with the same key make the call panic.",
  ["inputs"], "all documents up to a number of lines over an alphabet of heading-like and ordinary lines and both line endings; longer documents",
  "The component has no tests.",
  [MD], [("line loop with pending key and value", MD), ("code_h2", MD)],
  ["code_h2_md_map::get"])
SK = "crates/syntax-gen/src/kind.rs"
ST = "crates/syntax-gen/src/token.rs"
p("P26", "Generated token kinds reflect the grammar exactly",
  "For every grammar, the generated kinds are exactly the trivia, one per token and one per non-alternative node; keyword lookup maps precisely each keyword's text to its kind; the punctuation table has exactly the punctuation tokens, longer ones before those that are prefixes of them; descriptions, documentation, display and trivia status are those of the grammar and options, and both files name the file that generated them. Generated code compiles, also for a language without trivia. Conversion to the raw tree kind and back is the identity, and out-of-range raw kinds are refused.",
  ["programs", "configurations"], "all token sets up to a bound over keyword, punctuation and special tokens with and without documentation, x trivia lists",
  "The component has no tests; the generated code is never compiled by the repository.",
  [SK, ST, "crates/char-name/src/lib.rs", "crates/identifier-case/src/lib.rs"],
  [("sorting by descending length", SK), ("TokenDb::new classification", ST), ("quote! templates", SK)],
  ["compiled generated kind.rs: SyntaxKind::{keyword,PUNCTUATION,token_desc,token_doc}, Triviable, Display, Language"])
SQ = "crates/syntax-gen/src/seq.rs"
AL = "crates/syntax-gen/src/alt.rs"
p("P27", "Generated tree accessors find exactly the children the grammar names",
  "For every grammar, each generated node type casts from exactly the tree nodes of its kind (or of one of its alternatives' kinds) and gives the node back; each field accessor has the name and cardinality the grammar gives it, and returns the child of its type at its ordinal among that rule's fields of the same type, all children of its type for repetitions, and nothing when absent. Token alternatives convert from exactly their tokens and print their text.",
  ["programs", "inputs"], "all rule shapes up to a bound (tokens, nodes, alternatives, labels, optional, repeated, the same type several times) x all child lists up to a bound, on the compiled generated code",
  "The component has no tests; the generated code is never compiled by the repository.",
  [SQ, AL, "crates/syntax-gen/src/ast.rs", "crates/syntax-gen/src/lib.rs"],
  [("field() with per-type counters", SQ), ("get_nodes / get_tokens", AL), ("tokens/node_children helpers", "crates/syntax-gen/src/ast.rs")],
  ["compiled generated ast.rs: AstNode::{can_cast,cast,syntax}, accessors, TryFrom<SyntaxToken>"])
SL = "crates/syntax-gen/src/lib.rs"
WR = "crates/write-rs-tokens/src/lib.rs"
p("P28", "Code generation is deterministic and refuses what it cannot express",
  "The two generated files depend only on the options: the same options always give the same bytes, whatever hashing the option maps use and however often generation runs. Grammars that cannot be expressed (syntax errors, nested groups in fields, doubly labelled or doubly modified fields, alternatives mixing tokens and nodes, punctuation without a name) make generation panic rather than produce code.",
  ["configurations", "inputs"], "all hash orders of the option maps within a bound x a family of grammars; every kind of inexpressible rule at every position",
  "The component has no tests.",
  [SL, ST, SK, SQ, AL, "crates/syntax-gen/src/util.rs"], [("sorting before emission", SK), ("panics in field(), unwrap_node, unwrap_token", SQ)],
  ["files written to OUT_DIR by syntax_gen::get"])
CN = "crates/char-name/src/lib.rs"
p("P29", "Punctuation names are unique and unambiguous",
  "Every character has at most one name; every ASCII punctuation character other than the quotes and the backslash has one and no other character has; names are valid identifiers, distinct, and no name is a prefix of another, so that different punctuation sequences always get different concatenated names. The panicking lookup returns the same name and panics exactly where there is none.",
  ["inputs"], "all Unicode scalar values and all sequences of punctuation characters up to a length",
  "The component has no tests.",
  [CN], [("match table", CN)], ["char_name::{get,get_opt}"])
FM = "crates/fmt-util/src/lib.rs"
p("P30", "Separated formatting writes items and separators, and stops at the first error",
  "Formatting a sequence writes the items in order with exactly one separator between neighbours and none elsewhere, applying the caller's formatting options to each item and never to the separators. If writing fails at any point, formatting returns the error and writes and consumes nothing more.",
  ["inputs", "fault_sequences"], "all item sequences, separators and format options up to a bound x a failure at every write",
  "The component has no tests.",
  [FM], [("sep_seq", FM)], ["fmt_util::{sep_seq,comma_seq}"])
DI = "crates/diagnostic/src/lib.rs"
p("P31", "Diagnostics, ranges and codes render and parse faithfully",
  "Positions render one-based as line:column, ranges omit the second line number exactly when both ends are on the same line, and a diagnostic renders as range, severity and message; if the writer fails, the display fails and writes nothing more. Codes of every value render as that decimal number and convert to that integer, and a string parses to a code exactly when it is an unsigned number in range, giving that number, with the underlying cause attached otherwise; an error is more severe than a warning.",
  ["inputs"], "all 65536 codes; all strings up to a length over digits, signs and others; all small positions and ranges and large ones",
  "Neither component's formatting has a test.",
  [DI, TP], [("Display and FromStr implementations", DI), ("Display for PositionUtf16 / RangeUtf16", TP)],
  ["Display", "FromStr", "Ord for Severity", "Error::source"])
UQ = "crates/uniq/src/lib.rs"
p("P32", "A maker of unique identifiers never repeats one",
  "All identifiers a maker has returned are pairwise different, up to the 2^32 limit the maker documents, and equality, ordering, hashing and display tell them apart consistently; a display whose writer fails, fails and writes nothing more.",
  ["histories"], "all 2^32 - 1 successive states of a maker",
  "One doc example makes two identifiers.",
  [UQ], [("counter in UniqMk", UQ)], ["UniqMk::mk"], [("UniqMk.0", "next identifier", UQ)])
ID = "crates/idx/src/lib.rs"
p("P33", "Integer conversions are exact or refuse loudly",
  "Index values and text sizes made from an integer give that same integer back and keep its order, for every integer that fits 32 bits, and making one from a larger integer panics instead of truncating. The forgiving conversions return the same number when it fits and, when it does not, panic in debug builds and otherwise log one error and return the maximum; attaching a location to another value keeps the location.",
  ["inputs", "configurations"], "all integers in windows around every power of two and every multiple boundary of 32 bits (thorough: all 2^32), debug and release builds",
  "These components have no tests.",
  [ID, "crates/text-size-util/src/lib.rs", "crates/always/src/convert.rs"],
  [("Idx::new / to_usize", ID), ("mk_text_size", "crates/text-size-util/src/lib.rs"), ("usize_to_u32 / u32_to_usize", "crates/always/src/convert.rs")],
  ["return values and panics"])
AW = "crates/always/src/lib.rs"
p("P34", "The always-assertion asserts in debug builds and otherwise logs and continues",
  "The assertion evaluates its condition exactly once and yields its value; a true condition has no other effect. A false condition panics with the given message in debug builds, and in other builds logs exactly one error carrying the message and execution continues.",
  ["configurations", "histories"], "both build modes x all forms of the macro x conditions and log filters; all short sequences of assertions",
  "The component has no tests, and no test is run in a build without debug assertions.",
  [AW], [("always! macro", AW)], ["value, panic message, log records"])
FH = "crates/fast-hash/src/lib.rs"
p("P35", "Hash collection constructors keep every element and reject duplicates",
  "Building a map or a set from an array gives exactly the array's elements, and panics if and only if two keys (elements) are equal; collections made with a capacity start empty, hold at least that many elements without reallocating, and behave as maps and sets.",
  ["inputs"], "all arrays up to a length over a small key set, and long arrays with a duplicate at every pair of positions",
  "The component has no tests.",
  [FH], [("map, set", FH), ("map_with_capacity, set_with_capacity", FH)], ["fast_hash::{map,set,map_with_capacity,set_with_capacity}"])
SU = "crates/str-util/src/lib.rs"
p("P36", "Names are never empty and are interchangeable with their text",
  "A name can be made from exactly the non-empty strings, whatever string type they come in, and the panicking constructor panics exactly on the empty one. A name's text is the string it was made from, and comparing, ordering, hashing, displaying and borrowing names agree with doing so on their texts, so that a map keyed by names can be searched by text. If the writer fails, displaying a name fails and writes nothing more.",
  ["inputs"], "all strings up to a length over a small alphabet and lengths around the inline-storage limit, all pairs of them",
  "The component has no tests.",
  [SU], [("Name::try_new", SU), ("Borrow<str> for Name", SU)], ["Name::{new,try_new,as_str}", "Borrow", "Hash", "Ord", "Display"])
EL = "crates/elapsed/src/lib.rs"
p("P37", "Timing a call runs it once and reports what it took",
  "Timing a function calls it exactly once and returns its result; the duration covers the call: it is at least any time measured inside the function and at most any measured around the timing. The logging variant additionally emits exactly one info-level record that carries the message and the time the call took, after it returned, and a panic of the function propagates without a record.",
  ["inputs", "configurations", "fault_sequences"], "all small call nestings, results, panics and log filters",
  "The component has no tests.",
  [EL], [("time, log", EL)], ["elapsed::{time,log}"])
p("P38", "Writing generated tokens writes an equivalent, formatted file or nothing",
  "Writing a token stream that is a Rust file creates or replaces exactly the named file in the build output directory with text that parses back to the same tokens and ends in a newline; no other file is touched. If the stream is not a Rust file, the directory is not set or the file cannot be written, the call panics, and an unparsable stream leaves an existing file unchanged.",
  ["inputs", "fault_sequences"], "all token streams of a family of items up to a length, every failure point (directory variable, parse, write), existing and absent target",
  "The component has no tests.",
  [WR], [("parse2 before write, prettyplease::unparse", WR)], ["file written in OUT_DIR by write_rs_tokens::go"])
p("P39", "A chain map copies no entry that it does not share",
  "Cloning a chain map, adding to it, appending to it and reading it copy no key and no value. Any other operation copies only entries that are held in another place as well (by a living clone, or twice by the map itself because a clone was appended to it), and each of those at most once per holding: a map that shares nothing with another one copies nothing, whatever happened before.",
  ["histories", "configurations"], "all interleavings of operation sequences on up to three handles, related by cloning and appending or not, with few and many layers; feature `sync` off and on",
  "This is what the type exists for, and no test counts a copy or clones a map.",
  [CM], [("Rc::try_unwrap in consolidate_, Rc::make_mut", CM)],
  ["Clone of keys and values during ChainMap's operations"], [("stack", "layers shared between clones", CM)])
PT2 = "crates/pattern-match/src/types.rs"
p("P40", "Patterns and checking errors display what they are",
  "A pattern made from a constructor displays as the constructor, followed, if it has arguments, by their displays in parentheses separated by a comma and a space; an or-pattern as its alternatives separated by ' | ', an empty one as <NEVER>. A copy of a pattern is the same pattern, with the same indices. If the writer fails, the display fails at that point and writes nothing more. An error displays its message.",
  ["inputs", "fault_sequences"], "all pattern trees up to a number of nodes, wide and deep ones; a write failure after every number of bytes",
  "No test displays a pattern, though missing patterns are reported to people in this form.",
  [PT2], [("Display of Pat, RawPat, ConPat, CheckError", PT2)], ["Display and Clone of Pat, RawPat, ConPat; Display of CheckError"])
p("P41", "The pattern checker asks a language only what it documents",
  "While checking, the language is only asked about constructors of the very type in question: the arguments of a constructor of that type, whether one constructor of it covers another, how to split one. When a pattern's constructor is split, the constructors passed as already covered are of that type and stand in rows before it, never in its own row (unless that has or-patterns) or a later one; at the top of the value, none of the rows before is left out. The depth passed is 0 at the top of the value (unless or-patterns stand above) and no less than the nesting elsewhere.",
  ["inputs"], "all matches of a bounded number of patterns with constructors and or-patterns over types in which every place has a type of its own",
  "A language indexes its own tables with these types, and is told it may err if the arguments make no sense; no test looks at what is asked.",
  [PT2, "crates/pattern-match/src/alg.rs"], [("trait Lang", PT2), ("useful, specialize", "crates/pattern-match/src/alg.rs")],
  ["the calls of Lang::split, get_arg_tys and covers during pattern_match::check"])
p("P42", "A panic in a key, value or iterator leaves chain maps intact",
  "If a key's hash, equality or clone, a value's clone, or an iterator that a chain map is extended with panics during an operation, every other map (clones included) holds what it held. The map itself stays usable, holds no key twice and nothing that was never put under its key; if the operation only adds or reads (insert, extend, get, iter), it loses no entry. No key and no value is dropped twice or left over.",
  ["histories", "fault_sequences"], "all operation sequences on a map and its clone, with a panic at every call of a key, value or iterator; feature `sync` off and on",
  "No test panics inside an operation; what is shared between clones must survive a clone's failure at any point of a merge of layers.",
  [CM], [("insert, extend, consolidate_", CM)],
  ["Hash, Eq and Clone of keys, Clone of values, Iterator::next during ChainMap's operations"], [("stack", "layers shared between clones", CM)])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
