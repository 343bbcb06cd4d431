"""What is claimed: per property the checker packages and build modes, and the notes for the manifest."""

BOTH = ("chk", "rel")
CLAIMS = {}


def claim(pid, pkgs, note, profiles=BOTH, technique=None, assumptions=(), **kw):
    if isinstance(pkgs, str):
        pkgs = [pkgs]
    CLAIMS[pid] = dict(
        runs=[(p, pr) for p in pkgs for pr in profiles],
        note=note,
        technique=technique
        or "bounded-exhaustive stateless model checking of the real code in lock step with a reference model",
        level="model_checking",
        assumptions=["the reference model in /verif/mc states the property correctly",
                     "behaviour beyond the stated bounds is like that within them"] + list(assumptions),
        **kw,
    )


claim("P01", "text", "All texts up to 7 symbols over 8 (1-4 byte characters, line breaks), all fillers around the "
      "16-byte blocks of the line index and large texts; all offsets and positions, both build modes. Trusts the "
      "character-scanning reference.")
claim("P02", "text", "As P01 for pairs: all ordered offset and position pairs of all texts up to 6 symbols, block-"
      "boundary and large texts. Reversed ranges are outside the claim.")
claim("P03", "text", "All batches of up to 3 edits (any valid range) on tiny texts, all line-granular batches, all "
      "edit orders, long batches with up to 2 deviations, large documents; reference applies them one at a time.")
claim("P04", "text", "All batches mixing positions that exist and do not at every place, documents of up to 66000 lines or columns; reference skips the latter.")
claim("P05", ["chain", "chain-sync"], "All operation sequences (5 ops of 23, 3 keys; 6 ops with 1 key), all interleavings of two "
      "maps with appends, long and bulk histories with deviations, up to 65536 layers or keys; every iterator consumed in 9 ways after any number of `next`; drop counting; both feature configurations.")
claim("P06", ["chain", "chain-sync"], "All interleavings of up to 5-6 operations on up to 3 handles related by cloning, all handles "
      "observed after every step, up to 65536 layers or keys; `sync` off and on; operations of another handle at every call of the first's keys and "
      "values, nested twice; with `sync`, two threads under a controlled scheduler, all schedules with up to 2 handovers at those calls. "
      "Interleavings inside std::sync::Arc are trusted.")
claim("P07", "parse", "All legal call sequences to depth 8-9 over all small token lists, a recursive-descent driver over all "
      "token lists up to 6, long programs with 2 deviations, deep ones; recorded sink tokens compared.")
claim("P08", "parse", "As P07 to depth 11 with precede/abandon; the projection of the sink's calls on constructs and "
      "significant tokens is compared.")
claim("P09", "parse", "As P07 with every trivia placement; constructs and all tokens compared.")
claim("P10", "parse", "All call sequences to depth 8-10 with up to 3 nested saves; every projection compared with a model "
      "that restores a snapshot.")
claim("P11", "parse", "All call sequences with every kind of lookahead at every step and all distances at every cursor; a million looks at one token.")
claim("P12", "parse", "All call sequences with errors; order of errors and tokens, rowan tree and located errors compared.")
claim("P13", "parse", "All call sequences; is_empty of every closed construct; every omitted close, panics of the caller in open constructs; every repeated precede.")
claim("P14", "pat", "All lists of up to 5 patterns over 25 shapes of type (finite, empty, unbounded, ranges, recursive), all "
      "or-pattern nestings within a budget, four legitimate `split` behaviours; every value is matched by brute force.")
claim("P15", "pat", "As P14; the identifiers actually reached by first-match semantics over all values are compared.")
claim("P16", "pat", "As P14 with the language failing at each of its calls in turn, and with surplus arguments at every "
      "place of every pattern; also in large languages and matches.")
claim("P17", "topo", "All graphs of up to 4 (thorough 5) nodes, all functional graphs of 6 (7) and all acyclic ones of 5 (6) plus one "
      "edge, 14-node shapes with up to 2 (3) edges changed, huge chains and stars.")
claim("P18", "topo", "As P17; presence of a cycle and the witness compared with the transitive closure.")
claim("P19", "topo", "Every visitor of 2-5 elements within a budget of requests and refusals is built choice by choice while the "
      "sort runs, and a monitor checks each call; three set types.")
claim("P20", "mc-paths", "All byte strings up to 10 (thorough 12) over / . a b, 6 (7) over 8 symbols, all lists of 7 (8) parts, all sequences of 5 (6) "
      "pushes, joins and parents; byte-exact reference. Unix paths only.")
claim("P21", "mc-paths", "All sequences of 5 (6) operations on two stores of 4 paths and of 6 (7) with 2 paths, large stores with overlaps, 70000 paths.")
claim("P22", "mc-paths", "All sets of up to 3 (4) files among 39 paths and all histories of 4 (5) writes and removals, the memory file system and "
      "the real one (in a scratch directory) compared with a model at every path. Failures of the kernel other than those "
      "provoked by the listed odd files are outside.")
claim("P23", "strs", "All strings up to 3 characters (1-4 bytes each) and all sequences of 4 (thorough 5) cursor operations including any "
      "settling of any mark, marks dropped unsettled or passed by a panic; long strings with a deviation. Bumping past the end is a caller error and excluded.")
claim("P24", "strs", "All strings up to 7 (9) of 8 symbols, every character in 6 places, round trips of all names of up to 3 (4) words.")
claim("P25", "strs", "All documents of up to 4 (5) of 22 kinds of line, up to 8 (10) of 5 kinds, large ones with one line replaced or any starting texts.")
claim("P29", "strs", "Every code point; all pairs of names; all sequences of up to 3 (4) named characters.")
claim("P30", "strs", "All sequences of up to 4 (5) of 7 kinds of item, 5 separators, 9 formats; a write fault at every byte; iterators that are not fused.")
claim("P36", "strs", "All strings up to 5 (6) of 7 characters from 7 string types, lengths around inline limits, all pairs of short strings.")
claim("P26", "genrun", "The real generator runs on 169 (thorough ~1400) grammars: all subsets of 6 (9) tokens, all orders of tokens that "
      "are prefixes of each other, all documented subsets, all trivia lists, 500 tokens, shapes; the generated code is compiled and "
      "every kind, raw number, keyword neighbour and table entry compared with the grammar.", gen="")
claim("P27", "genrun", "As P26, with all rule shapes of up to 2 fields (7 types, optional, repeated, labelled) and up to 5 with fewer types; "
      "for every node type all child lists up to 4 (5) of what its fields name, other nodes, tokens, trivia and grandchildren.",
      gen="ast")
claim("P28", "genrefuse", "Every grammar of P26 several times; all iteration orders of 4 documented and 3 special tokens; all sequences of 3 (4) "
      "generations; all fields of up to 3 (4) labels and modifiers, alternatives up to 3 (4) members, every ASCII character in token names, "
      "all one-character changes of a grammar that ungrammar rejects. Names that collide after case conversion, and alternatives of "
      "alternatives, are outside the claim.")
claim("P31", "small", "All codes, all strings up to 6 (7) of 11 symbols, numbers around all powers of two up to 2^120; positions from 13 edge numbers and all below 12; writers that fail anywhere.")
claim("P32", "small", "A maker is run for all 2^32 - 1 identifiers (2^26 with debug assertions in the quick tier) with one bit per identifier seen; all pairs of the first 3000; writers that fail anywhere.")
claim("P33", "small", "Every 32-bit number (in the quick tier with debug assertions every 64th and all within 64 of multiples of 2^16); larger numbers from 1280 patterns. 64-bit platform only.")
claim("P34", "small", "All sequences of 3 (4) assertions of 14 forms, true or false, under three log filters, with and without debug assertions; "
      "messages of up to 70000 bytes, an assertion failing over and over, assertions while the thread unwinds.")
claim("P35", "small", "All arrays of up to 5 (6) keys out of 6, arrays up to 257 with any key replaced by any other, three key types (one with colliding hashes), "
      "all sequences of 5 (6) operations on collections with a capacity.")
claim("P37", "small", "All trees of up to 4 (5) calls nested up to 3 deep, timed or logged, returning, panicking or logging, under four log filters.")
claim("P38", "small", "All sequences of up to 2 (3) of 12 items, streams that are no files, all states of variable, directory and file, a full device, large and deep files. "
      "Power loss in the middle of the write is outside (the real code promises nothing about it).")
claim("P39", ["chain", "chain-sync"], "All interleavings of 5 (6) operations on up to 3 handles related by cloning or not, keys and values that count their "
      "copies; runs of up to 300 inserts and large extends between up to 4 (5) operations. Copies, not time or memory, are counted.")
claim("P40", "pat", "All patterns of up to 8 (9) nodes, 8 constructor names, widths and depths up to 70 (300), a write fault after every number of bytes. "
      "Formatting options (width, alternate form) are outside.")
claim("P41", "pat", "All matches of up to 3 patterns with up to 8 (10) constructors, or 6 (8) constructors and or-patterns, 2 (3) of them or-patterns, on "
      "3 type shapes with nested arguments, left-out arguments and unbounded constants. Every question asked is checked, not only the outcome. "
      "The order of the questions, and how often one is asked, are left open.")
claim("P42", ["chain", "chain-sync"], "All histories of 5 (6) operations out of 8, and of 4 (5) out of 14, on a map and its clone, each run again with a panic at every "
      "single call of a key, a value or an iterator. One fault per history. What a map that was being rearranged has lost is left open.")
