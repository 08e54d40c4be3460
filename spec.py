#!/usr/bin/env python3
"""All data about the properties in one place. Run it to regenerate
properties.jsonl, checks.json and MANIFEST.json."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, quant, why, files, mech, tests, technique, note, assumptions=(), state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), quant=quant, why=why,
                  files=files.split(), mech=mech, tests=tests, technique=technique, note=note,
                  assumptions=list(assumptions), state=state, observe=list(observe)))


TRUST = ("Search over generated cases, no proof: assurance is for what was generated (counts, classes and samples are in the evidence file). ")
UCD = ("Trusts the own reference rules in /verif/harness/ref, which are checked against the official test files in the repository, and as "
       "character data the Unicode 15 database which comes with Perl, restricted to characters whose data did not change since.")

prop("P01", "Segmenting never loses, duplicates or alters text",
     "For every text and every combination of word, grapheme and simple word breakers, the segments a Segmenter delivers are non-empty and their "
     "concatenation, in order, is exactly the input text. Segmenting a valid text ends without an error. This holds for input from a reader as well as from a slice, and for "
     "both settings of BreakOnZero, also if runes are no code points (texts without U+0000).",
     "inputs configurations", "all valid texts without U+0000, up to any length, times breaker combinations, kind of input and BreakOnZero settings",
     "Tests segment a handful of English phrases and the official UAX#29 test strings and compare a few segments; concatenation is not checked, nor texts longer than a line, combinations of breakers or other settings.",
     "segment/segment.go segment/deque.go segment/simplewordbreak.go uax29/uax29.go grapheme/grapheme.go automata.go",
     [("reading, look ahead and penalty queue", "segment/segment.go: readEnoughInputAndFindBreak, readRune, insertPenalties"),
      ("delivery of a segment", "segment/segment.go: getFrontSegment"), ("ring buffer of runes and penalties", "segment/deque.go")],
     ["TestLossless"], "property-based testing: round-trip (concatenation of segments equals the input)",
     TRUST + "Texts up to several hundred code points over all word and grapheme classes; 13 breaker combinations.",
     ["U+0000 is excluded: it is the end-of-text marker of the breakers (known finding)"],
     observe=["Segmenter.Next/Text/Err"])

prop("P02", "Segments end exactly where breakers give a breaking penalty",
     "For any breakers, the penalties they report for a position after a rune are added up, the first breaker's and all other breakers' separately; a "
     "segment ends after a rune exactly if one of the two sums is below InfinitePenalty and is not zero (or zero is enabled by BreakOnZero for that sum), "
     "no matter how long breakers keep matches active. The segment reports exactly these two sums with Penalties(), and Next returns false after the last break.",
     "inputs histories configurations", "all texts and all sequences of penalties and active-match lengths which breakers report, with one to twelve breakers and all BreakOnZero settings",
     "Tests use the real breakers only, mostly one at a time; the order in which penalties for earlier positions arrive, look ahead lengths, sums of several breakers and values around the limits are not varied.",
     "segment/segment.go segment/deque.go doc.go",
     [("aggregation of penalties", "segment/segment.go: insertPenalties, bounded/decide on breaks"), ("queue", "segment/deque.go")],
     ["TestSegmenterModel"], "model-based testing: scripted breakers against a reference model of penalty aggregation",
     TRUST + "Breakers are scripts of penalties and match lengths, texts up to 14 runes, sometimes 300 with long matches (the logic depends on positions and penalties only).",
     ["a breaker places penalties only at positions of runes which belonged to its active match, and after the current rune, and reports no active match at the end of the text, as all breakers of the module do"],
     observe=["Segmenter.Next/Text/Penalties"])

prop("P03", "BoundedNext never passes its bound and loses nothing",
     "BoundedNext(n) delivers the same segment as Next would, unless that would extend beyond the first n runes of the text, in which case "
     "the segment is cut at the bound; if the current position is at or after the bound it returns false. "
     "Calls with increasing bounds and calls of Next can be mixed in any order: segments stay contiguous, none is lost, and breaks after a bound are found as if there had been no bound.",
     "inputs histories", "all texts, breaker behaviours and sequences of Next and BoundedNext calls",
     "Tests make three bounded calls on one English string.",
     "segment/segment.go", [("bound", "segment/segment.go: BoundedNext, next"), ("position", "segment/segment.go: positionOfBreakOpportunity, pos")],
     ["TestBoundedModel"], "model-based stateful testing: call histories against a reference model",
     TRUST + "Histories of up to 10 bounded calls followed by Next until the end, with scripted breakers; bounds need not be ascending.",
     ["the end of the text is a break, as with all breakers of the module", "as P02"],
     observe=["Segmenter.BoundedNext/Next/Text/Penalties"])

prop("P04", "A segmenter's result depends only on its current input",
     "A Segmenter gives the same segments, penalties and errors for a text whether it is provided as a reader (Init) or as a rune slice (InitFromSlice), and whether "
     "the segmenter is new or has been used before, completely or in part, with or without bounds. Text, Bytes and Runes of a segment always agree; segments of a slice are parts of that slice, and a slice given as input is never written to.",
     "inputs histories", "all sequences of inputs given to one segmenter, with any number of Next and BoundedNext calls on each",
     "Tests use each segmenter once and mostly look at Text() or Bytes() alone.",
     "segment/segment.go uax29/uax29.go grapheme/grapheme.go segment/simplewordbreak.go",
     [("re-initialisation", "segment/segment.go: Init, InitFromSlice, reset"), ("state of breakers", "uax29/uax29.go, grapheme/grapheme.go")],
     ["TestReuse"], "property-based testing: differential, re-used segmenter against a new one with the other kind of input",
     TRUST + "Histories of up to 3 inputs of up to 12 code points.",
     observe=["Segmenter.Init/InitFromSlice/Next/BoundedNext/Text/Bytes/Runes/Penalties/Err"])

prop("P05", "Input failures and size limits are reported, not swallowed",
     "If the reader fails, the segments delivered are those of the undisturbed text up to there, Next then returns false, Err returns the reader's error and keeps doing so, until a new input is "
     "set, after which the segmenter works normally; Next on a segmenter without input returns false with ErrNotInitialized. "
     "A segment of up to the buffer's limit (default: 64K, or set with RuneBuffer: the larger of maximum and capacity) is delivered in full, in the buffer itself if that is large enough for the maximum; a longer one from a reader makes Next return false with ErrTooLong, and RuneBuffer (or Buffer) after segmenting has started panics, but not after a new Init.",
     "inputs fault_sequences configurations", "all texts, all positions of a read error, all buffer sizes and segment lengths",
     "Tests have no failing reader and no text longer than a few lines.",
     "segment/segment.go", [("errors", "segment/segment.go: setErr, Err, readRune"), ("limits", "segment/segment.go: RuneBuffer, MaxSegmentSize")],
     ["TestFaults", "TestTooLong"], "fault injection driven by property-based testing, with a fault-free run as the oracle",
     TRUST + "Read errors at every position of texts of up to 16 code points; buffer limits up to 10000 and the default of 65536.",
     ["a segment is counted in runes", "limits are checked with the default breaker"],
     observe=["Segmenter.Next/Err/Text"])

prop("P06", "The simple word breaker alternates words and white space",
     "With the default (simple) word breaker, a text is split into maximal runs of white space characters (Unicode White_Space) and maximal runs of other characters, "
     "with penalty 100 after a word and -100 after white space. Nothing else influences the result (texts without U+0000).",
     "inputs", "all texts", "The tests segment a few phrases with single blanks.",
     "segment/simplewordbreak.go segment/segment.go", [("breaker", "segment/simplewordbreak.go: ProceedWithRune")],
     ["TestSimpleWords"], "property-based testing against a reference model",
     TRUST + "Texts up to several hundred code points.", ["U+0000 is excluded (known finding of P01)"],
     observe=["Segmenter.Next/Text/Penalties"])

prop("P07", "Word breaks follow UAX#29 for every text",
     "Segmenting with a uax29 word breaker yields exactly the word boundaries which rules WB1 to WB999 of Unicode 11's UAX#29 define, for any sequence of characters assigned in Unicode 11.",
     "inputs", "all texts of Unicode 11 characters (without U+0000)",
     "The official test file has 1800 short strings, nearly all of up to 5 code points with one representative per class; longer interactions (runs of Extend/ZWJ/Format between any two rules, regional indicators after other text, several rules pending at once) and other members of the classes are not covered.",
     "uax29/uax29.go uax29/uax29classes.go automata.go prioq.go",
     [("rules as recognizers", "uax29/uax29.go: rule_*"), ("publisher", "automata.go"), ("classes", "uax29/uax29classes.go")],
     ["TestWordBreaks"], "property-based differential testing against an own UAX#29 implementation",
     TRUST + UCD, observe=["Segmenter.Next/Text"])

prop("P08", "Grapheme breaks follow UAX#29 for every text",
     "Segmenting with a grapheme breaker yields exactly the extended grapheme cluster boundaries which rules GB1 to GB999 of Unicode 11's UAX#29 define, for any sequence of characters assigned in Unicode 11 (except U+0000 and U+FFFD).",
     "inputs", "all texts of Unicode 11 characters",
     "The official test file has 672 short strings, nearly all of 2 to 4 code points with one representative per class; long emoji sequences, flags after other text, and other members of the classes are not covered.",
     "grapheme/grapheme.go grapheme/graphemeclasses.go emoji/emojiclasses.go automata.go prioq.go",
     [("rules as recognizers", "grapheme/grapheme.go: rule_*"), ("publisher", "automata.go"), ("classes", "grapheme/graphemeclasses.go")],
     ["TestGraphemes"], "property-based differential testing against an own UAX#29 implementation",
     TRUST + UCD, observe=["Segmenter.Next/Text"])

prop("P09", "Grapheme strings hold exactly the text's grapheme clusters",
     "For every text, StringFromString and StringFromBytes give a grapheme.String whose Len is the number of grapheme clusters and whose Nth(i) is the i-th cluster, so that the "
     "clusters concatenated are the text; bytes which are no legal UTF-8 before the text and after it are dropped. This holds for any representation the string chooses by size. Texts of 64 KB or more lead to a panic.",
     "inputs", "all texts up to 32766 bytes, with any illegal bytes or cut off encodings before or after; clusters of any length",
     "Tests have four short strings.", "grapheme/string.go grapheme/grapheme.go uax.go",
     [("three representations by size", "grapheme/string.go: shortString, midString, longString")],
     ["TestGraphemeString"], "property-based testing against a reference model (round-trip)",
     TRUST + UCD + " Sizes around 254 bytes and up to several thousand bytes are generated on purpose.",
     ["texts of more than 32766 bytes and less than 64 KB are not specified (the documentation contradicts itself)", "illegal bytes inside a text are not specified", "without U+0000 and unassigned characters"],
     observe=["grapheme.String.Len/Nth"])

prop("P10", "Code point class tables agree with the Unicode data",
     "For every one of the 1,114,112 code points, the word class (uax29), the grapheme class (grapheme) and the emoji classes (emoji) which the packages report are those of the "
     "Unicode Character Database the package is generated from, and each code point has exactly one word class and one grapheme class.",
     "inputs", "all code points", "Tests look at individual characters only.",
     "uax29/uax29classes.go grapheme/graphemeclasses.go emoji/emojiclasses.go emoji/emoji.go uax29/uax29.go grapheme/grapheme.go",
     [("tables", "uax29/uax29classes.go, grapheme/graphemeclasses.go, emoji/emojiclasses.go"), ("lookup", "uax29.ClassForRune, grapheme.ClassForRune, emoji.ClassForRune")],
     ["TestClasses"], "generated-input differential testing, exhaustive over all code points, against independent Unicode data",
     "All code points are enumerated in every run. " + UCD,
     ["U+FFFD has class Control in the grapheme table on purpose (the repository's test relies on it)", "differences between emoji data versions are listed as exceptions in the check"],
     observe=["uax29.WordBreaker.CodePointClassFor", "grapheme.Breaker.CodePointClassFor"])

prop("P11", "Display width of a grapheme follows UAX#11",
     "For every grapheme cluster of Unicode 11 characters and every context, Width is 2 for emoji presentation and East Asian wide and full-width clusters, 0 for zero width ones, "
     "and 1 otherwise, where ambiguous characters are wide exactly in an East Asian context (explicit, by script, by locale, or from the locale of the environment). Width never depends on "
     "anything but the cluster and the context, and no other set-up is needed before calling it.",
     "inputs configurations", "all grapheme clusters times all contexts (nil, predefined, by locale, by script, forced)",
     "Tests check a dozen characters in two contexts.", "uax11/width.go emoji/emoji.go",
     [("classification", "uax11/width.go: Width, consultAgainst, IsZeroWidth"), ("context", "uax11/width.go: Context, makeContext")],
     ["TestWidth"], "property-based differential testing against an own UAX#11 table and rules; every character on its own",
     TRUST + UCD + " Every single Unicode 11 character is tried in every run.",
     ["contexts whose script and locale contradict each other are not specified", "U+FFFD and two squared ideographs which changed class between Unicode versions are left out"],
     observe=["uax11.Width"])

prop("P12", "Width of a string is the sum over its graphemes",
     "StringWidth of a grapheme string equals the sum of Width over its graphemes, for every text and context. Splitting a text at a grapheme boundary never changes the total width.",
     "inputs configurations", "all texts (without U+0000), of any size, and contexts", "Tests check two short strings.",
     "uax11/width.go grapheme/string.go", [("sum", "uax11/width.go: StringWidth")],
     ["TestStringWidth"], "property-based testing: model plus metamorphic relation (additivity)", TRUST + UCD,
     observe=["uax11.StringWidth"])

prop("P13", "The rune publisher serves every subscriber until it is done",
     "For every history of subscriptions and runes, each subscriber receives each rune event published after its subscription exactly once until it reports it is done, is then told to unsubscribe exactly once and "
     "receives nothing more; the publisher returns the longest active match of those not done and adds up the penalties of all subscribers position by position. "
     "Recognizers taken from the pool start clean, with the given expectation, user data and no match, and their accept penalties are reported exactly once; after an abort their match length is 0. "
     "Used as a queue, whose subscribers may change their state if the queue is told, the publisher hands out subscribers which are done before active ones, and each exactly once.",
     "histories", "all histories of subscribe and publish operations with any life cycles of the subscribers",
     "Tests subscribe a single recognizer or check the queue with a fixed order of three items.",
     "automata.go prioq.go", [("publisher", "automata.go: DefaultRunePublisher, PublishRuneEvent, SubscribeMe"), ("priority queue of subscribers", "prioq.go"), ("pool", "automata.go: NewPooledRecognizer, releaseRecognizer")],
     ["TestPublisher", "TestRecognizer", "TestQueue"], "model-based stateful testing: histories against a reference model of the publisher",
     TRUST + "Histories of up to 30 operations.", observe=["RunePublisher.PublishRuneEvent", "RuneSubscriber callbacks"])

prop("P14", "Independent objects can be used concurrently",
     "Goroutines which each use segmenters, breakers (also for lines), grapheme strings, width contexts, bidi resolutions, tries and class look ups of their own (or read the same grapheme string or the same frozen trie, which are read-only) at the same time, in any schedule, get the results they "
     "would get alone, without a data race, deadlock or panic, also when they are the first ones to use the module (the set-up functions are concurrency-safe).",
     "inputs schedules", "all sets of concurrent jobs with separate objects, all schedules, before and after set-up",
     "Tests are sequential; the shared pools of recognizers and the lazily created class tables are never used by two goroutines.",
     "automata.go grapheme/grapheme.go grapheme/graphemeclasses.go uax29/uax29.go uax29/uax29classes.go uax14/uax14.go uax14/rules.go emoji/doc.go uax11/width.go segment/segment.go bidi/resolver.go bidi/scanner.go",
     [("pool of recognizers", "automata.go: NewPooledRecognizer, releaseRecognizer"), ("set-up", "uax29/uax29.go, grapheme/grapheme.go, uax14/uax14.go, emoji/doc.go: Setup…Classes"),
      ("predefined contexts", "uax11/width.go: EastAsianContext, LatinContext")],
     [dict(pkg="conc", test=t, race=True, linebreak=True) for t in ["TestConcurrent", "TestConcurrentFirstUse"]],
     "property-based testing of concurrent jobs under the race detector: differential against the same job alone",
     TRUST + "Schedules are those which the Go scheduler produces under the race detector, which reports unsynchronized accesses even when they do no harm in that schedule; first use is tested in a new process per case.",
     observe=["results of concurrent calls", "race detector"])

BIDI = ("The reference /verif/harness/ref/bidi.go is written from the text of UAX#9 (rules P2 to L2, BD9, BD16), not from the code; character data as above. ")
BIDIDOM = ["isolates are closed within the paragraph (the package documents a deviation otherwise)", "no legacy embeddings and overrides (documented as not supported)",
           "isolate characters and boundary neutrals are invisible, their direction and place are not specified", "rule L1 is left to the client (documented)"]

prop("P15", "Bidi orderings contain each byte of a paragraph exactly once",
     "For every text, paragraph direction, out-of-line markup and set of options, resolving terminates without a panic, leaves no goroutine running, and the segments of all runs of the ordering cover each byte up to the first paragraph separator "
     "(the whole text if separators are ignored) exactly once. Segments are intervals of complete characters, have the direction of their run, add up to its length, and DirectionAt gives the same direction for every byte. Neighbouring runs have opposite directions. This also holds for "
     "each of the parts which Split creates, at any character.",
     "inputs configurations", "all texts, including unclosed isolates, legacy controls, unbalanced markup and illegal bytes, all options and split positions",
     "Tests resolve a few dozen short ASCII strings and compare printed runs.",
     "bidi/scanner.go bidi/resolver.go bidi/actions.go bidi/reordering.go bidi/scrap.go bidi/brackets.go",
     [("runs of characters become scraps", "bidi/scanner.go: Scan, nextRune"), ("rules replace scraps", "bidi/resolver.go: pass1, pass2, reduce; bidi/actions.go"),
      ("runs", "bidi/reordering.go: flatten, extendRuns"), ("split", "bidi/reordering.go: split, splitChildren")],
     ["TestBidiPartition"], "property-based testing: invariant (partition of the text) over orderings and lines", TRUST + "Texts of up to 30 characters, now and then up to 600.",
     observe=["Ordering.Runs", "SegmentIterator.Segment", "ResolvedLevels.DirectionAt/Split"])

prop("P16", "Bidi directions follow the rules of UAX#9",
     "For every text whose isolates are closed and for both paragraph directions, each character gets the direction which UAX#9 gives it, by its ordering's run as well as by DirectionAt: weak types (W1-W7), paired brackets (N0), neutrals (N1, N2), "
     "implicit levels, and isolates LRI, RLI and FSI, nested within the limit of 125 levels of UAX#9. Illegal bytes are neutral; a separator ends the text or is white space; test mode takes upper case letters as right-to-left.",
     "inputs configurations", "all texts of Unicode 11 characters without legacy controls, times paragraph directions and options",
     "Tests have a few strings for some of the rules, in test mode and mostly with a left-to-right paragraph.",
     "bidi/scanner.go bidi/resolver.go bidi/actions.go bidi/uaxrules.go bidi/scrap.go",
     [("rules W1-W3, sos", "bidi/scanner.go: applyRulesW1to3, switchContext"), ("rules W4-W7, N1, N2", "bidi/actions.go"), ("application of rules", "bidi/resolver.go: pass1, pass2, matchRulesLHS, prepareRulesTrie"),
      ("isolates", "bidi/resolver.go: parseIRS, applySubIRS, resolveFSI")],
     ["TestBidiDirections"], "property-based testing: differential against an own implementation of UAX#9", TRUST + BIDI + UCD, BIDIDOM,
     observe=["Run.Dir", "ResolvedLevels.DirectionAt"])

prop("P17", "Bidi visual order follows rule L2 of UAX#9",
     "For every text whose isolates are closed and for both paragraph directions, a client which iterates over the runs of the ordering and their segments, in the way the package documents, gets the characters in the visual order "
     "of rule L2 for the levels of UAX#9, with any nesting of numbers, opposite directions and isolates (within the limit of 125 levels).",
     "inputs configurations", "all texts of Unicode 11 characters without legacy controls, times paragraph directions and options",
     "Tests print the runs of eight short strings.",
     "bidi/reordering.go bidi/resolver.go",
     [("reordering of an isolating run", "bidi/reordering.go: reorder, reverseNumbers, reverseTree"), ("runs in paragraph order", "bidi/reordering.go: flattenInto, extendRuns"),
      ("segments", "bidi/reordering.go: SegmentIterator")],
     ["TestBidiOrder"], "property-based testing: differential against an own implementation of UAX#9 (levels and rule L2)", TRUST + BIDI + UCD, BIDIDOM,
     observe=["Ordering.Runs", "SegmentIterator"])

prop("P18", "Lines split from bidi levels are ordered as lines of the paragraph",
     "Splitting resolved levels at any characters into lines, in any number of steps, gives each line the directions and the visual order that UAX#9 gives a line whose levels are those of the paragraph, also if the cut is inside nested isolates. "
     "With shift0 all positions of the second part start at 0, otherwise they stay what they were. The levels which were split are not changed.",
     "inputs histories", "all texts and paragraph directions as for P17, times all sequences of split positions, shifted or not",
     "Tests split two strings at one position.", "bidi/reordering.go",
     [("split of nested scraps", "bidi/reordering.go: Split, split, splitChildren"), ("positions", "bidi/reordering.go: shiftzero")],
     ["TestBidiLines"], "property-based testing: differential, each line against rule L2 for the levels of the paragraph", TRUST + BIDI + UCD, BIDIDOM,
     observe=["ResolvedLevels.Split/Reorder/DirectionAt"])

prop("P19", "Out-of-line bidi markup acts like isolate characters in the text",
     "For every text and every placement of markup (LRI, RLI, PDI, and PDI followed by LRI or RLI at the same position, from the first position to the end of the text), directions and visual order are those of the text with "
     "these characters inserted; markup and isolate characters can be mixed and nested.",
     "inputs configurations", "all texts with closed isolates, times all choices of which of them are out-of-line",
     "One test has markup at two positions of one string.", "bidi/scanner.go",
     [("query of markup", "bidi/scanner.go: nextRune, markupToBidi")],
     ["TestBidiMarkup"], "property-based testing: metamorphic relation (markup against inline isolates) and differential against the reference", TRUST + BIDI + UCD, BIDIDOM,
     observe=["ResolveParagraph with OutOfLineBidiMarkup"])

prop("P20", "Paired brackets get the direction of rule N0",
     "For every text with brackets, brackets are paired as BD16 demands (nesting, crossing, canonical equivalents, per isolating run, up to 63 open ones), and the two brackets of a pair, with the marks behind them, get the direction "
     "of rule N0: that of the embedding if it occurs inside, else that of the context if just the opposite direction occurs inside, else that of neutrals.",
     "inputs", "all texts with brackets of all kinds, in all embeddings", "Tests check the pairing of six strings, and N0 with a few strings of one direction.",
     "bidi/brackets.go bidi/bracketpairs.go bidi/resolver.go bidi/scanner.go",
     [("pairing", "bidi/brackets.go: push, popWith, findPair"), ("table", "bidi/bracketpairs.go"), ("rule N0", "bidi/resolver.go: performRuleN0, classOfBrackets"), ("handler per isolating run", "bidi/scanner.go: findBD16ForPos")],
     ["TestBidiBrackets"], "property-based testing: differential against an own implementation of BD16 and N0", TRUST + BIDI + UCD + " Every pair of brackets is tried in every run.", BIDIDOM,
     observe=["Run.Dir"])

prop("P21", "Bidi results depend on text, markup and options only",
     "Resolving a text gives the same result from any kind of reader, whatever has been resolved before (also the same text with other options or markup); of several options of a kind the last one counts, nil and legacy options have no effect. Whatever is done with the result (reorder, iterate in both directions, "
     "split, print, look up), in any order, reordering it again gives the same runs and segments; reverse iteration gives the same segments in reverse order.",
     "inputs histories configurations", "all texts, sequences of options and histories of operations on a result",
     "Tests reorder each result once and iterate in one direction.", "bidi/reordering.go bidi/scanner.go bidi/resolver.go",
     [("options", "bidi/scanner.go: Option, setMode"), ("operations on results", "bidi/reordering.go: Reorder, Split, SegmentIterator, DirectionAt")],
     ["TestBidiUse"], "property-based stateful testing: histories of operations, differential against a new resolution", TRUST,
     observe=["ResolvedLevels", "Ordering", "SegmentIterator.EOF"])

prop("P22", "A frozen hash trie contains exactly the words inserted",
     "After any sequence of insertions which fit, a frozen TinyHashTrie has a position for every prefix of an inserted word, different ones for different prefixes, and none (0) for "
     "any other sequence of two or more categories; an Iterator reports the same positions step by step and 0 from the first step on which is not contained. Inserting a word again changes nothing. More than 50 categories are refused.",
     "inputs histories configurations", "all table sizes (primes), category counts and sequences of insertions and queries",
     "The test inserts a handful of fixed words into one trie; collisions that make a family of entries move, repeated insertion and absent words are not varied.",
     "bidi/trie/hashtrie.go", [("insertion", "bidi/trie/hashtrie.go: insertFirstbornChildAndProgress, insertChildIntoFamily"),
                               ("relocation", "bidi/trie/hashtrie.go: moveFamily"), ("look up", "bidi/trie/hashtrie.go: Iterator.Next, AllocPositionForWord")],
     ["TestTrie"], "model-based testing: insertion histories against a set of prefixes",
     TRUST + "Tables of 61 to 251 slots with up to 50 categories; words of up to 8 categories.",
     ["categories are 0 to count-1; a word which does not fit makes the trie panic, which ends the history; at least a tenth of the table must be usable"],
     observe=["AllocPositionForWord", "Iterator.Next"])

prop("P25", "Combined breakers each contribute exactly their own breaks",
     "A segmenter with two different breakers (word, grapheme, simple) breaks exactly where at least one of them would break alone, its two penalties tell which of them did, and for each break "
     "whether it is mandatory: after a newline or control character the penalty of word and grapheme breakers lies near PenaltyForMustBreak (GlueBANG), between other characters it does not. The weight of a breaker never moves a break.",
     "inputs configurations", "all texts of Unicode 11 characters without U+0000, all pairs of breakers, all weights",
     "No test combines word and grapheme breakers or looks at penalties of real breakers.",
     "segment/segment.go uax29/uax29.go grapheme/grapheme.go segment/simplewordbreak.go",
     [("aggregation", "segment/segment.go: insertPenalties, findBreakOpportunity"), ("penalties", "uax29/uax29.go, grapheme/grapheme.go: rules, setPenalty1")],
     ["TestCombined"], "property-based testing: differential against the union of own implementations of the rules",
     TRUST + UCD + " Near means at most 9/10 of PenaltyForMustBreak (GlueBANG+GlueJOIN, both negative), because rules which apply later add a little; optional means more than half of it.",
     ["the break before a newline may have either kind of penalty"],
     observe=["Segmenter.Next/Text/Penalties"])

prop("P23", "UCD files are read and range tables generated faithfully",
     "Reading a Unicode data file delivers exactly its data lines, in order, with the code point range, the fields (up to surrounding white space), the comment and the line number of each, whatever comments, blank lines and white space surround them, "
     "and reports an error of the reader or a malformed code point instead of dropping lines silently. The range table generated from a list of ascending ranges contains exactly the code points of these ranges.",
     "inputs fault_sequences", "all UCD-format files, with read errors at any point, and all lists of ascending disjoint ranges",
     "One test prints the tokens of a tiny file without checking them; table generation is not tested.",
     "internal/ucdparse/ucdparse.go internal/ucdparse/scan.go internal/ucdparse/linebuf.go internal/ucdparse/gentables.go internal/tablegen/main.go",
     [("scanner", "internal/ucdparse/scan.go"), ("line buffer", "internal/ucdparse/linebuf.go"), ("range collector", "internal/ucdparse/gentables.go")],
     ["TestUCDParse", "TestRangeTables"], "property-based testing: render a generated file or table and parse it back (round-trip)", TRUST,
     ["ranges are given in ascending order, as in the Unicode data files"], observe=["ucdparse.Parse", "ucdparse.RangeTableCollector"])

prop("P24", "The first legal rune of a byte string is found",
     "For every byte string, PositionOfFirstLegalRune returns the offset of the first well-formed UTF-8 sequence together with the bytes before it, and -1 with the complete string if there is none.",
     "inputs", "all byte strings", "Tests have one string with a single illegal byte.", "uax.go",
     [("search", "uax.go: PositionOfFirstLegalRune")], ["TestFirstLegalRune"],
     "property-based testing against an own UTF-8 decoder", TRUST, observe=["uax.PositionOfFirstLegalRune"])

prop("P26", "Unicode break test files are read completely",
     "Reading a break test file delivers exactly its test lines, in order and once each, with the text before the first '#' and the comment after it, whatever blank lines, comment lines and white space "
     "surround them; a missing file is reported. A test line is translated to the input text and the list of its expected segments, which joined give the input.",
     "inputs", "all files in the format of the Unicode break tests",
     "The reader is used by tests to read the official files, but no test checks that it delivers what is in a file; a reader which skips cases makes these tests pass.",
     "internal/ucdparse/testfiles.go", [("lines", "internal/ucdparse/testfiles.go: Scan"), ("translation", "internal/ucdparse/testfiles.go: BreakTestInput")],
     ["TestBreakTestFile"], "property-based testing: render generated test cases to a file and read them back (round-trip)", TRUST,
     ["lines are shorter than the 64 KB which bufio.Scanner allows", "a test line ends with a division sign, as in the Unicode files"],
     observe=["ucdparse.OpenTestFile, Scan, Text, Comment, Err", "ucdparse.BreakTestInput"])

prop("P27", "Shaping tables agree with the Unicode data",
     "For every code point, the Arabic joining type, Indic syllabic category and Indic positional category tables of package shaping contain it exactly if the Unicode Character Database assigns it that class.",
     "inputs", "all code points times all tables", "The package has no tests.",
     "shaping/arabictables.go shaping/uipctables.go shaping/uisctables.go", [("tables", "shaping/*.go")],
     ["TestShapingTables"], "generated-input differential testing, exhaustive over all code points, against independent Unicode data",
     "All code points are enumerated for all tables in every run. " + UCD,
     ["only characters for which the data available offline is decisive are compared; version differences are listed as exceptions"],
     observe=["shaping tables"])

prop("P28", "Generators write exactly the classes of their input file",
     "For every UCD file, the table generator and the class generators write Go source which compiles and whose range tables contain, for each class of the file, exactly the code points the file "
     "assigns to it, each class under its own name and number; the bracket generator writes exactly the file's pairs. If the input is missing, cannot be downloaded completely or is malformed, they fail and leave the output file alone.",
     "inputs fault_sequences configurations", "all UCD files times the generators and their options, with failures of the download",
     "The generators have no tests at all; the packages' tables can be regenerated from new Unicode data only if they work.",
     "internal/tablegen/main.go internal/ucdparse/gentables.go internal/ucdparse/scan.go bidi/internal/gen/brackgen.go uax29/internal/generator/generator.go grapheme/internal/generator/generator.go emoji/internal/generator/generator.go uax14/internal/generator/generator.go",
     [("tables", "internal/tablegen/main.go: main, append, printVarSection"), ("classes", "*/internal/generator/generator.go: load…File, generateRanges, templates"), ("brackets", "bidi/internal/gen/brackgen.go: readBrackets")],
     [{"test": "TestGenerators", "programs": ["internal/tablegen", "bidi/internal/gen", "uax29/internal/generator", "grapheme/internal/generator", "emoji/internal/generator", "uax14/internal/generator"]}],
     "property-based testing with fault injection: programs run on generated files, their output type-checked, evaluated and compared (round-trip)",
     TRUST + "Files of up to some hundred lines; downloads from a web server on the loopback network which may answer with an error or cut the transfer.",
     ["surrogates are written as U+FFFD by the class generators (known finding)", "ranges are ascending per class for tablegen", "the class of tablegen is a Go identifier", "a file without any class is not required to compile"],
     observe=["output files of the generator programs"])

prop("P29", "Line breaks follow UAX#14 (Unicode 10)",
     "For every text, a Segmenter with a LineWrap breaks exactly where rules LB1-LB31 of UAX#14 (Unicode 10, numbers kept together) allow or demand a break, with mandatory breaks told from "
     "opportunities by their penalty (at most InfiniteMerits), regardless of the way the text is supplied, of BreakOnZero, of earlier texts segmented with it, and of another breaker used together with it.",
     "inputs histories", "all texts over all line breaking classes",
     "The package does not even compile without a generated file, so that its tests are never run; they sample 7000 lines.",
     "uax14/uax14.go uax14/rules.go uax14/internal/generator/generator.go",
     [("rules", "uax14/rules.go: rule_LB…, step…_LB25"), ("combining marks", "uax14/uax14.go: substitueSomeClasses, StartRulesFor, ProceedWithRune"), ("regional indicators", "uax14/uax14.go: block, unblock")],
     [{"test": t, "pkg": "lines", "linebreak": True} for t in ["TestLineClasses", "TestLineTriples", "TestLineBreaks", "TestLineCombined"]],
     "differential property-based testing against a reference implementation of UAX#14, plus exhaustive enumeration of short class sequences",
     "The reference reproduces all 7282 lines of the repository's LineBreakTest.txt. The missing class tables are made with the repository's own generator from independent Unicode data and overlaid.",
     ["U+0000 excluded (it is the end of text for the breakers)", "the class data is that of the Unicode version available offline; the rules are those of Unicode 10"],
     state=[("LineWrap", "lastClass, shadow, joined, blockedRI across code points", "uax14/uax14.go")],
     observe=["Segmenter.Text", "Segmenter.Penalties", "LineWrap.CodePointClassFor", "ClassForRune"])

prop("P30", "Segments are delivered without reading ahead more than needed",
     "A segmenter works incrementally: Next and BoundedNext return as soon as the input read so far decides on the segment, i.e. the longest active match of its breakers starts after the end of the segment (or after the bound), or the text ends; "
     "Init reads nothing, and the reader is not called again after the end of the text. With the word, grapheme, line or simple word breaker alone, a segment is decided when the character after it has been read, "
     "except where a rule depends on the character after that one (WB6, WB12, LB25), with any marks in between.",
     "inputs histories", "all texts, breaker behaviours and sequences of Next and BoundedNext calls, on input which arrives rune by rune",
     "Tests read strings, where reading ahead cannot be seen: a match which is never finished only costs memory and makes interactive input hang.",
     "segment/segment.go uax29/uax29.go grapheme/grapheme.go uax14/uax14.go automata.go segment/simplewordbreak.go",
     [("search limit", "segment/segment.go: searchLimit, readEnoughInputAndFindBreak"), ("active matches", "automata.go: PublishRuneEvent, Recognizer.MatchLength"),
      ("LongestActiveMatch", "uax29/uax29.go, grapheme/grapheme.go, uax14/uax14.go, segment/simplewordbreak.go")],
     ["TestStreamModel", "TestStreamBreakers", {"test": "TestStreamLines", "pkg": "lines", "linebreak": True}],
     "property-based testing: number of runes read, against a model of scripted breakers and against the look ahead the rules need",
     TRUST + "Texts up to several hundred code points. Reading less than expected is not reported, a wrong break would be (P02, P03, P07, P08, P29).",
     ["the look ahead with several of the module's breakers together is checked with scripted breakers only"],
     observe=["calls of the io.RuneReader given to Segmenter.Init when Next or BoundedNext returns"])

NOT_APPLICABLE = [
]


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P + NOT_APPLICABLE:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }, ensure_ascii=False) + "\n")
    checks = {}
    for p in P:
        ts = []
        for t in p["tests"]:
            d = {"pkg": "props", "test": t} if isinstance(t, str) else dict({"pkg": "props"}, **t)
            ts.append(d)
        checks[p["id"]] = {"tests": ts, "technique": p["technique"], "assumptions": p["assumptions"]}
    with open(os.path.join(HERE, "checks.json"), "w") as f:
        json.dump(checks, f, indent=1, sort_keys=True, ensure_ascii=False)
        f.write("\n")
    m = {"version": 1, "setup_cmd": "python3 check.py --setup",
         "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                     "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                     "evidence_file": "evidence/%s.json" % p["id"],
                     "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P],
         "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
         "notes": "No hooks in /repo: all checks use exported API, or internal packages through a module path below the repository's. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
