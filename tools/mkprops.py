#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts live)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for (n, m, w) in (state or [])],
            mechanism=[dict(name=n, where=w) for (n, w) in mech],
            observe_at=observe, hook_needed=hook)))

SC, UR, LI = "scan.go", "urls.go", "license.go"
DI, SY, MA, RE = ["internal/match/" + f for f in ("dict.go", "resyntax.go", "rematch.go", "regexp.go")]

prop("C01", "Scanning any bytes with any scanner returns normally",
 "For every byte slice - empty, huge, invalid UTF-8, unterminated markup, entities or URLs cut off at any byte - Scan, on the built-in set or on any Scanner that NewScanner returned without error, comes back with a Coverage. It never panics, never aborts the process and never loops forever.",
 ["inputs", "configurations"], "all byte slices x all license sets accepted by NewScanner",
 "TestTestdata scans about 650 well-formed English license files plus six URL strings; nothing truncates markup, feeds invalid UTF-8, or scans with custom license sets through the public API.",
 [SC, DI, MA, RE], [("size-returning markup recognisers with explicit bounds checks", DI), ("DFA walk over encoded states", MA), ("NewScanner rejects license sets it cannot scan with", SC)],
 ["return of Scan / Scanner.Scan", "recovered panic, exit status and CPU time of the worker process"])

prop("C02", "Scan only reads its input and keeps no reference to it",
 "Scan reads no byte outside the slice it is given and writes to no byte of it or of the spare capacity behind it. The returned Coverage shares no memory with the input or with any later result: changing the input, or a returned Match list, after the call changes neither an already returned Coverage nor the result of any later scan.",
 ["inputs", "histories"], "all inputs and all sequences of scan / mutate-input / mutate-result steps",
 "The tests pass ordinary heap slices with slack around them and never look at the buffer or at an earlier result after a later scan.",
 [SC, DI], [("string copy of the text on entry", SC), ("fresh Match slice per call", SC)],
 ["input bytes between PROT_NONE guard pages, mapped read-only", "snapshot of Coverage re-read after mutation"])

prop("C03", "Matches are in bounds, non-empty, ordered and pairwise disjoint",
 "In every Coverage each Match satisfies 0 <= Start < End <= len(text), and each Match ends at or before the start of the next one, license and URL matches alike. No byte of the text is therefore ever attributed to two licenses.",
 ["inputs", "configurations"], "all texts x all license sets, in particular sets whose patterns share words so that one match can begin where another ends",
 "The golden files fix the offsets of whole built-in license texts, which hardly ever touch or share words; no test checks disjointness for touching or competing patterns.",
 [SC, RE], [("scan resumes at the end of the previous match", RE), ("URLs are only taken between the previous and the next license match", SC)],
 ["Coverage.Match of every scan"], [("m.List", "word ranges of non-overlapping matches", RE), ("lastEnd", "word index where the previous match ended", SC)])

prop("C04", "Percent is exactly the share of the text's words that matches cover",
 "Coverage.Percent is 100 times the number of words covered by the reported matches (license matches including their copyright lead-in, URL matches counting the words inside the URL) divided by the number of words in the text, words being counted as the documentation defines them. It always lies in [0,100], is 0 exactly when there is no match or no word, and is never NaN.",
 ["inputs", "configurations"], "all texts x all license sets",
 "Golden files compare Percent to within 0.1 points on large texts, which hides off-by-a-few word counts; texts without any word and word-dense URL mixtures are not tested.",
 [SC, DI], [("total/len(words) accumulation in Scan", SC), ("word splitting", DI)],
 ["Coverage.Percent against an independent recount of words inside the reported byte ranges"], [("total", "words covered so far", SC)])

prop("C05", "A scan result depends only on the text and the license set",
 "Scanning the same bytes with the same list of licenses always gives the same Coverage, whichever Scanner instance built from that list is used, whatever was scanned before, in whatever order, in the same or another process. Building scanners or scanning other texts never changes later results, and changing the caller's license slice after NewScanner changes nothing.",
 ["histories", "inputs", "configurations"], "all histories of NewScanner / Scan / BuiltinLicenses calls over several scanners and texts",
 "Every test scans each file once on one shared scanner and compares to a golden value; no history is varied and no second scanner exists.",
 [SC, RE, DI], [("scanner state is read-only after construction", SC), ("Split does not add words to the dictionary", DI)],
 ["Coverage returned at each step of a recorded history, compared with a fresh process"], [("Dict", "word list of one scanner", DI)])

prop("C06", "Scanners are safe for concurrent use, including the very first Scan",
 "Any number of goroutines may call the package-level Scan (also when no call has happened before), Scanner.Scan on one shared Scanner, NewScanner and BuiltinLicenses at the same time: there is no data race, and every call returns what the same call returns when run alone.",
 ["schedules", "histories"], "all interleavings of concurrent Scan, Scanner.Scan, NewScanner and BuiltinLicenses calls, from a cold start on",
 "TestTestdata runs its subtests in parallel but the suite is not run under the race detector, the cold start happens once per process, and custom scanners are never shared.",
 [SC, RE, DI], [("sync.Once around the built-in scanner", SC), ("read-only dictionary, DFA and start-phrase table while scanning", RE)],
 ["race detector reports", "per-call results against a sequential run"], [("builtinScanner", "lazily initialised shared scanner", SC)])

prop("C07", "No false positives: every license match really spells out its license",
 "For every license Match with identifier ID there is a license of that ID in the set whose pattern accepts the words of the matched text (after the copyright lead-in), using only the documented tolerances: word canonicalisation, one-byte edits of words of four or more bytes, joined or split words, c/copyright confusion, and wildcards of at most N words. A text with a required word missing, replaced, or added beyond those tolerances is not reported as that license at that place.",
 ["inputs", "configurations", "programs"], "all texts x all license patterns",
 "The golden files contain almost only positive examples; near-misses (one dropped, swapped or extra word; two typos in one word; one word too many in a wildcard) are not generated anywhere.",
 [MA, RE, SC], [("DFA match with context-sensitive spell check", MA), ("start phrases", RE), ("pattern compilation", MA)],
 ["each reported Match against an independent acceptor for the pattern"])

prop("C08", "Completeness: a text that spells out a pattern is reported in full",
 "Whenever a text contains a complete exact instance of a license's pattern - any choice of alternatives, optional parts present or absent, wildcards that required words stand behind (also when optional parts are left out) filled with up to N words foreign to the pattern - and no other license competes for those words, Scan reports that license over exactly that instance. This holds for custom license sets of any size and pattern shape.",
 ["programs", "inputs"], "all patterns in the documented syntax x all of their instances",
 "internal tests cover some twenty tiny patterns of one-letter words; no test expands patterns with nested groups, several optionals or several wildcards into their instances.",
 [SY, MA, RE, SC], [("reParse / compile / reCompileDFA pipeline", MA), ("leading phrases as scan starts", SY)],
 ["Coverage.Match for generated instances against the generating derivation"])

prop("C09", "Leftmost, then longest, then earliest-listed license wins",
 "Matches are found left to right and never overlap: the scan takes the leftmost place where any license of the set matches, reports there the longest match available, breaks ties between licenses of equal length in favour of the one earliest in the license list, and goes on right after that match so that directly adjacent licenses are all reported.",
 ["inputs", "configurations"], "all license sets with shared prefixes, prefixes of one another and identical languages x all texts",
 "Four three-pattern examples in regexp_test.go and the golden files; ties, permuted license lists and patterns that are prefixes of one another are not explored.",
 [RE, MA, SC], [("longest DFA match", MA), ("smallest match value in a state", MA), ("resume at end of match", RE)],
 ["sequence of IDs and extents against a brute-force arbitration model"])

prop("C10", "Case, spacing, line breaks and punctuation do not affect recognition",
 "Changing letter case (in any script with case), the amount and kind of white space, line wrapping, LF versus CRLF, comment leaders, quotes, dashes or any other punctuation, symbol, spacing or enclosing mark, control or format character between words, in a text or in a license pattern, does not change which licenses are reported, in which order, over which words, or the Percent. Only byte offsets move with the text. (The sequences \"(s)\" and \"&copy;\" are documented literally; the letter case of these is not covered.)",
 ["inputs", "programs"], "all texts and patterns x all combinations of such reformattings",
 "Each golden file has one fixed layout; no test re-wraps, re-cases or re-punctuates a text and compares.",
 [DI, SY], [("word splitting and rune folding", DI)],
 ["Coverage of a text and of its reformatted twin, mapped through word positions"])

prop("C11", "HTML and Markdown markup in a text is transparent",
 "HTML tags, character entities (named, decimal, hexadecimal), Markdown heading anchors {#x} and Markdown link targets ](http...), ](https...), ](mailto:...), ](file:...), ](#...) contribute no words: inserting them between words leaves the reported licenses, their word extents and the Percent unchanged. Text that merely resembles markup - an e-mail address or URL in angle brackets, an unterminated or over-long tag, a malformed entity - is kept as words.",
 ["inputs"], "all texts x all insertions of well-formed and malformed markup between words",
 "About 35 fixed strings in dict_test.go; combinations, nesting and truncation inside real license texts are not tested and nothing is checked at the Scan level.",
 [DI], [("htmlTagSize, htmlEntitySize, markdownAnchorSize, markdownLinkSize", DI)],
 ["Percent and matches of decorated texts against the undecorated text and a word-count model"])

prop("C12", "Documented word equivalences hold everywhere",
 "The following count as the same word in texts and in patterns, in every position: https/http; is/are; it/them/they; the/these/this/those; copy/copies; copyright, the sign U+00A9, (c), (C) and &copy;, with adjacent ones counting once; w(s) and ws; and words differing only in acute or grave accents on vowels, precomposed or combining. No other distinct words are identified by canonicalisation: exchanging any other word at a match start breaks the match.",
 ["inputs", "programs"], "all words, positions and combinations of the listed rewrites",
 "dict_test.go checks about ten sentences; positions at text boundaries, combinations and accents in decomposed form are not covered.",
 [DI], [("canonicalRewrites and special rewrites in split", DI), ("foldRune", DI)],
 ["Coverage of rewritten pattern/text pairs"])

prop("C13", "Spelling tolerance accepts exactly the documented slips inside a match",
 "Inside a match (after its first two words) a word still counts if one byte is inserted, deleted or replaced and the longer of the two words has at least four bytes, if it was broken in two or fused with its successor at the word boundary, or if c and copyright were confused. Two such edits in one word, any edit of shorter words, swapped words and missing words are not accepted.",
 ["inputs", "programs"], "all pattern words x all single and double edits, joins and splits at all positions",
 "rematch_test.go tries nine edits of 'abcdef' and one join and one split; no edit position, word length boundary or double edit is swept.",
 [MA], [("canMisspell, canMisspellJoin, misspell split", MA)],
 ["match / no match for exhaustively edited instances"])

prop("C14", "A wildcard __N__ stands for any 0 to N words and never more",
 "A wildcard __N__ that is followed by required words before any other wildcard matches every sequence of zero to N words (foreign to what follows) and never N+1, for every N that a pattern can state, so large counts are either honoured or rejected with an error and never silently changed. For N greater than three the wildcard ends as soon as the literal words that follow it (three of them, or fewer if the pattern or another wildcard comes first) have been seen.",
 ["programs", "inputs"], "all N, all positions of wildcards in a pattern, all fillings including ones that repeat parts of the following text",
 "rematch_test.go uses N up to 10 with one-letter words and a handful of fillings; golden files never sit exactly at the N / N+1 boundary.",
 [SY, MA], [("opWild expansion and instCut", MA), ("wildcard count parsing", SY)],
 ["match / no match at the N and N+1 boundary and extents under repeated trigger words"])

prop("C15", "Patterns are parsed as documented; malformed ones give an error",
 "NewScanner accepts every pattern in the documented LRE syntax and gives it its documented meaning: concatenation, || alternation, (( )) grouping, ))?? optional, __N__, comments without effect. Every malformed pattern - unbalanced or misplaced ((, )), ))??, ||, an unterminated comment, an unreadable wildcard count - yields an error naming the license and no scanner; no pattern text makes NewScanner panic.",
 ["programs"], "all pattern strings, well-formed and malformed",
 "resyntax_test.go has ten accepted and five rejected strings, mostly in the relaxed test-only syntax; arbitrary pattern text is never fed to NewScanner.",
 [SY, MA, SC], [("reParse with strict layout rules", SY)],
 ["error / scanner from NewScanner, and its scan results, against an independent parser and acceptor"])

prop("C16", "License sets are either rejected with an error or fully usable",
 "NewScanner returns an error and a nil scanner for any set it cannot scan with: no pattern at all, or a pattern that can match the empty text or a single word, or that has a wildcard among its first two words or ends in a wildcard outside any group with nothing after it. Every other set of valid patterns and URLs, whatever its size, with duplicate IDs, duplicate patterns, entries with only a URL or both, gives a scanner that reports each of its licenses.",
 ["configurations", "programs"], "all lists of License values",
 "No test calls NewScanner at all; only the built-in list is ever turned into a scanner.",
 [SC, RE, SY], [("missing-lre check in init", SC), ("leading phrase checks in NewMultiLRE", RE)],
 ["error / scanner from NewScanner and a probe scan of every listed license"])

prop("C17", "A license match takes in the copyright notice just before it",
 "If one of the up to 50 words before a license's first word, but after the end of the previous license match, is 'copyright' (in any of its spellings), the match starts at the earliest such word; otherwise it starts at the license's first word. Copyright words more than 50 words ahead or belonging to the previous license are never taken in.",
 ["inputs"], "all texts: all distances 0..60 between copyright words and the license, any number of copyright words, any preceding license",
 "Golden files have typical short notices; the 50-word limit, several notices and a notice between two adjacent licenses are not probed.",
 [SC], [("copyright look-back with maxCopyrightWords", SC)],
 ["Match.Start for swept distances"], [("maxCopyrightWords", "look-back limit", SC)])

prop("C18", "Match offsets are exact: word edges widened to whole lines",
 "A license match starting at the text's first word starts at byte 0, otherwise at the beginning of its first word's line if only non-word bytes precede that word on the line, else at the word's first byte; it ends at the end of text if it includes the last word, else just after the newline that ends its last line if no word follows on that line, else at the end of its last word. A URL match spans exactly the bytes of the URL.",
 ["inputs"], "all texts: all placements of newlines, CRLF, punctuation, multi-byte characters and markup around both ends of a match",
 "Golden files fix offsets for one layout per license, mostly whole-file matches; layouts with words on the same line on either side are rare.",
 [SC, DI], [("newline widening around word offsets", SC), ("word offsets Lo/Hi", DI)],
 ["Match.Start / Match.End against an independent offset computation"])

prop("C19", "Known license URLs are recognised in every equivalent spelling",
 "A URL of a license in the set is reported as an IsURL match with that license's ID wherever it stands in the text outside a license match, on its own or after other text: with http or https, in any letter case, with or without a trailing slash, with /legalcode appended, with one extra path element (a ported license, .../3.0/us), or with any combination of these (.../3.0/us/legalcode/). This holds for every built-in URL and for custom URLs given in the documented canonical form (lower case, no scheme, no trailing slash, .org or .com host).",
 ["inputs", "configurations"], "all license URLs x all listed spellings x all positions, including start and end of text and between two licenses",
 "url_test.go has six strings covering six of about 120 URLs; schemes in upper case, extra path elements and positions are not swept.",
 [SC, UR], [("urlScanRE and licenseURL canonicalisation", SC), ("builtinURLs table", UR)],
 ["IsURL matches for each generated spelling"])

prop("C20", "Nothing but a known, complete URL outside a license is a URL match",
 "An IsURL match is reported only for text that starts at an http(s) word outside every license match, is a complete URL on a .org or .com host, and canonicalises (scheme and trailing slash dropped, lower-cased, /legalcode or one final path element dropped) to a URL of the set; its ID and Type are that entry's. Unknown URLs, prefixes or extensions of known ones within a path element, and URLs running into or lying inside a license match give no URL match.",
 ["inputs", "configurations"], "all texts containing URL-like strings, known URLs with every one-character change, and URLs adjacent to or inside license matches",
 "No negative URL example exists in the tests, and no URL adjacent to or inside a license match is tested in isolation.",
 [SC], [("URL accepted only between lastEnd and the next match start", SC), ("exact map lookup after canonicalisation", SC)],
 ["IsURL matches against a hand-written URL recogniser"])

prop("C21", "Recognition is local: unrelated surrounding text changes nothing",
 "Putting words that occur in no pattern (and no copyright word or URL) before, after or between recognised parts of a text leaves every match in place: same licenses, same order, same words, with offsets shifted by the inserted bytes. Scanning a concatenation of texts separated by enough such words reports exactly the matches of the parts, however many there are and however large the text.",
 ["inputs"], "all texts x all insertions of foreign text at match boundaries; concatenations of up to thousands of parts and megabytes of text",
 "Golden files are single small documents; long concatenations and foreign text at match boundaries are only touched by one URL test.",
 [RE, SC], [("independent match attempts at each start phrase", RE)],
 ["Coverage of composed text against the shifted Coverages of its parts"])

prop("C22", "Package-level Scan equals a scanner built from BuiltinLicenses()",
 "For every text, Scan(text) equals the result of NewScanner(BuiltinLicenses()) followed by Scan on it, whatever callers did to slices returned by BuiltinLicenses before. BuiltinLicenses always returns the same complete list: unique pattern IDs, every entry with a pattern or a URL, and every URL entry carrying the Type of the pattern with the same ID.",
 ["inputs", "histories"], "all texts and all histories of modifying returned license slices",
 "Only Type of each entry is checked; NewScanner(BuiltinLicenses()) is never built or compared.",
 [SC, UR, "data.gen.go"], [("BuiltinLicenses copies the list", SC), ("lazy init from BuiltinLicenses", SC)],
 ["Coverage from both scanners; lists returned before and after mutation"])

prop("C23", "Every built-in license is recognised from instances of its own pattern",
 "For every built-in license, any text instantiating its pattern (every choice of optional parts and alternatives; wildcards filled up to N, save those that another wildcard can follow directly) is reported in full with no unmatched rest, as that license unless another built-in pattern equal or longer at that place is listed earlier. The built-in set covers every license the README lists as added to SPDX and never reports an ID the README says it never reports.",
 ["inputs"], "all built-in patterns x their instances",
 "testdata has one to five fixed texts per license; alternatives and optional parts of the patterns are mostly never instantiated.",
 ["data.gen.go", "licenses/README.md", SC, MA], [("built-in patterns", "data.gen.go"), ("matching pipeline", MA)],
 ["Coverage of generated instances against an independent model of the built-in set"])

prop("C24", "Type.Merge combines license requirements exactly as documented",
 "For all types t and u built from the documented flags, t.Merge(u) is Unknown if either is Unknown, and otherwise consists of the strongest of Unrestricted < Notice < ShareChanges < ShareProgram < ShareServer present in either, plus NonCommercial and Discouraged whenever present in either, with Unrestricted dropped when NonCommercial is set. Merging is commutative and associative and never loses a restriction.",
 ["inputs"], "all pairs and triples of flag combinations",
 "type_test.go checks five pairs.",
 [LI], [("Type.Merge", LI)], ["return value for every pair / triple"])

prop("C25", "Type text form round-trips and malformed text is rejected",
 "For every Type value, including undefined bits, ParseType(t.String()) gives back t without error, and String lists the documented flag names in order joined by | with at most one final Type(0x...) part. ParseType returns an error and zero for any string with an empty, unknown or wrongly capitalised part.",
 ["inputs"], "all values of the underlying integer; all strings",
 "type_test.go loops over the first 228 values only and checks no malformed string.",
 [LI], [("Type.String", LI), ("ParseType", LI)], ["return values"])

prop("C26", "Every match carries the ID and Type of the license it came from",
 "Each Match's ID and Type are those of one and the same License of the scanned set: an entry with a pattern for IsURL=false, an entry with a URL for IsURL=true. This holds when entries with and without patterns or URLs are mixed in any order, when there are many of them, and when several entries share an ID.",
 ["configurations", "inputs"], "all license lists mixing pattern-only, URL-only and combined entries with arbitrary Types, in any order and number",
 "The built-in list has patterns first and URLs last and nearly all Types Unknown, so index or Type mix-ups cannot show.",
 [SC], [("match value indexes the scanner's own pattern list", SC), ("urls map", SC)], ["Match.ID, Match.Type, Match.IsURL"],
 [("s.licenses", "patterns only, in list order", SC)])

prop("C27", "The built-in licenses are exactly what licenses/*.lre define",
 "Running the generator on the licenses directory gives the same list of licenses (ID, Type, pattern text, order) that is checked in and built into the package, so the licenses users get are the ones defined there. For any directory of template files (text with newline line ends, names that differ in more than punctuation) the generator emits one entry per template with non-blank output, with the exact expanded pattern text, back quotes included, and the Type declared in that template, in the documented order: by name, except that names starting with BSD-4-Clause, and names starting with GFDL-, are in reverse order among themselves. A malformed template or an unknown Type gives an error and leaves the old file alone.",
 ["inputs", "programs"], "the checked-in directory and all directories of LRE template files",
 "No test runs the generator; data.gen.go is checked in and regenerated only by hand.",
 ["gen_data.go", "data.gen.go", LI], [("buildLRE, templateList, output template", "gen_data.go")],
 ["constant values of the generated file for the real and for synthetic license directories"])

prop("C28", "getspdx emits valid patterns that match the SPDX text and keeps your edits",
 "For an SPDX license template made of literal text, optional parts at word boundaries and variables - it starts and ends with literal text, at least three literal words lie between two variables, and the values of variables are foreign to the literal text - the getspdx tool writes a pattern that NewScanner accepts and that matches the whole license text (from the end of a leading copyright variable on) with variables at their original values and any optional parts left out, and with each bullet variable there or not; the literal text itself stays required. The pattern begins with a comment of lines that hold the license's name, its SPDX address and each of its links. The license's text goes to testdata/licenses unchanged, and a new .t1 file, in the form testdata's tests read, says that this text is the license in full. It never overwrites an existing pattern file, or a text belonging to it, unless -f is given, never overwrites a .t1 test file, and writes nothing for deprecated or excluded licenses.",
 ["inputs", "configurations"], "all SPDX-style templates x existing-file states x flags",
 "The tool has no test at all.",
 ["licenses/getspdx.go"], [("templateToLRE, wrap, convert", "licenses/getspdx.go")],
 ["files written by the tool in a scratch directory; NewScanner and Scan on them"])

prop("C29", "Old Checker results are well-formed and identify the right license",
 "For every input and Options, Cover on a Checker from old.New returns ordered, in-bounds, pairwise disjoint matches with Percent values in [0,100] and reports true exactly when there is a match; it never panics, whatever mixture of text and URL entries the Checker was built from. Each match carries the name of the license whose text (or URL) it is: a verbatim copy of a listed license text is reported as that license with 100 percent coverage.",
 ["inputs", "configurations"], "all license lists mixing text-only, URL-only and combined entries x all inputs and options",
 "The tests of package old do not even compile in this checkout (its data file is missing), so nothing in it is tested.",
 ["old/license.go", "old/normalize.go"], [("submatches, overlap elimination, URL search", "old/license.go"), ("normalize", "old/normalize.go")],
 ["Coverage returned by Checker.Cover"], [("index", "phrase to license position table", "old/license.go")])

prop("C30", "getcc emits valid patterns that match the page text and keeps your edits",
 "For a Creative Commons legal code page in a layout getcc knows (divs deed-license and deed-main-content, or centred titles and div class text), made of headings, paragraphs, lists, block quotes and divs, with words kept apart by white space or block tags, no LRE operators other than (( and )) in its text, required words before the first list item and at the start of each item, and long enough, getcc writes a pattern that NewScanner accepts and that matches the page's text in full: with each heading, block quote, centred or shaded paragraph and fineprint, shaded or summary div present or left out, with or without a one-word number before list items, the words Creative Commons in front, and the license's URL after a heading. The rest of the text stays required. The pattern begins with a comment of lines that hold the license's ID and its URL (creativecommons.org/licenses/, elements, version, and jurisdiction if ported). The license's text (the site's own, else SPDX's) goes to testdata/licenses unchanged, and a new .t1 file, in the form testdata's tests read, says that this text is the license in full. An existing pattern, or a text belonging to it, is not overwritten unless -f is given, a .t1 test file never; for a missing page, or one that converts to less than 1000 bytes, getcc exits non-zero and writes nothing for it.",
 ["inputs", "configurations"], "all pages of the two layouts x existing-file states x flags",
 "The tool has no test at all.",
 ["licenses/getcc.go"], [("convert, wrap", "licenses/getcc.go")],
 ["files written by the tool in a scratch directory; NewScanner and Scan on them"])

prop("C31", "Old Checker honours MinLength, Slop, Threshold and picks the best match",
 "In package old, runs of words common to text and license count from Options.MinLength words (never fewer than two) on, runs of a license in order are joined into one match across gaps of at most Slop words and no more, and a match is reported exactly if its share of the license's words reaches Threshold percent; zero or negative options mean 10, 8 and 40. Match.Percent is that share and Coverage.Percent the share of the text's words matched, where a URL stands for everything between it and the matches next to it. Where one license text is part of another, a copy of either is reported as that license alone. A blank (___) of the license takes up to 70 words of the text, bridges them, and counts as a matched word; words ahead of a blank, however few, are taken in when they stand among the 70 words before a run that begins behind it and joins no other. (Stated for license texts without repeated words, with runs of MinLength words between blanks.)",
 ["inputs", "configurations"], "all Options x all sequences of license fragments and foreign words",
 "The tests of package old do not compile in this checkout and use the default options only.",
 ["old/license.go"], [("submatches: MinLength, Slop; Cover: Threshold, elimination of overlaps", "old/license.go")],
 ["Coverage returned by Checker.Cover"])

prop("C32", "Old Checker ignores case, spacing, punctuation, list markers and URL spelling",
 "In package old, changing letter case, white space, line ends, digits, punctuation and other characters that are no letters, the entities &ldquo; &rdquo; &amp;, or list markers such as a) and iv. between the words of a text or of a license text changes neither names, order, words nor Percent of the matches. A URL of the list is reported, at its place and with its name, wherever it stands outside a license match: with http or https, in any letter case, with or without a trailing slash, /legalcode or one extra path element.",
 ["inputs"], "all texts and license texts x all spellings of what stands between the words; all spellings of listed URLs",
 "The tests of package old do not compile in this checkout; its goldens are fixed texts.",
 ["old/normalize.go", "old/license.go"], [("normalize, toLower, isListMarker", "old/normalize.go"), ("findURLsBetween, licenseURL", "old/license.go")],
 ["Coverage returned by Checker.Cover for two spellings of one text"])

prop("C33", "An old Checker is a pure function that goroutines may share",
 "What Checker.Cover of package old returns depends only on the bytes of the text, the Options, and the license list as it was when New was called: not on earlier or concurrent calls, on what else lies behind the text's end in the same buffer, or on where the text lies. Cover reads the given bytes only, neither writes to nor keeps them; the results of different calls share no memory with each other or with the text; and changing the list given to New, or one BuiltinLicenses returned, changes no Checker. Any number of goroutines may use one Checker, and build others, at the same time.",
 ["inputs", "histories", "interleavings"], "all histories and schedules of New, Cover and caller-side changes",
 "The tests of package old do not compile in this checkout and call Cover one after another.",
 ["old/license.go", "old/normalize.go"], [("New copies what it needs; per-call document state", "old/license.go")],
 ["Coverage of every call in a history; faults at guard pages; race reports; results of separate processes"])

prop("C34", "Listing more licenses that a text does not contain changes nothing in its result",
 "Take a Scanner and a second one whose list has further entries, anywhere among the first ones: licenses and URLs no word of which is in the text or within a spelling slip of one, licenses that begin with three such foreign words (and otherwise use words the list has already), or, behind all others, repetitions of patterns already listed under another ID. Both report the same matches for the text: same IDs, Types, offsets, IsURL and Percent. This holds for small lists and for the built-in one, however many entries are added.",
 ["configurations", "inputs"], "all license lists x all lists of foreign additions and their places x all texts",
 "Tests scan each text with one list only.",
 [SC, MA, RE], [("one automaton, start table and dictionary shared by all licenses", RE)],
 ["Scan with the small and with the enlarged list"])

prop("C35", "Every reported match stands on its own",
 "The bytes text[m.Start:m.End] of a reported match, scanned by themselves, are reported as that one match (same ID, Type and IsURL) over all of them with Coverage.Percent 100; and so are their words when foreign words stand before and behind. (Left out: lists with a pattern that can end in a wildcard when words stand behind; a match whose edge cuts through an HTML tag or link with line breaks, and a license that ends within a word of the text, which needs that word to be seen.)",
 ["inputs", "configurations"], "all texts and license lists",
 "Tests compare offsets with goldens and never scan a reported range again.",
 [SC, RE, DI], [("match offsets, line widening", SC), ("match of a word range", RE)],
 ["Scan of the text and of every range it reported"])

prop("C36", "The license tools give the same output on every run, license by license",
 "getspdx and getcc write for a license what depends on its own input only: the files are equal byte by byte whether it is converted alone, together with others in any order, under getspdx all, within a larger database, or again with -f over an older file; a second run without -f changes nothing. gen_data run again on the same pattern files writes the same bytes, whatever was in its output file before; a pattern file nothing refers to that has only definitions changes no byte, and one with text adds one entry, with its own Type, and leaves all others (ID, Type, text, order) as they were.",
 ["inputs", "histories", "configurations"], "all sets and orders of licenses converted in one run x all histories of runs; all sets of pattern files",
 "No test runs the tools.",
 ["licenses/getspdx.go", "licenses/getcc.go", "gen_data.go"], [("per-license conversion, variables of one call", "licenses/getspdx.go"), ("convert", "licenses/getcc.go"), ("buildLRE: template set, Type of one template", "gen_data.go")],
 ["files written by the tools in scratch directories"])

prop("C37", "Scanning takes time and memory in proportion to the text and keeps nothing",
 "For a fixed license set, the time and the memory that Scan, Scanner.Scan and Cover of an old Checker use grow no faster than in proportion to the length of the text, whatever is in it: unfinished markup, endless URLs, one word of any length, beginnings of licenses, matches and words never seen before, repeated without end. Nothing is kept after a call: however many different texts have been scanned, or Scanners and Checkers built and dropped, the process holds no more memory than before, and a result that is kept does not keep its text alive.",
 ["inputs", "histories"], "all texts of all lengths x all license sets; all histories of scans and of building scanners",
 "The tests scan each license once; no test looks at time or memory, and the texts are no longer than a license.",
 [SC, DI, RE, MA, "old/license.go", "old/normalize.go"], [("one pass over the text; searches for the end of markup bounded or remembered", DI), ("one walk of the DFA per start, scan resumes behind a match", RE), ("URL search only at words http", SC), ("submatches, overlaps and URL search", "old/license.go")],
 ["CPU time of the thread that scans texts of growing length", "bytes allocated by a call", "live heap after rounds of calls"])

prop("C38", "A pattern error names the license and the place of its first mistake",
 "When NewScanner rejects a list because of a malformed pattern, the error names the ID of the first listed license whose pattern is malformed, gives the byte offset, in that pattern as it was passed, of the operator at fault ((( or ?? or )) or || out of place, a wildcard count that cannot be read, a comment never closed; for a group never closed, the length of the pattern), and shows a piece of the pattern that ends there. Of several mistakes it is the first; what stands in front (comments, groups, line ends, white space, any script), behind, or in other licenses makes no difference, and the same list gives the same error each time.",
 ["programs", "configurations"], "all valid beginnings of patterns x all kinds of mistakes x all lists around them",
 "The tests give NewScanner no malformed pattern; the parser test has a few one-line expressions and compares neither offset nor context.",
 [SY, RE, SC], [("reSyntaxError(s, i, …) at each operator", SY), ("SyntaxError.Error", SY), ("init: licenses parsed in order", SC)],
 ["text of the error NewScanner returns"])

prop("C39", "A built-in address stands for the license it names",
 "Every address in BuiltinLicenses is written as the lookup needs it (lower case, no scheme, no trailing slash, no /legalcode), is listed for one license only, and has a built-in pattern of the same ID and Type. The package-level Scan reports it, in each documented spelling (http or https, any letter case, a trailing slash, /legalcode, one more path element) and whatever stands around it, as one URL match with the ID that the address itself spells: CC-, elements, version for creativecommons.org/licenses/; the license whose ID in lower case is the last path element (without .txt, .html, -standalone). Creative Commons addresses that are not listed are not reported.",
 ["inputs"], "all built-in addresses in all spellings and surroundings; all combinations of Creative Commons elements, versions and ports",
 "testdata/ccurls.t1 has each Creative Commons address in one spelling and one surrounding; nothing compares the table with the names in the addresses.",
 [SC, UR], [("builtinURLs", UR), ("BuiltinLicenses, init, licenseURL", SC)],
 ["matches of the package-level Scan on texts with one address", "BuiltinLicenses()"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
