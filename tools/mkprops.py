#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is reviewable)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

G="unic/segment/src/grapheme.rs"; W="unic/segment/src/word.rs"
p("S01","Chunked grapheme walking equals segmentation of the whole text",
 "For every text, every way of delivering it to a grapheme cursor in chunks cut at character boundaries, and every choice of how much preceding context is supplied when the cursor asks for it, walking the cursor forward or backward reports exactly the grapheme cluster boundaries that UAX #29 (Unicode 10) gives for the whole text, in the selected mode (extended or legacy). No boundary is missed, invented, repeated or reported out of order because of where a chunk ended.",
 ["inputs","schedules","histories"],"all texts x all chunkings x all sizes of pre-context answers x both directions x both modes",
 "Unit tests hand the whole text as a single chunk, or exercise two or three hand-written chunkings; the cursor's cached state (category before/after, regional-indicator count, pending request) only matters across chunk edges.",
 [G],[("GraphemeCursor::next_boundary / prev_boundary / provide_context",G),("handle_regional, handle_emoji",G)],
 [("state/cat_before/cat_after/ris_count/pre_context_offset/resuming","what the cursor remembers between chunk deliveries",G)],
 ["Ok(Some(offset)) / Ok(None) of next_boundary, prev_boundary"])
p("S02","Grapheme cursor answers do not depend on its history",
 "For any sequence of operations on one grapheme cursor - boundary queries, steps forward and backward, jumps to another offset, requests left unanswered and abandoned by a jump, retries, and continuing from a cloned cursor - every completed answer equals the answer for the whole text at the cursor's current position. A jump cancels whatever was pending, a clone continues as the original would, and while no request is pending the reported current position is the last jump target or last returned boundary.",
 ["histories","schedules","inputs"],"all operation histories of one cursor, with cancellation and cloned checkpoints at arbitrary points, over all chunked texts",
 "Existing tests create a fresh cursor per query and never reverse direction, abandon a request, seek or clone in mid-protocol.",
 [G],[("set_cursor, is_boundary, next_boundary, prev_boundary, Clone",G)],
 [("pre_context_offset, resuming, ris_count, state","must be invalidated by a seek",G)],["cur_cursor(), is_boundary, next_boundary, prev_boundary"])
p("S03","Grapheme cursor requests are answerable and lead to an answer",
 "Every request a grapheme cursor makes for more text names text that exists and that the caller has not just supplied: pre-context ending at an offset inside the text, at or before the start of the current chunk and of the pre-context supplied so far, the chunk just before the current one, or the chunk just after it. A caller that answers each request truthfully is never met with a panic or an invalid-offset error, gets the same request again if it repeats the call without answering, and gets an answer after a number of requests bounded by the number of pieces it supplies; a chunk that does not reach the cursor is refused with an error, without a panic and without disturbing the cursor.",
 ["histories","schedules","inputs"],"all chunkings, all conforming client behaviours including retries, slow and one-character-at-a-time suppliers",
 "Bounded progress and absence of panics under every request/answer interleaving cannot be sampled by the few hand-written dialogues in the tests.",
 [G],[("GraphemeIncomplete requests and their service",G)],
 [("state (PreContext offset, Unknown, Regional, Emoji)","pending request",G)],["Err(PreContext/PrevChunk/NextChunk/InvalidOffset)"])
p("S04","Grapheme iterators are exact under any front/back interleaving",
 "For every text and every interleaving of pulls from the front and from the back of a grapheme iterator (with or without indices, extended or legacy, resumed from clones), each pull yields exactly the next remaining grapheme cluster of the whole text from that end (with its byte index), nothing is yielded twice or skipped, the remaining string view is exactly what has not been yielded, size hints bracket what remains, and exhausted iterators stay exhausted.",
 ["schedules","inputs","histories"],"all interleavings of two consumers over all texts, with checkpoints",
 "Tests only run each iterator purely forward and purely backward.",
 [G],[("Graphemes / GraphemeIndices: two cursors over one string",G)],
 [("cursor, cursor_back","front and back cursors with independent caches",G)],["next, next_back, as_str, size_hint"])
p("S05","Word iterators are exact under any front/back interleaving",
 "For every text and every interleaving of pulls from the front and from the back of a word-bound iterator (with or without indices, resumed from clones), the pieces yielded are exactly the UAX #29 (Unicode 10) word segments of the whole text: from the front in order, from the back in reverse, none twice, none skipped, with correct byte indices, the remaining string view is exactly what has not been yielded, and size hints bracket what remains. The filtered word iterator yields exactly the segments its predicate accepts, in the same order.",
 ["schedules","inputs","histories"],"all interleavings of two consumers over all texts, with checkpoints; predicates that fail",
 "Tests run each of the two separately written state machines (forward and backward) only alone and only on the conformance file's strings.",
 [W],[("WordBounds::next and WordBounds::next_back, two separate state machines with cached categories",W)],
 [("cat, catb","category cached across pulls from the same end",W)],["next, next_back, as_str, size_hint"])

N=["unic/normal/src/decompose.rs","unic/normal/src/recompose.rs","unic/normal/src/lib.rs"]
p("N01","Streaming normalization equals whole-text normalization",
 "For every character source and every schedule of pulls - including cloning the adapter in mid-stream, continuing either copy, printing the remainder through Display, interleaving several adapters, and reading one adapter's output through another - the characters produced by the NFD, NFC, NFKD and NFKC adapters are exactly those that UAX #15 (Unicode 10) gives for the whole text. In particular the result does not depend on when the consumer pauses or on which copy of a checkpoint it resumes.",
 ["schedules","inputs","histories"],"all texts x all pull/clone/print schedules x all four forms",
 "The conformance test collects complete short strings at once; buffering state across pulls, long runs of combining marks and mid-stream checkpoints are never exercised.",
 N,[("Decompositions: buffer and canonical sorting",N[0]),("Recompositions: composee, buffer and state machine",N[1])],
 [("buffer/sorted/ready, composee/last_ccc/state","characters pulled but not yet released",N[1])],["next(), Display, Clone, size_hint"])
p("N02","Streaming normalization is incremental",
 "A normalization adapter never withholds output that is already determined: it does not read further from its source than the first starter that settles the next output character, it does not touch the source before the first pull and, over an endless source with a bounded run of combining marks, every pull returns after a bounded number of reads.",
 ["schedules","inputs","histories"],"all sources (including endless and slow ones) and all pull schedules",
 "Liveness and bounded look-ahead are not visible in the collected result that tests compare.",
 N,[("lazy pulls from the wrapped iterator",N[0]),("Recompositions releases the composee as soon as it is blocked",N[1])],
 [("reads performed on the source","look-ahead",N[0])],["number of source reads per produced character"])
p("N03","Normalization survives a source that fails in mid-stream",
 "If the character source fails (panics) during a pull and the caller resumes pulling the same adapter afterwards, the characters produced before and after the failure are together exactly the normalization of the characters the source delivered: no delivered character is lost, duplicated or reordered by the failure, at whatever point it strikes and however often it repeats.",
 ["fault_sequences","schedules","inputs"],"all fault positions and repetitions in all streams",
 "Tests never inject a failure into a source.",
 N,[("state is updated only after the source has delivered",N[0])],[],["next() after a caught source failure"])

p("N04","Equivalent texts stay equivalent along any chain of re-encodings",
 "Copies of documents that nodes re-encode, in whole or in part, and hand to each other keep their identity: two copies have the same canonical (for the K forms: compatibility) normalization exactly when they are equivalent texts, whatever chain of normalizations to any form, decompositions of single characters, compositions of pairs, Hangul syllables taken apart and put together, joins of normalized pieces and exchanges of marks of different classes they have gone through, and whatever damage makes texts different. Normalizing a normalized text changes nothing, and composed and decomposed forms lead to each other. Character by character, decomposition gives the canonical or compatibility mapping, two characters compose exactly if they are the mapping of a character that is not excluded, and Hangul syllables and conjoining jamo turn into each other and nothing else does; what is no syllable is passed on unchanged. Nothing panics.",
 ["histories","fault_sequences","inputs"],"all texts, all chains of re-encodings by nodes with different habits, all damage",
 "Tests normalize the lines of the conformance file once; what chains and pieces do to all other texts is not sampled.",
 N+["unic/ucd/hangul/src/hangul.rs","unic/ucd/normal/src/composition.rs","unic/ucd/normal/src/decomposition.rs"],[("decompose_canonical, decompose_compatible, compose, composition tables","unic/ucd/normal/src/composition.rs"),("Hangul arithmetic","unic/ucd/hangul/src/hangul.rs")],
 [],["nfc, nfd, nfkc, nfkd of texts and iterators, decompose_canonical, decompose_compatible, compose, hangul functions"])

RI=["unic/char/range/src/iter.rs","unic/char/range/src/range.rs","unic/char/range/src/step.rs"]
p("R01","Character range iteration is exact under any front/back interleaving",
 "For every character range and every interleaving of pulls from the front and the back (also by-nth, by internal iteration, from clones, and through conversion to a range and back in mid-iteration), every character of the range - each Unicode scalar value between its ends, never a surrogate - is yielded exactly once, in ascending order from the front and descending order from the back. The reported length is exact at every moment, and exhausted iterators stay exhausted.",
 ["schedules","inputs","histories"],"all ranges x all interleavings of two consumers x checkpoints through the range conversion",
 "Tests iterate a handful of ranges in one direction; the surrogate gap, single-element and empty states matter only at particular interleavings.",
 RI,[("CharIter next/next_back, forward/backward stepping over the surrogate gap",RI[0]),("From<CharRange> for CharIter and back",RI[0])],
 [("low, high","the remaining range; high<low means empty",RI[0])],["next, next_back, len, size_hint, CharRange::from(iter)"])
p("R02","Parallel range iteration is exact under every scheduling",
 "For every character range, every splitting and work-stealing schedule and every number of workers, parallel iteration visits each character of the range exactly once and never a surrogate, collects them in range order, agrees with sequential iteration on counts and reductions, and produces the same result on every schedule. If the consumer's work on one character panics, the panic reaches the caller and no character is visited twice.",
 ["schedules","fault_sequences","inputs"],"all ranges x all split trees x all steal orders x panicking workers",
 "Tests run a few ranges on whatever schedule the real pool happens to produce.",
 ["unic/char/range/src/par_iter.rs"]+RI,[("ParallelIterator/IndexedParallelIterator implementation over compact indices","unic/char/range/src/par_iter.rs")],
 [],["for_each, collect, count, reduce, with_producer splits"])

p("R03","Character tables are read consistently by any mix of readers and lookups",
 "For every character table - sorted entries for single characters or for ranges - and every interleaving of iterators at different places, abandoned and reopened iterators, and lookups: iteration yields every entry exactly once, in order, and stays exhausted; every lookup (presence, value, value with its range, value or default) finds exactly the entry that covers the character, at the very ends of ranges and next to the surrogates too, and nothing for characters no entry covers. The block iterator and block lookup find the blocks of Unicode 10, by range and name, in the same way.",
 ["histories","schedules","inputs"],"all tables, all interleavings of readers and lookups",
 "Tests look up a few characters in the generated tables and iterate over one from start to end.",
 ["unic/char/property/src/tables.rs","unic/char/range/src/range.rs","unic/ucd/block/src/block.rs"],[("CharDataTable::find/contains/find_with_range/iter","unic/char/property/src/tables.rs"),("CharRange::cmp_char","unic/char/range/src/range.rs")],
 [("CharDataTableIter.1","place of a reader in its table","unic/char/property/src/tables.rs")],["find, contains, find_or_default, find_with_range, iter, BlockIter, Block::of"])
p("R04","Property values are those of Unicode and keep their meaning when exchanged",
 "Whatever a node reports of a character is the value that Unicode 10 gives it, unassigned characters and those of identifier and emoji properties included, and every question with a yes or a no (is_lowercase, is_ltr, is_cased_letter and the like, asked of the character, of its value or of a whole text as has_rtl) is answered as that value says. Every enumerated property has exactly the values of Unicode 10, each with its abbreviated, long and human name, and prints as its human name; every binary property has Yes and No. Whoever reads a value that somebody else has written by its abbreviated or long name (Y, Yes, T, True, N, No, F, False for binary properties) - in whatever ASCII letter case, passed on any number of times in any spelling - reads exactly that value; no name stands for two values, and whatever is no such name - torn, padded, damaged, with look-alike or case-folding non-ASCII letters, a human name, a name of another property - is refused, never read as a value and never a panic. The names of the properties themselves are those of Unicode.",
 ["histories","fault_sequences","inputs"],"all values of all properties, all spellings, all chains of nodes, all damage to names on the way",
 "Tests parse a few exact names of some properties; refusal of everything else and consistency between writers and readers of all properties is not sampled.",
 ["unic/char/property/src/macros.rs","unic/char/property/src/range_types.rs","unic/char/property/src/tables.rs","unic/ucd/category/src/category.rs","unic/ucd/bidi/src/bidi_class.rs","unic/ucd/case/src/lib.rs","unic/ucd/ident/src/lib.rs","unic/emoji/char/src/lib.rs"],[("char_property! FromStr, Display, names","unic/char/property/src/macros.rs")],
 [],["from_str, Display, abbr_name, long_name, human_name, all_values, is_xxx, has_ltr, has_rtl, has_bidi_explicit"])
p("R05","Names, ages, versions and levels work as keys of sorted registries",
 "For every history of filling, searching, scanning, merging, losing and rebuilding registries - ordered maps, sorted lists searched by bisection, hash maps - whose keys are character names, ages, Unicode versions, canonical combining classes or bidi levels: every entry is found under its key and under no other, and scans go in one order: names alphabetically by their text, ages from the latest to the earliest, versions, classes and levels by number. Comparison operators, cmp, partial_cmp, equality and hashes agree on every pair of keys. A character's name is that of Unicode 10, its stated length is that of its text, and no two characters share one; its aliases, of each kind and together, are those of Unicode 10, and no alias is a name or an alias of another character.",
 ["histories","inputs"],"all histories of operations of one or more nodes on registries over all keys",
 "Tests compare a dozen hand-picked pairs; agreement of the several ways to compare, over all pairs, and lookups in what was built by other operations are not tested.",
 ["unic/ucd/name/src/name.rs","unic/ucd/name_aliases/src/name_aliases.rs","unic/ucd/age/src/age.rs","unic/common/src/version.rs","unic/bidi/src/level.rs","unic/ucd/normal/src/canonical_combining_class.rs"],[("Ord, PartialOrd, Eq, Hash of Name and Age","unic/ucd/name/src/name.rs")],
 [],["cmp, partial_cmp, operators, Hash, Name::of, Name::len, Display"])
p("R06","Character ranges divide, compare and find characters consistently",
 "For every history of dividing the code space between shards by character ranges - splitting, merging, handing over, losing - and of requests routed by them: a range, made by whichever constructor (closed, open, half-open, by bounds, by the macro, from an iterator), contains exactly the characters between its ends, no surrogate among them; comparison with a character tells whether it lies before, in or after the range, so that bisection in any sorted list of disjoint ranges finds the one that contains it and no other; length and emptiness are those of the set; ranges are equal exactly if they have the same characters, all empty ones included.",
 ["histories","inputs"],"all ranges and constructors, all divisions of the code space, all requests",
 "Tests try a handful of ranges; agreement of membership, order, equality, length and constructors at all ends is not sampled.",
 ["unic/char/range/src/range.rs","unic/char/range/src/macros.rs","unic/char/range/src/iter.rs"],[("constructors, contains, cmp_char, len, is_empty, PartialEq","unic/char/range/src/range.rs")],
 [],["contains, cmp_char, len, is_empty, ==, all constructors"])
p("W01","Display output is a faithful prefix when the sink fails",
 "Every value that can be printed (names, combining classes, property values, versions, code-point notation, bidi levels, normalization streams and the like) writes to any sink exactly the text it writes to an unfailing one: if the sink fails at any write, the failure is returned to the caller, what was delivered is an exact prefix of the full text, and nothing at all is written after the failure; if the sink recovers, printing again writes the full text.",
 ["fault_sequences","inputs","histories"],"all printable values x all failure positions, repeated failures and recoveries",
 "Tests only print into in-memory strings, which never fail.",
 ["unic/ucd/name/src/name.rs","unic/ucd/normal/src/canonical_combining_class.rs","unic/char/property/src/macros.rs","unic/common/src/version.rs","unic/char/basics/src/notation.rs","unic/normal/src/recompose.rs","unic/bidi/src/level.rs"],
 [("fmt::Display implementations","unic/ucd/name/src/name.rs")],[],["bytes delivered to the sink, returned fmt::Error"])
p("W02","Text writers are exact over partial, interrupted and failing outputs",
 "The command-line library's writers deliver exactly the specified rendering of every text to any output, whatever the output does: partial writes and interruptions are invisible in the delivered bytes, and on an output error the error is returned, the delivered bytes are an exact prefix, and nothing is written after it. What was delivered parses back to the original characters with the matching parser.",
 ["fault_sequences","inputs"],"all texts x all sequences of short writes, interruptions, zero-length writes and errors",
 "Tests write into a Vec, which accepts everything at once.",
 ["apps/cli/src/writers.rs","apps/cli/src/parsers.rs"],[("write_* functions generic over io::Write","apps/cli/src/writers.rs")],[],["bytes delivered, returned io::Error"])
p("W03","Command-line tools succeed only if all their output was delivered",
 "Under any behaviour of the operating system's output calls - partial writes, interruptions, a full disk, a closed pipe, an I/O error at any point - each command-line tool (echo, inspector, versions) either exits with status 0 having delivered exactly its complete correct output, or exits with a non-zero status having delivered a prefix of it. It never hangs, and interruptions and partial writes alone never make it fail. (The help and version texts printed by the argument-parsing library are excepted.)",
 ["fault_sequences","inputs","crash_points"],"all argument lists x all sequences of output-call results",
 "Tests run the echo tool into an unfailing pipe only.",
 ["apps/cli/src/bin/unic-echo.rs","apps/cli/src/bin/unic-inspector.rs","apps/cli/src/bin/unic-versions.rs","apps/cli/src/writers.rs"],
 [("run()/main error propagation","apps/cli/src/bin/unic-echo.rs"),("table printing","apps/cli/src/bin/unic-inspector.rs")],[],["exit status and bytes on standard output"])

T=["gen/src/main.rs","gen/src/writer/utils/mod.rs","gen/src/source/utils.rs"]
p("T01","The table generator reports success only for complete, correct tables",
 "Under any behaviour of the file system - short reads and writes, interruptions, read errors, missing data files, full disk, failing directory operations - a table-generator run that exits successfully has left exactly the files an undisturbed run leaves, byte for byte, and one that could not do so exits with a failure. Interruptions and partial transfers alone never make it fail.",
 ["fault_sequences","configurations"],"all sequences of system-call results during generation x all component selections",
 "The generator has no tests at all; its output is only inspected when data is updated.",
 T,[("read, clean_dir, write helpers",T[1]),("component dispatch",T[0])],[],["exit status and resulting file tree"])
p("T02","A crashed table generation is repaired by running it again",
 "If the table generator dies at any point - before or after any system call - with any of its unfinished writes torn or lost, running it again to completion leaves exactly the files that an undisturbed run leaves, with nothing stale left in the generated directories; running it any number of times more, in any order of components, changes nothing. The result depends only on the input data, not on hashing seeds, directory order or earlier contents of the generated directories.",
 ["crash_points","histories","configurations"],"all crash points x all component orders x repeated crashes",
 "The generator has no tests at all.",
 T,[("clean_dir before writing",T[1])],[],["resulting file tree"])
p("T03","The table generator touches only its own output directories",
 "Whatever components are selected and whatever fails or crashes, the generator creates, changes (in contents or permissions) or deletes nothing outside the table directories of the selected components; its input data, the sources next to the tables and everything else stay untouched. (It may create missing parent directories of those table directories.) Wrong component names are rejected before anything is touched.",
 ["fault_sequences","crash_points","configurations"],"all component selections x faults x crash points",
 "The generator has no tests at all.",
 T,[("clean_dir and write with fixed directories",T[1])],[],["paths of mutating system calls, tree before and after"])

p("D01","Domain names keep their identity along any chain of conversions",
 "However often, in whatever order and by nodes with whatever settings an internationalised domain name is converted - to its ASCII form for lookup, to its Unicode form for display, repeatedly, from older or newer forms - and however the network rewrites it into an equivalent (letter case, full stops, ignored and mapped characters, canonically equivalent spelling), every conversion is accepted and gives the same ASCII and the same Unicode form as the first one; every other implementation of UTS #46 (Unicode 10, without the checks of hyphens in third and fourth place and of joiners) and of Punycode agrees. A name damaged on the way is refused or is from then on another name with the same guarantee; transitional nodes differ only in what the standard says they do. A refused name is shown label by label as the standard leaves it - decoded, or as it stands where that is impossible - and no label is dropped. No conversion panics, on names and labels of any length.",
 ["histories","fault_sequences","configurations","inputs"],"all names x all chains of conversions, settings, rewritings and damages",
 "The conformance tests convert each name of a list once; no form is converted again, rewritten or damaged in between.",
 ["unic/idna/src/process.rs","unic/idna/mapping/src/mapping.rs","unic/idna/punycode/src/lib.rs"],
 [("processing: map, normalize, decode, validate; to_ascii, to_unicode","unic/idna/src/process.rs"),("encode, decode","unic/idna/punycode/src/lib.rs")],[],["to_ascii, to_unicode, punycode::{encode_str, decode_to_string}"])
p("E01","Maintenance scripts survive failing commands and never hide a failure",
 "Whatever commands fail, are killed or are refused, wherever the checkout lies, with or without a terminal, and wherever the script itself dies: the scripts that test, package, lint and publish the workspace handle every crate they are for (components, and for linting and publishing also the apps) exactly once, each after the crates it depends on; the script that generates tables and the one that formats run their one command in the checkout's root with exactly the arguments given. Except that publishing goes on past crates the registry refuses, and may go on past other failed publications, the first failing command ends the script with a failure status and nothing runs after it, success means that every command succeeded, and no failed command is reported as succeeded. Publishing that was disturbed or cut short at any point is completed by running it again.",
 ["fault_sequences","crash_points","configurations"],"all patterns of failing, killed, refused and half-reported commands, deaths of the script, states of the registry and places of the checkout",
 "The scripts have no tests; continuous integration runs some of them, from one directory, while everything succeeds.",
 ["etc/common.sh","etc/cargo-publish-all.sh","etc/cargo-package-all.sh","etc/cargo-test-all.sh","etc/cargo-clippy-all.sh","etc/generate-tables.sh","etc/format.sh"],
 [("list of components in order of dependency; `-` runs and reports a command","etc/common.sh"),("failure of a publication is ignored, of anything else not","etc/cargo-publish-all.sh")],[],["commands run, in order, with directory and outcome","exit status and report","content of the registry"])

p("L01","A bidi embedding level is always valid",
 "Starting from any valid level, after any history of level operations - successful or refused - and after saving and restoring it, the level's number stays within the range of the standard (0 to 126), a refused operation reports an error and leaves the level exactly as it was, and an accepted one has exactly the specified effect. Restoring a saved level whose stored bytes were damaged yields a valid level or an error, never an invalid level. Compared with texts, a level equals the decimal text of its number and the wildcard \"x\", and no other text.",
 ["histories","fault_sequences"],"all operation histories, with save/damage/restore at arbitrary points",
 "Tests check single operations at a few values; restoring damaged data is not tested.",
 ["unic/bidi/src/level.rs"],[("raise/lower/raise_explicit/lower_explicit/… checks, serde derive","unic/bidi/src/level.rs")],
 [("Level(u8)","embedding level number","unic/bidi/src/level.rs")],["number(), Result of each operation, Deserialize"])
p("L02","Every line of a laid-out paragraph is reordered by rules L1 and L2 on its own",
 "However a paragraph is broken into lines (among them empty ones), re-broken at other widths and shown in any order and any number of times, each line's visual order is the one rules L1 and L2 of UAX #9 give for that line from the paragraph's resolved levels: its visual runs partition the line, the reordered line holds exactly the line's characters, trailing white space, tabs and separators take the paragraph level, and the answer for one line depends neither on its position in the paragraph nor on the lines asked for before.",
 ["histories","inputs"],"all texts, all ways to break them into lines, all histories of layout requests",
 "Tests reorder whole paragraphs, as one line that starts where the paragraph starts.",
 ["unic/bidi/src/bidi_info.rs"],[("visual_runs, reordered_levels, reorder_line","unic/bidi/src/bidi_info.rs")],
 [("BidiInfo","resolved levels of a text, shared by all layouts","unic/bidi/src/bidi_info.rs")],["visual_runs, reordered_levels, reordered_levels_per_char, reorder_line"])
p("L03","Editing a paragraph changes the bidi analysis of that paragraph only",
 "For every text, base direction and history of edits (insertions, deletions, replacements, joins and splits of paragraphs, undo), analysing only the paragraphs an edit touched and keeping what is known of the others gives at every moment exactly what analysing the whole text gives: the same paragraphs (cut after each paragraph separator), paragraph levels (by rules P2 and P3 of UAX #9, or the one given), character classes (each character's own, but an isolate without a direction takes that of its content) and resolved levels. No paragraph's result depends on the text before or after it, every byte of a character has the character's level, and no level exceeds the maximum of the standard.",
 ["histories","inputs"],"all texts, all histories of edits and re-analyses",
 "Tests analyse a handful of fixed texts, most of them single paragraphs; none compares a paragraph inside a text with the paragraph alone.",
 ["unic/bidi/src/bidi_info.rs","unic/bidi/src/explicit.rs","unic/bidi/src/prepare.rs"],[("InitialInfo::new, BidiInfo::new","unic/bidi/src/bidi_info.rs")],
 [("isolate_stack, para_level","what is carried from character to character and must be reset at a paragraph's end","unic/bidi/src/bidi_info.rs")],["BidiInfo::{paragraphs, original_classes, levels}"])
p("I01","Independent operations never influence each other",
 "The outcome of every library operation - segmentation, normalization, bidi processing, IDNA, Punycode, names and property lookups, range iteration - depends only on its own inputs: interleaving it step by step with any other operations, abandoning some of them half-way, re-entering the library from a caller's callback or source, or failing inside such a callback changes none of the results.",
 ["schedules","histories","fault_sequences"],"all interleavings of several tasks, with cancellation, re-entrance and failures in callbacks",
 "Tests run one operation at a time to completion.",
 ["unic/segment/src/grapheme.rs","unic/segment/src/word.rs","unic/normal/src/lib.rs","unic/bidi/src/bidi_info.rs","unic/idna/src/process.rs","unic/idna/punycode/src/lib.rs","unic/char/property/src/tables.rs"],
 [("no shared mutable state; all state lives in the caller's values","unic/")],[],["results of each task"])
p("I02","The library is safe and deterministic when used by many threads",
 "When any number of threads use the library at the same time, on shared read-only values and tables and on their own iterators, including iterators handed from one thread to another, every thread gets the results that sequential use gives, under every thread schedule, without data races, deadlocks or initialisation races.",
 ["schedules","histories"],"all thread schedules of concurrent users",
 "Tests run each case on one thread and never compare schedules.",
 ["unic/segment/src/grapheme.rs","unic/normal/src/lib.rs","unic/bidi/src/bidi_info.rs","unic/ucd/name/src/name.rs","apps/cli/src/parsers.rs"],
 [("immutable static tables; Send/Sync values","unic/"),("lazy initialisation","apps/cli/src/parsers.rs")],[],["results per thread, data-race detector"])

# ---- pure functions: outside the technique -----------------------------------------------
p("L04","Directional spans nest to any depth and never leak",
 "For every history of opening, closing, over-closing and deleting the ends of directional spans (embeddings, overrides and isolates, also far more of them than there are levels) with text typed between them and with undo, every character has at every moment the level that UAX #9 gives it: that of its surroundings by rules X1 to X8, then by W1 to W7, N1, N2, I1 and I2 within its isolating run sequence (bracket pairs, N0, are not implemented; the recorded findings aside). Spans beyond the greatest depth change nothing, their ends close nothing else, no span outlives its isolate or paragraph, an isolate without a direction takes that of its content, and no analysis panics.",
 ["histories","inputs"],"all texts, all depths and orders of opened and closed spans, all histories of edits",
 "Tests nest spans a few levels deep; overflow counters and a full stack of levels are not reached.",
 ["unic/bidi/src/explicit.rs","unic/bidi/src/prepare.rs","unic/bidi/src/implicit.rs","unic/bidi/src/bidi_info.rs","unic/bidi/src/level.rs"],[("isolating run sequences","unic/bidi/src/prepare.rs"),("rules W1 to I2","unic/bidi/src/implicit.rs"),("rules X1 to X8: stack of directional statuses and overflow counters","unic/bidi/src/explicit.rs")],
 [("stack, overflow_isolate_count, overflow_embedding_count, valid_isolate_count","spans open at a place in the text","unic/bidi/src/explicit.rs")],["levels, original_classes of BidiInfo"])
def pure(id,title,statement,files,mech,why="Tests sample the space of inputs; the property is a statement about every input."):
    p(id,title,statement,["inputs"],"all inputs",why,files,[mech])
pure("P01","Bidi paragraphs and levels follow UAX #9",
 "For every text and base direction, paragraph splitting, paragraph levels and the resolved level of every character are those of the Unicode Bidirectional Algorithm (Unicode 10).",
 ["unic/bidi/src/bidi_info.rs","unic/bidi/src/explicit.rs","unic/bidi/src/prepare.rs","unic/bidi/src/implicit.rs"],("explicit/implicit resolution","unic/bidi/src/"))
pure("P03","IDNA processing follows UTS #46 and never panics",
 "For every domain name and every flag combination, one call of to_ascii or to_unicode gives the result and error status of UTS #46. (Chains of calls: D01.)",
 ["unic/idna/src/process.rs","unic/idna/mapping/src/mapping.rs"],("Flags/processing","unic/idna/src/process.rs"))
pure("P04","Punycode encoding and decoding are mutually inverse",
 "Decoding the Punycode encoding of any text gives the text back, and whatever decodes re-encodes to an equivalent form. (Labels on their way between implementations: D01.)",
 ["unic/idna/punycode/src/lib.rs"],("encode, decode","unic/idna/punycode/src/lib.rs"))
pure("P13","Generated tables carry the source data without loss",
 "Each generated table, read back through its lookup, gives for every character exactly the value in the Unicode data file it was generated from.",
 ["gen/src/source","gen/src/writer/utils/mod.rs"],("range compaction and rendering","gen/src/"))
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
