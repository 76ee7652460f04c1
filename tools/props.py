#!/usr/bin/env python3
"""Writes properties.jsonl (the single source for ids, titles and statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
G = "gitdiff/"

p("C01", "Applying a text diff to its source yields exactly its target",
  "For all texts A and B and every unified diff from A to B (any hunk sizes and amounts of context including none, any number of hunks, with or without final newlines, any byte values, file, line and hunk lengths), parsing the diff and applying it to A succeeds and writes exactly the bytes of B. The one exception is a context-free hunk at the very start of a non-empty file (positions 0), which may be refused as a conflict but is never applied wrongly.",
  ["inputs"], "all source/target texts, all edit scripts between them, all context widths and hunk splits",
  "The tests apply about 20 fixed patch files; no context-free insertion, two-hunk or buffer-boundary case is exercised beyond those samples.",
  [G+"apply.go", G+"apply_text.go", G+"io.go", G+"text.go"],
  [("TextApplier.ApplyFragment copies the lines before a hunk, then replays it", G+"apply_text.go"), ("TextApplier.Close copies the rest", G+"apply_text.go"), ("lineReaderAt line index", G+"io.go")],
  ["bytes written to dst by Apply"], [("nextLine", "first source line not yet consumed", G+"apply_text.go")])

p("C02", "A text hunk is never applied where it does not match the source",
  "Applying a text change succeeds only if every context and deleted line of every hunk equals, byte for byte including its line ending, the source line at the position the hunk names. Otherwise (a differing line, a missing or extra final newline, a source that is too short, a creation hunk over a non-empty source, a full deletion that leaves content behind) it fails with an error that matches Conflict under errors.Is, and never reports success.",
  ["inputs"], "all pairs of hunk sequence and source text",
  "Seven fixed conflict files are tested; strictness is a statement about every mismatching source, every mismatch position and every kind of difference.",
  [G+"apply_text.go", G+"io.go", G+"apply.go"],
  [("applyTextLine compares each old line with the preimage", G+"apply_text.go"), ("readPreimage turns a short source into a Conflict", G+"apply_text.go"), ("isLen guards creation; ReadLinesAt after +0,0 guards full deletion", G+"apply_text.go")],
  ["error returned by Apply and TextApplier.ApplyFragment"])

p("C03", "Hunk order is irrelevant and applying never alters the patch",
  "Applying a file gives the same bytes (or a conflict, for overlapping hunks) whatever order its hunks are listed in. Applying, formatting, validating and reading a parsed patch leave every field of it unchanged, including the order of its hunks, so the same value can be used again on the same or another source with the same result.",
  ["inputs", "histories"], "all hunk sets, all permutations of them, all sequences of uses of one value",
  "No test lists hunks out of order, applies one value twice, or compares the value before and after use.",
  [G+"apply.go", G+"apply_text.go", G+"apply_binary.go", G+"format.go"],
  [("Apply sorts a copy of the fragments by old position", G+"apply.go"), ("overlap check against nextLine", G+"apply_text.go")],
  ["dst bytes per permutation", "deep equality of *File before and after"])

p("C04", "Apply errors carry the cause and the exact location",
  "Every error from Apply and from ApplyFragment is an *ApplyError whose chain holds the cause, and it matches Conflict exactly when the patch disagrees with the source's content: not for I/O failures, invalid fragments, corrupt binary data, exceeded limits or misuse. A conflict matches itself and the empty Conflict, no conflict of another reason and no other error, the text of the error names the cause, and io.EOF is never the cause. When a hunk line disagrees with the source, Line, Fragment and FragmentLine are the one-based source line, hunk and line within the hunk of the first disagreement; when the source is too short, Line is its first missing line.",
  ["inputs"], "all failing combinations of patch, source, options and call",
  "Tests only check that some error is a Conflict or contains a word; locations and the error's type are never asserted.",
  [G+"apply.go", G+"apply_text.go", G+"apply_binary.go"],
  [("applyError wraps and annotates", G+"apply.go"), ("lineNum/fragNum/fragLineNum annotations at the failing line", G+"apply_text.go")],
  ["errors.As(*ApplyError), errors.Is(&Conflict{}), Line, Fragment, FragmentLine"])

p("C05", "Appliers obey their lifecycle for every call sequence",
  "For every sequence of ApplyFragment and Close calls: after Close, ApplyFragment always fails, and neither it nor a repeated Close (which returns nil) writes anything; Close on an applier that attempted no fragment copies the source unchanged; a binary applier takes at most one fragment, even if that one failed. A text applier writes each source line outside the hunks exactly once, rejects a fragment that starts before the end of an applied one as a conflict without writing anything, and writes all remaining source data on Close.",
  ["histories"], "all call sequences over a small menu of valid, invalid, overlapping and conflicting fragments",
  "The tests call ApplyFragment once per applier; Close-after-Close, apply-after-Close, reuse and reordering are never exercised.",
  [G+"apply_text.go", G+"apply_binary.go"],
  [("closed/dirty flags", G+"apply_text.go"), ("closed/dirty flags", G+"apply_binary.go")],
  ["dst bytes and error after every call"], [("closed, dirty, nextLine", "applier protocol state", G+"apply_text.go")])

p("C06", "Results do not depend on how the source or destination is provided",
  "What applying a patch writes and whether it succeeds depend only on the patch and the source's bytes. Every conforming io.ReaderAt (including one that returns io.EOF together with a full read ending at the end of the data), every source that also offers line access (whose lines are then read through it), and every conforming io.Writer give the same result.",
  ["inputs", "configurations"], "all contract-conforming environment answers at every read, times sources and patches",
  "Tests use bytes.Reader and bytes.Buffer only, which never return data together with io.EOF and never offer line access.",
  [G+"io.go", G+"apply_text.go", G+"apply_binary.go"],
  [("ReadAt error handling in indexTo, readBytes, isLen, copyFrom", G+"io.go"), ("copy instruction ReadAt", G+"apply_binary.go"), ("LineReaderAt detection", G+"apply_text.go")],
  ["dst bytes and error for each source/destination implementation"])

p("C07", "Source and destination failures during apply are always reported",
  "If any read of the source or any write to the destination fails while applying a patch or closing an applier, at whatever point it happens and whether or not the failing call transferred part of its data, the call returns an error whose chain contains that failure. It never reports success or a conflict instead.",
  ["fault_sequences", "inputs"], "every position of a read or write fault in the I/O sequence of every apply, with and without partial transfer",
  "No test injects an I/O error into Apply; only the positions a test author thought of could be covered that way.",
  [G+"io.go", G+"apply_text.go", G+"apply_binary.go", G+"apply.go"],
  [("error propagation from ReadAt/Write", G+"io.go"), ("applyError keeps the cause", G+"apply.go")],
  ["error returned by Apply/ApplyFragment/Close under a fault injector"])

p("C08", "Binary literals and deltas produce exactly the described bytes",
  "Applying a binary literal writes exactly its inflated data whatever the source holds. Applying a binary delta to a source of the recorded size writes exactly the concatenation of the source ranges and inserted bytes its instructions describe, for every instruction sequence and every offset and length encoding, including the implied 64 KiB copy length.",
  ["inputs", "programs"], "all valid delta programs and literals, all instruction encodings",
  "Three fixed binary patches are applied; most of the 127 copy opcodes and multi-instruction combinations are never executed.",
  [G+"apply_binary.go", G+"binary_reader.go"],
  [("applyBinaryDeltaFragment instruction loop", G+"apply_binary.go"), ("copy/add decoding", G+"apply_binary.go")],
  ["dst bytes of Apply"])

p("C09", "Corrupt or mismatched binary deltas are never applied successfully",
  "Applying a binary delta succeeds only if the source size it records equals the actual source size, both size headers are complete, every instruction is complete and not the reserved opcode, every copy lies inside the source, and the instructions produce exactly the declared result size. A source size mismatch is a conflict and any other defect a non-conflict error; the destination never receives more bytes than the declared result size.",
  ["inputs", "programs"], "all byte strings as instruction streams, all truncations, all sources",
  "Six fixed corrupt deltas are tested out of an unbounded space.",
  [G+"apply_binary.go"],
  [("checkBinarySrcSize", G+"apply_binary.go"), ("limitWriter and final size check", G+"apply_binary.go"), ("bounds checks in add/copy decoding", G+"apply_binary.go")],
  ["error and dst bytes of Apply"])

p("C10", "Binary size limits are enforced, and only they",
  "With a limit of N >= 0 bytes (100 MiB if none is given) a binary fragment whose declared inflated size exceeds N, or a delta whose declared result size exceeds N, is rejected with a non-conflict error before anything is written. A fragment within the limit behaves exactly as it does without one, a negative limit disables the check, and text patches are unaffected.",
  ["inputs", "configurations"], "all fragments around the limit, all limit values, both methods and both appliers",
  "Four fixed files with limits 200 and 1024 are tested; boundaries (equal, one over, zero, negative, default) are not.",
  [G+"apply_options.go", G+"apply_binary.go"],
  [("size checks before decompression and before execution", G+"apply_binary.go"), ("WithMaxBinaryFragmentBytes and default", G+"apply_options.go")],
  ["error and dst bytes of Apply with options"])

p("C11", "Binary fragment data is delivered exactly or with an error",
  "However its reads are sized, the reader from BinaryFragment.Data delivers exactly the inflated content followed by io.EOF if the stream is intact (header, completeness, checksum) and inflates to exactly Size bytes. In every other case it eventually returns an error other than io.EOF, repeats failing if read again, and never delivers more than Size+1 bytes; each call to Data starts from the beginning.",
  ["inputs", "histories"], "all streams with all truncations and corruptions, all sizes, all sequences of read sizes",
  "The tests read five streams with io.ReadAll; chunked reads, truncation points and bit corruption are not explored.",
  [G+"binary_reader.go", G+"gitdiff.go"],
  [("LimitedReader of Size+1 and length check at EOF", G+"binary_reader.go"), ("checksum verification", G+"binary_reader.go")],
  ["bytes and errors from successive Read calls"])

p("C12", "Binary patch text decodes to exactly the encoded bytes or is rejected",
  "For every payload of any length and content, either method and any size value, formatting a binary fragment and parsing it as part of a patch restores method, size and data, and the encoded text is the one git writes for that payload. A data line whose length byte, length, characters or 5-character groups are not valid, an invalid size, or data that ends before its blank line makes parsing fail.",
  ["inputs"], "all payload lengths and byte values, all single-character corruptions and truncations of the text",
  "base85 is tested on a few strings and a fuzz seed; line splitting, length bytes and corrupt groups are only sampled.",
  [G+"base85.go", G+"binary.go", G+"format.go"],
  [("base85Decode/base85Encode", G+"base85.go"), ("ParseBinaryChunk line checks", G+"binary.go"), ("FormatBinaryFragment line splitting", G+"format.go")],
  ["File.BinaryFragment/ReverseBinaryFragment after Parse; BinaryFragment.String"])

p("C13", "Text hunks are parsed completely, consistently, or rejected",
  "A parsed hunk holds exactly the body lines of the input in order, each with its operation and exact bytes (less the final newline when a no-newline marker follows), the header's positions, counts (1 if omitted) and trimmed comment, and added, deleted, leading- and trailing-context counts that agree with its lines. A hunk with a malformed header, an invalid line prefix, a body that does not match the declared counts or no changes is rejected with an error.",
  ["inputs"], "all sequences of hunk headers and body lines",
  "Tests cover about 20 hand-written chunks; consistency of counters is a statement about all interleavings of line kinds.",
  [G+"text.go"],
  [("ParseTextFragmentHeader, parseRange", G+"text.go"), ("ParseTextChunk counters", G+"text.go"), ("removeLastNewline", G+"text.go")],
  ["File.TextFragments and error from Parse"])

p("C14", "Git extended headers are read completely and validated",
  "For every set of extended header lines git writes (mode change, new, deleted, copy, rename in either spelling, similarity, dissimilarity, index with or without mode, ---/+++ lines), with text, binary or no content, the parsed File has exactly the names, modes, flags, score and object id prefixes the header states and no others. Malformed mode, score or index lines, names that contradict each other and headers without a usable name are rejected.",
  ["inputs"], "all combinations and orders of header lines with all kinds of body",
  "Tests check about 20 headers one at a time; combinations of lines interact through the names and flags set by earlier lines.",
  [G+"file_header.go", G+"parser.go"],
  [("ParseGitFileHeader / parseGitHeaderData table", G+"file_header.go"), ("verifyGitHeaderName", G+"file_header.go"), ("default name from the diff --git line", G+"file_header.go")],
  ["fields of *File, error from Parse"])

p("C15", "File names survive quoting and unquoting byte for byte",
  "A path that git can store (any bytes except NUL, no empty components), written the way git writes it (bare, or C-quoted with letter and octal escapes) in any header position, is parsed to exactly its bytes. Formatting a File writes every such name so that parsing restores it. This includes names with spaces, quotes, trailing backslashes, control characters and bytes that are not valid UTF-8.",
  ["inputs"], "all short byte strings as names in every header position and quoting style",
  "A dozen names are tested; bugs sit in combinations such as a backslash before the closing quote.",
  [G+"file_header.go", G+"format.go"],
  [("parseQuotedName / parseUnquotedName / parseGitHeaderName", G+"file_header.go"), ("WriteQuotedName / quoteByte", G+"format.go")],
  ["File.OldName/NewName after Parse and after String+Parse"])

p("C16", "Traditional unified diffs get the right name and kind",
  "For a ---/+++ header without a git header, an old name of /dev/null or an epoch timestamp (any zone, with or without fraction and zone colon) makes the file new with only the new name set, the same on the new side makes it deleted with only the old name set, and otherwise both names are the old name if that is a prefix of the new name and else the new name. Names end at the first tab, quoted names are unquoted, no directory prefix is stripped, and a ---/+++ pair whose next line does not start like a hunk header is not a file.",
  ["inputs"], "all name, timestamp and following-line combinations",
  "About ten headers are tested; timestamp recognition and name choice are case analyses over independent dimensions.",
  [G+"file_header.go"],
  [("ParseTraditionalFileHeader", G+"file_header.go"), ("hasEpochTimestamp", G+"file_header.go")],
  ["fields of *File from Parse"])

p("C17", "Patches split into exactly their files, with the preamble preserved",
  "Parsing several patches one after the other, with unrelated text between them, yields the files of each in order, each as if parsed alone. The returned preamble is exactly the input text before the first file header, or the whole input if there is none. If malformed content is met, parsing fails and returns every file completed before it, unchanged; hunks without any file header are malformed.",
  ["inputs", "histories"], "all sequences of file patches of every kind, junk text and malformed parts",
  "Tests use inputs with at most two files of the same kind; parser state carried from one file kind into the next is not explored.",
  [G+"parser.go", G+"file_header.go", G+"text.go", G+"binary.go"],
  [("Parse loop", G+"parser.go"), ("ParseNextFileHeader preamble accumulation", G+"file_header.go"), ("three-line look-ahead", G+"parser.go")],
  ["files, preamble and error from Parse"], [("lines[3], lineno, eof", "look-ahead window", G+"parser.go")])

p("C18", "Parsing depends only on the bytes read, and read errors are reported",
  "Parse returns the same files, preamble and error status for the same bytes however the reader splits them (single bytes, empty reads, data together with io.EOF, readers with their own ReadString, lines of any length). If the reader fails at any point before the end of the input, Parse returns an error that contains that failure and never treats the input as ending or continuing normally there, even if the reader would work again if retried.",
  ["inputs", "fault_sequences"], "all chunkings of an input and every position of a read error, permanent or transient",
  "Tests read from strings.Reader only and never inject a read error.",
  [G+"parser.go", G+"file_header.go"],
  [("parser.Next / shiftLines", G+"parser.go"), ("error handling around Next in every parse method", G+"file_header.go")],
  ["result of Parse for each reader behaviour"])

p("C19", "A parsed file formats to a patch that parses to the same file",
  "For every File obtained by parsing a patch written by git or a unified diff tool for paths git can store, File.String is accepted by Parse and yields exactly one File equal in every field (names, flags, modes, object ids, score, hunks with comments and counts, binary data), with an empty preamble, and formatting that again gives the same text. TextFragment.String, TextFragment.Header, Line.String and BinaryFragment.String are the corresponding parts of that text.",
  ["inputs"], "all combinations of header fields, hunks and binary fragments",
  "14 patch files are round-tripped; the product of flags, modes, ids, names and content kinds is not, and the test's binary comparison compares a value with itself.",
  [G+"format.go", G+"gitdiff.go", G+"file_header.go", G+"text.go"],
  [("formatter.FormatFile", G+"format.go"), ("FormatTextFragment/FormatBinaryFragment", G+"format.go")],
  ["Parse(File.String()) compared field by field"])

p("C20", "Formatted patches mean the same to git",
  "For every parsed change to a regular file (modification, creation, deletion, rename, copy, mode change, text or binary), the text produced by File.String is accepted by git apply, and git arrives at the same resulting files, names and contents as the original patch describes and as Apply writes.",
  ["inputs"], "all enumerated file changes, cross-checked with the installed git",
  "No test runs git; the golden files were recorded once for a few cases.",
  [G+"format.go", G+"apply.go"],
  [("formatter.FormatFile", G+"format.go")],
  ["tree produced by git apply of File.String versus Apply's output"])

p("C21", "Validate accepts exactly the consistent fragments, and apply relies on it",
  "TextFragment.Validate returns an error if and only if the fragment is nil, has an unknown line operation, a negative position, a line, added, deleted, leading- or trailing-context count that differs from its lines, or old position zero together with old lines. Applying a fragment that Validate rejects fails with a non-conflict error and writes nothing.",
  ["inputs"], "all line-kind sequences and all perturbations of every counter",
  "No test calls Validate; it is an if-and-only-if over a product of counters.",
  [G+"gitdiff.go", G+"apply_text.go"],
  [("TextFragment.Validate", G+"gitdiff.go"), ("Validate call in ApplyFragment", G+"apply_text.go")],
  ["Validate and ApplyFragment results"])

p("C22", "Commit headers of git log and show are recovered exactly",
  "For every commit, the short, medium, full and fuller formats of git log and git show parse to a PatchHeader whose SHA, author, committer, dates and message equal the commit's (those the format contains; others stay empty), also with decorations, merge lines or other unknown header lines present. The title is the first paragraph joined by spaces; the body is the rest with the common indent and trailing whitespace removed and blank-line runs collapsed to one; Message joins both by an empty line.",
  ["inputs"], "all formats, header line combinations, date formats and message shapes",
  "About 25 fixed headers are parsed; message layout (indent, blank runs, trailing blanks) is only sampled.",
  [G+"patch_header.go", G+"patch_identity.go"],
  [("parseHeaderPretty", G+"patch_header.go"), ("scanMessageTitle / scanMessageBody", G+"patch_header.go")],
  ["ParsePatchHeader fields, PatchHeader.Message"])

p("C23", "Mail headers of git format-patch are recovered exactly",
  "For every commit written by git format-patch or in the email format, with or without the leading mbox line, ParsePatchHeader recovers SHA, author, date, title (unfolded and, if UTF-8 Q-encoded, decoded in every clean mode) and body, with everything after the first --- line in BodyAppendix. The subject prefix removed and returned is exactly the one the clean mode calls for: none, all leading reply markers and bracketed tags, or only tags containing PATCH; title and prefix keep all other characters.",
  ["inputs", "configurations"], "all subject token sequences, clean modes, folding and encoding choices, body shapes",
  "About 25 subjects are tested; subjects are token strings over a small grammar that can be enumerated.",
  [G+"patch_header.go"],
  [("parseHeaderMail", G+"patch_header.go"), ("cleanSubject", G+"patch_header.go"), ("decodeSubject", G+"patch_header.go"), ("scanMessageBody appendix split", G+"patch_header.go")],
  ["ParsePatchHeader fields"])

p("C24", "Dates in every git format parse to the same instant",
  "For every instant and zone offset, each form in which git prints a date (default, iso, iso-strict, rfc, short, unix, raw, and the local default form) parses to exactly that instant (for short, local midnight of that day), with the stated zone offset if the form has one and whatever the local time zone is. The empty string gives the zero time, and a string in none of these forms is an error.",
  ["inputs", "configurations"], "all calendar days, time-of-day and offset boundaries, formats and local zones",
  "One instant is tested in each format, in one local zone.",
  [G+"patch_header.go"],
  [("ParsePatchDate format list and raw/unix fallbacks", G+"patch_header.go")],
  ["ParsePatchDate result"])

p("C25", "Identities split into name and email exactly",
  "For every name and email as git writes them, and for RFC 5322 forms with quoted strings, quoted pairs, comments and extra whitespace, ParsePatchIdentity returns the name with quoting removed and whitespace normalised, and the email exactly (addresses without whitespace or brackets); a bare email serves as its own name, and so does the email of a name that contains @, < or >, while a comment in place of a name loses its parentheses. An error is returned exactly when both parts are missing or empty. PatchIdentity.String of a plain name and email parses back to the same identity.",
  ["inputs"], "all short token sequences over names, spaces, quotes, escapes, comments, brackets and @",
  "15 strings are tested; the scanner has several interacting modes (quote, comment, escape, bracket).",
  [G+"patch_identity.go"],
  [("ParsePatchIdentity", G+"patch_identity.go"), ("unquotePairs / normalizeSpace", G+"patch_identity.go")],
  ["ParsePatchIdentity result"])

p("C26", "No input makes the library panic or hang",
  "Parse, Apply (with any parsed file and any source), formatting, Validate, fragment data readers, ParsePatchHeader, ParsePatchDate and ParsePatchIdentity return normally, with a result or an error, for every input, however malformed, truncated or contradictory.",
  ["inputs"], "all sequences of valid and malformed line tokens, all truncations, all short byte strings",
  "Tests feed well-formed or singly-broken inputs; panics come from combinations (truncation inside look-ahead, empty lines, extreme numbers).",
  [G+"parser.go", G+"text.go", G+"binary.go", G+"file_header.go", G+"apply_text.go", G+"apply_binary.go", G+"patch_header.go", G+"patch_identity.go"],
  [("bounds checks throughout the parser", G+"parser.go")],
  ["return of every exported entry point"])

p("C27", "Independent calls in different goroutines do not affect each other",
  "Any mix of Parse, Apply, formatting, validation, fragment data reading and header parsing running concurrently, including calls that share the same parsed File and the same source but have their own readers and destinations, gives each call the result it gives alone, and is free of data races.",
  ["schedules"], "all interleavings up to a preemption bound of two or three concurrent calls",
  "No test runs two calls concurrently.",
  [G+"base85.go", G+"apply.go", G+"apply_text.go", G+"io.go", G+"format.go", G+"parser.go"],
  [("no mutable package state; lookup tables are filled at init only", G+"base85.go"), ("Apply works on a copy of the fragment list", G+"apply.go")],
  ["results per call under a controlled scheduler; race detector"],
  None, "statement-level scheduling points, inserted into a build overlay by the check (no change to /repo)")

p("C28", "Patches written by git apply to the result git recorded",
  "For every change between two trees that git can express (edits, creations, deletions, renames, copies, rewrites, mode changes, binary changes, odd names, empty files, missing final newlines; any diff options among context width, --binary, rename detection and full index), the output of git diff and of format-patch parses without error to one File per changed path with git's own names, modes and kind, and applying each File to the old content yields git's new content.",
  ["inputs", "configurations"], "all enumerated tree changes and option combinations, with the installed git as generator",
  "The fixtures were recorded for a few changes; the space of git's outputs is far larger.",
  [G+"parser.go", G+"file_header.go", G+"text.go", G+"binary.go", G+"apply.go"],
  [("the whole parse and apply pipeline", G+"parser.go")],
  ["Parse result and Apply output versus the trees given to git"])

p("C29", "Declared sizes and counts do not drive memory use",
  "The memory allocated while parsing a patch and applying it is bounded by a small multiple of the bytes actually present in the patch, source, inflated data and output plus a fixed allowance of a few tens of megabytes. Line counts, positions, sizes and offsets that a patch merely declares never cause larger allocations; such patches fail with an error instead.",
  ["inputs"], "all declared values over the magnitude scale in every numeric field of a patch",
  "One extreme line position is tested for its error only; allocation is never measured.",
  [G+"apply_text.go", G+"text.go", G+"binary.go", G+"binary_reader.go", G+"apply_binary.go"],
  [("readPreimage reads in chunks of 4096 lines", G+"apply_text.go"), ("limit checks before inflating and executing", G+"apply_binary.go")],
  ["bytes allocated during Parse and Apply"])

p("C30", "Hunks locate their lines in both files",
  "For every unified diff of A and B written by a diff tool, each parsed hunk tells exactly where its lines are: its old lines (context and deleted) are the lines of A that start at line OldPosition, its new lines (context and added) the lines of B that start at NewPosition (for a side without lines, the position is that of the line before). Between, before and after the hunks A and B have the same lines. LinesAdded and LinesDeleted sum to what was added and deleted, Old and New, NoEOL and the String form of a line agree with its operation, and a line lacks its final newline exactly if it is the unterminated last line of its file.",
  ["inputs"], "all edit scripts, hunk splits and context widths of small texts, odd lines, far positions, and git's own diffs",
  "Tests compare a few parsed fragments with literals; they never relate positions and lines to the two files.",
  [G+"text.go", G+"gitdiff.go"],
  [("ParseTextFragmentHeader, ParseTextChunk", G+"text.go"), ("Line.Old/New/NoEOL", G+"gitdiff.go")],
  ["positions, counts and lines of TextFragments versus the two files"])

p("C31", "Reverse data of binary patches undoes the change",
  "For every binary patch with forward and reverse data (literal or delta, either way), applying ReverseBinaryFragment to the new content gives exactly the old content and BinaryFragment applied to the old content exactly the new, in any sequence of applying and undoing and also after the file was formatted and parsed again. ReverseBinaryFragment is nil exactly if the patch has forward data only; reverse data that is cut off or malformed is an error of Parse, never silently dropped; a delta applied to content of another size than it declares is a conflict.",
  ["inputs", "histories"], "pairs of binary contents x kinds of forward and reverse data, absence and damage of the reverse data, sequences of applying and undoing",
  "No test applies a reverse fragment; the fixtures only compare its raw bytes.",
  [G+"binary.go", G+"apply_binary.go", G+"gitdiff.go", G+"format.go"],
  [("ParseBinaryFragments reads the optional reverse fragment", G+"binary.go"), ("File.ReverseBinaryFragment", G+"gitdiff.go")],
  ["bytes written when the reverse fragment is applied", "error of Parse"])

p("C32", "Patches written by GNU diff apply to the compared files",
  "For every pair of files or directories, the output of GNU diff (-u, -U, -r, -N, -p, -a, --label; any time zone, time stamp and file name that it prints) parses without error to one File per differing text file, in order, with the names and kind of change of C16, and applying each File to the old content gives the new content. Command lines, \"Only in\" lines and \"Binary files differ\" lines between yield no File.",
  ["inputs", "configurations"], "all enumerated pairs of files and trees, time zones and options, with the installed diff as generator",
  "The tests hold a handful of hand-written traditional headers; none was produced by diff over a space of inputs.",
  [G+"parser.go", G+"file_header.go", G+"text.go", G+"apply.go"],
  [("ParseTraditionalFileHeader, parseFileName, hasEpochTimestamp", G+"file_header.go")],
  ["Parse result and Apply output versus the files given to diff"])

p("C33", "Commits printed by git give both their header and their changes",
  "For every commit, whatever its message (also one that quotes patches or headers) and its change, the text that git log -p or git show prints in the short, medium, full or fuller format, and the mail that format-patch prints, parses to exactly the changed files, and its preamble ends exactly where the first file starts and yields the commit's id, author, committer, dates, title and body. The text of several commits in a row gives all their files in order and the header of the first, and a merge shown against its parents gives the files of each comparison.",
  ["inputs", "configurations", "histories"], "all enumerated messages x changes x formats and options, runs of commits of a history, and merges, with the installed git as generator",
  "The tests take headers and patches from separate hand-written fixtures; message and patch are never combined.",
  [G+"parser.go", G+"patch_header.go", G+"file_header.go"],
  [("preamble collection in ParseNextFileHeader", G+"file_header.go"), ("ParsePatchHeader", G+"patch_header.go")],
  ["Parse and ParsePatchHeader results versus the commits given to git"])

p("C34", "What git apply accepts is parsed to the same changes",
  "Every input from which git apply reads changes (whole, reordered, incomplete or repeated lines of patches, text between them, any hunk header with any body), except for the contradictory headers listed in DESIGN.md, parses without error to the same files, each binary or with the same numbers of added and deleted lines. A hunk that git apply refuses as malformed is refused by Parse.",
  ["inputs"], "all sequences of header and hunk lines up to a length, and all edits of patches by one to three line operations, with the installed git as oracle",
  "The fixtures are either well formed or break one chosen rule; the space between has no oracle in the tests.",
  [G+"parser.go", G+"file_header.go", G+"text.go", G+"binary.go"],
  [("header loop of ParseGitFileHeader", G+"file_header.go"), ("ParseTextChunk", G+"text.go")],
  ["Parse result versus git apply --numstat"])

p("C35", "Patches edited in code apply as edited",
  "A File whose exported fields were changed after parsing, or that was built in code, behaves as its fields now say, whatever it was before and however often it was used in between: for every sequence of edits that keeps its fragments consistent (leaving out changes or hunks, with the positions in the new file adjusted or as they were, reversing, splitting and joining hunks, more or less context, other or further lines and hunks, and old positions moved because the source changed), Validate accepts every fragment, Apply and TextApplier turn the matching source into exactly the text that the edited hunks describe, and String gives a patch that parses back to the edited File.",
  ["inputs", "histories"], "all small diffs x all sequences of edits up to a depth, with applications between the edits",
  "The tests apply only parsed fixtures, each once; no test edits a parsed patch.",
  [G+"gitdiff.go", G+"apply.go", G+"apply_text.go", G+"format.go"],
  [("Apply", G+"apply.go"), ("TextApplier.ApplyFragment", G+"apply_text.go"), ("TextFragment.Validate", G+"gitdiff.go"), ("formatter", G+"format.go")],
  ["Apply and TextApplier output", "Validate", "String followed by Parse"])

p("C36", "Work grows in proportion to the input",
  "Whatever the input repeats (characters of any name, number, header field, identity, date, message or line; lines of any kind in any part of a patch; hunks in any order, files, delta instructions), the work that Parse, Apply, String, Validate, Data, ParsePatchHeader, ParsePatchIdentity and ParsePatchDate do grows in proportion to the bytes they read and write (up to a logarithmic factor), not with their square: each further byte costs at most a constant number of executed statements and allocated bytes, and a million characters are done in seconds.",
  ["inputs"], "all repetitions of units of one or two characters, tokens and lines in every place of every input, at three sizes, and all pairs of growing parts",
  "The tests use small inputs and measure no cost; a quadratic step is invisible at their sizes.",
  [G+"parser.go", G+"file_header.go", G+"text.go", G+"binary.go", G+"base85.go", G+"io.go", G+"apply.go", G+"apply_text.go", G+"apply_binary.go", G+"format.go", G+"patch_header.go", G+"patch_identity.go"],
  [("parser, ParseNextFileHeader", G+"file_header.go"), ("line reading", G+"io.go"), ("Apply", G+"apply.go"), ("ParsePatchHeader", G+"patch_header.go")],
  ["statements executed in the library", "bytes allocated", "elapsed time on inputs of a million characters"])

p("C37", "Parse errors name the line",
  "When Parse refuses a patch, its error gives the number of the line at fault, counted from 1 over the whole input: the line that is malformed (header of a hunk, line of a hunk, extended header line, name, size or data line of a binary patch), the header of a hunk that miscounts its lines, contradicts a new or deleted file, or belongs to no file, and for parts that are missing a line from where the damaged part begins to the first line after it. Whatever text or files come before, of whatever kind, only move this number by the lines they have and change nothing else about the error, and so does nothing about how the reader delivers the input.",
  ["inputs", "fault positions"], "all small hunks with wrong counts or lines, one line at fault in every kind of line, all single and double line edits of patches, each after every kind of text and file",
  "The tests only ask whether there is an error; no test looks at the line.",
  [G+"parser.go", G+"file_header.go", G+"text.go", G+"binary.go"],
  [("parser.Errorf, Next", G+"parser.go"), ("ParseTextChunk", G+"text.go"), ("ParseTraditionalFileHeader", G+"file_header.go"), ("ParseBinaryChunk", G+"binary.go")],
  ["error returned by Parse"])

p("C38", "Mails are read as git mailinfo reads them",
  "ParsePatchHeader reads in a mail what git mailinfo reads: the subject as SubjectCleanAll by default, SubjectCleanWhitespace as with -k and SubjectCleanPatchOnly as with -b; the name and address of the sender, written before the address in brackets or after it in parentheses, with quotes, comments and encoded words (UTF-8, ISO-8859-1 or ASCII; Q or B) anywhere; the message up to a line of three hyphens and what follows it; the fields in any order and spelling, among others. Not judged: runs of white space inside a subject or name, subjects with nothing left, subjects in which a bracket or reply mark to be removed follows brackets that are kept or is inside an encoded word, senders with unbalanced quotes or parentheses or without an @ in the address, addresses that also appear in the name, repeated fields, fields at the start of the message, patches that start without the line of hyphens.",
  ["inputs"], "all subjects, encoded words, senders, messages and fields made of tokens up to a depth, each read by git",
  "Some twenty mails are tested, none against git, and the documentation promises its rules.",
  [G+"patch_header.go", G+"patch_identity.go"],
  [("parseHeaderMail, cleanSubject", G+"patch_header.go"), ("decodeWords", G+"patch_header.go"), ("ParsePatchIdentity", G+"patch_identity.go")],
  ["the PatchHeader returned"])

p("C39", "Patches apply as git apply applies them in place",
  "Where Apply succeeds for a patch of one file, git apply (with --unidiff-zero) succeeds on the same content with the same result, whether the patch changes, creates or deletes the file, in hunks or as a binary literal or delta with the object ids of both contents. Where git apply succeeds with every hunk at its place, so do Parse and Apply, except for hunks that leave no lines or stand at position 0 of a file with content, and incomplete lines that git finds in the middle of a file; binary patches that git refuses are refused by Parse or Apply, except for deltas of less than 4 bytes.",
  ["inputs"], "all small sources with all small hunks, pairs of hunks, delta and literal strings",
  "The tests hold one expected result per fixture, none of them with what git refuses.",
  [G+"apply.go", G+"apply_text.go", G+"apply_binary.go", G+"text.go"],
  [("TextApplier.ApplyFragment", G+"apply_text.go"), ("applyBinaryDeltaFragment", G+"apply_binary.go"), ("Apply", G+"apply.go")],
  ["the destination and the error of Apply"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
