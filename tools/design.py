HEAD = r'''# Model checking go-gitdiff

## Method

`go-gitdiff` is a sequential library: text in, values out, and bytes from an
`io.ReaderAt` to an `io.Writer`. What its users rely on quantifies over *all*
inputs, *all* ways the environment answers (short reads, early `io.EOF`,
failures, chunking), *all* call sequences on stateful objects, and *all*
schedules of goroutines that share a parsed patch. Each of these is decided by
**stateless explicit-state model checking of the real code**: a small explorer
(`mc/engine`) owns every source of nondeterminism through `T.Choose`, runs the
scenario once per path of the choice tree, depth first, until the whole bounded
tree is covered, and compares every execution with an independent reference
model (`mc/ref`) or with the exact expected outcome. Nothing is sampled;
`VERIF_SEED` is not needed anywhere. If a watchdog stops a scenario early, the
evidence says `exhaustive: false`.

* **Alphabet, bound, oracle.** Each scenario has a name and a stated bound;
  both are in `evidence/<id>.json` along with executions, states
  (distinct canonical inputs/observations), transitions (choices) and the
  number of distinct outcomes.
* **Deviation bounding.** Where the space is too large at full depth the
  scenario enumerates all deviations from a default (one or two changed bytes,
  one failing call, one preemption, two header slots...) instead of cutting
  executions short. Sizes always include both sides of every power of two and
  of every buffer size found in the code (52, 1024, 4096, 32 KiB, 64 KiB).
* **Reference models.** `mc/ref` holds boring reimplementations written from
  git's documentation, not from the library: a line-based patch model and diff
  writer, git's C-quoting, base85, a delta interpreter and encoder, date
  formatting, RFC 5322 name handling, and mail headers. The models are
  themselves bound to reality: C20, C22, C23, C28, C33 and C34 run the installed `git`, C32 GNU diff,
  over enumerated repositories and compare both model and library to it.
* **The exported API only.** The checks are an external module
  (`replace github.com/bluekeyes/go-gitdiff => /repo`) and use exported
  identifiers alone, never error texts, so refactorings do not disturb them.
  `/repo` carries no hooks.
* **Violations.** A violation is re-run before it is reported (`Repro` in its
  file says how often it reappeared) and its choice list is written to
  `evidence/replay/`; `mc -replay FILE`
  repeats it. Panics, fatal runtime errors, hangs (watchdog) and memory
  exhaustion of the library are violations, harness errors are not.
* **Supervision.** Each check runs its scenarios in a child process so that
  stack overflows, concurrent map faults, data races and endless loops in the
  library are attributed to the property instead of killing the check.

Files: `mc/engine` explorer; `mc/ref` reference models; `mc/checks/cNN.go`
scenarios of property CNN; `mc/cmd/mc` driver; `mc/cmd/instrument` and
`mc/sched` scheduler for C27; `tools/` generators of properties.jsonl and
MANIFEST.json and the tester of planted bugs (`tools/seedtest.py -c`).

## Properties
'''
P = {}
P['C01'] = ('''All edit scripts up to 6 (thorough 7) operations over two line contents, with all final-newline choices and *all* partitions of the script into hunks with any amount of context, are written as diffs by the model, parsed and applied; plus deviations: every byte value and patch look-alike as content, every file, line, hunk length and hunk count around every boundary, every pair of edits.''',
'the target text the script itself defines', 'chunked copying in `apply_text.go`, `line_reader` sizes: tests use a few files; only enumeration over lengths reaches each chunk and buffer boundary')
P['C02'] = ('''All sources of up to 3 lines against all hunks of up to 3 operations at all positions over two contents and over a set of near-identical contents (newline or no newline, CR, prefix, NUL, case); all pairs of hunks; each single-line deviation of diffs of up to 12 lines at any context; long files and long lines (one byte changed at every position); creation and deletion against all lengths; positions up to 2^63-1.''',
'a reference applier that matches line by line', 'a wrong application is silent; it needs the one differing line or byte')
P['C03'] = ('''All sets of up to 4 hunks of 5 shapes with every gap (overlapping included) in every order, built and parsed, also with new positions in other orders; permutation families of up to 200 hunks; every near variant of a source (a byte, a line or a line end added, removed or changed); all sequences of up to 3 (4) uses out of Apply, String, Header, Validate, Data... on one value, each compared with a fresh copy.''',
'result for the sorted order; deep equality of the value before and after', 'mutation and ordering only show after a second use')
P['C04'] = ('''All disagreements of small hunks and sources at every line, invalid fragments at every place, every binary defect, every misuse and every failing read or write, through Apply and both appliers.''',
'error class and location computed by the reference applier', 'tests check one location per kind')
P['C05'] = ('''All sequences of up to 4 (5) ApplyFragment/Close calls over 15 text or 9 binary fragments and 4 sources, and all sequences with a failing endpoint.''',
'a state machine model of the appliers (state: open/closed, position, attempted)', 'a protocol property: only sequences show it')
P['C06'] = ('''The environment decides: every subset of reads that end at the end of the source may or may not return io.EOF; nine kinds of source crossed with nine kinds of writer; partly-consumed readers and files; sources of up to 2^24 (2^26) bytes, whose size is at and around powers of two.''',
'the result with a plain bytes.Reader', 'legal but unusual answers of io.ReaderAt')
P['C07'] = ('''Every I/O call of every case fails in turn: call index x error value (including io.EOF wrapped, io.ErrUnexpectedEOF) x amount transferred x transient or permanent x source/destination kind x driver.''',
'the failure must be in the chain and not be a Conflict', 'exhaustive fault enumeration')
P['C08'] = ('''All instruction sequences of up to 4 (5) over all copy ranges (two encodings) and inserts on sources up to 4 bytes; all 127 copy opcodes with a menu for every present byte over a virtual 4 GiB source; all lengths around powers of two in each encoding; all insert lengths; padded headers; literals of every size and compression level; whole patches in both directions.''',
'the reference delta interpreter', 'each opcode is its own code path')
P['C09'] = ('''All delta strings of up to 5 bytes, all instruction strings of up to 4 bytes under all declared sizes, every byte of valid deltas replaced by every value, dropped, doubled, cut; pairs of damage; size headers with every continuation pattern; copies around the end of the source.''',
'strict reference interpreter: succeed iff well formed', 'corruption space is infinite; small-scope enumeration covers each check')
P['C10'] = ('''Small fragments (valid, corrupt, understated, mismatching) under every limit, through Apply and appliers, each compared with the unlimited run; the default limit at exactly 100 MiB +-1.''',
'declared sizes decide; below the limit equal to the unlimited run', 'relation between two runs')
P['C11'] = ('''All sequences of read sizes over all payloads up to 6 (9) bytes in several encodings with declared size off by -2..2; every single-byte damage and cut of the zlib stream; all raw strings of up to 4 bytes; all interleavings of three readers of one fragment.''',
'Go zlib on the whole stream plus size rule', 'depends on how reads line up with the end and the checksum')
P['C12'] = ('''All payload lengths 0..320 and around powers of two, every byte value at every place of base85 groups, all sizes, all length bytes and line lengths, groups around 2^32, all cuts and single replacements of a patch, all line sequences up to 5.''',
'reference base85 and line grammar (strict)', 'group and remainder boundaries')
P['C13'] = ('''All body line sequences up to 5 of 18 lines, all kind sequences x omitted counts x newline states, declared counts off by -2..3, all headers with up to 2 (3) deviating slots of the grammar, all byte pairs in line start, content, comment, all marker lengths, long lines, many lines and hunks.''',
'reference hunk parser written from the diff format', 'tests are examples of each rule')
P['C14'] = ('''The product of kinds of change, name pairs, prefixes, modes, object ids, scores, spellings and bodies; all permutations of header lines; all scores, modes and id lengths; malformed values everywhere; all sequences of header lines up to 4 (5) tokens against the reference parser.''',
'reference model of git header semantics', 'header lines interact')
P['C15'] = ('''All names of up to 2 bytes (every byte) and up to 3 of a critical alphabet x every header position x both quoting styles; all pairs of critical names; long names; all formatted files.''',
"git's quoting rules (reference encoder)", 'quoting errors hide in single bytes')
P['C16'] = ('''Instants around the epoch x 100+ zone offsets x fractions x colon on either or both sides; names x stamps x following lines; all prefix relations of names over a small alphabet; every byte pair in names.''',
'reference rule for names and kind', 'epoch detection is arithmetic on zone, date and fraction')
P['C17'] = ('''All sequences of up to 4 (5) of file patches, junk and malformed parts; composition with parts parsed alone; all preambles of up to 5 (6) characters; sequences of lines that are or look like parts of a header; many files; malformed ends.''',
'concatenation of the results of the parts; exact preamble', 'state carried from one file to the next')
P['C18'] = ('''The reader is the environment: all choices of up to 2 (3) cut positions, all partitions of windows, all chunk sizes, four kinds of reader; a read error at every byte position of every input in every delivery style, permanent or transient.''',
'result of the whole string; the error must be reported', 'buffering boundaries')
P['C19'] = ('''All products of C14 and C13 generators, traditional patches, binary data, byte pairs, sequences of files: parse, format, parse, format.''',
'deep equality and textual fixpoint', 'round trip over all field combinations')
P['C20'] = ('''Git generates: all assignments of content, mode and kind to two paths (and odd names), with several diff options; each file is parsed, formatted, and applied by `git apply`, compared with git\'s tree and with Apply.''',
'git apply / git trees', 'a formatter can agree with its own parser and disagree with git')
P['C21'] = ('''All kind sequences of small hunks with one, two or three wrong fields, all small assignments of all six counts, all operations, all positions; every rejected fragment is applied.''',
'the definition of consistency', 'errors that cancel out need two fields')
P['C22'] = ('''All messages of up to 4 (5) line tokens in 4 formats, header lines, decorations, unknown lines at every place, every subset and order of the header fields, identities, dates, all byte pairs, long lines; and messages committed with git and printed by git log in each format.''',
'reference model of git log, checked against git itself', 'clean-up rules interact')
P['C23'] = ('''All subjects of up to 4 (5) tokens in all clean modes, byte pairs, encoded words in all splittings and folds, all bodies of up to 4 tokens, all field orders; commits written by git format-patch in several option sets.''',
'reference model of mail headers and clean modes, checked against git', 'tag and reply rules interact with folding')
P['C24'] = ('''Every day for decades in 9 forms, every offset, every second of a day, every quarter hour and the seconds around each transition in several local zones (child processes per TZ), damaged strings.''',
'calendar arithmetic of the model', 'time zones and transitions')
P['C25'] = ('''All names of up to 3 tokens, all quoted strings of up to 3 (4) tokens, all comments, element sequences, all strings of up to 6 characters of the special alphabet, byte pairs.''',
'a reference RFC 5322 phrase/address reader', 'nesting and quoting')
P['C26'] = ('''All sequences of up to 4 (5) of ~40 patch lines, hunk lines, extreme numbers, all damages of a corpus of valid patches and headers, all short strings after each beginning, binary lines, delta bytes, hand-made fragments, long repetitions; whatever parses is formatted, validated, read and applied to several sources.''',
'returns normally within the watchdog', 'absence of panics')
P['C27'] = ('''`mc/cmd/instrument` writes a build overlay with a scheduling point before every statement of the library; `mc/sched` runs two (three) operations sharing files and sources under a controlled scheduler and explores all schedules with one preemption at every statement (two for short pairs), and all ordered pairs of first calls in fresh processes. The handovers are hidden from the race detector (RaceDisable), so unsynchronised accesses are reported on every schedule.''',
'each operation returns what it returns alone; no data race', 'interleavings')
P['C28'] = ('''Git generates: contents x contents, modes, kinds, renames, copies, rewrites, two paths, odd names, empty files, final newlines, with many option sets of git diff-tree, plus format-patch over histories.''',
'git\'s trees and raw diff', 'the whole pipeline against the real producer')
P['C29'] = ('''Each declared number at every magnitude (hunk numbers, sizes, delta headers, copies) with little data, and real content of growing sizes, measuring allocations of each call.''',
'a linear bound in the bytes present plus a constant', 'resource property')
P['C30'] = ('''All edit scripts of small texts x hunk splits x context, odd lines, hunks far into long files, and git diffs of enumerated changes; each parsed hunk is laid over both files.''',
'the two files themselves', 'a hunk with a wrong position or count may still apply')
P['C31'] = ('''Git and the reference encoder write binary patches for pairs of contents with each kind of forward and reverse data, or damaged or missing reverse data; all histories of applying and undoing up to a depth, also after formatting.''',
'the two contents', 'the reverse half is never applied by the tests')
P['C32'] = ('''The installed GNU diff compares enumerated pairs of files and trees (contents, missing files, odd names, time stamps around the epoch in many zones, options); its output is parsed and applied.''',
'the compared files, names by C16\'s model', 'the real producer over a space of inputs')
P['C33'] = ('''Git prints enumerated commits (messages of up to 3 lines that look like patches or headers x changes; runs of a history; merges) with log -p in all formats and format-patch.''',
'the commits given to git', 'headers and patches only meet in whole outputs')
P['C34'] = ('''All sequences of git header lines, all hunk headers x body lines up to a depth, all lines that look like markers of binary files, names of traditional headers with the ends and surroundings other tools give them, all single (and double, triple for short) line edits of patches: whatever `git apply --numstat` reads, Parse has to read. Inputs that the reference parser calls contradictory (the same thing said twice in different ways), and `diff --git` lines without any header line after them, are left out, because git\'s answer for them is an accident.''',
'git apply', 'no fixture lies between well formed and broken')
P['C35'] = ('''A model of a text, its changed version and the hunks between them is explored under all sequences of edits up to a depth; the same edits are made in place on the fields of the parsed or built File, which after every edit is applied (with Apply and an applier), validated, formatted and parsed again.''',
'the model', 'histories of edits and uses of one value')
P['C36'] = ('''`mc/cmd/instrument -steps` writes a build overlay that counts the statements of the library; every unit (characters, tokens, lines, pairs of them) is repeated in every place at three sizes, pairs of parts of a patch grow together, lines are repeated up to 16384 times, and patches with growing numbers of hunks, lines and instructions are applied. The cost of each further byte (statements, allocated bytes) may not grow by more than a factor of 1.6 plus a constant when the size is quadrupled; a quadratic step grows by 4. What hides in the standard library is bounded by the clock on inputs of a million characters (6 s, best of three; usual is 25 ms).''',
'the cost at the smaller size', 'no test measures cost')
P['C37'] = ('''All bodies of hunks up to 4 lines (thorough 6) with counts off by up to 2 on either side and with one line replaced or inserted, followed by other texts; one malformed line of every kind; missing parts; all single (thorough: double) line edits of patches. Each after 11 texts (text, commit, files of every kind) and through readers of 1 and 7 bytes. The number is read from the text of the error.''',
'a small model of hunks that says at which line reading must stop, or the place of the planted fault; for edits, the error without the text before', 'the tests ask only whether there is an error')
P['C38'] = ('''Subjects (12 tokens, depth 4, thorough 5) in the three clean modes, sequences of encoded words of two encodings and three character sets as subject and name, senders of every form with names of up to 2 (thorough 3) of 22 parts, messages of up to 3 (thorough 4) of 18 lines, header fields in every order: every mail is read by `git mailinfo` and by ParsePatchHeader.''',
'git mailinfo', 'no test compares with git')
P['C39'] = ('''Every source of up to 3 lines of two kinds with every hunk of up to 3 (thorough 4) lines at every position, with and without last line feeds; sources of up to 4 (5) lines with every two of 6 (9) hunks; new and deleted files; every delta of up to 3 (4) instruction bytes of 13 kinds with right and wrong sizes; literals with right and wrong sizes: each is applied by `git apply` in a directory of its own and by Apply. The object ids git wants in binary patches are computed by the harness, so that git judges the data only.''',
'git apply', 'the tests hold few results and no refusal of git')
import json,os,glob
out=[HEAD]
props={json.loads(l)['id']:json.loads(l) for l in open('/verif/properties.jsonl')}
seeds={}
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json')); seeds.setdefault(m['property'],[]).append((os.path.basename(d),m))
for k in sorted(props):
    a=P[k]
    out.append(f"### {k} {props[k]['title']}\n\n*Explored.* {a[0]}\n\n*Oracle.* {a[1][0].upper()+a[1][1:]}. *Why not tests:* {a[2]}. Exact bounds and counts: `evidence/{k}.json`; cost (quick, 8 cores): see the table below.\n")
out.append(open('/verif/tools/design_tail.md').read())
out.append('\n## Planted bugs and what catches them\n\nEvery one is caught by the quick check of its property (`tools/seedtest.py -c`) unless noted.\n')
for k in sorted(seeds):
    for s,m in seeds[k]:
        out.append(f"* `{s}` ({k}): {m['what_it_breaks']} Needs: {m['needs']}.".replace('. Needs','. Needs') )
open('/verif/DESIGN.md','w').write('\n'.join(out)+'\n')
