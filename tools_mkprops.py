"""Regenerates properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [dict(zip(('name', 'where'), m)) for m in mech], 'observe_at': list(observe), 'hook_needed': None}})

LIB = 'src/libbsdconv.c'
p('C01', 'Output does not depend on how the input is split into calls',
  'For every conversion and every input, feeding the input in one call or in any sequence of pieces (single bytes, empty pieces, pieces cut inside a multi-byte character or escape sequence), with the flush flag on the last call, yields the same concatenated output and the same counters. A flush requested on an extra final call without data is the same as a flush requested together with the last piece.',
  ['inputs', 'histories'], 'all conversions built from the shipped codecs, all byte strings, all ways of splitting them into calls',
  'The CLI tests pipe one short text in one read; nothing splits a stream, so state carried across calls (pending prefixes, submatches, codec queues) is not exercised.',
  [LIB, 'src/bsdconv.c', 'modules/from', 'modules/inter', 'modules/to'],
  [('per-phase pending lists and cursor kept between calls', 'bsdconv() in src/libbsdconv.c'), ('codec private state between cells', 'cbconv/cbflush of modules/*/*.c')],
  [('phase[].data_head/bak/curr/i', 'unconsumed input and last full match of a phase', 'src/bsdconv.h')], ['bsdconv() output', 'counters'])
p('C02', 'Re-initialised instances behave like new ones',
  'After an instance is initialised again, whatever was converted with it before (finished, or abandoned in the middle of a character with nothing flushed), it converts any further input to exactly the output and the counter increments a newly created instance of the same conversion gives. Counters keep their totals until they are reset.',
  ['histories', 'inputs'], 'all conversions, all earlier uses of the instance (complete, abandoned, drained or undrained output), all later inputs',
  'testsuite/api.c initialises each instance once per test and always finishes its input; the CLI does the same per process.',
  [LIB, 'modules/from', 'modules/inter', 'modules/to'],
  [('reset of phase lists, match state and flags', 'bsdconv_init() in src/libbsdconv.c'), ('cbinit of stateful codecs', 'modules/*/*.c')],
  [('codec priv', 'queues, cursors and shift states of codecs', 'modules/*/*.c')], ['bsdconv() output', 'counters'])
p('C03', 'Any input through any pipeline is memory safe and terminates',
  'For every conversion that can be created from the shipped modules and any byte string fed to it in any number of calls, conversion terminates and never reads or writes outside its buffers, uses freed memory or frees twice, and destroying the instance afterwards is equally safe.',
  ['inputs', 'histories', 'configurations'], 'all pipelines over all shipped from/inter/to codecs with valid arguments, all byte strings, any chunking, flush or no flush, destroy at any point',
  'The tests run a few dozen well-formed inputs without sanitizers; malformed sequences and unusual codec combinations are not sampled.',
  [LIB, 'src/bsdconv.h', 'modules/from', 'modules/inter', 'modules/to', 'modules/filter', 'modules/scorer'],
  [('cell lists with ownership flag and recycling pool', 'DATA_MALLOC/DATUM_FREE/LISTFREE in src/bsdconv.h'), ('bounded codec buffers', 'modules/*/*.c')],
  [('pool', 'recycled cells of an instance', 'src/bsdconv.h')], ['sanitizer reports', 'CPU time of a call'])
p('C04', 'Every conversion string yields a working instance or a clean rejection',
  'For any string given as a conversion, creation either returns an instance that can be initialised, used and destroyed, or returns no instance and an error reason (syntax error, unsupported codec, or a module rejecting its arguments); it never crashes, hangs or corrupts memory. White space anywhere in the string and the letter case of codec names make no difference, and strings with an empty phase or codec, or an unknown codec, are always rejected with the matching reason; modules that are missing from the installation, or a wrong module path, are reported in the same way.',
  ['inputs', 'configurations'], 'all byte strings as conversions; all codec names with any argument list (missing, valueless, malformed, repeated, odd-length, very long)',
  'The tests only create a fixed list of valid conversions, plus one or two invalid ones.',
  [LIB, 'src/libbsdconv_module.c', 'src/libbsdconv_util.c', 'modules/inter', 'modules/from', 'modules/to'],
  [('parser', 'bsdconv_unpack()/bsdconv_create() in src/libbsdconv.c'), ('argument parsing', 'cbcreate of modules, str2data()/str2datum() in src/libbsdconv_util.c')],
  [], ['bsdconv_create() result', 'bsdconv_error()'])
p('C05', 'All output modes deliver the same byte stream',
  'For every conversion and input, collecting the result through automatically allocated buffers (with any requested slack), caller-provided buffers of any size, a stdio stream, a file descriptor (also one that takes it in parts, while signals interrupt the writing), held-back output collected later, or by passing it on to a second instance gives the same byte stream, with nothing lost, duplicated or reordered. A caller-provided buffer is never written beyond its size, the reported length is exactly what was delivered, and asking without a buffer reports the number of bytes waiting.',
  ['inputs', 'histories', 'configurations'], 'all conversions and inputs, all chunkings, all sequences of output modes and buffer sizes on one instance',
  'The tests use one mode per instance with ample buffers; switching modes and tight buffers over a stream are not covered.',
  [LIB], [('output switch', 'end of bsdconv() in src/libbsdconv.c')], [('last phase list', 'converted cells not yet delivered', 'src/libbsdconv.c')], ['ins->output', 'FILE*/fd contents'])
p('C06', 'A pipeline equals the composition of its parts',
  'Joining conversions with "|" gives the output of running the second on the complete output of the first, and inserting the do-nothing stage between any two stages, or between two joined conversions, changes nothing. The counters of a joined conversion are the sums of the counters of its parts.',
  ['inputs', 'configurations'], 'all pairs and triples of conversions over the shipped codecs, all inputs',
  'A handful of fixed multi-phase conversions are tested on fixed inputs.',
  [LIB, 'modules/inter/PASS.c'], [('phase loop', 'bsdconv() in src/libbsdconv.c')], [], ['bsdconv() output', 'counters'])
p('C07', 'Table codecs convert exactly as their mapping tables say',
  'Every codec defined only by a mapping table maps any input as the table text in the source tree says: at each position the longest listed sequence is replaced by its listed result, stages in the middle of a pipeline leave unlisted text unchanged, and decoders and encoders skip one unlisted byte or character and count one error. This holds whatever precedes and follows a sequence, including partial matches that fail late or at end of input.',
  ['inputs'], 'all table-only from/inter/to codecs, all inputs, in particular concatenations of entries, truncated entries and overlapping prefixes',
  'Tests exercise a few characters per codec; the interplay of overlapping prefixes, back-tracking and end of input is unbounded.',
  ['modules/from', 'modules/inter', 'modules/to', 'src/bsdconv-mktable.c', LIB],
  [('state machine compiled by mktable', 'src/bsdconv-mktable.c'), ('SUBMATCH/MATCH/DEADEND handling', 'bsdconv() in src/libbsdconv.c')], [], ['bsdconv() output', 'IERR/OERR'])
p('C08', 'The table compiler implements its table language',
  'For any well-formed table source, the codec compiled by bsdconv-mktable and loaded as a from, inter or to codec behaves as a plain longest-match interpretation of that source: of the entries matching the same text the one matching most of it exactly (rather than by wildcard or by ignoring letter case) wins, then the earliest, case-insensitive entries match both letter cases, comment lines are ignored. The same source always compiles to the same bytes, whatever the output file held before; a source that cannot be read or an output that cannot be written ends with a failing status, and no other file is touched or left behind.',
  ['programs', 'inputs'], 'all generated table sources (overlapping prefixes, wildcards, multi-cell patterns, multi-cell results, duplicates), all inputs over their alphabet',
  'The compiler is only ever run on the shipped tables; no test compiles a table.',
  ['src/bsdconv-mktable.c', 'src/libfmalloc.c', LIB], [('trie construction and serialisation', 'src/bsdconv-mktable.c'), ('state lookup', 'get_offset()/read_state() in src/bsdconv.h')], [], ['compiled file', 'bsdconv() output'])
p('C09', 'UTF-8 decoding and encoding are exact',
  'Decoding UTF-8 accepts exactly the well-formed sequences of the selected strictness (surrogate pairs in CESU form, overlong forms and values above U+10FFFF only when the matching option is given), yields the code point each stands for, and reports every ill-formed sequence as an input error without swallowing the valid characters around it. Encoding produces the standard form of every Unicode scalar value (U+0000 is the business of the codec 00), and cells that are no Unicode character are reported as output errors.',
  ['inputs', 'configurations'], 'all byte strings, all code points, all option combinations of the UTF-8 codecs',
  'Tests contain a few valid characters and two or three malformed ones.',
  ['modules/from/_UTF-8.c', 'modules/from/_UTF-8.txt', 'modules/to/_UTF-8.c', 'modules/to/_UTF-8.txt', 'modules/from/alias', 'modules/to/alias'],
  [('decoder callback', 'modules/from/_UTF-8.c'), ('encoder callback', 'modules/to/_UTF-8.c')], [], ['bsdconv() output', 'IERR/OERR'])
p('C10', 'UTF-16, UTF-32 and UCS-2 are exact and agree with each other',
  'For every sequence of Unicode scalar values, encoding to UTF-16, UTF-32 or UCS-2 in either byte order produces the standard bytes (UCS-2 rejecting what it cannot hold) and decoding them gives the sequence back. Unpaired lead surrogates and truncated units are reported as input errors, and what precedes them is decoded as if they were absent.',
  ['inputs'], 'all code point sequences and all byte strings, both byte orders',
  'Tests contain a few fixed strings.',
  ['modules/from/UTF-16BE.c', 'modules/from/UTF-16LE.c', 'modules/from/UTF-32BE.c', 'modules/from/UTF-32LE.c', 'modules/to/UTF-16BE.c', 'modules/to/UTF-16LE.c', 'modules/to/UTF-32BE.c', 'modules/to/UTF-32LE.c', 'modules/to/UCS-2BE.c', 'modules/to/UCS-2LE.c'],
  [('decoder and encoder callbacks', 'modules/from/UTF-*.c, modules/to/UTF-*.c, modules/to/UCS-2*.c')], [], ['bsdconv() output', 'IERR/OERR'])
p('C11', 'Unicode normalisation matches the standard',
  'For every sequence of assigned Unicode characters, the NFD, NFC, NFKD and NFKC stages produce the normal forms defined by the Unicode standard, including canonical reordering of combining marks, Hangul syllables, composition exclusions and blocked compositions, and applying a form twice changes nothing.',
  ['inputs'], 'all strings of assigned characters (of the Unicode version the tables were made for), weighted to combining sequences, Hangul jamo and composed characters',
  'The tests check a handful of normalisation examples.',
  ['modules/inter/_NFC.c', 'modules/inter/_NF-ORDER.c', 'modules/inter/_NF-CCC.h', 'modules/inter/_NF-HANGUL-COMPOSITION.c', 'modules/inter/_NF-HANGUL-DECOMPOSITION.c', 'modules/inter/_NFD.txt', 'modules/inter/_NFKD.txt', 'modules/inter/_NFC-MAP.txt', 'modules/inter/alias'],
  [('reordering queue', 'modules/inter/_NF-ORDER.c'), ('starter composition', 'modules/inter/_NFC.c'), ('Hangul arithmetic', 'modules/inter/_NF-HANGUL-*.c')], [], ['bsdconv() output'])
p('C12', 'Legacy charsets agree with their standards and round-trip',
  'For the charsets whose mapping is a published standard (ISO-8859-1, the Windows code pages, GBK/GB2312/GB18030, Shift-JIS, CP949, Big5/CP950 and EBCDIC pages), each byte sequence decodes to the character of the standard mapping, each character encodes to the bytes of the standard mapping, sequences and characters outside it are reported as errors, and texts survive a conversion to the charset and back. Encoders with shift states produce output their decoder (and any other implementation) reads back, and ISO-2022-JP is decoded in all its designations.',
  ['inputs'], 'all sequences of characters representable in each charset, mixed single- and multi-byte; all byte sequences',
  'Tests convert a few characters in a few charsets.',
  ['modules/from/_GB18030.c', 'modules/to/_GB18030.c', 'modules/from/EBCDIC.c', 'modules/to/EBCDIC.c', 'modules/from/_JIS.c', 'modules/from/CP950-UDA.c', 'modules/from', 'modules/to', 'modules/from/alias', 'modules/to/alias'],
  [('GB18030 four-byte arithmetic', 'modules/*/_GB18030.c'), ('shift-in/shift-out state', 'modules/*/EBCDIC.c'), ('mapping tables', 'modules/from/*.txt, modules/to/*.txt')], [], ['bsdconv() output', 'IERR/OERR'])
p('C13', 'Errors are counted once per lost unit and never lose neighbours',
  'The input error counter grows by one for every input byte no decoder of the phase accepts and the output error counter by one for every character no encoder of the phase accepts, and by nothing else; the convertible text on either side is converted exactly as it is without the unconvertible part (a sequence that only converts as a whole is broken by it). A conversion that reports no error has lost nothing: every input unit is represented in the output.',
  ['inputs', 'configurations'], 'all inputs mixing convertible and unconvertible material at any position, for decoders, encoders and both',
  'Few tests look at the counters, on one or two inputs each.',
  [LIB, 'src/libbsdconv_counter.c', 'modules/from/ANY.c', 'modules/to/ANY.c'], [('ierr/oerr increments in the dead-end branches', 'bsdconv() in src/libbsdconv.c')], [('IERR, OERR', 'error counters', 'src/libbsdconv_counter.c')], ['counters', 'bsdconv() output'])
p('C14', 'Fallback codecs are tried in order for each unit',
  'In a phase listing several codecs, each unit of input is converted by the first codec in the list that accepts it, the next unit starts again with the first codec, and an error is counted only if all of them reject it. Appending a catch-all codec therefore removes all errors of that phase and changes nothing else, and listing a codec twice changes nothing.',
  ['inputs', 'configurations'], 'all lists of decoders or encoders (table-driven and algorithmic), all inputs',
  'Tests have a few fixed fallback lists on fixed inputs.',
  [LIB, 'modules/from/ANY.c', 'modules/to/ANY.c'], [('codec index advance on dead end', 'bsdconv() in src/libbsdconv.c')], [('phase[].index', 'codec in use', 'src/bsdconv.h')], ['bsdconv() output', 'counters'])
p('C15', 'Aliases mean their expansion',
  'A conversion written with an alias behaves identically to the same conversion with the alias replaced by its documented definition, in every phase type, inside fallback lists and with arguments, and the packed form of an instance is a conversion string that creates an equivalent instance and packs to itself.',
  ['configurations', 'inputs'], 'all entries of the alias files, with any letter case, alone and embedded in longer conversions with arguments; all inputs',
  'A few aliases are used in tests; the alias tables have over a hundred entries.',
  [LIB, 'src/libbsdconv_module.c', 'modules/inter/ALIAS-FROM.c', 'modules/inter/ALIAS-TO.c', 'modules/inter/ALIAS-INTER.c', 'modules/from/alias', 'modules/to/alias', 'modules/inter/alias', 'modules/filter/alias', 'tools/mkalias.py'],
  [('alias substitution and re-parse', 'bsdconv_create()/bsdconv_pack() in src/libbsdconv.c'), ('alias conversion', 'bsdconv_solve_alias() in src/libbsdconv_module.c')], [], ['bsdconv_pack()', 'bsdconv() output'])
p('C16', 'Editing conversion strings edits exactly the named phase or codec',
  'Inserting or replacing a phase or a codec in a conversion string at any valid index (counted from either end, or past the end for insertion) returns the conversion with exactly that phase or codec inserted or replaced and every other phase, codec and argument unchanged and in order; a malformed conversion yields no result.',
  ['inputs', 'configurations'], 'all conversions with several alternatives, phases, fallbacks and arguments, all indices in range including negative ones',
  'testsuite/api.c checks a few calls on two strings.',
  ['src/libbsdconv_util.c', LIB], [('index arithmetic', 'bsdconv_get_phase_index()/bsdconv_get_codec_index() in src/libbsdconv_util.c'), ('unpack/pack', LIB)], [], ['returned strings'])
p('C17', 'Counters and the instance hash behave as maps',
  'For any sequence of operations, the instance hash behaves as a map from strings to pointers (set, get, has, delete) and counters behave as named integers that start at zero, keep their address and value until set or reset, and reset individually or all together; operations on one key never affect another key.',
  ['histories'], 'all sequences of set/get/has/delete and counter/reset calls over any keys, interleaved with conversions',
  'testsuite/api.c performs one fixed short sequence.',
  ['src/libbsdconv_hash.c', 'src/libbsdconv_counter.c'], [('linked list with move-to-front', 'src/libbsdconv_hash.c'), ('counter list', 'src/libbsdconv_counter.c')], [('ins->hash, ins->counter', 'lists', 'src/bsdconv.h')], ['return values'])
p('C18', 'Escape encodings decode back to the text they encode',
  'For every text, encoding with an escape codec (percent/URL escapes, backslash escapes, HTML numeric and named entities, hex, byte, and the native interchange form) and decoding with its counterpart returns the text, the escaped form stays within the documented alphabet, the forms made for display (image and link of a character) carry its code exactly, and the decoders read every documented spelling of an escape (digits in either case, decimal, hexadecimal, octal) as the value it denotes and leave incomplete or invalid escapes to the next decoder of the list.',
  ['inputs', 'configurations'], 'all Unicode texts and byte strings, all documented modes, arbitrary mixtures of valid, truncated and invalid escapes',
  'Tests decode a few fixed escapes.',
  ['modules/from/ESCAPE.c', 'modules/to/ESCAPE.c', 'modules/from/ASCII-NUMERIC-HTML-ENTITY.c', 'modules/from/BSDCONV.c', 'modules/to/BSDCONV.c', 'modules/from/HEX.txt', 'modules/to/HEX.txt', 'modules/from/alias', 'modules/to/alias'],
  [('escape state machines', 'modules/from/ESCAPE.c, modules/to/ESCAPE.c'), ('entity decoder', 'modules/from/ASCII-NUMERIC-HTML-ENTITY.c')], [], ['bsdconv() output'])
p('C19', 'Text-editing stages do exactly the documented edit',
  'Insertion of fixed text before or after, replacement of a cell sequence by another, limiting and filtering of passed text, discarding, trimming to a display width, counting of filtered characters and measuring of display width each transform or measure any text exactly as documented, touching nothing else, for any argument values.',
  ['inputs', 'configurations'], 'all texts (with wide, narrow, ambiguous characters, bytes and other cell types), all argument values',
  'One fixed example per stage in the tests at most.',
  ['modules/inter/INSERT.c', 'modules/inter/REPLACE.c', 'modules/inter/PASS.c', 'modules/inter/NULL.c', 'modules/inter/TRIM-WIDTH.c', 'modules/inter/COUNT.c', 'modules/inter/WIDTH.c', 'modules/inter/STRINGS.c'],
  [('stage callbacks', 'modules/inter/*.c')], [], ['bsdconv() output', 'counters'])
p('C20', 'Filters and scorers classify characters consistently',
  'Each filter accepts exactly the characters of its script or class: accepted code points form the intervals documented for it, the boundaries included, cells of another kind are refused, and an alias or any letter case of a name means the same filter. Scorers give each character its listed score, bonus tables add their bonus for each listed phrase and leave the text alone, and stages that take a filter or scorer (counting, passing, extracting, scoring) treat every cell according to that classification.',
  ['inputs', 'configurations'], 'all code points and cell kinds for every filter and scorer',
  'Tests use two or three filters on a few characters.',
  ['modules/filter', 'modules/scorer', 'src/libbsdconv_filter.c', 'src/libbsdconv_scorer.c', 'modules/filter/unicode_range.c'],
  [('binary search over ranges', 'modules/filter/unicode_range.c'), ('loading', 'src/libbsdconv_filter.c')], [], ['counters', 'bsdconv() output'])
p('C21', 'The command line converts files of any size faithfully',
  'For every conversion and file content, the command-line tool gives the same bytes and the same reported counts when reading standard input, a named file or several files, or converting in place, whatever the file size; in-place conversion replaces each file by exactly its converted content, keeps its permissions and leaves no other file behind; an invalid conversion leaves all files untouched with a failing exit status, and a file that is missing, cannot be read or whose result cannot be written completely is left as it was, also with a failing exit status. At whatever moment the tool is killed, and whichever of its reads, writes, opens or renames fails, each file holds either its whole old or its whole new content; success is only reported when everything was converted, and unless killed the tool leaves no other file behind.',
  ['inputs', 'configurations', 'histories', 'crash_points', 'fault_sequences'], 'all file contents and sizes around the internal buffer size, several files, in-place or not, all conversions; every system call at which the tool is killed or one fails',
  'The tests only pipe short texts through standard input.',
  ['src/bsdconv.c', LIB], [('read loop and in-place rename', 'src/bsdconv.c')], [], ['stdout', 'stderr counts', 'files'])
p('C22', 'Module discovery is consistent with what can be created',
  'For each phase type, the listed codecs are exactly those a conversion can name, each name is listed once, the existence check and alias lookup agree with creation, names are accepted in any letter case, the listing, completion and manual tools offer those same names, and none of these calls changes the working directory or other process state.',
  ['inputs', 'configurations'], 'all names (listed, aliased, near-misses, random strings, path-like strings), all phase types',
  'No test lists modules or checks names.',
  ['src/libbsdconv_module.c', LIB], [('directory and alias scan', 'bsdconv_modules_list()/bsdconv_module_check()/bsdconv_solve_alias() in src/libbsdconv_module.c')], [], ['return values', 'working directory'])
p('C23', 'Case, width and line-ending transformations are lawful',
  'Upper-casing, lower-casing and case folding map every character as the Unicode simple mappings do (the unconditional special mappings where a character has no simple one; full folding for case folding) and leave caseless characters alone; full-width and half-width conversion map exactly the wide and narrow forms of Unicode and are inverse on the printable ASCII range; the newline stages turn every CR, LF and CRLF into the chosen form and leave a text that has it alone.',
  ['inputs'], 'all texts, weighted to cased characters, width variants and mixtures of CR and LF across any call boundary',
  'Tests convert one or two strings per stage.',
  ['modules/inter/UPPER.txt', 'modules/inter/LOWER.txt', 'modules/inter/CASEFOLD.txt', 'modules/inter/FULL.txt', 'modules/inter/HALF.txt', 'modules/inter/UNIX.txt', 'modules/inter/MAC.txt', 'modules/inter/WIN.txt', 'modules/inter/alias'],
  [('mapping tables', 'modules/inter/*.txt'), ('longest match', LIB)], [], ['bsdconv() output'])
p('C24', 'Create/use/destroy cycles are resource neutral',
  'Any cycle of creating an instance (successfully or not, with stages that keep files of their own or without), converting any input with it, re-initialising it, editing strings or looking up modules, and destroying it leaves the process as it was: no memory or file descriptor is leaked, no module stays loaded and the working directory is unchanged.',
  ['histories', 'inputs'], 'all conversions, valid or rejected, all inputs and abandoned conversions, all lookups, repeated any number of times',
  'Nothing in the tests measures resources.',
  [LIB, 'src/libbsdconv_module.c', 'src/libbsdconv_util.c', 'modules/inter', 'modules/from', 'modules/to'],
  [('destroy and error paths', 'bsdconv_create()/bsdconv_destroy() in src/libbsdconv.c'), ('cbdestroy of modules', 'modules/*/*.c')], [], ['allocated bytes', 'open descriptors', 'getcwd()'])
p('C25', 'Instances are independent and conversions deterministic',
  'The result of converting an input depends only on the conversion and the input: not on other instances existing or being used in between or, once created, at the same time by other threads (of the same or other conversions), not on what was converted earlier in the process, and not on the contents of uninitialised or recycled memory.',
  ['schedules', 'histories', 'inputs'], 'all interleavings of calls on several instances of the same or different conversions, all inputs',
  'Tests use one instance at a time and never compare runs.',
  [LIB, 'modules/from', 'modules/inter', 'modules/to'], [('all state hangs off the instance', 'struct bsdconv_instance in src/bsdconv.h, codec priv')], [], ['bsdconv() output', 'counters'])
p('C26', 'Layout stages undo each other and keep the text',
  'Moving white space aside and putting it back gives the original text, padding ambiguous-width characters adds one no-break space after each of them and nothing else, and unpadding gives the original text, re-joining double-byte characters split by terminal control sequences keeps every byte of the text and every control sequence, and separating terminal control sequences from text loses and invents nothing.',
  ['inputs'], 'all texts mixing white space, ambiguous-width characters, double-byte characters and control sequences, complete or truncated',
  'One example or none per stage in the tests.',
  ['modules/inter/WHITESPACE-DERAIL.c', 'modules/inter/WHITESPACE-RERAIL.c', 'modules/inter/AMBIGUOUS-PAD.c', 'modules/inter/AMBIGUOUS-UNPAD.c', 'modules/inter/BIG5-DEFRAG.c', 'modules/from/ANSI-CONTROL.c'],
  [('stage callbacks', 'modules/inter/*.c, modules/from/ANSI-CONTROL.c')], [], ['bsdconv() output'])
p('C27', 'Logs and trained scores record exactly what passes them',
  'A log codec, for input or output, appends one line per byte or cell that reaches it, in order, holding exactly its bytes in hexadecimal, and lets nothing through. Training raises the score of each character that passes by one, up to three, at the place of its code point in the score file (the one named by the environment, the one in the home directory, or one attached by the program) and lists each character first seen to the attached list, and scoring with the trained scores adds exactly the values stored; both leave the text unchanged. What is recorded is the same for any number of calls, uses and instances; a log or score file that cannot be opened rejects the conversion, and nothing else is written.',
  ['histories', 'inputs', 'configurations'], 'all cells and texts, all earlier contents of the files, all sequences of instances that log, train and score over the same files',
  'No test uses the log or training stages.',
  ['modules/inter/SCORE-TRAIN.c', 'modules/inter/SCORE.c', 'modules/from/BSDCONV-LOG.c', 'modules/to/BSDCONV-LOG.c', 'modules/to/BSDCONV-OUTPUT.c'],
  [('training and its list', 'modules/inter/SCORE-TRAIN.c'), ('log lines', 'modules/from/BSDCONV-LOG.c, modules/to/BSDCONV-LOG.c')], [('score file', 'one byte per code point', 'modules/inter/SCORE-TRAIN.c')], ['file contents', 'bsdconv() output', 'counters'])
p('C28', 'Running out of descriptors is reported and costs nothing but the call',
  'When the process runs out of file descriptors while a conversion is created, an alias solved, modules are looked up or listed, or a filter or scorer loaded, the call either does exactly what it does with enough descriptors or reports its failure (no instance, an error and a message; no alias; not there; a list of names that do exist). It never crashes, keeps no descriptor, memory, mapping or working directory, and leaves instances created before converting as they would have, which need no descriptor for it; once descriptors are free again, the same call works as always.',
  ['fault_sequences', 'histories', 'inputs'], 'all conversions and names, every number of descriptors left, sequences of such calls beside a living instance',
  'No test runs short of descriptors.',
  [LIB, 'src/libbsdconv_module.c', 'src/libbsdconv_filter.c', 'src/libbsdconv_scorer.c'],
  [('loading of tables and programs', 'loadcodec() in src/libbsdconv.c'), ('undoing a half-made instance', 'bsdconv_create() in src/libbsdconv.c'), ('inner conversions of codecs', 'modules/inter/TRIM-WIDTH.c, modules/inter/_NFC.c, modules/inter/ALIAS-FROM.c')], [], ['return values', 'errno and message', 'bsdconv() output', 'descriptors, mappings, allocated memory'])
p('C29', 'What a conversion occupies does not grow with what it has converted',
  'An instance may be used for as long as its owner likes: converting the same input again and again, as one endless stream, from a new start each time, or given up and started again inside of it, does not make it allocate more and more. What has been given out, and what has been decided, is not kept; cells that are passed on to a second instance, or taken over from an instance inside of a codec, are used again. Only what is still undecided (an unfinished cell, a string that goes on, white space that nothing puts back) is kept, and each instance keeps its own.',
  ['histories', 'inputs', 'configurations'], 'all conversions with all codecs, any input repeated any number of times, all three ways of using an instance, output to buffers, to nowhere and to a second instance',
  'No test converts more than a few characters or looks at what is allocated meanwhile.',
  [LIB, 'modules/inter/_NFC.c', 'modules/inter/TRIM-WIDTH.c', 'src/bsdconv.h'],
  [('pool of cells', 'DATA_MALLOC, DATUM_FREE, DATA_FREE and LISTFREE in src/bsdconv.h'), ('release of what is decided', 'bsdconv() in src/libbsdconv.c'), ('instances inside of codecs', 'modules/inter/TRIM-WIDTH.c, modules/inter/_NFC.c, modules/inter/ALIAS-FROM.c')], [], ['allocated memory'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
