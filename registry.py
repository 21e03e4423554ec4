"""Which harness and which library sources decide which property, and how they are compiled."""

W = ['-Wno-everything']
COMMON = ['-std=c++20', '-g1', '-fPIC', '-pthread', '-I@REPO@', '-I@ROOT@/lib', '-w', '-Wno-psabi', '-U_FORTIFY_SOURCE', '-DNDEBUG_VERIF']
SAN = ['-fsanitize=address', '-fsanitize=bounds,null,pointer-overflow,return,unreachable,vla-bound', '-fno-sanitize-recover=bounds,null,return,unreachable,vla-bound', '-D_GLIBCXX_ASSERTIONS', '-fno-omit-frame-pointer']

FLAVOURS = {
    # sequential enumeration, with AddressSanitizer and bounds checks as memory oracle
    'seq': dict(cc=['g++', '-O1'] + COMMON + SAN, rt=['mc_enum.cpp'], ld=['-fsanitize=address,undefined', '-pthread']),
    # sequential enumeration without sanitizers (value properties of header-only code, big spaces)
    'fast': dict(cc=['g++', '-O1'] + COMMON + ['-D_GLIBCXX_ASSERTIONS'], rt=['mc_enum.cpp'], ld=['-pthread']),
    # controlled scheduling of real threads: instrumented code, own run time (see lib/mcsched.cpp)
    'sched': dict(cc=['g++', '-O1', '-fsanitize=thread', '-fno-omit-frame-pointer', '-fno-pie', '-D_GLIBCXX_ASSERTIONS'] + [x for x in COMMON if x != '-fPIC'], rt=['mcsched.cpp'],
                  rt_cc=['g++', '-O2', '-fno-pie', '-fno-threadsafe-statics'] + [x for x in COMMON if x != '-fPIC'], ld=['-no-pie', '-rdynamic', '-pthread', '-ldl']),
}

CHECKS = {}


def check(pid, level, technique, rule, parts, note, assumptions=()):
    CHECKS[pid] = dict(level=level, technique=technique, rule=rule, parts=parts, note=note, assumptions=list(assumptions))


ENUM = 'bounded exhaustive exploration of the real code (every case of a finite input/operation space, compared with an independent reference model)'

check('C20', 'exploration', ENUM,
      'every character value (all 8/16 bit values, ASCII and aliased values for 32 bit types), every text/pattern/replacement up to a length over a small alphabet, for all five character types; non-trivial: the operation had something to do (a delimiter, an occurrence, a wildcard, blanks)',
      [dict(harness=['c20_strings.cpp'], flavour='fast')],
      'Complete within the stated lengths and alphabets; the reference models are independent definitions in the harness. Longer texts rest on the small-scope argument.')

check('C21', 'exploration', ENUM,
      'every text up to a length over digits, signs, point, exponent and junk, every value of -70000..70000, every limit of every integer type +-3 with prefixes and suffixes, decimal mantissas times all exponents; non-trivial: the text is a number of the type (or the lexer had a digit to read)',
      [dict(harness=['c21_numbers.cpp'], flavour='fast')],
      'Complete within the stated spaces. Reference: 128-bit integer arithmetic and strtof/strtod/strtold of the C library; infinity and NaN spellings and results below the smallest normal number are not asserted.',
      ['the C library rounds decimal text correctly'])

check('C12', 'exploration', ENUM,
      'all short texts over the significant characters, all token sequences and group/separator patterns up to nine groups, all zero/non-zero group patterns and byte values, all boundary numbers in every part; non-trivial: the text denotes an address',
      [dict(harness=['c12_addresses.cpp'], flavour='seq')],
      'Complete within the stated spaces. Reference: an independent reader, itself cross-checked against inet_pton. Hexadecimal groups written with more than four digits but a 16 bit value are not asserted.')

CODERS = ['coders/.*', 'types/.*', 'config/.*', 'logger/.*', 'task/.*', 'parser/.*', 'path/.*', 'assert/.*', 'system/system.cpp', 'system/nix/system_impl.cpp']

check('C24', 'exploration', ENUM,
      'all inputs of length 0..2 (thinned second byte in quick), every byte value in every position of lengths 3..7, every text up to length 7 over {A,/,=,-,0x80}, every byte value substituted and inserted in valid texts, all lengths around the internal buffer boundaries with every tail and damage; non-trivial: decodable text or non-empty input',
      [dict(harness=['c24_base64.cpp'], flavour='seq', fly=CODERS)],
      'Complete within the stated spaces; reference encoder and acceptor are independent. Memory errors are caught by AddressSanitizer and bounds checks.')
check('C25', 'exploration', ENUM,
      'all short inputs over three symbols, all non-decreasing symbol-count sequences over {1,2,3,5,8,21,100}, fibonacci/geometric/uniform/linear/dominant shapes for every alphabet size, all chunk-kind sequences with sizes around the chunk boundary, times code-length limits 0..16 and 255; non-trivial: more than one byte',
      [dict(harness=['c25_huffman.cpp', ], flavour='seq', fly=CODERS)],
      'Complete within the stated spaces. Encoding may be refused only for configurations which cannot represent the input.')
check('C26', 'fault_enumeration', ENUM,
      'every truncation point and every single-byte substitution of 27 encodings, all pairs of substitutions over boundary values, all headers with boundary code-length counts, all short strings over boundary bytes; non-trivial: reaches behind the fixed header',
      [dict(harness=['c26_huffman_robust.cpp'], flavour='seq', fly=CODERS)],
      'Memory safety decided by AddressSanitizer and bounds checks on every explored stream, termination by a processor-time limit.')
check('C27', 'model_checking', 'explicit-state exploration of the real code against a list-of-bits model: every short write/read sequence at every alignment',
      'every alignment 0..63 times pairs of widths 1..64 (thinned in quick) times value kinds, all sequences of boundary widths up to a depth with eight reading patterns, all stream lengths times pairs of read widths; non-trivial: crosses a word boundary or has several writes',
      [dict(harness=['c27_bits.cpp'], flavour='seq', fly=['types/bit_stream/.*'])],
      'The model is replayed against the implementation step by step; states are distinct (alignment, width, width) triples. Write widths of zero are outside the domain.')

check('C22', 'exploration', ENUM,
      'the full product of fill/alignment, sign, alternate form, zero padding, width, precision, locale flag and presentation over boundary values of every integer, floating point, boolean, character, string and pointer kind, for every character type of the format string, with widths and precisions written as numbers, as nested fields and as nested fields with positions; all sequences of literal, escape and field pieces up to a depth; all position sequences; all pairs of boundary code points transcoded between all encodings; non-trivial: at least two options interact (or the text has several fields)',
      [dict(harness=['c22_main.cpp', 'c22_char.cpp', 'c22_wchar_t.cpp', 'c22_char8_t.cpp', 'c22_char16_t.cpp', 'c22_char32_t.cpp'], flavour='fast', fly=[], flags=['-DFLY_COMPILER_DISABLE_CONSTEVAL'])],
      'Complete within the stated product. Reference: integer digits by hand, floating point through printf of the C library (exact decimal conversion), padding rules from the documentation. Widths and precisions of strings are asserted for texts with one unit per character only; hexadecimal floating point for normal float and double values.',
      ['the C library prints floating point correctly'])

check('C23', 'exploration', ENUM,
      'all strings up to a length over the structural characters, all fields up to a length over every option character, every combination of options in the documented order with every kind of position, all 255 single characters in ten contexts, all sequences of up to four pieces (positions, nested fields, escapes), numbers beyond every integer type, 63/64/65/200 fields; for thirteen argument lists; non-trivial: the string has a replacement field',
      [dict(harness=['c23_format_strings.cpp'], flavour='seq', fly=[], flags=['-DFLY_COMPILER_DISABLE_CONSTEVAL'])],
      'Complete within the stated lengths and alphabets. The recogniser is written from the documented grammar; at most 64 fields are supported. Format strings lie in exactly sized heap blocks under AddressSanitizer; the constructor, constexpr here, is the one evaluated at compile time elsewhere.')

SCHED = 'systematic concurrency exploration of the real code: all schedules up to a deviation bound under a controlled scheduler with virtual time, state caching by happens-before hash, race/deadlock/use-after-free monitors'
check('C01', 'model_checking', SCHED,
      'per program (producers/consumers/timed poppers/observers of queue and stack): every schedule with at most d deviations (preemptions, non-default wake-ups, spurious wake-ups, early time advances), d stated per program; each history is checked for linearizability against a FIFO/LIFO model; a schedule is non-trivial if it has at least one deviation',
      [dict(harness=['c01_containers.cpp'], flavour='sched', fly=[])],
      'Complete within the stated deviation bound under sequential consistency for two to four threads; races are decided by vector clocks on every explored schedule.',
      ['sequentially consistent memory between synchronisation operations (sound when no race is reported)'])

TASKS = ['task/.*']
check('C02', 'model_checking', SCHED,
      'per program (posters, nested posts, held tasks, several sequences, one to three workers): every schedule with at most d deviations, d stated per program; non-trivial: at least one deviation',
      [dict(harness=['c02_sequenced.cpp'], flavour='sched', fly=TASKS)],
      'Complete within the stated deviation bound; mutual exclusion, FIFO and exactly-once are checked on the recorded history, visibility by race detection on plain data shared by the tasks.',
      ['sequentially consistent memory between synchronisation operations (sound when no race is reported)'])

SC = ['sequentially consistent memory between synchronisation operations (sound when no race is reported)']
check('C03', 'model_checking', SCHED,
      'per program (posting, nesting, dropped runners, stop at any moment, posts racing with stop, restart, manager gone, captures whose destructor posts; zero to three workers): every schedule with at most d deviations, d stated per program; non-trivial: at least one deviation',
      [dict(harness=['c03_manager.cpp'], flavour='sched', fly=TASKS)],
      'Complete within the stated deviation bound; deadlock and lost wake-ups are detected by the scheduler, use after free by the allocator.', SC)

check('C04', 'model_checking', SCHED,
      'per program (single delays, all pairs and selected longer lists of delays, posts from threads and tasks, polling, wall clock jumps, dropped runners, restart; one and two workers): every schedule with at most d deviations under virtual time, d stated per program; non-trivial: at least one deviation',
      [dict(harness=['c04_delayed.cpp'], flavour='sched', fly=TASKS)],
      'Complete within the stated deviation bound; time is virtual, so "never early" is decided exactly.', SC)
check('C05', 'model_checking', SCHED,
      'plain/void reply/value reply times unbound/owner alive/gone before/racing/gone in between/runner gone times plain/delayed times parallel/sequenced times one/two workers: every schedule with at most d deviations, d stated per program; non-trivial: at least one deviation',
      [dict(harness=['c05_replies.cpp'], flavour='sched', fly=TASKS)],
      'Complete within the stated deviation bound; use of a dead owner is detected by the never-reusing allocator.', SC)

LOGGER = ['logger/.*', 'coders/.*', 'types/.*', 'config/.*', 'task/.*', 'parser/.*', 'path/.*', 'assert/.*', 'system/system.cpp', 'system/nix/system_impl.cpp']
check('C08', 'model_checking', SCHED,
      'per program (synchronous/asynchronous with one or two workers, one or two logging threads, sink failing at every record, long messages, dropped loggers, and creating/refusing/looking up/dropping names from up to three threads): every schedule with at most d deviations, d stated per program; non-trivial: at least one deviation',
      [dict(harness=['c08_logger.cpp'], flavour='sched', fly=LOGGER)],
      'Complete within the stated deviation bound; the records at a recording sink are compared with what was logged.', SC)

PATHS = LOGGER
PARSERS = LOGGER
check('C06', 'model_checking', SCHED + ' over a virtual inotify (enumerated event batching, refusals and interruptions)',
      'all sequences of registrations, removals, changes and waits up to a depth (three or four operations between a fixed beginning and end), all spreads of events over reads, and per racing program every schedule with at most d deviations; non-trivial: a choice or deviation was taken',
      [dict(harness=['c06_monitor.cpp'], flavour='sched', fly=PATHS)],
      'Complete within the stated depth and deviation bounds over the virtual kernel interface; delivery is decided by matching the recorded calls with the changes.',
      SC + ['the virtual inotify behaves like the kernel (wd allocation, coalescing of identical pending events, IN_IGNORED, padding)'])
check('C07', 'model_checking', SCHED + ' over a virtual file and inotify (enumerated content histories)',
      'all histories of eight contents (good, bad, absent, wrong shape; INI and JSON) and of configurations created, dropped, pruned up to a depth, and per racing program every schedule with at most d deviations; non-trivial: a choice or deviation was taken',
      [dict(harness=['c07_config.cpp'], flavour='sched', fly=PATHS)],
      'Complete within the stated depth and deviation bounds; values are compared with a table per content. Content present before the manager starts is not asserted (the library only follows changes).',
      SC + ['the virtual inotify behaves like the kernel (wd allocation, coalescing of identical pending events, IN_IGNORED, padding)'])

check('C18', 'exploration', ENUM,
      'every code point in every encoding (conversions to all five character types), every string of one and two bytes, all strings of three and four bytes over the byte-class boundaries, every 16 bit unit, all pairs and triples over unit-class boundaries, all truncations; non-trivial: well-formed text',
      [dict(harness=['c18_unicode.cpp'], flavour='seq')],
      'Complete within the stated spaces; the reference is an independent transcription of the well-formedness tables. Reads beyond the end are caught by AddressSanitizer on buffers of exact size.')
check('C19', 'exploration', ENUM,
      'every code point in both escape styles and all character types, all texts up to a length over the significant characters, all digit patterns of both escape forms with every kind of successor and every truncation; non-trivial: contains an escape',
      [dict(harness=['c19_escapes.cpp'], flavour='seq')],
      'Complete within the stated spaces; the reference reads escapes by an independent definition.')

check('C13', 'exploration', ENUM,
      'all token sequences and byte strings up to a length in several frames, all number and string texts over their alphabets, every escape unit, all single-byte edits, truncations, duplicated and removed stretches of fifteen documents, for the eight feature combinations; non-trivial: a valid text',
      [dict(harness=['c13_json_parse.cpp'], flavour='seq', fly=PARSERS)],
      'Complete within the stated spaces; the reference is an independent grammar that also yields the value. Nesting is checked to depth 500 (the parser is recursive); numbers beyond the range of their type may be refused.')
check('C14', 'exploration', ENUM,
      'every code point as string and key, all texts up to a length over boundary code points, all integers around powers of two and ten, decimals of up to six digits over exponents -40..40, all trees up to a size over representative leaves and keys; non-trivial: an escape, a decimal or a container',
      [dict(harness=['c14_json_round.cpp'], flavour='seq', fly=PARSERS)],
      'Complete within the stated spaces; the serialised text is judged by an independent grammar before the library reads it back. Floating-point values are the long doubles nearest to decimals of at most six digits (the library prints six).')
check('C15', 'model_checking', ENUM + ' against a reference model of two values',
      'all sequences of one and two operations (accessors, modifiers, lookups with good, bad and foreign positions, aliasing arguments) from pairs of twelve beginnings of every kind, all sequences of three over a smaller set; non-trivial: the last operation applies',
      [dict(harness=['c15_json_ops.cpp'], flavour='seq', fly=PARSERS)],
      'Complete within the stated depths; results, exceptions and the contents of both values are compared after every step. A range is given in order, as for the standard containers.')
check('C16', 'model_checking', ENUM + ' against positions as the reference model',
      'every operation (with offsets beyond both ends and the extreme ones) from every position of arrays and objects of every size up to three or five in the four iterator kinds, all pairs of iterators of the same value, of others, of a copy, and empty ones, and all sequences of moves up to a depth; non-trivial: the operation applies',
      [dict(harness=['c16_json_iter.cpp'], flavour='seq', fly=PARSERS)],
      'Complete within the stated sizes; elements are recognised by address. Using an iterator after the value changed is outside the property.')
check('C17', 'exploration', ENUM,
      'all pairs and triples of a table of seventy-six values of every kind (equality, ordering, hashing, copies, moves, swaps) and every conversion target for every value, texts as numbers at every boundary; non-trivial: every pair and conversion',
      [dict(harness=['c17_json_laws.cpp'], flavour='seq', fly=PARSERS)],
      'Complete over the table. Floating-point values closer than the library\'s tolerance but not equal, NaN, and conversions of values the target cannot represent are not claimed.')
check('C28', 'exploration', ENUM,
     'all texts and all lines, values, names, headers and escapes up to a length in several frames, all pairs of short lines, all sequences of three of thirty-five kinds of line and of seven of six kinds, every byte inserted or replaced at every place, every stretch removed, every pair of bytes as value, name, section, prefix and suffix, long lines; non-trivial: a valid text',
     [dict(harness=['c28_ini.cpp'], flavour='seq', fly=PARSERS)],
     'Complete within the stated spaces; the reference is an independent reading that also yields the value. A value in both kinds of quotes loses both; names and values are JSON string contents (escapes are interpreted, unescaped double quotes inside are refused), a line that only ends with ] is a bad header.')
check('C29', 'exploration', ENUM,
     'all files up to a length over the bytes of the marks, every prefix of every mark before such files, six documents in six encodings truncated at every byte and with every byte (all 256 values) and every unit (boundary values) replaced, inserted or removed, every mark before every document, all short sequences of boundary units, every code point in every encoding and string type, sizes around the stream buffer, eleven paths that hold no document; non-trivial: a valid document',
     [dict(harness=['c29_encodings.cpp'], flavour='seq', fly=PARSERS)],
     'Complete within the stated spaces; an independent decoder and the independent grammars of C13 and C28 give the verdict and the value. The bytes FF FE 00 00 are the UTF-32 mark. Ill-formed UTF-8 inside a comment, which no value shows, is not asserted.')
check('C30', 'model_checking', SCHED + ' over virtual counters (enumerated histories of snapshots and failures)',
     'all sequences of three (thorough: four) snapshots of the processor counters out of thirteen, of nine process times on two processor counts, of two (three) of forty-eight memory snapshots, all failure combinations of the four sources in three (four) polls, every snapshot at start, and every schedule with at most d deviations of a reader racing a poll; non-trivial: a choice or deviation was taken',
     [dict(harness=['c30_system.cpp'], flavour='sched', fly=LOGGER + ['system/system_monitor.cpp', 'system/system_config.cpp', 'system/nix/system_monitor_impl.cpp'])],
     'Complete within the stated depths over the virtual counters; the figures are compared after every poll with a model of the two latest good samples. Counters stay below 2^61; a sample that goes back only moves the base.', SC)

SOCKETS = LOGGER + ['net/.*']
check('C11', 'model_checking', ENUM + ' over a virtual socket layer, against a model of descriptor ownership',
     'all outcomes of every send, receive, connect, bind, listen, accept, mode and name call (any part accepted, nothing, would block, interrupted, broken) for messages up to five (six) bytes and packet sizes up to four, and all sequences of four (five) operations over two sockets (creation, transfers, moves, self-moves, closing, destruction) of each of the six socket types with every outcome of every call; non-trivial: an outcome was chosen',
     [dict(harness=['c11_sockets.cpp'], flavour='seq', fly=SOCKETS)],
     'Complete within the stated depths; results, states and the descriptors open at the operating system are compared with the model after every operation. A socket that was moved from is only closed, assigned or destroyed.')
check('C10', 'model_checking', SCHED + ' over a virtual socket layer (enumerated outcomes of every call and readiness orders)',
     'per program (one to three operations on one socket, several sockets, callbacks that issue, close or drop, descriptors around FD_SETSIZE): all outcomes of every call (any part, would block, broken), all sets of ready descriptors, time-outs and interruptions of the poll call up to one or two each; and for racing programs every schedule with at most d deviations; non-trivial: a choice or deviation was taken',
     [dict(harness=['c10_async_sockets.cpp'], flavour='sched', fly=SOCKETS)],
     'Complete within the stated bounds over the virtual socket layer; callbacks, reported counts and states are compared with the bytes the system was handed and delivered. Operations pending when their socket closes may be dropped.',
     SC + ['the virtual socket layer behaves like the kernel (a closed descriptor makes the poll call fail)'])

check('C09', 'fault_enumeration', ENUM + ' over the real file system in a scratch directory (enumerated failures of every call, every crash point)',
     'all sequences of four (five) records of three (four) lengths for every size limit around one, two and three records, all sequences of configuration changes and records up to four (five), with and without compression, the logger being the default logger or not; long records and several coder chunks; and each file-system call of several histories failing in every way (not opened, part written, interrupted, no space, read error, error at close, no status, not removed), single failures and pairs (thorough: triples); the directory is examined at every point where the process could be killed; non-trivial: a new file was started or a call failed',
     [dict(harness=['c09_files.cpp'], flavour='seq', fly=CODERS)],
     'Complete within the stated depths; the process being killed loses nothing the system was handed (power failures are not modelled: the library does not synchronise files). A record whose own write fails may be lost or torn at the very end, and nothing is accepted after it.')

check('C31', 'model_checking', 'stateless exploration of the real code at instruction granularity: set_signal_handler() is single-stepped and every signal is delivered at every instruction boundary',
      'all sequences of handlers (none, one word, two words, heap-allocated, plain function) up to a length; in the last call each of the eight signals at every instruction boundary on the calling thread, and one signal on another thread which is held inside of its handler until the call is over; non-trivial: a handler was called',
      [dict(harness=['c31_signals.cpp'], flavour='fast', fly=['system/system.cpp', 'system/nix/system_impl.cpp', 'types/.*'])],
      'Complete within the stated sequences. A signal is delivered by calling what sigaction() reports to be installed at that boundary, which is what the kernel does; blocked signals count as delivered later.')
check('C32', 'exploration', ENUM + ', read back by a model of a terminal',
      'every modifier (all styles, 256 colours in two planes, 256 distances in four directions), all pairs and triples of twenty-six modifiers, in every formatting state of the stream of a table (bases, widths, fills, grouping locale, failed), on standard output, standard error and another stream, used in one expression, kept, streamed twice and on two streams; all single records and all sequences of up to three (four) records of a console logger; non-trivial: anything was styled',
      [dict(harness=['c32_console.cpp'], flavour='seq', fly=LOGGER)],
      'Complete within the stated spaces; what was written is interpreted by a terminal model, so equivalent escape sequences are equal. Nested stylers (the inner one resets the outer one) are not asserted.')
check('C33', 'exploration', ENUM,
      'assertions that hold and fail, with six messages, zero to twelve captures of all pairs of eight kinds of value, five states of standard error, handlers that return and throw; statements in every position, nested assertions, the real macro in a child process, and assertions compiled away; non-trivial: an assertion failed',
      [dict(harness=['c33_assert.cpp', 'c33_disabled.cpp'], flavour='seq', fly=LOGGER)],
      'Complete within the stated table. The lines of a report are compared, blank lines and styling are not.')
check('C34', 'exploration', ENUM + ' (literals: every one is given to the compiler)',
      'for each of nine literal types all values around every power of two and ten and every limit (8 bits: all up to 600) in four bases, both letter cases, with leading zeros and separators, and texts that are no integers: those that fit are compared in value and type, the others must be refused one by one; byte swapping of all 8, 16 and 32 bit values and of all pairs of bytes at all pairs of places in 64 bits; non-trivial: every case',
      [dict(harness=['c34_numeric.cpp'], flavour='fast', flags=['-DREPO_DIR="@REPO@"', '-O2'])],
      'Complete within the stated spaces, with the compiler at hand.')
check('C35', 'fault_enumeration', ENUM + ' over a file system that fails (every call fails in every way)',
      'parsing JSON and INI files in six encodings and of sizes around the buffers of the stream, encoding and decoding files with Base64 and Huffman coders of several chunk sizes: each file-system call fails in every way (not opened, read or written in part, interrupted, error once or for good, no space, cannot seek, error at close with and without loss, no status), single failures and pairs (thorough: triples of short files); bit streams over devices that fail after every number of bytes; non-trivial: something failed',
      [dict(harness=['c35_files.cpp'], flavour='seq', fly=CODERS)],
      'Complete within the stated files and numbers of failures. A file that another process shortens while it is read is not modelled.')

