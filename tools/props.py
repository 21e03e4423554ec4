#!/usr/bin/env python3
"""Source of properties.jsonl (kept as python for easy editing)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m) for n,m in state]
    if observe: d['anchors']['observe_at']=observe
    P.append(d)

# ---------------------------------------------------------------- concurrency
p("C01","Concurrent queue and stack hand every item over exactly once",
  "Whatever way producer and consumer threads interleave, every item pushed to a concurrent queue or stack is popped exactly once, a queue pops in push order (first in, first out) and a stack pops the most recently pushed item, as if each operation happened at one instant. A pop that waits returns as soon as an item is available for it and never waits for ever while an item is in the container; a timed pop reports failure only if its time ran out with no item to take, and never takes an item it does not return. Emptiness and size always describe some moment of that order, and no data race occurs.",
  ["schedules","programs"],"all interleavings (up to a preemption bound) of small programs of push/pop/timed pop/size/empty over 2-3 threads, with the time-out of a timed pop explored as a nondeterministic event",
  "The tests run free threads once; the racy windows (missed wake-up between test and wait, notify before wait, time-out racing push) need specific interleavings that free running essentially never hits.",
  ["fly/types/concurrency/detail/concurrent_container.hpp","fly/types/concurrency/concurrent_queue.hpp","fly/types/concurrency/concurrent_stack.hpp"],
  [("mutex protected container with push condition","fly/types/concurrency/detail/concurrent_container.hpp"),("queue/stack discipline","fly/types/concurrency/concurrent_queue.hpp push_internal/pop_internal")])
p("C02","Sequenced runner: mutual exclusion, FIFO, nothing lost or repeated",
  "Tasks posted to one sequenced task runner never run at the same time as each other, run in the order in which they were posted, and each runs exactly once while the task manager keeps running; everything one task of the sequence did is visible to the next without further synchronisation. This holds for any number of worker threads, for posts from several threads, and for posts made from inside a running task of the same sequence. Posting never blocks on a running task.",
  ["schedules","programs","configurations"],"all interleavings up to a preemption bound of posting programs from 1-2 client threads and from tasks, for 1 and 2 worker threads",
  "Tests observe a handful of natural schedules; losing or overlapping a task needs a post to land exactly between a task finishing and the runner deciding whether another is pending.",
  ["fly/task/task_runner.cpp","fly/task/task_runner.hpp","fly/task/task_manager.cpp"],
  [("pending queue and running flag","fly/task/task_runner.cpp SequencedTaskRunner::maybe_post_task"),("worker loop","fly/task/task_manager.cpp TaskManager::worker_thread")])
p("C03","Task manager start/stop and parallel runner: exactly once, clean stop",
  "While the manager runs, every task posted to a parallel task runner that stays alive is executed exactly once on a worker thread; a task whose runner is gone before it starts is dropped. Stopping the manager always terminates, reports true exactly once per start, and after it returns no task is executing and none starts; a post made at any time, including after the stop, neither blocks nor crashes, and a post whose manager is gone reports false.",
  ["schedules","programs","configurations"],"all interleavings up to a preemption bound of clients posting while the owner stops the manager, with 1-2 workers",
  "Stop racing with posts, with running tasks and with timed waits is a schedule property; the tests stop an idle manager.",
  ["fly/task/task_manager.cpp","fly/task/task_runner.cpp"],
  [("keep-running flag and joins","fly/task/task_manager.cpp start/stop"),("worker loop","fly/task/task_manager.cpp worker_thread")])
p("C04","Delayed tasks never run early and run exactly once",
  "A task posted with a delay is never handed out before its delay has elapsed on the monotonic clock, and is run exactly once, under its runner's ordering rules, some time after that while the manager keeps running and its runner is alive. Delayed tasks with different delays do not lose, duplicate or run each other early, and a due task is not held back by tasks which are not yet due, including when further delayed tasks are posted from other threads or from a task while the timer is handing tasks out.",
  ["schedules","programs","histories"],"all interleavings (bounded preemptions) and all explored clock advances for programs posting 1-3 delayed tasks of various delays from clients and tasks",
  "Real-time tests can only check that a task ran after roughly the right wall time; the races between the timer scan and concurrent posts are not sampled.",
  ["fly/task/task_manager.cpp","fly/task/task_runner.cpp"],
  [("timer thread scan","fly/task/task_manager.cpp timer_thread"),("delayed list","fly/task/task_manager.cpp post_task_with_delay")])
p("C05","Replies and owner-bound tasks: delivered after, with the result, or dropped",
  "A reply runs exactly once, after its task completed, on the same task runner and with exactly the value the task returned. A task or reply bound to an owner runs only while that owner is alive and keeps the owner alive for its duration; if the owner is gone when the task would start, neither task nor reply runs, and if the owner goes away between the two only the reply is dropped. The same holds for the delayed forms, and the runner carries on with later tasks after any such drop.",
  ["schedules","programs"],"all interleavings up to a preemption bound of an owner being released by one thread while tasks/replies (immediate and delayed) bound to it are executed",
  "The release of the owner has to fall in specific windows around task start and reply start; tests release it only at quiescent points.",
  ["fly/task/task_runner.hpp","fly/task/task_runner.cpp"],
  [("task wrapping","fly/task/task_runner.hpp wrap_task overloads")])
p("C06","Path monitor delivers each change to exactly the right callback",
  "For every history of file system events, registrations and removals, each event on a monitored directory is reported once, in order, with the right path and kind, to the file's own callback if one is registered, otherwise to the directory's callback if there is one, otherwise to nobody. A callback is never invoked for events handled after its removal returned; removing the last file callback of a directory without its own callback stops watching that directory, re-adding a path replaces its callback, and monitors never disturb each other's watches. Registration calls report success exactly when the target is now registered (or was registered, for removals).",
  ["histories","schedules","fault_sequences"],"all operation/event sequences up to a depth over 1-2 directories and 2 files, with every batching of kernel events per read, and interleavings of client calls with the polling task, over a simulated kernel notification interface",
  "Tests use the real kernel with one event at a time and fixed timing; batching, unknown watch ids, removal races and descriptor reuse are never exercised.",
  ["fly/path/path_monitor.cpp","fly/path/nix/path_monitor_impl.cpp"],
  [("handler lookup and precedence","fly/path/nix/path_monitor_impl.cpp handle_event"),("registration map","fly/path/path_monitor.cpp")])
p("C07","Configuration values follow the file and never get lost or mixed",
  "After any history of changes to the configuration file and of configurations being created and dropped, once the changes have been processed every live configuration reports for each name the value in the current file converted to the requested type, and the caller's default if it is absent or not convertible. Requests for one configuration type share one live object; deleting the file, or content that does not parse, makes configurations fall back to defaults and later good content is picked up again. Start-up, updates and destruction never deadlock or crash whatever thread drops the last reference, and readers concurrent with an update see the old or the new values.",
  ["histories","schedules","inputs"],"all histories of file contents (good/bad/absent, both formats) up to a depth with live/dropped configurations; all interleavings up to a preemption bound of update, reader and destruction",
  "Tests change a file once or twice with long sleeps; destruction racing with an update and parse-failure recovery sequences are not exercised.",
  ["fly/config/config_manager.cpp","fly/config/config_manager.hpp","fly/config/config.cpp","fly/config/config.hpp"],
  [("reload","fly/config/config_manager.cpp update_config"),("lookup and conversion","fly/config/config.hpp get_value")])
p("C08","Asynchronous and synchronous loggers keep every record in order",
  "Every message logged to a logger that stays alive until its turn comes reaches its sink exactly once, with its level, message (truncated only to the configured maximum size) and trace intact, with indices counting up from zero in the order the sink sees them, and the messages of one thread in the order that thread logged them; the sink is never entered by two threads of an asynchronous logger at once. Once the sink reports a failure no later record is handed to it. Loggers can be looked up by name exactly while they are alive: a second logger of the same name is refused and leaves the first one untouched.",
  ["schedules","histories","inputs"],"all interleavings up to a preemption bound of 1-2 logging threads with an asynchronous logger, its destruction and sink failure; all create/drop/lookup histories up to a depth",
  "Tests log from one thread and wait; they never interleave producers, failures and destruction, and never look up after a refused duplicate.",
  ["fly/logger/logger.cpp","fly/logger/logger.hpp","fly/logger/detail/registry.cpp","fly/logger/log.cpp"],
  [("posting to sequence","fly/logger/logger.cpp Logger::log"),("name registry","fly/logger/detail/registry.cpp")])
p("C09","File logging loses nothing across rotation, compression and failures",
  "For every sequence of messages and every configured size limit, the log files of a file logger, taken in creation order and decompressed where compressed, contain exactly the accepted records, in order, each record complete in one file. A new file is started exactly when the current one has grown beyond the configured size; an uncompressed file is removed only after its compressed replacement decodes to the same content, so if compression or file creation fails nothing already written is lost.",
  ["histories","fault_sequences","configurations"],"all sequences of message sizes up to a depth for a set of size limits, with compression on/off, and failure of every single file-system call along the way",
  "Tests exercise one rotation with uniform messages and one failing open; record/limit alignment and failures of each individual call are not covered.",
  ["fly/logger/detail/file_sink.cpp","fly/logger/log.cpp","fly/coders/coder.cpp"],
  [("rotation","fly/logger/detail/file_sink.cpp stream/create_log_file")])
# ---------------------------------------------------------------- network
p("C10","Asynchronous sockets transfer the byte stream intact and complete once",
  "Whatever the operating system does on each call (accepts part of the data, reports that it would block, fails, delivers any prefix of pending data, times out or interrupts the poll call, hands out descriptors beyond FD_SETSIZE), each asynchronous send, receive, connect and accept on a socket that stays open completes by invoking its callback exactly once, on the socket service's sequence and never concurrently with another callback; if the socket is closed first, its pending operations complete at most once. Operations in one direction of a socket complete in the order they were issued, also when an earlier one had to wait. A completed send reports the number of bytes actually handed over, and the bytes handed over are exactly the messages' prefixes of those lengths in order without loss or repetition; datagrams never exceed the configured packet size; a receive delivers exactly the bytes received. After a hard error the socket is closed before the callback of the operation which met it runs; without one it stays open. A connection completes as connected only if the operating system says that it was established. A connection that completes or fails at once is reported by the return value only. An operation on a closed socket is refused, and one socket failing or closing never keeps the operations of another from completing, also when operations are issued from other threads meanwhile.",
  ["fault_sequences","schedules","histories"],"all outcome sequences (full, partial, would block, error) per system call for messages of up to four (five) bytes, all readiness orders reported by the poll call, with one to three sockets and operations pending, and all schedules up to a deviation bound of threads that issue operations while others complete or fail",
  "Loopback tests see whole-message transfers and a few mocked hard failures; partial and would-block sequences are never enumerated.",
  ["fly/net/socket/tcp_socket.cpp","fly/net/socket/udp_socket.cpp","fly/net/socket/listen_socket.cpp","fly/net/socket/socket_service.cpp","fly/net/socket/socket_service.hpp","fly/net/socket/detail/nix/socket_operations.cpp"],
  [("resume after would-block","fly/net/socket/tcp_socket.cpp ready_to_send"),("polling","fly/net/socket/socket_service.cpp poll")])
p("C11","Synchronous sockets: results reflect what happened, handles never leak",
  "For every sequence of outcomes of the underlying system calls, a synchronous send returns the number of bytes handed over in order from the start of the message (datagrams of at most the packet size, to the given end point), a receive returns exactly the bytes received, connect, bind, listen and accept act on the given end point and report success exactly when the operating system succeeded. A send, receive, connect, accept or change of mode that fails closes the socket; sending nothing and receiving an empty datagram are no failures; a send that handed over part of its message before it would block leaves the socket open, one that then fails does not. A closed socket is neither open, connected, connecting nor listening. Every descriptor obtained is closed exactly once, whether by close, error, destruction, move construction or move assignment (self-assignment keeps it), and no operation is ever issued on a descriptor after it was closed.",
  ["fault_sequences","histories"],"all outcome sequences of each call of the API, and all operation sequences up to a depth over two socket objects including moves, for the six socket types, against a recording stand-in for the operating system",
  "The tests fail one call at a time with the rest succeeding; they never count descriptors over move/close/error histories.",
  ["fly/net/socket/detail/base_socket.cpp","fly/net/socket/tcp_socket.cpp","fly/net/socket/udp_socket.cpp","fly/net/socket/listen_socket.cpp","fly/net/socket/detail/nix/socket_operations.cpp"],
  [("descriptor ownership","fly/net/socket/detail/base_socket.cpp"),("send loop","fly/net/socket/detail/nix/socket_operations.cpp send/send_to")])
p("C12","IP addresses and endpoints: text and value agree exactly",
  "Formatting any IPv4 or IPv6 address or endpoint and parsing the text gives back the same value, and host/network order, array and integer views of an address agree. Parsing accepts exactly the documented notations (dotted decimal of one to four parts with the last filling the remaining bytes; colon separated groups of 16 bit hexadecimal numbers with at most one double colon standing for at least one group of zeros; address and decimal port with brackets for IPv6), yields the address an independent reading of the text yields, and rejects everything else, including numbers that do not fit.",
  ["inputs"],"all strings up to a length over a small alphabet of significant characters, all group/zero patterns, all boundary numbers in every position",
  "Tests list tens of strings; acceptance of malformed text and overflow is a universally quantified negative.",
  ["fly/net/ipv4_address.hpp","fly/net/ipv6_address.hpp","fly/net/endpoint.hpp","fly/types/string/lexer.hpp"],
  [("parsers","fly/net/ipv4_address.hpp, ipv6_address.hpp, endpoint.hpp from_string"),("number lexing","fly/types/string/lexer.hpp")])
# ---------------------------------------------------------------- json
p("C13","JSON parser accepts exactly JSON (plus enabled extensions), with the right value",
  "In strict mode the parser accepts a text if and only if it is a valid JSON document whose root is an object or array, and the value produced has exactly the structure, strings, numbers (integers exactly; out-of-range integers as floats or rejected) and literals of the text. Enabling comments, trailing commas or any root type accepts additionally exactly the texts that use those extensions, with the same value as without them. Parsing never crashes, reads out of bounds or fails to terminate, whatever the bytes.",
  ["inputs","configurations"],"all token sequences up to a length over the JSON token alphabet, and all byte strings up to a length over the significant bytes, for all 8 feature combinations, against an independent grammar",
  "The tests are a fixed conformance list in a few configurations; acceptance errors hide in combinations (comment after comma, escape at end, nested closers).",
  ["fly/parser/json_parser.cpp","fly/parser/json_parser.hpp","fly/types/json/json.cpp"],
  [("parser states","fly/parser/json_parser.cpp"),("string validation","fly/types/json/json.cpp validate_string")])
p("C14","JSON values survive serialise then parse",
  "Serialising any JSON value built from null, booleans, integers, strings of valid text, arrays and objects, and parsing the result yields an equal value of the same kinds throughout, and serialising that again yields the same text; floating-point values that are the nearest ones to a decimal of at most six significant digits round-trip to an equal value. The serialised text is always a valid JSON document in ASCII-safe escaped form, whatever characters (quotes, control characters, any Unicode code point) strings and keys contain.",
  ["inputs"],"all values up to a size over representative leaves, every Unicode code point as string and key, all integer boundary values",
  "Tests round-trip a few literals; escaping has to be right for every code point in every position, key or value.",
  ["fly/types/json/json.cpp","fly/types/json/json.hpp","fly/parser/json_parser.cpp"],
  [("serialisation","fly/types/json/json.cpp serialize/serialize_string")])
p("C15","JSON containers behave like their reference containers",
  "For every sequence of accessor and modifier operations (indexing, at, insert, push, emplace, erase, pop, resize, clear, swap, assignment, find, contains, count, size, capacity, merge) a JSON array behaves like a vector of values and a JSON object like an ordered map from string to value: same results, same contents, same iteration order, and no effect on any value not addressed. An operation that does not apply to the value's current type, an absent key or index in checked access, a foreign iterator, or a key that is not valid text raises the library's exception and leaves every value unchanged.",
  ["histories","programs"],"all operation sequences up to a depth over small arrays/objects and all applicability combinations of operation and value type",
  "Tests call each operation once on a fixed value; aliasing, state left by failed operations and sequences are not covered.",
  ["fly/types/json/json.hpp","fly/types/json/json.cpp"],
  [("modifiers","fly/types/json/json.cpp insert/erase/resize/..."),("type dispatch","fly/types/json/json.hpp")])
p("C16","JSON iterators walk exactly the elements and refuse to leave them",
  "Forward and reverse iterators over a JSON array or object visit every element once, in order (reverse iterators in the opposite order), and arithmetic, comparison and distance agree with positions. Dereferencing an end or empty iterator, moving outside the range, mixing iterators of different values, and ordering or offsetting object iterators raise the library's exception instead of touching memory outside the value; iterators of the const and mutable kind agree.",
  ["histories","programs"],"all iterator operation sequences up to a depth from every start position over containers of size 0..3, and all pairs of iterators",
  "Tests try chosen moves; off-by-one at each bound in each direction is a quantified claim.",
  ["fly/types/json/json_iterator.hpp","fly/types/json/json_reverse_iterator.hpp","fly/types/json/json_exception.cpp"],
  [("bounds validation","fly/types/json/json_iterator.hpp")])
p("C17","JSON equality, conversion and comparison are consistent",
  "Equality of JSON values is reflexive, symmetric and transitive over all kinds (numbers of any type compared by mathematical value; floating-point values within the library's tolerance of one another, and NaN, aside), ordering operators are a total order that agrees with equality, equal values hash alike, and copying, moving, swapping and reconstructing from converted C++ values (of text without JSON escapes) preserve equality. Converting a JSON value to a C++ type gives the same value where it is representable (numbers between widths, strings between encodings, arrays and objects to standard containers) and raises the library's exception where the kinds do not match.",
  ["inputs","programs"],"all pairs and triples of values from a table of boundary values of every type, all target types of the conversion table",
  "Tests check chosen pairs; algebraic laws and wrap-around conversions need all pairs/triples of boundary values.",
  ["fly/types/json/json.hpp","fly/types/json/json.cpp"],
  [("comparison","fly/types/json/json.cpp operator==/operator<"),("conversion","fly/types/json/json.hpp operator T")])
# ---------------------------------------------------------------- strings
p("C18","Unicode validation and transcoding are exact",
  "Validation accepts a string in any of the supported encodings exactly if it is well-formed (no overlong forms, no lone or swapped surrogates, nothing above the last code point, no truncated sequences), and otherwise rejects it. Converting between any two encodings succeeds exactly for well-formed input and then preserves the sequence of code points, so converting back gives the original; decoding never reads beyond the given end.",
  ["inputs"],"every code point in every encoding pair, every byte string up to length 4 over representative bytes (every 1-2 byte string, all lead/continuation classes), every pair of 16-bit unit classes",
  "Tests use sampled invalid ranges; well-formedness is a claim about all byte sequences.",
  ["fly/types/string/detail/unicode.hpp","fly/types/string/string.hpp"],
  [("decoding","fly/types/string/detail/unicode.hpp codepoint_from_string"),("encoding","fly/types/string/detail/unicode.hpp codepoint_to_string")])
p("C19","Unicode escaping and unescaping are inverse and strict",
  "Escaping any well-formed string yields printable ASCII text in the documented form, with either escape style, and that text unescapes to the original (unless the original itself contains a backslash followed by u or U, which escaping leaves alone). Unescaping accepts exactly well-formed escape sequences (four or eight hexadecimal digits, properly paired surrogates), yields the code point they denote, leaves all other text unchanged, and rejects malformed, truncated or unpaired escapes.",
  ["inputs"],"every code point in both styles and all character types, all escape texts up to a length over the significant characters",
  "Tests sample code points and a few malformed escapes.",
  ["fly/types/string/detail/unicode.hpp","fly/types/string/string.hpp"],
  [("escape/unescape","fly/types/string/detail/unicode.hpp escape_codepoint/unescape_codepoint")])
p("C20","String utilities match their definition on every input",
  "Character classification and case mapping are exact for every character value of every character type (ASCII letters, digits, hexadecimal digits and whitespace only). Splitting returns the non-empty pieces between delimiters in order, with the further non-empty pieces joined onto the last one by the delimiter when a limit is given; trimming removes exactly the leading and trailing whitespace; replacing or removing all occurrences handles every non-overlapping occurrence from left to right, always terminates, and leaves other text alone; wildcard matching holds exactly if the whole text can be obtained from the pattern by substituting each asterisk with some text; joining concatenates with the separator.",
  ["inputs"],"all characters of every type; all text/pattern pairs up to a length over a small alphabet including the delimiter, wildcard and whitespace",
  "Tests use a few examples each; overlapping, repeated and boundary cases are not enumerated.",
  ["fly/types/string/string.hpp","fly/types/string/detail/classifier.hpp"],
  [("algorithms","fly/types/string/string.hpp split/trim/replace_all/wildcard_match"),("classification","fly/types/string/detail/classifier.hpp")])
p("C21","Text to number conversion is exact or refused",
  "Converting text to an integer type succeeds exactly if the whole text is a decimal number of that type's range, and gives that number; converting to a floating-point type succeeds exactly if the whole text is a number, giving the nearest value. Anything else (empty, partial, trailing characters, out of range) yields no value and never a wrapped or truncated one, for every character type; the lexer's decimal and hexadecimal number reading and bounded peeking obey the same exactness.",
  ["inputs"],"all texts up to a length over digits, signs, dot, exponent and junk; every boundary value of every type plus and minus one",
  "Tests check the limits of each type but not all malformed shapes around them.",
  ["fly/types/string/detail/converter.hpp","fly/types/string/string.hpp","fly/types/string/lexer.hpp"],
  [("conversion","fly/types/string/detail/converter.hpp"),("lexing","fly/types/string/lexer.hpp")])
p("C22","Formatted output matches the documented meaning of every option",
  "For every combination of fill, alignment, sign, alternate form, zero padding, width, precision and presentation type that is valid for the argument's type, and for integers, floats, booleans, characters, strings and pointers of every kind, the formatted text is exactly the documented rendering (equal to standard formatting except for the documented differences). Literal text and doubled braces are copied, arguments are taken in order or by position, nested width/precision take the referenced argument's value, and the same result is produced for every character type (string widths and precisions count code units).",
  ["inputs","configurations"],"the full product of format options over boundary argument values of each type, checked against the standard library's formatter and an independent reference",
  "Tests enumerate options one at a time; interactions (zero pad with sign and alternate form, width versus precision, large magnitudes) are a product space.",
  ["fly/types/string/formatters.hpp","fly/types/string/detail/format.hpp","fly/types/string/detail/format_specifier.hpp"],
  [("formatters","fly/types/string/formatters.hpp"),("replacement loop","fly/types/string/detail/format.hpp")])
p("C23","Format strings are accepted exactly when well-formed for their arguments",
  "A format string is accepted exactly if every brace is escaped or opens a well-formed replacement field, positions are given on all or none of the fields and refer to existing arguments, and every option is allowed for the type of its argument; otherwise an error is reported and nothing is rendered. Parsing any text terminates and never reads beyond its end. (At most 64 replacement fields are supported.)",
  ["inputs"],"all format strings up to a length over the significant characters for several argument lists, against an independent recogniser",
  "Tests list invalid samples; acceptance is a claim about all strings.",
  ["fly/types/string/detail/format_string.hpp","fly/types/string/detail/format_specifier.hpp","fly/types/string/detail/format_parse_context.hpp"],
  [("parsing and validation","fly/types/string/detail/format_specifier.hpp parse/validate")])
# ---------------------------------------------------------------- coders
p("C24","Base64 round-trips every input and rejects everything malformed",
  "Encoding any byte sequence, of any length, gives standard padded base64 and decoding that gives the bytes back, for strings, streams and files alike. Decoding succeeds exactly for texts that are whole groups of four alphabet characters with one or two padding characters only at the very end, and never reads or writes out of bounds on any input.",
  ["inputs"],"every input of length 0..2, all position/value patterns, every text up to length 5 over class representatives including every byte value in every position, and all lengths around the internal buffer boundaries",
  "Tests use a few strings and files much smaller or not aligned to the internal buffers.",
  ["fly/coders/base64/base64_coder.cpp","fly/coders/coder.cpp"],
  [("block coding","fly/coders/base64/base64_coder.cpp")])
p("C25","Huffman coding is lossless for every input and configuration",
  "For every input and every chunk size and maximum code length in the configuration, encoding either reports failure or produces output that the decoder turns back into exactly the input; chunk boundaries, single-symbol, uniform and extremely skewed inputs included. Encoder and decoder never fail to terminate and never read or write out of bounds.",
  ["inputs","configurations"],"all short inputs over small alphabets and all multiset shapes of symbol frequencies up to a bound, for chunk sizes from tiny to default and code lengths from too small to maximal",
  "Tests use default-ish configurations and a few files; the length-limiting path depends on extreme frequency shapes.",
  ["fly/coders/huffman/huffman_encoder.cpp","fly/coders/huffman/huffman_decoder.cpp","fly/coders/huffman/types.cpp"],
  [("length limiting","fly/coders/huffman/huffman_encoder.cpp limit_code_lengths"),("prefix table","fly/coders/huffman/huffman_decoder.cpp")])
p("C26","Huffman decoder survives truncated and corrupted streams",
  "Given any byte sequence at all, in particular any truncation or any single-byte change of a valid encoding, the decoder terminates, reports success or failure, and never reads or writes memory outside its buffers; what it reports as successfully decoded from a truncated encoding is a prefix of the original.",
  ["inputs","fault_sequences"],"every truncation point and every one-byte substitution of the header and of each position of a family of valid encodings, and all short byte strings over header-relevant values",
  "Tests corrupt a few chosen header fields.",
  ["fly/coders/huffman/huffman_decoder.cpp","fly/types/bit_stream/bit_stream_reader.cpp"],
  [("header decoding","fly/coders/huffman/huffman_decoder.cpp"),("bit reading","fly/types/bit_stream/bit_stream_reader.hpp")])
p("C27","Bit streams return exactly the bits that were written",
  "For every sequence of writes of bits, bytes, words of any width and chosen bit counts, reading back with any sequence of read sizes returns the same bits in the same order, and only the requested number of least-significant bits is ever written. Reads past the end report how many bits were really available and nothing more, peeking does not consume, and a finished stream ends with exactly the padding its header declares.",
  ["histories","inputs"],"all write-size sequences up to a depth over boundary sizes 1..64 and all read-size sequences up to a depth, for every final alignment",
  "Tests write aligned values; word-boundary crossings at each alignment need all size combinations.",
  ["fly/types/bit_stream/bit_stream_writer.hpp","fly/types/bit_stream/bit_stream_writer.cpp","fly/types/bit_stream/bit_stream_reader.hpp","fly/types/bit_stream/bit_stream_reader.cpp"],
  [("bit packing","fly/types/bit_stream/bit_stream_writer.hpp write_bits"),("bit unpacking","fly/types/bit_stream/bit_stream_reader.hpp read_bits/peek_bits")])
# ---------------------------------------------------------------- parsers
p("C28","INI parser accepts exactly its format and yields the written values",
  "A text parses exactly if every line is blank, a comment, a section header or, inside a section, a name/value pair in the documented form; the result holds for each section and name the written value with surrounding blanks and matching quotes removed (names and values are JSON string contents; only the first = of a line assigns; a line that begins with [ or ends with ] must do both). Malformed lines (bad header, missing name or value, pair outside a section, unbalanced quote) make the whole parse fail, and parsing terminates without touching memory outside the text for every input.",
  ["inputs"],"all texts of up to a few lines built from all lines up to a length over the significant characters, against an independent reading",
  "Tests list a few dozen texts.",
  ["fly/parser/ini_parser.cpp"],
  [("line parsing","fly/parser/ini_parser.cpp")])
p("C29","Parsers decode every documented text encoding, from strings and files alike",
  "A document stored as UTF-8, or as UTF-8, UTF-16 or UTF-32 of either byte order marked by a byte order mark, parses to the same value as its plain text, from a file or from a string of any character type; input that is not well-formed in its encoding fails to parse (ill-formed UTF-8 inside a comment may be ignored). Missing, unreadable and empty files, truncated units and unmatched byte order marks fail cleanly without crashing.",
  ["inputs","configurations"],"all documents of a family times all encodings, byte order marks, truncation points and single-unit corruptions",
  "Tests hold one file per encoding and one invalid file each.",
  ["fly/parser/parser.cpp","fly/parser/parser.hpp"],
  [("encoding detection","fly/parser/parser.cpp")])
p("C30","System monitor figures follow the system's counters",
  "For every history of samples of the system's counters, including unreadable, malformed or decreasing ones, each reported figure equals the value defined by the two latest good samples: processor usage is the active share of the elapsed ticks in percent and always a finite number between 0 and 100 for the system, memory figures are in bytes and used memory is total minus free. A failed sample leaves the previous figures unchanged and polling continues.",
  ["histories","fault_sequences"],"all sample sequences up to a depth over a table of counter snapshots including no progress, wrap-back and failures of each source",
  "Tests check a single good sample and each failure once.",
  ["fly/system/nix/system_monitor_impl.cpp","fly/system/system_monitor.cpp"],
  [("sampling","fly/system/nix/system_monitor_impl.cpp")])
p("C31","Signals reach a handler at every moment of replacing it",
  "Once a signal handler is registered, each of the supported signals that takes its registered action calls the program's handler exactly once with that signal's number. A signal which arrives at any moment while the handler is being replaced or removed is given to the handler registered before or to the one registered after (or, when the handler is being registered for the first time or removed, takes the default action): it never finds an empty, half replaced or already destroyed handler, also when it runs on another thread while the handler is replaced. While one handler replaces another no signal takes its default action, and after a call returns every signal goes to what that call registered.",
  ["schedules","histories","programs"],"all histories of up to 3 (thorough 4) registrations over handlers of every storage kind, with each signal delivered at every machine-instruction boundary of the last call, and a handler held on another thread across every boundary",
  "A test raises signals after the registration has finished; the broken moments are a few instructions wide.",
  ["fly/system/system.cpp","fly/system/system.hpp","fly/system/nix/system_impl.cpp"],
  [("handler storage and registration","fly/system/system.cpp set_signal_handler/handle_signal")])
p("C32","Styled and console output: exact styling, plain text untouched",
  "Text streamed through a styler onto standard output or standard error appears with exactly the styles, colours (any of 256, in the foreground and the background; of several colours for one plane the last one) and cursor movements that were given, whatever the formatting state of the stream, which is left as it was, and the styles and colours end with the styler. A styler that is kept takes effect each time it is streamed, on whichever stream it is streamed last. Any other stream receives the plain text only. A console logger writes each record as a line of its own, holding the time, the trace and the message, to standard output (debug, info) or standard error (warn, error), styled by its level in the heading only.",
  ["inputs","configurations","histories"],"all modifiers, pairs and triples of a table of modifiers, times formatting states of the stream, targets and ways to use a styler (one expression, kept, streamed again, on two streams); all short sequences of console records",
  "Tests use default-formatted streams and each styler once.",
  ["fly/logger/styler.cpp","fly/logger/styler.hpp","fly/logger/detail/nix/styler_proxy_impl.cpp","fly/logger/detail/styler_proxy.cpp","fly/logger/detail/console_sink.cpp"],
  [("escape sequences","fly/logger/detail/nix/styler_proxy_impl.cpp"),("lifetime of the manipulation","fly/logger/styler.cpp operator<<"),("console records","fly/logger/detail/console_sink.cpp stream")])
p("C33","Assertions report everything once, and a holding one does nothing",
  "An assertion evaluates its expression exactly once. If it holds nothing else is evaluated or written. If it fails, standard error receives one report with the message (if any), the expression's text, the location and function, each captured value under its own name in the order given, and the call stack, and nothing more; then the handler runs exactly once (by default it aborts the program). With assertions compiled away nothing is evaluated or written, and in either form an assertion is a single statement.",
  ["inputs","programs"],"all combinations of outcome, messages, zero to twelve captures of every pair of value kinds, states of standard error, handlers that return or throw, nesting and statement positions",
  "Tests search the report for a few substrings and never count evaluations or look for anything extra.",
  ["fly/assert/assert.hpp","fly/assert/detail/assert_enabled.hpp","fly/assert/detail/assert_enabled.cpp","fly/assert/detail/assert_disabled.hpp"],
  [("macro","fly/assert/detail/assert_enabled.hpp FLY_ASSERT_IMPL"),("report","fly/assert/detail/assert_enabled.cpp log_assertion")])
p("C34","Integer literals and byte order conversions are exact",
  "A numeric literal (any base, digit separators, leading zeros) compiles exactly if its value is representable in the type its suffix names, and then has that value and type; colour literals name the colour of their value. Swapping the byte order of a value of any integer type reverses exactly its bytes, is its own inverse, and agrees at compile time and run time; the conditional swap changes a value exactly if the given order is not the machine's.",
  ["inputs"],"all literals around every power of two, power of ten and type limit up to 2^100 in every base and spelling, each given to the compiler; all values of up to 32 bits and all pairs of bytes in 64 bits for swapping",
  "Tests hold a handful of literals and values, and a literal that must be refused cannot be written in a test that compiles.",
  ["fly/types/numeric/literals.hpp","fly/types/numeric/detail/literal_parser.hpp","fly/types/numeric/endian.hpp","fly/types/numeric/detail/byte_swap.hpp"],
  [("literal parsing","fly/types/numeric/detail/literal_parser.hpp Aggregator"),("byte swapping","fly/types/numeric/endian.hpp endian_swap")])
p("C35","Files are read and written all or nothing",
  "Parsing a file yields its complete contents' value or nothing, and encoding or decoding a file reports success only if the complete input was read and the complete output was written: whatever call to the file system fails or falls short along the way, no truncated result is reported as success, nothing is thrown and the process does not die, the input is untouched, a call that was merely interrupted or served in part changes nothing, and the parser or coder works again afterwards. A bit stream writer finishes successfully exactly if every byte reached its stream; a bit stream reader on a stream that cannot be read returns fewer bits and leaves the stream bad.",
  ["fault_sequences","inputs"],"one and two (three) failures of any file-system call, of every kind, for files around the sizes of the buffers in six encodings and for four coders; devices failing after any number of bytes",
  "Tests read and write files on a file system that works.",
  ["fly/parser/parser.cpp","fly/parser/parser.hpp","fly/coders/coder.cpp","fly/types/bit_stream/bit_stream_reader.cpp","fly/types/bit_stream/bit_stream_reader.hpp","fly/types/bit_stream/bit_stream_writer.cpp"],
  [("documents","fly/parser/parser.cpp Parser::parse_file"),("coded files","fly/coders/coder.cpp Encoder::encode_file, Decoder::decode_file"),("bits","fly/types/bit_stream/bit_stream_reader.hpp fill")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P))
