#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Edit here, re-run."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Beast input decoding is exact for every byte stream and chunking",
  "For every byte stream delivered by the receiver in chunks of any size, the input layer hands out exactly the frames an unescaping Beast decoder finds in it: same order, same type, timestamp (48 bit), signal level and payload, with the raw form being the canonical escaped encoding of that frame, independent of where the chunks are cut. No read or write ever leaves the buffers, a failing read is reported as a connection failure, and after a reconnect no byte of the previous connection influences a frame. The out-of-sync and unknown-type counters count exactly the protocol errors in the stream.",
  ["inputs", "fault_sequences"], "all byte streams (valid frames, escapes, garbage, truncations), all ways of cutting them into reads, all positions of read failures and reconnects",
  "The unit tests feed a few dozen hand-written frames with a handful of cut positions; escapes x cut positions x error recovery x reconnects is unbounded.",
  ["src/radarcape/rc-parser.c"], [("128 byte read buffer, peek across refills, escape removal", "src/radarcape/rc-parser.c: INPUT_getFrame, decode, synchronize"), ("buffer reset on connect", "src/radarcape/rc-parser.c: INPUT_connect")],
  [("read buffer window", "bytes received but not consumed", "src/radarcape/rc-parser.c")], ["INPUT_getFrame result", "RC_PARSER_getStatistics"])

p("C02", "Frames following line noise are recovered",
  "Whatever bytes precede them (noise, truncated frames, unknown frame types, lone or doubled sync bytes), a run of intact Beast frames is picked up again: at most the first intact frame after the disturbance is lost, all following intact frames are delivered exactly once, unmodified and in order.",
  ["inputs", "histories"], "all noise bursts placed between runs of intact frames, all chunkings",
  "Resynchronization is tested for single hand-written cases; the guarantee is over every possible burst content and length relative to the read buffer.",
  ["src/radarcape/rc-parser.c"], [("resynchronization on unescaped sync", "src/radarcape/rc-parser.c: synchronize, decode")], [], ["INPUT_getFrame result"])

p("C03", "Escaping and number encoding are lossless and bounded",
  "Escaping doubles exactly the sync bytes (0x1a) and nothing else, so that unescaping restores the input for every byte string; the returned length equals the bytes written and never exceeds twice the input, and no byte outside the output is touched. The big endian integer/float codecs used in all protocol messages are exact inverses and produce network byte order for every value.",
  ["inputs"], "all byte strings of all lengths; all integers and floating point bit patterns",
  "No test calls the escaping directly; it is only covered through a few messages.",
  ["src/core/beast.c", "src/util/endec.h"], [("BEAST_encode", "src/core/beast.c"), ("ENDEC_*", "src/util/endec.h")], [], ["BEAST_encode output"])

p("C04", "The frame buffer is a bounded FIFO that drops only the oldest frames",
  "For every sequence of producer, consumer, flush, garbage collection, restart and configuration operations the frame buffer behaves as a FIFO queue: committed frames come out unmodified, in order and exactly once; a frame put back is the next one delivered; aborted frames never appear; a request for a new frame always succeeds. Frames are discarded only when every frame allowed by the configuration (static backlog plus, with history enabled, the configured number of dynamic pools) is in use, and then it is the oldest queued frame; the statistics count exactly what happened.",
  ["histories", "configurations"], "all operation sequences and all accepted buffer configurations",
  "Tests walk through a few fixed scenarios with fixed pool sizes; capacity, garbage collection and put-back interact over long histories.",
  ["src/core/buffer.c", "src/util/list.h"], [("free list / queue / dynamic pools / collect lists", "src/core/buffer.c")],
  [("queue", "committed frames waiting for the consumer", "src/core/buffer.c"), ("pool", "free frames", "src/core/buffer.c"), ("dynPools", "dynamically added pools", "src/core/buffer.c")],
  ["BUF_getFrameTimeout result", "BUFFER_getStatistics"])

p("C05", "The frame buffer is safe under concurrent producer, consumer and GC",
  "With one producer, one consumer, and concurrent flushes, garbage collection and statistics queries running in their own threads under any interleaving, frames are delivered at most once, unmodified and in commit order; without flush or overflow none is lost; a waiting consumer is woken by a commit; and no two parties ever hold the same frame.",
  ["schedules", "histories"], "all interleavings of the producer, consumer and maintenance threads over generated workloads",
  "Unit tests drive the buffer from a single thread apart from one blocking-consumer test; races are invisible to them.",
  ["src/core/buffer.c"], [("one mutex over queue, pool and dynamic pools; condition variable for the consumer", "src/core/buffer.c")], [], ["BUF_* results", "thread sanitizer"])

p("C06", "Only frames admitted by the current filter configuration pass",
  "A frame passes the filter if and only if it is a Mode-S short or long frame, the receiver is synchronized or the synchronization filter is off, and - when only extended squitter is admitted - its downlink format is 17 or 18. This holds for every frame and after every sequence of configuration changes, synchronization changes and resets, takes effect from the next frame on, and the counters account for every frame by type, downlink format and reason of rejection.",
  ["inputs", "histories", "configurations"], "all frame types and first bytes, all sequences of filter operations",
  "Tests check a few frame types with a fixed configuration; configuration at run time (talkback) and counters are not tested.",
  ["src/core/filter.c", "src/core/filter.h"], [("FILTER_filter decision", "src/core/filter.c")],
  [("isSynchronized", "receiver has a valid time", "src/core/filter.c"), ("FILTER_cfg", "current configuration", "src/core/filter.c")], ["FILTER_filter result", "FILTER_getStatistics"])

p("C07", "Received frames are queued once, in order, if the filter admits them",
  "For every receiver byte stream, interrupted by connection losses at arbitrary points, the receive loop queues exactly the admitted frames of that stream in order and in their raw wire form; a status frame with a timestamp marks the receiver synchronized from then on, a reconnect makes it unsynchronized again, and a partially received frame is never queued. Each lost connection is closed and re-established, and stopping the receiver at any point returns all frames and closes the input.",
  ["inputs", "histories", "fault_sequences"], "all streams, chunkings, disconnect and cancellation points, filter configurations",
  "test_recv feeds single frames; sequences with reconnects, filter state and cancellation in the middle of frames are not reachable by it.",
  ["src/core/recv.c", "src/core/filter.c", "src/radarcape/rc-parser.c", "src/core/buffer.c"], [("receive main loop with cleanup handlers", "src/core/recv.c: mainloop")], [], ["frames taken from the buffer", "RC_INPUT_connect/disconnect calls"])

p("C08", "The uplink sends every queued frame in order across connection losses",
  "On every server connection the first thing sent is the login; afterwards queued frames are sent completely, in order, each at least once until a send succeeded, and none is reordered, corrupted or skipped when a send fails or the relay is stopped and restarted at any point. Without history, frames queued before a (re)login are dropped; with history they are kept. When no frame is available for the configured time a keep-alive is sent instead.",
  ["histories", "fault_sequences", "schedules"], "all interleavings of frame arrival, send failures, login failures, timeouts and cancellation",
  "There is no test for the relay at all.",
  ["src/core/relay.c", "src/core/buffer.c", "src/core/login.c"], [("relay main loop: put back on failure, cleanup on cancellation", "src/core/relay.c: mainloop")], [], ["NET_send calls"])

p("C09", "The network layer delivers byte-exact messages and always reconnects",
  "For every message reported as sent, its bytes were handed to the current server connection exactly once, completely and contiguously, even if the socket accepts them in small pieces and several threads send; received bytes are delivered unmodified and in order per connection. Whatever sequence of connect failures, peer closes, resets and forced disconnects happens, seen by sender or receiver first, the layer never crashes or deadlocks, establishes a new connection - attempts keep coming, at least one a minute, however long the outage lasts -, a thread waiting for a connection goes on only when there is one it has not used yet, another one that sends without waiting is served on every connection on which that thread has begun to send, both directions end up on that same connection, no socket is leaked or closed twice, and the statistics count attempts, disconnects and bytes, also beyond 4 GiB. All of this holds as well for the build for systems whose system calls are no cancellation points (--without-pthreadCancellationPoints), where waiting for the network must neither keep the processor busy nor block without a connection.",
  ["schedules", "fault_sequences", "histories"], "all fault sequences on the server connection and all interleavings of sender, receiver and connector",
  "No test covers the network component; its leader/follower reconnect state machine only matters for particular orders of failure detection.",
  ["src/core/network.c", "src/util/port/socket.h"], [("leader/follower transit states", "src/core/network.c: emitDisconnect"), ("partial send loop", "src/core/network.c: trySend")],
  [("connState/transState", "connection and hand-over state", "src/core/network.c"), ("recvsock/sendsock", "sockets in use per direction", "src/core/network.c")], ["peer side of the socket", "open file descriptors", "NET_getStatistics"])

p("C10", "The login identifies device, version, serial, position and user exactly",
  "Each login sends, in this order, the device id with device type and daemon version, the serial number, the GPS position if one is valid, and the user name if one is configured; each message decodes (after unescaping) to exactly the configured values, zero padded to the fixed width for the user name, for every serial number, device type and user name of up to 40 characters. A send failure at any step aborts the login with failure and sends nothing further; too long user names are not sent.",
  ["inputs", "fault_sequences", "configurations"], "all device types, serial numbers, user names, positions and failure points",
  "No test calls the login; escapes inside numbers or names and failure positions are unexplored.",
  ["src/core/login.c", "src/core/gps.c", "src/core/beast.c"], [("LOGIN_login", "src/core/login.c")], [], ["NET_send calls", "LOGIN_login result"])

p("C11", "A position is reported only when valid, and is not forgotten",
  "A GPS position is sent only if a position is known and there is a fix, and then carries exactly the last position set (three big endian doubles, escaped), never a mixture of two positions, also when position and fix are updated and logins happen concurrently. If a login needed a position but none was valid, the position is sent as soon as position and fix are both available, is retried on later updates if sending failed, and is not repeated after it was sent successfully; a reset forgets position and fix, but not that a login is waiting.",
  ["histories", "inputs", "fault_sequences", "schedules"], "all sequences of login, position, fix, reset operations and send results; all double values",
  "test_gps checks a handful of fixed sequences with one position value.",
  ["src/core/gps.c"], [("needPosition/hasPosition/hasFix", "src/core/gps.c")], [("needPosition", "a login is waiting for a position", "src/core/gps.c")], ["NET_send calls"])

p("C12", "Talkback packets are framed and dispatched exactly once",
  "For every byte stream of well-formed talkback packets, cut into arbitrary reads, every packet of a known type with the right payload length triggers its handler exactly once, in order, with exactly its payload; unknown types, including those far out of range, and wrong lengths are skipped without effect on neighbouring packets. Malformed headers never cause out-of-bounds accesses or stop the component, and after a reconnect parsing starts afresh.",
  ["inputs", "histories", "fault_sequences"], "all packet sequences, chunkings, malformed headers and reconnects",
  "There is no test for the talkback channel.",
  ["src/core/tb.c"], [("128 byte reassembly buffer", "src/core/tb.c: mainloop"), ("processor table", "src/core/tb.c: TB_register, processPacket")], [], ["handler invocations"])

p("C13", "Remote filter changes reach the filter and the receiver",
  "A filter packet changes exactly the settings selected by its mask (synchronization filter, extended squitter only, reset of synchronization) to the given values, immediately, leaving the others alone. The receiver hardware is kept consistent with it: after every (re)connect the receiver has been sent the complete set of options matching the current filter and error-correction configuration, a change of the squitter filter is forwarded, and the connect is retried until all options were accepted.",
  ["histories", "configurations", "fault_sequences"], "all sequences of filter packets, connects, write failures and configurations",
  "Tests check the options once for two configurations; the run-time path talkback - filter - receiver is untested (and compiled out in tests).",
  ["src/core/tb.c", "src/core/filter.c", "src/radarcape/rc-parser.c"], [("packetConfigureFilter", "src/core/tb.c"), ("INPUT_reconfigure/configure", "src/radarcape/rc-parser.c")], [], ["RC_INPUT_write calls", "FILTER_filter decisions"])

p("C14", "Remote administration commands run exactly the intended program",
  "A reverse shell command starts, detached from the daemon, exactly the program /usr/bin/rcc with the address a.b.c.d:port given in the packet (network byte order) and nothing else; a restart command re-executes the daemon with the same name and the same board selection. A reboot command runs systemctl reboot, an upgrade command runs the package manager and only if that succeeded reloads and restarts the service. Argument vectors of any length are passed on unmodified with an empty environment, the daemon survives failing executions, a synchronous command reports success exactly if the program exited with status 0, and whatever fails, no second instance of the daemon goes on in a child process and no detached execution leaves a zombie or lets files of its program be writable by everybody.",
  ["inputs", "fault_sequences"], "all addresses/ports, argument vectors, exit statuses, fork/exec failures",
  "No test covers command execution.",
  ["src/radarcape/tb-rshell.c", "src/radarcape/tb-misc.c", "src/util/proc.c"], [("TB_reverseShell", "src/radarcape/tb-rshell.c"), ("PROC_*", "src/util/proc.c")], [], ["execve arguments"])

p("C15", "Configuration files are parsed as written",
  "For every well-formed configuration file (any order and repetition of sections and options, any letter case, comments, blank lines, LF or CRLF line ends, with or without a final newline, blanks after names and before values) each registered option ends up with the last value given for it or with its default if the value is empty, and its given-flag tells which; options of unknown sections or names have no effect. Lines which are no assignments are skipped or make reading fail, and unparsable values fall back to the default, or make reading the file fail, as requested by the caller.",
  ["inputs", "configurations"], "all well-formed files over all sets of registered sections and option types",
  "There is no test for the configuration parser.",
  ["src/util/cfgfile.c"], [("line parser", "src/util/cfgfile.c: readCfg, parseSection, parseOption")], [], ["option variables", "given flags", "CFG_readFile result"])

p("C16", "No configuration file can crash or corrupt the daemon",
  "For every file content whatsoever (truncated, binary, overlong lines, missing delimiters, empty values, empty file) reading a configuration terminates without accessing memory outside the file or the option's storage; string options are always NUL-terminated within their maximum length, and after the read every option holds a value of its type that came from the file or from its default.",
  ["inputs"], "all byte strings as file content",
  "There is no test for the configuration parser; robustness against arbitrary content needs search.",
  ["src/util/cfgfile.c", "src/util/port/mmap-posix.c"], [("bounds checks on the mapped file", "src/util/cfgfile.c")], [], ["address sanitizer", "option variables"])

p("C17", "A written configuration reads back unchanged",
  "Writing the configuration and reading it again - on top of any other state - restores every option value: booleans, integers, ports, strings and floating point values up to the written precision, for any number of sections, also when several components share a section name; each section and option is written once and options that have no value stay without one. Writing a single section does the same for that section. A configuration that could not be written completely is reported as a failure.",
  ["inputs", "configurations"], "all option values and section layouts",
  "There is no test for writing configurations.",
  ["src/util/cfgfile.c"], [("CFG_write/CFG_writeSection", "src/util/cfgfile.c")], [], ["option variables after re-read", "written file"])

p("C18", "Configuration directories are applied in numeric order",
  "Reading a configuration directory applies exactly the regular files (or links) whose names start with a digit and end with .conf, in ascending order of their leading number, later files overriding earlier ones; other entries are ignored. An unreadable or bad file does not prevent the others from being applied unless the caller asked to stop at the first error, and the result tells whether reading was complete.",
  ["inputs", "configurations", "fault_sequences"], "all directory contents and name sets, paths of any length, broken files",
  "There is no test for configuration directories.",
  ["src/util/cfgfile.c"], [("scandir filter and compare", "src/util/cfgfile.c: CFG_readDirectory")], [], ["option variables", "result"])

p("C19", "Components start after, and stop before, what they depend on",
  "For every acyclic dependency graph, registration order, and set of enabled/started components, all transitive dependencies get registered once, every component is constructed and started after all its dependencies and stopped and destructed before them, in exactly the reverse order. If constructing or starting a component fails, exactly the components already constructed or started are rolled back, and the failing operation reports failure; components whose stop is deferred are retried while others make progress; disabled components and their callbacks are left alone.",
  ["histories", "configurations", "fault_sequences"], "all dependency graphs, enable/start flags, failing callbacks and deferred stops, repeated life cycles",
  "No test covers component management.",
  ["src/util/component.c"], [("dependency closure and topological sort", "src/util/component.c: fixDependencies, sequentialize"), ("rollback", "src/util/component.c: stopUntil, destructUntil")], [], ["callback trace"])

p("C20", "GPS receiver packets are decoded and gate the position correctly",
  "For every byte stream from the Trimble GPS receiver in any chunking, packets are unframed exactly (0x10 stuffing, 0x10 0x03 end) without out-of-bounds access, and recover after noise or connection loss; of a stream which starts in the middle of a packet nothing after that packet is lost. The position is taken over, converted from radians to degrees, exactly for supplemental timing packets with no critical alarm, not in test mode or self-survey, over-determined clock mode, locked disciplining and decoding status 'doing fixes'; all other packets leave the position untouched, and each connection starts without position.",
  ["inputs", "fault_sequences", "histories"], "all packet contents, chunkings, noise, disconnects",
  "There is no test for the Trimble receiver.",
  ["src/trimble/trimble_parser.c", "src/trimble/trimble_recv.c"], [("frame decoder", "src/trimble/trimble_parser.c"), ("posFrame conditions", "src/trimble/trimble_recv.c")], [], ["GPS position sent after a login", "TRIMBLE_PARSER_getFrame"])

p("C21", "The Radarcape library forwards messages exactly while enabled",
  "A message submitted to the Radarcape library is queued in escaped Beast form, byte for byte and in order, if and only if the library is configured and enabled, the type is a known Mode-AC/Mode-S type and the filter admits it given the reported GPS time status; the status may change at any time including while disabled. Enabling starts with an empty queue, disabling stops forwarding, and both can be repeated any number of times in any order.",
  ["histories", "inputs"], "all call sequences, message contents, types and time status changes",
  "test_lib checks single messages per type; call histories (enable/disable/status changes) and arbitrary contents are not covered.",
  ["src/radarcape/lib/opensky.cc", "src/core/filter.c", "src/core/buffer.c"], [("output_message", "src/radarcape/lib/opensky.cc")], [], ["frames taken from the buffer"])

p("C22", "The general purpose library encodes submitted frames exactly",
  "A frame submitted to the general purpose library is queued if and only if the library is configured and enabled, its payload has 7 or 14 bytes, its timestamp is UTC and its downlink format is admitted; the queued frame carries the Radarcape timestamp (seconds of day and nanoseconds), the signal level and the payload in escaped form, for every timestamp, level and payload. Enabling starts with an empty queue, frames submitted while disabled are dropped, and an announced or withdrawn position is reflected in what logins send.",
  ["histories", "inputs"], "all timestamps, levels, payloads, flags and call sequences",
  "This library has no test at all.",
  ["src/gplib/opensky.cc", "src/core/filter.c"], [("submitFrame", "src/gplib/opensky.cc")], [], ["frames taken from the buffer", "messages sent at login"])

p("C23", "Linked lists keep order, links and count under every operation sequence",
  "Every variant of the intrusive linked lists (with and without element counter, doubly linked) behaves as the sequence it represents under any sequence of push, pop, shift, unshift, insert, unlink, concatenate, splice/cut and bulk initialisation operations: forward and backward iteration agree, the length is the number of elements, and removing elements during a safe iteration visits all others exactly once.",
  ["histories"], "all operation sequences over several lists",
  "test_list checks each operation on small fixed lists; combinations are not covered.",
  ["src/util/list.h"], [("list operations", "src/util/list.h")], [], ["iteration results", "LIST_length"])

p("C24", "A device without serial number obtains and keeps exactly one",
  "A feeder without configured serial number requests one from the server, uses exactly the number of the first response, stores it so that the next start uses the same number without asking, and never asks when a number is configured. Losing the connection while waiting makes the login fail and the request be repeated later; without a response within a minute the connection is given up and re-established; no response order, value or timing makes it use another number or hang.",
  ["histories", "fault_sequences", "schedules"], "all orders of request, response, disconnect, timeout and restart; all 32 bit numbers",
  "No test covers the serial number protocol.",
  ["src/dump1090/req-serial.c", "src/util/cfgfile.c", "src/core/tb.c"], [("SERIAL_getSerial", "src/dump1090/req-serial.c")], [("hasSerial/serialNumber", "known serial number", "src/dump1090/req-serial.c")], ["requests sent", "05-serial.conf", "SERIAL_getSerial result"])

p("C25", "The device serial number is derived from the MAC address or configuration",
  "On devices identified by their network card the serial number is the configured one if given and otherwise the lower 31 bits of the MAC address, obtained from the kernel by socket or, failing that, from sysfs; it does not change between calls, and failure of both sources is reported as permanent failure rather than as a number. No call leaks a file descriptor.",
  ["inputs", "fault_sequences", "configurations"], "all MAC addresses, device kinds, source failures, configurations and repetitions",
  "No test covers it (test_lib replaces it).",
  ["src/util/serial_eth.c"], [("SERIAL_ETH_getSerial", "src/util/serial_eth.c")], [], ["returned serial", "open file descriptors"])

p("C26", "The FPGA is loaded with exactly the configured bitstream",
  "Starting the FPGA component drives the configuration pins of the selected board so that the device sees a reset followed by every bit of the configured file, least significant bit of each byte first, one clock pulse per bit and no other pin touched; file names without path mean a file of the firmware directory, never one of the working directory. A device that reports an error is reprogrammed from the start, up to three attempts; success is reported only if the device accepted the complete file and signalled completion, and failure otherwise. GPIO accesses touch exactly the bit of the addressed pin in the right controller, and the watchdog pin is pulsed at least every 30 s while the watchdog runs.",
  ["inputs", "fault_sequences", "configurations"], "all bitstreams, board types, file names and device behaviours (errors at any byte, missing sync or completion)",
  "No test covers FPGA or GPIO.",
  ["src/radarcape/fpga.c", "src/radarcape/gpio.c", "src/radarcape/watchdog.c"], [("program/reset/transfer", "src/radarcape/fpga.c"), ("register access", "src/radarcape/gpio.c")], [], ["simulated FPGA on the pins", "GPIO registers"])

p("C27", "Connecting tries every address of a host",
  "Connecting to a host tries each of its usable addresses at most once, in an order not fixed in advance, with the given port, until one accepts, and returns a connected socket to that address; it fails only if none accepts or the name does not resolve. Regardless of the outcome no resolver result, memory or socket other than the returned one is left behind, also if the attempt is cancelled.",
  ["inputs", "fault_sequences", "schedules"], "all address lists (families, sizes), all subsets of failing addresses, cancellation points",
  "No test covers connecting.",
  ["src/util/net_common-posix.c", "src/util/util.c"], [("shuffled address list", "src/util/net_common-posix.c: NETC_connect")], [], ["socket/connect/close calls", "returned socket"])

p("C28", "Feeder identity and position come from the configuration or it refuses",
  "The feeder runs only with a complete position in range (latitude within +/-90, longitude within +/-180) and then reports exactly the configured position; otherwise it refuses to start. User names of up to 40 characters are taken over and sent, and the device type announced is the one of the configured feeder variant (case-insensitive), the plain feeder otherwise; server and input ports of 0 are refused and an empty host means the default; among the feeder's configuration files those below /var come before those below /etc, each in the order of their numbers, a later one overriding an earlier one; a broken one does not keep the others from being read.",
  ["inputs", "configurations"], "all configuration values for position, user, device type, hosts and ports",
  "No test covers the feeder's configuration.",
  ["src/dump1090/position.c", "src/dump1090/devtype.c", "src/dump1090/dump1090.c", "src/core/network.c", "src/radarcape/network.c"], [("check callbacks", "src/dump1090/position.c, src/core/network.c")], [], ["CFG_check result", "position sent", "device type", "login of the running daemon"])

p("C29", "The dummy input generates a well-formed stream",
  "The simulated receiver produces, for any clock value and random sequence, only complete, correctly escaped Beast frames: first one status frame, then Mode-S long extended squitter frames whose timestamp encodes the current time of day; a decoder never loses synchronization on it and never reads past the given buffer size.",
  ["inputs"], "all clock values, random seeds and numbers of reads",
  "No test covers the dummy input.",
  ["src/radarcape/dummy.c"], [("RC_INPUT_read", "src/radarcape/dummy.c")], [], ["decoded frames"])

p("C30", "The feeder daemon relays its receiver's frames end to end",
  "The feeder daemon as a whole, with receiver and server connections failing and coming back at any time, logs into the server first on each connection with its configured identity, relays exactly the admitted frames of its receiver in order and unmodified, applies remote filter changes, keeps running and executes no program, but the donated variant the remote shell when asked to; frames are lost only when the configuration allows it (disconnected without history, or overflow). On SIGINT it stops cleanly.",
  ["fault_sequences", "histories", "schedules"], "all streams of receiver frames and all sequences of connection losses on either side",
  "No test runs a daemon; interplay of all components and threads is only visible there.",
  ["src/dump1090/dump1090.c", "src/core", "src/util", "src/radarcape/network.c", "src/radarcape/rc-parser.c"], [("all components wired together", "src/dump1090/dump1090.c")], [], ["bytes seen by a fake server", "exit status"])

p("C31", "The receiver connection is re-established and read losslessly",
  "The network input (re)connects to the receiver until it succeeds, delivers all bytes sent on the current connection unmodified and in order, reports end of stream or errors as a failed read, and never leaks or double-closes a socket, for every sequence of connect, read, write, disconnect and failures of the peer, built with or without system calls as cancellation points.",
  ["histories", "fault_sequences"], "all operation sequences and peer behaviours",
  "No test covers it (the input is replaced in tests).",
  ["src/radarcape/network.c", "src/trimble/trimble_input_network.c"], [("RC_INPUT_*", "src/radarcape/network.c")], [], ["bytes read", "open file descriptors"])

p("C32", "Statistics can be reset and queried at any time and stay consistent",
  "At any point of any history the reported statistics equal what happened since the last reset (frames by type and reason, queue lengths, discarded frames, sent and received bytes, connection attempts and disconnects, online time), a reset clears exactly the counters of all components and nothing else, the report printed every configured interval shows exactly these values (and rates and percentages following from them), and reporting them never disturbs operation.",
  ["histories", "schedules"], "all histories of component operations, resets and queries",
  "No test looks at the statistics of filter, network or at resets.",
  ["src/util/statistics.c", "src/core/filter.c", "src/core/buffer.c", "src/core/network.c", "src/radarcape/rc-parser.c"], [("onReset callbacks, *_getStatistics", "src/util/component.c: COMP_resetAll")], [], ["*_getStatistics", "statistics log"])

p("C33", "Every log message is one complete line, emergencies end the process",
  "Each log call writes exactly one complete line with its level, its component (if given) and the formatted message (error calls: followed by the text and number of that error code) to the stream of its level, for every message content, length and error code; lines of concurrent threads never mix and a cancelled thread never leaves a partial line or blocks the log. An emergency is written out completely, together with everything logged before it, and then aborts the process.",
  ["inputs", "schedules"], "all messages, levels, prefixes, error codes, and all schedules (including cancellation) of concurrently logging threads",
  "Tests replace the log by stubs.",
  ["src/util/log_stdio.c", "src/radarcape/lib/log_lib.cc", "src/gplib/log_lib.cc", "src/util/log.h"], [("mutex around a message, cancellation disabled", "src/util/log_stdio.c, log_lib.cc")], [], ["output streams", "exit status"])

p("C34", "The serial inputs set up the line and deliver its bytes unchanged",
  "The serial inputs of receiver and GPS retry until the line is open and configured; then it is raw (every byte value passes unchanged in both directions, nothing is echoed or interpreted), has the speed, parity and flow control of the device whatever settings it had before, stale input is discarded, the line is no controlling terminal, not inherited by child processes and opened without waiting for the carrier. Reads wait for input, deliver all bytes in order and fail when the device has gone or fails; a waiting reader can be cancelled; the line is never leaked, closed twice or used after it was closed. The GPS is told to change its speed with the old and once more with the new settings.",
  ["histories", "fault_sequences"], "all sequences of connecting, reading, writing, cancellation and removal of the device, all previous line settings, all failing system calls",
  "No test opens a terminal.",
  ["src/radarcape/uart.c", "src/trimble/trimble_input_uart.c"], [("doConnect, *_INPUT_read", "src/radarcape/uart.c, src/trimble/trimble_input_uart.c")], [], ["bytes read and written", "terminal settings", "open file descriptors"])

p("C35", "The Radarcape daemon identifies itself and relays receiver and GPS",
  "The Radarcape daemon as a whole, with receiver, GPS and server connections failing and coming back at any time, logs into the server first on each connection with the device type of its variant and the serial number configured or derived from its MAC address, reports exactly the position its GPS receiver currently reports as valid (at once if known, otherwise as soon as it is known, never an outdated or invalid one), relays exactly the admitted frames in order - unsynchronized ones are withheld by default -, applies remote filter changes and ends cleanly on SIGINT. It refuses to run without serial number or with inconsistent configuration; asked to save its configuration it writes all effective values, connects to nothing and tells if writing failed.",
  ["fault_sequences", "histories", "schedules", "configurations"], "all receiver and GPS streams, all sequences of connection losses, all configurations",
  "No test runs a daemon; interplay of GPS, login, relay and reconnection is only visible there.",
  ["src/radarcape/main.c", "src/trimble", "src/core", "src/util", "src/radarcape/network.c", "src/radarcape/rc-parser.c"], [("all components wired together", "src/radarcape/main.c"), ("position kept until a login needs it", "src/core/gps.c")], [], ["bytes seen by a fake server", "exit status", "file saved"])
p("C36", "A receiver on the serial line is configured as the filter says",
  "On each connection of the serial line the receiver gets its complete configuration as whole commands, and whenever the extended squitter filter is changed at run time, the receiver is told; whatever the order of connections, losses of the line and changes of the filter from other threads, the mode the receiver finally runs in is the one currently configured. Nothing is ever written to a descriptor which was closed meanwhile (it might belong to another file), a line which cannot be configured is tried again, and stopping at any point leaves no line open.",
  ["schedules", "fault_sequences", "histories"], "all interleavings of the receiving thread and filter changes, all sequences of line failures",
  "Tests compile the parser without the serial line and call it from one thread; the races need a particular interleaving.",
  ["src/radarcape/rc-parser.c", "src/radarcape/uart.c", "src/core/recv.c", "src/core/filter.c"], [("one configuration after the other", "src/radarcape/rc-parser.c"), ("descriptor valid while written", "src/radarcape/uart.c")], [], ["commands received by a simulated receiver", "descriptors open"])
p("C37", "The stand-alone watchdog program serves the watchdog unprivileged",
  "Started as root, the watchdog program opens the pins first, then gives up the supplementary groups, the group and the user of root in this order in favour of nobody (as found in the user data bases, or 65534) and only then touches the watchdog pin, which it drives with a pulse at least every 30 seconds for as long as it runs and without touching any other pin. It fails without touching anything if the pins are not accessible or only its usage was asked for.",
  ["configurations", "fault_sequences", "schedules"], "all contents of the user data bases, failing calls, register contents",
  "Hardware access and privileges cannot be exercised by unit tests; the program is not even built for them.",
  ["src/radarcape/wd-main.c", "src/radarcape/watchdog.c", "src/radarcape/gpio.c", "src/util/util.c"], [("UTIL_dropPrivileges", "src/util/util.c"), ("main", "src/radarcape/wd-main.c")], [], ["calls changing user and groups", "trapped register accesses", "exit status"])
p("C38", "The Debian packages configure the feeder with exactly what was answered",
  "Installing, upgrading or reconfiguring a Debian package of the feeder asks again, telling why, exactly for those answers which the feeder could not use - latitude, longitude or altitude missing, no plain decimal number or out of range, user names of more than 40 bytes, serial numbers or ports which are no (unsigned 32 bit, or 1 to 65535 respectively) decimal numbers - and accepts all others unchanged, tells if the user name is changed, and always ends, even with front ends or priorities which do not ask. The feeder then runs with exactly the accepted answers (position, user name, device type, serial number, receiver host and port, whose defaults apply if left blank), whatever characters they contain. A serial number once obtained from the server survives upgrades and reconfigurations unless another one is entered.",
  ["configurations", "histories"], "all sequences of installations, upgrades and reconfigurations, all answers, all front ends and preseeded answers",
  "The packaging scripts have no tests at all; the chain from the answer to what the feeder announces to the server is only visible when run together.",
  ["debian", "src/util/cfgfile.c", "src/dump1090", "src/core/login.c"], [("questions and their checks", "debian/opensky-feeder.config, debian/opensky-feeder-donated.config"), ("writing the configuration", "debian/*.postinst"), ("reading it", "src/util/cfgfile.c")], [], ["debconf protocol of the scripts", "configuration files written", "bytes seen by a fake server"])
p("C39", "The stand-alone receiver daemon works its own hardware as configured",
  "Started as configured on its own board, the daemon opens the pins, loads the FPGA with exactly the configured bitstream (retrying as configured) before it uses the receiver, if asked to configure it, and serves the watchdog at least every 30 seconds while it runs, if asked to, without touching other registers; it uses the serial lines of the receiver and of the GPS, configures the receiver as the filter says and relays exactly the admitted frames in order to the server, over losses of lines and connections, with the identity (serial number from the network interface or the configuration), position and device of the configuration. Commands of the server (remote shell, restart, reboot, upgrade) are executed exactly as asked, and only while talkback is enabled; unusable configurations or broken hardware are refused. At termination it leaves nothing running.",
  ["configurations", "histories", "schedules", "fault_sequences"], "all configurations, streams, losses, server commands and interleavings",
  "No test runs this daemon; its hardware is not available to tests and its parts are only wired together in its main program.",
  ["src/radarcape/main.c", "src/radarcape/fpga.c", "src/radarcape/watchdog.c", "src/radarcape/uart.c", "src/radarcape/tb-misc.c", "src/radarcape/tb-rshell.c", "src/trimble/trimble_input_uart.c", "src/core", "src/util"], [("wiring of all components", "src/radarcape/main.c"), ("commands of the server", "src/radarcape/tb-misc.c, src/radarcape/tb-rshell.c"), ("FPGA and watchdog", "src/radarcape/fpga.c, src/radarcape/watchdog.c")], [], ["trapped register accesses", "bytes on the serial lines", "bytes seen by a fake server", "programs executed", "exit status"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
