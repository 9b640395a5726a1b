#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements are readable)."""
import json, os
P = []


def p(id, title, st, over, qt, why, files, mech, state=(), obs=(), hook=None):
    d = dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=qt), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if obs:
        d['anchors']['observe_at'] = list(obs)
    d['anchors']['hook_needed'] = hook
    assert len(title) <= 80, title
    P.append(d)


p('C01', 'Escaping of outgoing data is exact, bounded and lossless',
  'Encoding a block of bytes for the wire yields exactly that block with every synchronisation byte (0x1a) doubled and every other byte unchanged and in order, and the reported length is the input length plus the number of 0x1a bytes. Nothing outside that many output bytes is written, whatever the block contains. Undoubling the result gives back the block.',
  ['inputs'], 'for every byte string, including empty, all-0x1a, and 0x1a at the ends',
  'the only use in tests is through a handful of fixed messages; the set of byte strings and 0x1a positions is exponential',
  ['src/core/beast.c', 'src/core/beast.h'], [('escaping encoder', 'src/core/beast.c: BEAST_encode')],
  obs=['output buffer and returned length of BEAST_encode'], hook='loop annotation (OPENSKY_VERIF)')

p('C02', 'Receiver stream is decoded to exactly the frames it contains',
  'For every byte stream delivered in any segmentation, each frame handed on is one well-formed escaped frame of the stream: its type, its raw bytes, and the unescaped timestamp, signal level and payload are exactly those bytes, frames come in stream order, and no well-formed frame that starts in synchronisation is skipped. After garbage, an unescaped synchronisation byte inside a frame or an unknown type, decoding restarts at the next unescaped synchronisation byte. Nothing is ever written beyond the frame record, and failure is reported only when the input itself failed.',
  ['inputs', 'histories'], 'for every receiver byte stream, every segmentation into reads, and a read failure at any byte',
  'tests feed about a hundred fixed streams through a mock; they cannot cover all streams, all positions of 0x1a and all read boundaries',
  ['src/radarcape/rc-parser.c', 'src/radarcape/rc-input.h'],
  [('frame reader', 'src/radarcape/rc-parser.c: INPUT_getFrame'), ('unescaping', 'src/radarcape/rc-parser.c: decode'),
   ('resynchronisation', 'src/radarcape/rc-parser.c: synchronize')],
  state=[('input window', 'bytes read but not yet consumed', 'src/radarcape/rc-parser.c: buf, bufCur, bufEnd')],
  obs=['frames returned to the receive loop', 'raw frame length', 'parser statistics'])

p('C03', 'GPS receiver packets are unframed exactly, within bounds',
  'For every byte stream delivered in any segmentation, each packet handed on is the unescaped content of one DLE-delimited packet of the stream (identifier first, doubled DLE collapsed, terminated by an unescaped DLE-ETX) and its length is the number of those bytes. A packet that does not fit the caller buffer is never handed on and never written beyond it; decoding then resumes with a later packet. A zero length is returned only when the input failed.',
  ['inputs', 'histories'], 'for every byte stream, segmentation, buffer size and read failure point',
  'the existing tests do not exercise this parser at all',
  ['src/trimble/trimble_parser.c', 'src/trimble/trimble_parser.h'],
  [('packet reader', 'src/trimble/trimble_parser.c: TRIMBLE_PARSER_getFrame')],
  obs=['returned packet and length', 'caller buffer bounds'])

p('C04', 'Only trustworthy GPS fixes become the sensor position',
  'A position reaches the position service only from a complete timing packet of the GPS receiver that reports no critical alarm, no test mode, the overdetermined clock mode, normal discipline, no self survey and a valid decoding state. The position passed on is exactly the latitude and longitude of that packet converted from radians to degrees and its altitude. No other packet, of any type, length or content, changes the position, and after every (re)connection of the GPS receiver the earlier fix no longer counts.',
  ['inputs'], 'for every packet the GPS receiver may send, of any identifier, length and content',
  'no test sends a packet through this path; the acceptance conditions span several 16-bit flag words',
  ['src/trimble/trimble_recv.c'], [('packet dispatch and acceptance', 'src/trimble/trimble_recv.c: posFrame/mainloop')],
  obs=['calls to the position service'])

p('C05', 'The frame buffer neither loses, duplicates nor reorders frames',
  'Every frame storage cell is at any time in exactly one place: free, queued, being filled by the producer, or being delivered by the consumer. A committed frame is delivered to the consumer unchanged, in commit order, exactly once unless it is returned, discarded by the overload rule or flushed; a frame returned after a failed delivery is delivered again before all younger frames. This holds for every interleaving of producer, consumer and housekeeping.',
  ['schedules', 'histories'], 'for all sequences and interleavings of take, commit, abort, get, release, put back, flush and housekeeping',
  'tests run fixed single-threaded sequences; interleavings and long histories are out of their reach',
  ['src/core/buffer.c', 'src/core/buffer.h'],
  [('producer side', 'src/core/buffer.c: BUF_newFrame, BUF_commitFrame, BUF_abortFrame'),
   ('consumer side', 'src/core/buffer.c: BUF_getFrame, BUF_getFrameTimeout, BUF_releaseFrame, BUF_putFrame'),
   ('mutual exclusion', 'src/core/buffer.c: mutex')],
  state=[('queue', 'frames waiting for delivery', 'src/core/buffer.c: queue'), ('pool', 'free cells', 'src/core/buffer.c: pool')],
  obs=['frames returned by BUF_getFrame*'])

p('C06', 'Overload discards only the oldest frames and memory stays bounded',
  'When a new frame is needed and no free cell is left, additional memory is taken only up to the configured number of pools, and only if history is enabled; otherwise exactly the oldest undelivered frame is discarded, so the producer never blocks and never fails. Every discarded frame is counted and no younger frame is lost while an older one is kept.',
  ['histories', 'configurations'], 'for every buffer configuration and every state of queue and pools',
  'tests cover a few small configurations with fixed sequences',
  ['src/core/buffer.c'], [('pool exhaustion policy', 'src/core/buffer.c: BUF_newFrame, getFrameFromPool, createDynPool')],
  obs=['statistics', 'queue contents'])

p('C07', 'Flushing and garbage collection give back memory without losing frames',
  'Flushing empties the backlog and makes all its cells reusable, and the automatic flush happens only when history is disabled. Housekeeping releases an additional pool only when every cell of it is free, leaves queued frames and frames in use untouched and in order, and afterwards every cell is again in exactly one place. The configured housekeeping interval and fill level never make the daemon fail.',
  ['histories', 'configurations', 'schedules'], 'for every distribution of cells over pools, queue and users when flushing or housekeeping runs',
  'tests check a few fixed distributions; the freed pools depend on which of many cells are in use',
  ['src/core/buffer.c', 'src/util/list.h'], [('flush', 'src/core/buffer.c: BUF_flush, BUF_flushUnlessHistoryEnabled'),
   ('housekeeping', 'src/core/buffer.c: BUF_runGC, collectPools, destroyUnusedPools, uncollectPools')],
  obs=['pool and queue contents', 'released memory'])

p('C08', 'Frames are forwarded exactly when the configured filter says so',
  'A frame passes if and only if the receiver clock is synchronised or the synchronisation filter is off, it is a short or long Mode-S frame, and the extended-squitter-only filter is off or its downlink format is 17 or 18. Every decision follows the most recent filter settings and synchronisation state, a reset clears the synchronisation state, and changing the squitter filter reconfigures the receiver. The statistics count every frame, rejection and reason exactly once.',
  ['inputs', 'histories', 'configurations'], 'for all frame types, first payload bytes, configurations, and histories of setting changes',
  'no test covers all 32 downlink formats against all settings, nor histories of setting changes',
  ['src/core/filter.c', 'src/core/filter.h'], [('filter decision', 'src/core/filter.c: FILTER_filter'), ('setters', 'src/core/filter.c: FILTER_set*')],
  state=[('filter settings', 'squitter mask, synchronisation filter, synchronised', 'src/core/filter.c')],
  obs=['result of FILTER_filter', 'statistics'])

p('C09', 'The receive loop commits exactly the passing frames, unchanged',
  'For every sequence of frames from the receiver, exactly those passing the filter are committed to the buffer, as received and in order, and every other frame storage is given back. A status frame with a non-zero timestamp marks the receiver synchronised before any later frame is judged, and after every (re)connection the stream counts as unsynchronised until then. When the input fails, no half-received frame is committed and the input is disconnected and connected again; stopping the receiver at any point gives back the frame storage in use and disconnects the input.',
  ['histories', 'fault_sequences'], 'for every sequence of frames and input failures',
  'tests run a few fixed sequences through a mock input',
  ['src/core/recv.c'], [('receive loop', 'src/core/recv.c: mainloop')],
  obs=['calls to buffer and filter'])

p('C10', 'The relay delivers every buffered frame or keeps it',
  'After every (re)connection the sensor logs in before any frame is sent, and if login fails nothing is sent. A frame taken from the buffer is released only after it was sent completely; if sending fails, or the relay is stopped meanwhile, it is put back at the head of the buffer. When no frame arrives in time exactly one keep-alive message is sent, and the backlog is flushed at connection only when history is disabled.',
  ['histories', 'fault_sequences'], 'for every sequence of frames, timeouts and connection failures',
  'no test runs the relay; the property ranges over all failure points',
  ['src/core/relay.c'], [('relay loop', 'src/core/relay.c: mainloop')],
  obs=['calls to network and buffer'])

p('C11', 'Commands from the server are reassembled and dispatched exactly',
  'For every byte stream from the server in every segmentation, each well-formed command (length 4 to 128) is dispatched exactly once, in order, with exactly its payload, and only to the processor registered for its type and only if the payload has the registered length. A malformed length discards the buffered input, unknown types are skipped, and nothing is written or read outside the receive buffer. Bytes of an old connection never become part of a command of a new one.',
  ['inputs', 'histories', 'fault_sequences'], 'for every server byte stream, segmentation, set of registered processors and connection failure',
  'the talkback code has no test',
  ['src/core/tb.c', 'src/core/tb.h'], [('reassembly and dispatch', 'src/core/tb.c: mainloop, packet'), ('registration', 'src/core/tb.c: TB_register, TB_unregister')],
  state=[('receive buffer', 'bytes of an incomplete command', 'src/core/tb.c: mainloop')], obs=['processor invocations'])

p('C12', 'Remote commands change only what they say',
  'The remote filter command changes exactly the settings selected by its mask, to the values in its value bits, and resets the synchronisation state only if asked to. The remote shell command passes on exactly the address and port the server sent. Other remote commands trigger exactly their documented program with its fixed arguments.',
  ['inputs'], 'for all payload bytes of each command',
  'the command handlers have no test',
  ['src/core/tb.c', 'src/radarcape/tb-rshell.c', 'src/radarcape/tb-misc.c', 'src/util/proc.c'],
  [('filter command', 'src/core/tb.c: packetConfigureFilter'), ('remote shell', 'src/radarcape/tb-rshell.c'), ('system commands', 'src/radarcape/tb-misc.c')],
  obs=['filter settings', 'program arguments'])

p('C13', 'The sensor identifies itself completely and correctly at login',
  'Login sends, in this order, the device identification with type and version, the serial number, the position if known, and the user name if one is configured, each as one correctly framed and escaped message with big-endian fields. The user name message carries the name, zero-padded to its fixed width. As soon as one message cannot be sent nothing further is sent and login is reported as failed; otherwise it is reported as successful.',
  ['inputs', 'configurations', 'fault_sequences'], 'for all device types, serial numbers, user names and send failures',
  'no test covers login; escaping depends on the values of serial number and name',
  ['src/core/login.c', 'src/core/beast.c', 'src/util/endec.h'], [('login', 'src/core/login.c: LOGIN_login')],
  obs=['bytes passed to the network layer'])

p('C14', 'The current position is reported whenever the server needs it',
  'Whenever the server has asked for a position and one is known, it is sent as one framed and escaped message holding latitude, longitude and altitude as big-endian IEEE doubles; if no position with a fix is known yet, the report is owed and made as soon as one is, and stays owed while sending it fails, also when the GPS receiver reconnects meanwhile. A position without fix is never reported. No position is reported when none was asked for.',
  ['inputs', 'histories', 'fault_sequences'], 'for all positions and all histories of setting, requesting, resetting and failed sends',
  'tests cover a handful of fixed sequences and values',
  ['src/core/gps.c', 'src/core/gps.h'], [('position service', 'src/core/gps.c')],
  state=[('request flag', 'a report is still owed', 'src/core/gps.c')], obs=['messages passed to the network layer'])

p('C15', 'Connections are shut down and renewed without leaks or stale use',
  'For every order in which the sender, the receiver and the connector notice failures, at most one server connection is alive, each opened socket is closed exactly once (at the latest when the daemon stops), no socket is used after it was closed, and a new connection is made only after the old one was shut down, of which at most one not yet noticed socket remains. Statistics report online state and disconnects accordingly. No such order makes the daemon abort.',
  ['schedules', 'fault_sequences'], 'for all interleavings of connect, send failure, receive failure and end of stream',
  'the connection handling has no test; its state depends on the interleaving of three threads',
  ['src/core/network.c'], [('connection state machine', 'src/core/network.c: mainloop, emitDisconnect, NET_waitConnected'), ('mutual exclusion', 'src/core/network.c: mutex')],
  state=[('connection state', 'connected, disconnected, shutting down', 'src/core/network.c')], obs=['socket system calls', 'statistics'])

p('C16', 'A send delivers all bytes in order or reports failure',
  'Sending a block hands exactly its bytes, once and in order, to the connection however often the operating system accepts only a part, and success is reported only when all were accepted. Receiving returns exactly the bytes the operating system delivered. A failed or ended transfer is reported as failure and drops the connection, and byte counters count exactly the bytes of completed transfers.',
  ['inputs', 'fault_sequences'], 'for every block length, every sequence of partial transfers and every failure point',
  'no test covers partial sends or failures',
  ['src/core/network.c', 'src/radarcape/network.c', 'src/radarcape/uart.c', 'src/trimble/trimble_input_uart.c', 'src/trimble/trimble_input_network.c'],
  [('server send and receive', 'src/core/network.c: trySend, NET_send, NET_receive'), ('receiver transports', 'src/radarcape/network.c, uart.c')],
  obs=['send and recv system calls', 'results'])

p('C17', 'A configuration file is read safely and means what it says',
  'For every file content the reader stays within the file and within its variables and terminates. Every well-formed line assigns exactly its value, converted according to the type of the option, to the option of that name in that section and to no other; malformed lines and unknown names change nothing, and options not mentioned keep their defaults. Values that do not fit the type or the storage are rejected.',
  ['inputs'], 'for every file content, including empty files, missing final newline, missing "=", CRLF line ends and over-long values',
  'no test covers the configuration reader',
  ['src/util/cfgfile.c', 'src/util/cfgfile.h'], [('parser', 'src/util/cfgfile.c: readCfg and parse functions')],
  obs=['option variables', 'memory accesses'])

p('C18', 'Configuration written out can be read back unchanged',
  'Writing a configuration section and reading it back yields the same values for every option type and value. Only options that are worth saving are written, each under its own section and name. Setting an option programmatically yields exactly the given value and never leaves a string unterminated.',
  ['inputs', 'configurations'], 'for all option values',
  'no test covers writing or the setters',
  ['src/util/cfgfile.c'], [('writer', 'src/util/cfgfile.c: CFG_write*'), ('setters', 'src/util/cfgfile.c: CFG_set*')],
  obs=['written text', 'option variables'])

p('C19', 'Configuration directories are applied completely and in order',
  'All files of a configuration directory whose name starts with a digit and ends in ".conf", and no others, are read, in the numeric order of their prefixes. A file name never causes an access outside the path buffer. The absence of the directory is not an error.',
  ['inputs', 'configurations'], 'for all directory contents and file names',
  'no test covers the directory handling',
  ['src/util/cfgfile.c'], [('directory filter and order', 'src/util/cfgfile.c: CFG_readDirectory')], obs=['files opened'])

p('C20', 'List operations keep exactly the intended elements in order',
  'Every list operation of all four list kinds yields a well-formed list whose elements, order and reported length are exactly those of the mathematical operation, also on empty and single-element lists and when the element is the first or last. Elements not involved are untouched, and joined or split lists together hold every element exactly once.',
  ['inputs', 'histories'], 'for all lists and all element positions',
  'the tests check many operations, but on fixed small lists and not joined with one another',
  ['src/util/list.h'], [('list primitives', 'src/util/list.h')], obs=['head, tail, links and length'])

p('C21', 'Components start after their dependencies and stop before them',
  'Components are registered once each with all their dependencies, initialised and started only after everything they depend on, and stopped and destroyed in the opposite order. If one fails to initialise or to start, exactly those already initialised or started are taken down again, and failure is reported.',
  ['configurations', 'fault_sequences'], 'for every dependency graph and every failing component',
  'the component code has no test of ordering or failures',
  ['src/util/component.c', 'src/util/component.h'], [('component life cycle', 'src/util/component.c')], obs=['component callbacks'])

p('C22', 'Numbers travel in network byte order and survive the round trip',
  'Every integer and floating-point value is encoded into exactly its width in big-endian order, most significant byte first, and decoding that gives back exactly the value, bit for bit. Decoding is insensitive to alignment, and encoding touches no other byte.',
  ['inputs'], 'for all values of each width',
  'no test covers the encoders, and a test cannot cover 2^64 values',
  ['src/util/endec.h'], [('encoders and decoders', 'src/util/endec.h')], obs=['encoded bytes, decoded values'])

p('C23', 'Frames submitted through the libraries are encoded faithfully',
  'A submitted frame of 7 or 14 payload bytes enters the buffer as one frame whose type matches the payload length and whose escaped bytes carry exactly the given timestamp, signal level and payload. Any other length, and any frame that does not pass the filter or comes before the library is ready, leaves the buffer unchanged. The raw frame never exceeds its storage.',
  ['inputs', 'histories'], 'for all timestamps, signal levels, payloads and lengths',
  'tests submit a few dozen fixed frames',
  ['src/gplib/opensky.cc', 'src/radarcape/lib/opensky.cc'], [('frame submission', 'src/gplib/opensky.cc: submitFrame'), ('frame submission', 'src/radarcape/lib/opensky.cc: output_message')],
  obs=['buffer contents'])

p('C24', 'The device serial number is stable and never fabricated',
  'The serial number of a device is exactly the low 31 bits of the last four bytes of its MAC address, or the number assigned by the server, and the same is returned on every later call. If it cannot be determined, failure is reported to every caller and no number is presented as the serial number. A requested number is accepted only from a well-formed server answer, is requested once per connection, and is stored for the next start.',
  ['inputs', 'histories', 'fault_sequences'], 'for all MAC addresses, server answers and failures of system calls',
  'no test covers serial numbers',
  ['src/util/serial_eth.c', 'src/dump1090/req-serial.c', 'src/core/serial.h'], [('MAC address', 'src/util/serial_eth.c'), ('server assigned number', 'src/dump1090/req-serial.c')],
  obs=['serial number presented at login'])

p('C25', 'The FPGA is configured with exactly the bitstream',
  'Programming clocks out every bit of the configuration file exactly once, in file order and least significant bit first, with data stable at the rising clock, and only on the pins assigned to that purpose. It stops as soon as the FPGA reports an error, reports success only after the FPGA confirmed, and leaves no file mapping or other pin changed. No file name makes it access memory out of bounds.',
  ['inputs', 'fault_sequences'], 'for every bitstream, file name and FPGA error point',
  'hardware access has no test',
  ['src/radarcape/fpga.c', 'src/radarcape/gpio.c'], [('programming', 'src/radarcape/fpga.c: FPGA_program'), ('pin access', 'src/radarcape/gpio.c')],
  obs=['GPIO register writes'])

p('C26', 'Invalid site configuration never starts a feeder',
  'The feeder starts only with a configured position inside the valid range of latitude, longitude and altitude, and then reports exactly that position. A random delay or number is always below its requested bound. Command line logging and thread naming never exceed their buffers, whatever the arguments.',
  ['inputs', 'configurations'], 'for all configured positions, bounds and argument lists',
  'no test covers these helpers',
  ['src/dump1090/position.c', 'src/dump1090/devtype.c', 'src/util/util.c', 'src/util/proc.c'],
  [('position check', 'src/dump1090/position.c'), ('random numbers', 'src/util/util.c'), ('process helper', 'src/util/proc.c')],
  obs=['start result', 'reported position'])

p('C27', 'The daemon makes progress and never deadlocks',
  'For every schedule and every finite number of connection failures, buffered frames are eventually sent while the server is reachable, and no set of threads waits for each other forever.',
  ['schedules', 'fault_sequences'], 'for all thread schedules and failure sequences',
  'no test runs the threads concurrently',
  ['src/core/network.c', 'src/core/buffer.c', 'src/core/relay.c'], [('condition variables', 'src/core/network.c, src/core/buffer.c')],
  obs=['frames sent'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P))
