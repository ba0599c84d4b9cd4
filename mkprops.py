#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so that the records stay readable)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

BS = ["inc/midi/midi1_byte_stream.h", "src/midi1_byte_stream.cpp"]
COL = ["inc/midi/sysex_collector.h", "src/sysex_collector.cpp"]
SX = ["inc/midi/sysex.h", "src/sysex.cpp"]
JR = ["inc/midi/jitter_reduction_timestamps.h", "src/jitter_reduction_timestamps.cpp"]
CI = ["inc/midi/capability_inquiry.h", "src/capability_inquiry.cpp", "inc/midi/universal_sysex.h", "src/universal_sysex.cpp"]

p("C01", "MIDI 1 byte stream parsing is right for every byte history",
  "Fed any sequence of bytes, cut into feed calls in any way, the MIDI 1 byte stream parser reports exactly the channel voice, system common and system real time messages a MIDI 1.0 receiver has to recognise (running status kept, system common and SysEx cancel it, undefined status bytes and stray data bytes produce nothing), each exactly once, in order, with the configured group and the received data bytes, during the feed of the byte that completes it and only while callbacks are enabled. Lost, duplicated or corrupted bytes or a reset never affect anything after the next status byte.",
  ["inputs", "histories", "fault_sequences"], "all byte sequences, chunkings, link faults (loss, duplication, corruption, truncation) and reset / enable / group changes between messages",
  "The unit tests feed a few dozen hand-written streams; the parser is a state machine whose behaviour depends on the whole byte history.",
  BS, [("state machine over running status / missing bytes", "midi1_byte_stream_parser::feed"), ("reset", "midi1_byte_stream_parser::reset")],
  ["packet callback of the parser"], [dict(name="m_packet,m_packet_byte,m_num_missing_bytes", meaning="message in progress / running status", where="inc/midi/midi1_byte_stream.h")])

p("C02", "System real time bytes are transparent wherever they fall",
  "Inserting system real time bytes at any positions of a MIDI 1 byte stream - between the bytes of a channel or system common message, before running status data, inside a SysEx - makes the parser report each defined one immediately, in order, and drop each undefined one, and changes nothing else that is reported: the remaining packets and SysEx messages are identical to those of the stream without them.",
  ["schedules", "histories"], "all streams and all interleavings of real time bytes into them, in both SysEx delivery modes",
  "Tests insert a clock byte at two or three fixed positions; the guarantee is about every position in every parser state.",
  BS, [("real time bytes handled before any state is touched", "midi1_byte_stream_parser::feed / system_realtime")],
  ["packet callback", "SysEx callback"])

p("C03", "SysEx in a byte stream is delivered whole, once, or not at all",
  "For every MIDI 1 byte stream, a SysEx with a complete manufacturer ID that is closed by its end byte is delivered exactly once with exactly its manufacturer ID and data bytes, of any length; one that is cut off by another status byte, a reset or the end of the stream - or, with a SysEx callback, that began while callbacks were disabled - is never reported as a complete message, and none ever contaminates a later one. Delivery through the SysEx callback and delivery as packets (one complete packet, or start, continue..., end, at most six bytes each, with the parser's group) carry the same bytes.",
  ["inputs", "histories", "fault_sequences"], "all SysEx lengths and contents, abort points, real time interleavings, callback enable/disable histories (between messages in packet mode), both delivery modes",
  "Tests use a handful of messages of fixed lengths; buffer growth, packet boundaries and aborts at every offset are not sampled.",
  BS + COL, [("collect to buffer / six byte packets", "sysex_start, sysex_continue_callback, sysex_continue_packet, sysex_end_callback, sysex_end_packet")],
  ["packet callback", "SysEx callback"])

p("C04", "SysEx7 messages survive packetisation and collection",
  "Every SysEx7 message with a valid manufacturer ID and 7 bit data, of any length, when sent as packets on its group and collected at the receiver, arrives exactly once, identical and in order, however the packets of different groups and of all other message types are interleaved on the link, and whatever was received before it. The packets form one complete packet or start, continue..., end, each on the message's group with at most six payload bytes and no empty packet for a non-empty message. Messages of other senders that fill their packets differently arrive just as well, and the library's own readers, comparisons and predicates (packet views, numbers, 7 bit, validity) tell of packets and messages what they contain.",
  ["inputs", "schedules", "histories"], "all messages and lengths, all packet interleavings across 16 groups and packet types, all prior histories of the collector, in the three memory configurations",
  "Tests send about ten fixed messages one after another through one collector.",
  SX + COL + ["inc/midi/data_message.h"], [("fragmentation", "send_sysex7 / as_sysex7_packets"), ("reassembly", "sysex7_collector::feed")],
  ["sender callback", "collector callback"])

p("C05", "SysEx8 messages survive packetisation and parallel streams",
  "Every SysEx8 message with a valid manufacturer ID and arbitrary 8 bit data, of any length, when sent as packets with its group and stream id and collected at the receiver by a collector per stream, arrives exactly once, identical, in order and with its stream id, however the packets of parallel streams and of other message types are interleaved and whatever was received before it. The packets form one complete packet or start, continue..., end, each with the message's stream id and group and at most thirteen payload bytes. Messages of other senders that fill their packets differently arrive just as well, and the library's own readers, comparisons and predicates tell of packets and messages what they contain.",
  ["inputs", "schedules", "histories"], "all messages and lengths, all interleavings of parallel streams and groups, in the three memory configurations",
  "Tests send a few fixed messages; lengths at packet boundaries and interleaved streams are mostly not covered.",
  SX + COL + ["inc/midi/extended_data_message.h"], [("fragmentation", "send_sysex8 / as_sysex8_packets"), ("reassembly", "sysex8_collector::feed")],
  ["sender callback", "collector callback"])

p("C06", "SysEx7 collection under packet faults never invents a message",
  "For every sequence of packets - with packets lost, duplicated, reordered, truncated or corrupted, resets in between - the SysEx7 collector reports exactly one message for each complete packet and for each start, continue..., end run of SysEx7 packets not broken by another start, complete or stray packet, made of exactly the manufacturer ID and payload bytes of that run, during the feed of its last packet. A run that ends before its manufacturer ID is complete carries no data, anything else reports nothing, packets that are not SysEx7 have no effect, and the next intact message after any fault is reported correctly.",
  ["fault_sequences", "histories"], "all packet sequences and fault sequences",
  "Tests cover three malformed sequences; the collector's outcome depends on the whole packet history.",
  COL + ["inc/midi/data_message.h"], [("sequence state", "sysex7_collector::feed / reset")], ["collector callback"],
  [dict(name="m_state,m_manufacturerIDBytesRead,m_sysex7", meaning="run in progress", where="inc/midi/sysex_collector.h")])

p("C07", "SysEx8 collection under packet faults never mixes or invents",
  "For every sequence of packets - with packets lost, duplicated, reordered, truncated or corrupted, several streams on one collector, resets in between - the SysEx8 collector reports exactly one message for each complete packet and for each start, continue..., end run with one stream id not broken by another start or complete packet, made of exactly the manufacturer ID and payload bytes of that run (no data if the ID is incomplete) and reported with its stream id. Continue or end packets of other streams in between are ignored, bytes of two streams are never mixed, and the next intact message after any fault is reported correctly.",
  ["fault_sequences", "histories", "schedules"], "all packet sequences, stream interleavings and fault sequences",
  "Tests cover a few malformed sequences with one or two streams.",
  COL + ["inc/midi/extended_data_message.h"], [("sequence and stream state", "sysex8_collector::feed / reset")], ["collector callback"])

p("C08", "The SysEx size limit is enforced and heals after an oversized message",
  "With a maximum data size configured on a SysEx7 or SysEx8 collector, at any time and to any value, no message begun after that with more data bytes than the limit is ever reported, every intact message whose data fits is reported unchanged, and an oversized message - wherever it crosses the limit, and whether or not its end arrives - has no influence on the messages after it.",
  ["inputs", "histories", "fault_sequences"], "all limits for which memory can be reserved, limit changes at any time, message sizes around the limit, link faults on oversized messages",
  "Tests check one oversized message with one limit on a fresh collector.",
  COL, [("limit check", "sysex7_collector::feed, sysex8_collector::feed, set_max_sysex_data_size")], ["collector callback"])

p("C09", "A throwing or resetting application callback never corrupts the stream",
  "When an application callback of the byte stream parser or of a SysEx collector ends with an exception, the exception reaches the caller of feed, the message counts as reported, and everything fed afterwards is reported exactly as if the callback had returned normally. A callback that calls reset drops the message in progress and nothing after it.",
  ["fault_sequences", "histories"], "all streams and all sets of callback invocations that throw or reset",
  "No test lets a callback throw or call back into the object.",
  BS + COL, [("state left behind when a callback does not return", "every m_packet_callback / m_sysex_callback / m_cb call site")], ["parser and collector callbacks", "exceptions leaving feed"])

p("C10", "Failed allocations lose nothing and corrupt nothing",
  "If memory allocation fails while a SysEx is collected by the byte stream parser or by a SysEx collector, or while a message is built, copied or packetised, the failure is reported to the caller as an exception, no memory is leaked or touched out of bounds, and feeding the same byte or packet again once memory is available continues as if nothing had happened: every message is still reported exactly once and unchanged. Dropping the failed packet instead is no worse than losing it on the link together with the rest of its message; later messages are unaffected.",
  ["fault_sequences", "histories"], "all allocation failure patterns at all points of all streams, in the three memory configurations",
  "No test lets an allocation fail.",
  BS + COL + SX, [("reserve before consuming", "sysex7_collector::feed, sysex8_collector::feed, sysex_continue_callback")], ["exceptions leaving feed", "callbacks", "allocator"])

p("C11", "All SysEx memory comes from the configured allocator and goes back to it",
  "Whatever is sent, collected, copied, moved, limited, reset or destroyed, and whatever faults happen on the way, every block of SysEx data memory is obtained from the memory source configured for the library (heap, the default memory resource, or the user supplied data allocator) and is returned to it exactly once with the size it was requested with, and after all objects are gone nothing is outstanding. Building a SysEx on an explicitly given memory resource uses that resource and no other.",
  ["configurations", "histories", "fault_sequences"], "the three memory configurations, all object histories, with allocation and callback faults",
  "Tests only count that the custom allocator is called at all.",
  SX + COL + BS, [("data_type / data_allocator / pmr arguments", "inc/midi/sysex.h")], ["allocator calls"])

p("C12", "Jitter reduction keeps messages in order and not before their arrival",
  "For a sender that stamps its messages in order over a link with arbitrary, varying delays and lost clock messages, the times scheduled by the jitter reduction follower never go backwards, as long as the receiver's clock does not and the security offset is not lowered by the user. Unless the user lowered the offset, a message whose transit time lies within the range of transit times of the clock messages seen so far is never scheduled before it was received.",
  ["schedules", "fault_sequences", "histories"], "all delay, loss and clock sequences, clock drift, timestamp wrap around",
  "Tests replay a few fixed arrival patterns.",
  JR, [("m_message_time monotonicity", "process_clock, schedule_message"), ("security offset from observed jitter", "update_stats, recalc_security_offset")], ["schedule_message return value", "security_offset()"])

p("C13", "Jitter reduction restores the sender's timing",
  "Between two clock messages the follower schedules each message at the sender's timestamp shifted by the smallest transit time observed from clock messages so far plus the current security offset, later only as far as needed to stay behind the previous message and the last clock's arrival; on a link with constant delay the sender's spacing is reproduced exactly. Reported jitter is at least the observed spread of clock transit times and zero if there is none, the security offset is at least 1.2 times the jitter and never shrinks by itself, before the first clock messages are scheduled at arrival plus offset, and reset restores the initial state.",
  ["schedules", "fault_sequences", "histories"], "all delay and loss sequences with clock gaps below the 16 bit wrap, all reset and offset histories",
  "Tests replay a few fixed arrival patterns.",
  JR, [("reference time tracking", "process_clock"), ("timestamp difference modulo 2^16", "jr_timestamp_t::operator-")], ["schedule_message return value", "jitter()", "security_offset()"])

p("C14", "The jitter reduction clock counts real time at 31250 Hz",
  "The jitter reduction clock's timestamp always equals the elapsed time of the underlying clock since its first use in units of 1/31250 s, rounded down, modulo 65536, for any sequence of reads not before that first use, and the difference of two timestamps taken less than 65536 ticks apart is the number of ticks between them. Clock and timestamp messages carry the timestamp unchanged across a link.",
  ["histories", "schedules"], "all read schedules including wrap around, long pauses and clock steps",
  "Tests read the real clock and can only check rough bounds.",
  JR + ["inc/midi/utility_message.h"], [("tick conversion", "jr_clock::now"), ("big endian timestamp fields", "jr_message")], ["jr_clock::now()", "packets"])

p("C15", "Checked MIDI-CI and SysEx views are safe on anything a link delivers",
  "For every SysEx a device can receive - truncated, corrupted, spliced from several messages, empty or with lying length fields - asking whether it is of a given universal SysEx or MIDI-CI message type is always safe and reads nothing outside the message, and if the answer is yes, every accessor of that view reads only inside the message and every data range or count it returns lies within it. The answer is yes only if manufacturer, message category and subtype are those of the type. Category, subtype and device id told of a message are its bytes, and property exchange data is accepted only with consistent chunk numbers (not beyond the announced number, no header after the first chunk, no data in chunk 0).",
  ["inputs", "fault_sequences"], "all SysEx contents and all link fault sequences on all MIDI-CI message types",
  "Tests check views on well-formed messages and a few short ones.",
  CI, [("validate", "every *_view::validate in capability_inquiry.h/.cpp, universal_sysex.h")], ["as<view>(), validate(), accessors under AddressSanitizer"])

p("C16", "A MIDI-CI conversation conveys exactly what was said",
  "Every MIDI-CI and universal SysEx message made by the library's factory functions - of any size its length fields allow, over UMP packets or a MIDI 1 byte stream, with any interleaving and fragmentation on the way - is recognised at the receiver as a message of its type and no other type, with exactly the field values, lists, headers and data it was made with; re-addressing a message (source, destination, device id) changes nothing else in it. A conversation (discovery, profile, property exchange in chunks, process inquiry, ack/nak) in which lost messages are repeated therefore ends with both sides knowing each other's data exactly.",
  ["inputs", "schedules", "fault_sequences"], "all field values (property exchange header values that need no JSON escaping), payload sizes, transports, interleavings and sequences of lost and repeated messages",
  "Tests check factories and views separately on fixed values, never across a transport.",
  CI + SX + COL + BS, [("message layout", "factories and views of capability_inquiry.h"), ("transport", "send_sysex7, collectors, byte stream parser")], ["as<view>() accessors at the receiver"])

p("C17", "Packets written to a text stream are read back exactly or reported missing",
  "Packets written to an output stream, in whatever formatting state (flags, width, fill character) the stream is, and read back from it in any chunking are identical and in order, and writing or reading leaves the stream's formatting state as it was. If the stream ends or fails after some but not all words of a packet, the read that meets it is reported as failed; a packet is never reported as read unless all its words were read.",
  ["inputs", "fault_sequences", "crash_points"], "all packet sequences, stream formatting states (classic locale, whitespace skipped), chunkings and end-of-stream or error positions between words",
  "Tests read and write a few packets on healthy string streams.",
  ["src/universal_packet.cpp", "inc/midi/universal_packet.h"], [("operator<< / operator>>", "src/universal_packet.cpp")], ["stream content and state"])

p("C18", "Endpoint and function block names survive fragmentation",
  "Endpoint names and function block names of any UTF-8 content without NUL, and product instance ids of ASCII content up to 16 characters, sent as packets and reassembled from the packet views by format in order of arrival are identical at the receiver, however the packets of the different names and blocks are interleaved with each other and with other messages. Each is sent as one complete packet, or start, continue..., end, so that it is never seen as complete before its last packet arrived.",
  ["inputs", "schedules", "fault_sequences"], "all names and lengths, all interleavings of concurrent senders, packet loss",
  "Tests send a few ASCII names and compare packets.",
  ["inc/midi/stream_message.h"], [("fragmentation", "send_endpoint_name, send_product_instance_id, send_function_block_name"), ("payload access", "stream_message::payload_as_string, *_view")], ["sender callback", "views"])

p("C19", "UMP to MIDI 1 byte stream and back loses nothing",
  "Every well-formed system or MIDI 1 channel voice packet and every well-formed SysEx7 packet sequence on a group, converted to MIDI 1 bytes, sent over a serial line in any chunking with real time messages squeezed in anywhere, and parsed at the far end, comes out as the same sequence of messages with the same contents, a SysEx the sender cut off being the only thing missing; packets with no MIDI 1 form produce no bytes at all, and status bytes that are no message produce no packet. The conversion never writes more than eight bytes and writes exactly as many as it reports.",
  ["inputs", "schedules", "histories"], "all packets, sequences, chunkings, real time interleavings",
  "Tests convert single packets in one direction.",
  BS, [("to_midi1_byte_stream, midi1_byte_stream_size, from_midi1_byte_stream", "inc/midi/midi1_byte_stream.h, src/midi1_byte_stream.cpp")], ["bytes", "packet callback"])

p("C20", "A MIDI 1 / MIDI 2 gateway is lossless for MIDI 1 channel voice streams",
  "A stream of MIDI 1 channel voice messages parsed from bytes, translated to MIDI 2 packets, carried over a link and translated back arrives as the same messages in the same order with the same group, channel, numbers and values - a note on with velocity 0 arriving as a note off with velocity 64 - except the bank select, data entry, (N)RPN and high resolution velocity prefix controllers, which are never translated in either direction; messages lost on the link are the only ones missing. The values are scaled by the MIDI 2.0 bit scaling rule and the protocol independent accessors report the same note, controller, program and scaled values for the original and the translated message. Messages that originate as MIDI 2 arrive with the highest bits of their values (a note on with velocity at least 1) or, if they have no MIDI 1 form (note attributes, bank, per note and registered / assignable controllers), not at all.",
  ["inputs", "schedules", "fault_sequences"], "all MIDI 1 channel voice streams with running status, all loss and interleaving sequences",
  "Tests translate selected messages one at a time.",
  ["inc/midi/channel_voice_message.h", "inc/midi/midi1_channel_voice_message.h", "inc/midi/midi2_channel_voice_message.h", "inc/midi/types.h"] + BS,
  [("translation", "as_midi2_channel_voice_message, as_midi1_channel_voice_message"), ("scaling", "upsample_*, downsample_*")], ["packets on both sides"])

p("C21", "Endpoint discovery ends with the endpoint's exact description",
  "In a UMP endpoint discovery conversation - requests, answers and notifications lost, duplicated and overtaking each other, either side restarting, the description changing - every stream message made by the library is encoded as UMP 1.1 specifies, is understood by the view of its kind and by no other view, and reads with exactly the values it was made with; a request asks for exactly the pieces its filter names. Once the faults stop and nothing changes any more, one round of requests leaves the client with exactly the endpoint's description: UMP version, endpoint information, device identity, name, product instance id, stream configuration, and number, direction, groups (1 to 16 spanned), MIDI 1 / MIDI-CI settings and name of every function block.",
  ["inputs", "schedules", "fault_sequences", "crash_points"], "all endpoint descriptions with field values in their documented ranges, all sequences of lost, duplicated and overtaking messages, restarts and changes",
  "Tests build and read each message once with fixed values; no test holds a conversation.",
  ["inc/midi/stream_message.h"], [("message layout", "make_endpoint_discovery_message ... make_function_block_info_message and their views"), ("filters", "endpoint_discovery_view::requests_*, function_block_discovery_view::requests_*"), ("names", "send_endpoint_name, send_product_instance_id, send_function_block_name")], ["packets", "views at both ends"])

p("C22", "A receiver following a performance has the state the messages describe",
  "For every sequence of MIDI 1 and MIDI 2 channel voice, system, utility and flex data messages made by the library, received in whatever order and multiplicity a link delivers them, each is encoded as UMP specifies, recognised as exactly its kind and no other, and read with exactly its parameters. A receiver that applies them by the library's accessors and calculates with its value types therefore has, for every group and channel, exactly the state those messages describe: notes with velocity, attribute and pitch, controllers including relative changes (which stop at the ends of the range), programs and banks, pressures, bends and their ranges, sounding pitches (bends, ranges and modulations add up and stop at the ends of the pitch range), transport, tempo, signatures, chords and texts of several packets. Values read as float or double lie in their range and convert back to themselves (a 32 bit pitch bend to within one step, 32 bit values from float to float precision), and 7 and 14 bit readings are the highest bits.",
  ["inputs", "schedules", "fault_sequences", "histories"], "all message sequences with field values in their documented ranges, all loss, duplication and overtaking sequences, receiver restarts",
  "Tests make and read single messages with selected values; none follows a sequence.",
  ["inc/midi/channel_voice_message.h", "inc/midi/midi1_channel_voice_message.h", "inc/midi/midi2_channel_voice_message.h", "inc/midi/system_message.h", "inc/midi/utility_message.h", "inc/midi/flex_data_message.h", "inc/midi/types.h", "inc/midi/universal_packet.h"],
  [("factories, predicates, accessors", "channel_voice_message.h and the other message headers"), ("value arithmetic", "inc/midi/types.h")], ["packets", "accessors at the receiver"])

# not applicable to this technique
NA = {}
def na(id, title, statement, text, why, files, mech, reason):
    p(id, title, statement, ["inputs"], text, why, files, mech, [])
    NA[id] = reason

na("N01", "Value scaling is monotonic and exactly invertible",
   "Upscaling a 7 or 14 bit value to 16 or 32 bits and downscaling it again returns the value, minimum, centre and maximum map to each other, scaling is monotonic, and the specialised functions agree with the generic bit-repeat upscaler.",
   "all values", "a pure function of at most 14 bits", ["inc/midi/types.h"], [("upsample_*, downsample_*", "inc/midi/types.h")],
   "Pure functions of one value: no schedule, clock, fault, stream or history for a simulator to control. (Their use inside streams is part of C20 and C22.)")
na("N02", "Float and double conversions are bounded and round trip",
   "Converting any float or double to velocity, pitch bend, controller, pitch or increment saturates at the ends of the range and never wraps, converting back stays within one step, and centre and end points are exact.",
   "all floating point values", "tests sample a few values", ["inc/midi/types.h"], [("impl::from_float_0_1, to_float_0_1, pitch constructors", "inc/midi/types.h")],
   "Pure functions of one value; nothing for a scheduler or fault injector to vary. (Their use by a receiver is part of C22.)")
na("N03", "Pitch and controller arithmetic saturates",
   "Adding increments to pitches and controllers and multiplying pitch bend by sensitivity saturates at the ends of the range and equals exact arithmetic inside it.",
   "all operand pairs", "tests sample a few pairs", ["inc/midi/types.h"], [("operator+, operator+=, operator*", "inc/midi/types.h")],
   "Pure arithmetic of two operands; no schedule, time, fault or history is involved. (Its use by a receiver with a history is part of C22.)")
with open("properties.jsonl", "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["title"]
        f.write(json.dumps(r) + "\n")
with open("na.json", "w") as f:
    json.dump(NA, f, indent=1); f.write("\n")
