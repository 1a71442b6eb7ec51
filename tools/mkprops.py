#!/usr/bin/env python3
"""Generates properties.jsonl (kept as the single source of titles/statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': ' '.join(statement.split()),
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                          'observe_at': list(observe) or ['public API return values and buffers'],
                          'hook_needed': None}})
ALL = ['src/lib.rs'] + ['src/%s.rs' % m for m in 'connect connack publish puback pubrec pubrel pubcomp subscribe suback unsubscribe unsuback ping disconnect'.split()]
BODY = [f for f in ALL if f not in ('src/lib.rs', 'src/ping.rs')]
PROPS = BODY
T = 'the unit tests decode or encode one or two hand-written samples per packet type'

prop('C01', 'Decoding untrusted bytes never panics',
 '''For every byte sequence and every size limit, the packet decoder and the stream framing check return a packet/header or an error:
 no input makes them panic, whether by out-of-range access, arithmetic overflow or underflow, a failed unwrap, or unreachable code.
 The same holds for each packet type's own decoder given one complete frame, and for the public property and sub-structure decoders given any bytes.''',
 ['inputs'], 'all byte strings (any length, any content), all size limits', T + '; a panicking input can be any of 2^n byte strings',
 ALL, [('bounds-checked primitive reads', 'src/lib.rs read_u8/read_u16/read_u32/read_mqtt_bytes'), ('framing check before splitting', 'src/lib.rs check / Packet::read')])
prop('C02', 'Decoding work and memory are bounded by the bytes received',
 '''Decoding always terminates: every pass of every decoding loop consumes at least one byte of input or is bounded by a small constant.
 No memory is reserved in proportion to a length claimed on the wire but not yet received; allocations are bounded by the bytes actually present.''',
 ['inputs'], 'all byte strings', T + ', none adversarial in a length field; non-termination and over-allocation only show on crafted lengths',
 ALL, [('property loops consume one identifier byte per pass', 'src/*.rs *Properties::read'), ('integer decoding stops after four bytes', 'src/lib.rs length')])
prop('C03', 'Incomplete input is left untouched and reported with a usable shortfall',
 '''While the stream holds less than one complete frame, decoding reports insufficient bytes and leaves the stream unchanged, so it can be retried after more data arrives.
 The reported shortfall is at least one and never more than what is really missing, and is exact once the length field is readable.
 Insufficient bytes is never reported once the complete frame is present, nor by the encoder.''',
 ['inputs', 'histories'], 'all prefixes of all byte streams, all ways of chunking a stream',
 'tests always present complete frames', ['src/lib.rs'], [('length check against frame length', 'src/lib.rs check'), ('length field parser', 'src/lib.rs parse_fixed_header/length')])
prop('C04', 'Decoding consumes exactly one frame and nothing of the next',
 '''When a complete frame is present and not refused by its length field or the size limit, decoding removes exactly that frame (fixed header plus declared remaining length) from the front of the stream, whether it succeeds or fails.
 When the frame is refused for its length field or the size limit, nothing is removed.
 The decoded packet is a function of that frame's bytes only: bytes after it neither influence it nor are altered.''',
 ['inputs', 'histories'], 'all streams of concatenated frames', 'tests decode buffers holding exactly one frame',
 ['src/lib.rs'], [('split of one frame off the stream', 'src/lib.rs Packet::read')])
prop('C05', 'The packet size limit is enforced before the body is awaited',
 '''If a limit is given and a readable fixed header declares a remaining length greater than it, decoding fails with the size-limit error carrying the declared length and the limit, even if the body has not arrived, and consumes nothing.
 A packet whose remaining length is at most the limit, or any packet when no limit is given, is never refused for size.''',
 ['inputs'], 'all headers, all limits, all amounts of buffered data', 'tests only pass no limit', ['src/lib.rs'], [('limit test between header parse and completeness test', 'src/lib.rs check')])
prop('C06', 'Variable byte integers are encoded minimally and decoded exactly',
 '''Every length or subscription identifier written as a variable byte integer uses the fewest bytes (one to four), least significant seven-bit group first, continuation bit on all but the last; values above 268435455 are refused.
 Decoding yields exactly the value of the groups and the number of bytes used, and refuses an integer whose fourth byte still has the continuation bit.''',
 ['inputs'], 'all values 0..2^64 on encode, all byte sequences on decode', 'tests only reach one- and two-byte lengths', ['src/lib.rs', 'src/publish.rs', 'src/subscribe.rs'],
 [('integer writer', 'src/lib.rs write_remaining_length'), ('integer reader', 'src/lib.rs length'), ('length of a length', 'src/lib.rs len_len')])
prop('C07', 'The remaining length written equals the bytes that follow it',
 '''For every packet value that encodes successfully, the remaining length in the fixed header equals the number of bytes the encoder emits after the fixed header.''',
 ['inputs'], 'all packet values: every subset of optional fields, every string and list length', T + ', with every property set or none; a length formula can be wrong for one field combination only',
 BODY, [('per-packet length formula next to its writer', 'src/*.rs len() and write()')])
prop('C08', 'Every property length written equals the property bytes that follow',
 '''In every packet that encodes successfully (and in the will of a CONNECT), the property length equals the number of bytes of properties emitted after it; a packet without properties that has a property section states length zero.''',
 ['inputs'], 'all property sets: every subset of fields, every string and list length', T + ', with every property set or none',
 PROPS, [('property length formula next to its writer', 'src/*.rs *Properties::len and write')])
prop('C09', 'Reported sizes equal the bytes written',
 '''The byte count returned by a successful encode equals the number of bytes appended to the buffer.
 Where a packet type reports its encoded size in advance, that equals the number of bytes a successful encode of the same value appends.''',
 ['inputs'], 'all packet values', 'one length_calculation test per type samples one value', BODY + ['src/ping.rs'], [('size() and write() return values', 'src/*.rs')])
prop('C10', 'Encoding only appends: earlier buffer contents are never touched',
 '''Encoding a packet into a buffer that already holds data leaves that data unchanged, and appends the same bytes it would write into an empty buffer, so packets can be batched back to back.''',
 ['inputs', 'histories'], 'all packet values, all prior buffer contents', 'tests encode into empty buffers', ALL, [('append-only writer primitives', 'src/*.rs write'), ('connect flags patched in place', 'src/connect.rs Connect::write')])
prop('C11', 'Encoding never panics',
 '''For every packet value constructible through the public API, encoding it and asking for its size return a value or an error and never panic, including empty lists, zero identifiers, over-long strings and every enum variant.''',
 ['inputs'], 'all packet values (collections and strings below 2^47 bytes)', T + '; most enum variants and no over-long field are tested', ALL, [('exhaustive code tables', 'src/*.rs code()'), ('length conversions checked', 'src/lib.rs write_mqtt_bytes')])
prop('C12', 'A failed encode leaves no partial packet in the buffer',
 '''When encoding a packet through the top-level packet type fails, the buffer holds exactly what it held before the call.''',
 ['inputs'], 'all packet values whose encoding fails', 'no test encodes an invalid packet', ['src/lib.rs'], [('rollback on error', 'src/lib.rs Packet::write')])
prop('C13', 'Values the wire cannot represent are refused, never truncated',
 '''Encoding fails if any string or binary field exceeds 65535 bytes, if the remaining length or a subscription identifier exceeds 268435455, if a PUBLISH with QoS above zero has packet identifier zero, or if a CONNACK carries a return code that does not exist in MQTT 5.
 Encoding every other packet value succeeds.''',
 ['inputs'], 'all packet values', 'no test encodes an oversized or invalid packet', ALL, [('u16 conversion of lengths', 'src/lib.rs write_mqtt_bytes'), ('limit test', 'src/lib.rs write_remaining_length')])
prop('C14', 'Header and payload fields survive an encode/decode round trip',
 '''Decoding an encoded packet gives back the same packet type and the same value of every field outside the property section: identifiers, flags, QoS, codes, topics, client id, keep-alive, will, credentials, filters with their options, code lists and payload, in order.
 The only permitted normalisations are: the packet identifier of a QoS 0 PUBLISH becomes zero, a present but empty property set becomes absent, and credentials with empty user name and password become absent.''',
 ['inputs'], 'all encodable packet values that decode', T, BODY + ['src/ping.rs', 'src/lib.rs'], [('writer and reader in the same file', 'src/*.rs')])
prop('C15', 'Every property survives an encode/decode round trip',
 '''Decoding an encoded packet gives back the same value of every property, present or absent, including the order of user properties and of repeated subscription identifiers, for every combination of properties set, in CONNECT wills as well as packets.''',
 ['inputs'], 'all property sets', T + ', with all properties set and one user property and one subscription identifier', PROPS, [('property writer and reader in the same file', 'src/*.rs *Properties')])
prop('C16', 'Property identifiers and value types are those of the MQTT 5 table',
 '''Each property is written and read under the identifier and with the value type (one byte, two or four byte integer, variable byte integer, binary data, string, string pair) that section 2.2.2.2 of MQTT 5.0 assigns to the meaning its public field name states.''',
 ['inputs'], 'all properties of all packet types, both directions', 'round-trip tests pass when encoder and decoder share the same wrong identifier', ALL, [('identifier enum and mapping', 'src/lib.rs PropertyType/property')])
prop('C17', 'Each packet accepts exactly the properties MQTT 5 allows for it',
 '''A packet (or CONNECT will) containing a property identifier that MQTT 5 does not define or does not allow in that packet is refused with the invalid-property error naming the identifier.
 Every property that MQTT 5 allows for that packet type is accepted and stored in its own field.''',
 ['inputs'], '256 identifiers x 13 property sections', 'no test presents a misplaced or unknown property', ALL, [('per-packet match on the property type', 'src/*.rs *Properties::read')])
prop('C18', 'Reason and return codes map one-to-one to their MQTT 5 bytes',
 '''For every packet carrying a reason or return code, the encoder writes the MQTT 5 byte of that code, and the decoder maps each such byte back to the same code.
 Two different codes of a packet type never share a byte, and bytes that are not codes of that packet type are refused.''',
 ['inputs'], '256 bytes x 8 code enums, both directions', 'tests use one or two codes per packet', ['src/connack.rs', 'src/puback.rs', 'src/pubrec.rs', 'src/pubrel.rs', 'src/pubcomp.rs', 'src/suback.rs', 'src/unsuback.rs', 'src/disconnect.rs'],
 [('code tables', 'src/*.rs reason()/code()/connect_return()/connect_code()')])
prop('C19', 'The first byte names the packet type and carries its reserved flags',
 '''Each packet type is encoded with its MQTT 5 type number in the high nibble and, except for PUBLISH, the flags MQTT 5 reserves for it in the low nibble (2 for PUBREL, SUBSCRIBE and UNSUBSCRIBE, 0 otherwise).
 Decoding yields the packet type of the high nibble; numbers 0 and 15 are refused with the invalid-packet-type error, and a frame with empty body is refused unless it is a PINGREQ, PINGRESP or DISCONNECT.''',
 ['inputs'], '256 first bytes, 14 packet types', T, ALL, [('dispatch', 'src/lib.rs Packet::read/FixedHeader::packet_type'), ('first byte literals', 'src/*.rs write')])
prop('C20', 'Flag bits sit at their MQTT 5 positions in both directions',
 '''PUBLISH DUP, QoS and RETAIN, the CONNECT flags (clean start, will, will QoS, will retain, password, user name), the SUBSCRIBE options (QoS, no local, retain as published, retain handling) and the CONNACK session-present flag are encoded at, and decoded from, the bit positions MQTT 5 gives them, independently of each other.''',
 ['inputs'], 'all combinations of flag values, all flag bytes', T + '; a wrong but symmetric position or a clash between two flags passes them', ['src/publish.rs', 'src/connect.rs', 'src/subscribe.rs', 'src/connack.rs'],
 [('bit masks and shifts', 'src/publish.rs, src/connect.rs, src/subscribe.rs, src/connack.rs')])
prop('C21', 'Malformed field values are refused by the decoder',
 '''The decoder refuses: QoS 3 in a PUBLISH, a CONNECT will or a subscription; retain handling 3; will QoS or retain bits without a will; a PUBLISH with QoS above zero and packet identifier zero; a CONNECT whose protocol name is not MQTT or whose level is not 5; a SUBSCRIBE, SUBACK or UNSUBACK without entries; and a DISCONNECT with non-zero header flags.
 A packet free of such defects, with valid codes, properties and lengths, is accepted.''',
 ['inputs'], 'all frames', 'tests decode valid packets only', ['src/publish.rs', 'src/connect.rs', 'src/subscribe.rs', 'src/suback.rs', 'src/unsuback.rs', 'src/disconnect.rs', 'src/lib.rs'],
 [('validation in each decoder', 'src/*.rs read')])
prop('C22', 'The property section is consumed exactly to its declared length',
 '''A decoder reads properties until exactly the declared property length has been consumed: whatever follows the section is decoded from the byte after it, no property byte is taken for later content and no later content for a property.
 A section whose last property runs past the declared length is refused.''',
 ['inputs'], 'all property sections, all declared lengths', 'tests use sections whose length is right', PROPS, [('cursor accounting', 'src/*.rs *Properties::read')])
prop('C23', 'Text fields hold valid UTF-8 or the packet is refused',
 '''In the builds with text string types, every string field of a decoded packet holds exactly the received bytes, and a packet with a string that is not valid UTF-8 is refused; no bytes are replaced or dropped.
 In the build with byte-string fields they are passed through unvalidated and unchanged.''',
 ['inputs', 'configurations'], 'all byte contents of string fields, all four builds', 'tests only use ASCII', ALL, [('UTF-8 check on string reads', 'src/lib.rs read_mqtt_string')])
prop('C24', 'All four string-type builds speak the same wire format',
 '''The default, cow-string, boxed-string and binary-string builds encode equal packets to identical bytes and report equal sizes, and accept or refuse the same frames with the same error, except for strings that are not valid UTF-8 in the binary-string build.''',
 ['configurations', 'inputs'], 'four feature configurations x all packets and frames', 'each test run sees one configuration at a time and never compares them', ALL, [('string type alias and its helper variants', 'src/lib.rs MqttString, read_mqtt_string, write_mqtt_string, mqtt_string_eq')])
prop('C25', 'Encoding and decoding are pure functions of their arguments',
 '''Results depend only on the arguments: no global or thread-local mutable state, interior mutability, clock, randomness, I/O or environment is used, and packet values are not modified by encoding, so codecs may be used from any number of threads.
 The crate contains no unsafe code, and every public packet type can be sent to and shared between threads.''',
 ['schedules', 'histories', 'programs'], 'all interleavings and call histories', 'tests run single calls; hidden state only shows across calls', ALL, [('no statics, no unsafe, no interior mutability', 'src/*.rs')])
prop('C26', 'No decoding error is swallowed',
 '''Whenever a field of a frame is truncated, cut by the frame end, or has a length prefix reaching past the frame, decoding that frame fails; it never succeeds with a default, shortened or partially decoded field.''',
 ['inputs'], 'all truncations and corruptions of all frames', 'tests decode intact frames', ALL, [('error propagation', 'src/*.rs read')])
prop('C27', 'Short forms of acknowledgements and DISCONNECT are written and understood',
 '''PUBACK, PUBREC, PUBREL and PUBCOMP with the success code and no properties are written with a two-byte body, and DISCONNECT with normal disconnection and no properties with an empty body; no other value is written in the short form.
 On decode a body without reason code means success (normal disconnection for DISCONNECT), and a body ending after the reason code means that code and no properties.''',
 ['inputs'], 'all acknowledgement values, all short bodies', 'tests only cover the forms their encoder produces', ['src/puback.rs', 'src/pubrec.rs', 'src/pubrel.rs', 'src/pubcomp.rs', 'src/disconnect.rs'], [('remaining-length tests', 'src/*.rs read'), ('length shortcuts', 'src/*.rs len')])
prop('C28', 'Integers and byte fields use MQTT wire framing in the specified order',
 '''Two- and four-byte integers are big-endian; strings and binary data are a two-byte big-endian length followed by exactly that many bytes; and each packet's fields appear in the order MQTT 5 prescribes, in both directions.''',
 ['inputs'], 'all packet values and frames', 'symmetric mistakes pass the round-trip tests that form most of the suite', ALL, [('primitive readers and writers', 'src/lib.rs'), ('field order', 'src/*.rs read/write')])
prop('C29', 'Constructors and defaults produce exactly the value they describe',
 '''Public constructors store each argument unchanged in the field it names and leave every other field absent, empty, zero, false or at its success/lowest setting; default values likewise have every field in that neutral state.''',
 ['inputs'], 'all constructor arguments', 'tests use constructors to build both sides of a comparison', ALL, [('new()/Default', 'src/*.rs')])
prop('C30', 'Packet equality compares every field',
 '''Two packets, property sets, headers or errors are equal exactly when they are of the same kind and all their public contents are equal, and cloning gives an equal value.''',
 ['inputs'], 'all pairs of values', 'the tests themselves rely on equality to detect loss', ALL, [('derived PartialEq/Clone', 'src/*.rs')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
open(out, 'w').write(''.join(json.dumps(p) + '\n' for p in P))
