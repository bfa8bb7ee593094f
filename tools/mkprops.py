#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is reviewable in one place)."""
import json
P='ublox/src/parser.rs'; U='ublox/src/ubx_packets.rs'; K='ublox/src/ubx_packets/packets.rs'; C='ublox/src/ubx_packets/cfg_val.rs'; T='ublox/src/ubx_packets/types.rs'; D='ublox_derive/src/output.rs'; DT='ublox_derive/src/types.rs'; DI='ublox_derive/src/input.rs'; DL='ublox_derive/src/lib.rs'
rows=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    rows.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p('C01','Stream framing matches the UBX framing rules',
 'For every byte stream fed to a parser with a growable buffer, the sequence of reported outcomes is exactly the one the UBX framing rules give: bytes are skipped up to the next sync pair 0xB5 0x62 that is followed by a length no larger than the largest supported payload; a complete frame with a matching checksum is reported once, with exactly its class, id and payload, and parsing resumes right behind it; a complete frame with a mismatching checksum is reported as such, with the carried and the computed checksum, and parsing resumes two bytes behind its start. Valid frames are therefore found behind any garbage, and nothing that is not a frame is ever reported as a packet. What is not decided yet stays buffered until more bytes arrive.',
 ['inputs','histories'],'all byte streams of any length',
 'The tests feed a handful of hand-written streams and random noise of bounded length; no test covers all placements of sync bytes, lengths, truncations and checksum errors.',
 [P,U],[('ParserIter::next / extract_packet / find_sync','parser.rs'),('Parser::consume','parser.rs'),('SYNC_CHAR_1, SYNC_CHAR_2','ubx_packets.rs')],
 ['items returned by ParserIter::next','Parser::buffer_len'],[('DualBuffer','base buffer rest followed by new data rest','parser.rs')])
p('C02','Parsing does not depend on how the stream is chunked',
 'For every byte stream and every way of cutting it into consecutive chunks (including empty and one-byte chunks), feeding the chunks one after the other to a parser with a growable buffer reports the same outcomes, in the same order, as feeding the whole stream at once, and leaves equivalent undecided bytes behind. This also holds when the caller stops iterating early: bytes not yet consumed are kept and come first in the next round.',
 ['inputs','histories','schedules'],'all streams, all chunkings, all points at which a caller stops iterating',
 'The number of chunkings is exponential in the stream length; the tests sample a few per packet.',
 [P],[('DualBuffer::{take,drain,peek_raw,can_drain_and_take,drop}','parser.rs'),('Parser::consume','parser.rs')],['items returned by ParserIter::next over several consume calls'])
p('C03','A fixed-size buffer behaves like a growable one when frames fit',
 'For every fixed capacity of at least 5 bytes, every byte stream all of whose announced frames (payload plus 8 bytes) fit that capacity, and every chunking, a parser over a caller-supplied fixed-size buffer reports the same outcomes as a parser over a growable buffer. For other streams the only additional outcome is an out-of-memory report for a frame that does not fit, naming payload length + 2 as the required size, after which parsing resumes two bytes behind that frame\'s start; it never panics or writes outside the supplied memory.',
 ['inputs','histories','configurations'],'all capacities, streams and chunkings',
 'The tests use three buffer sizes with fixed streams; data movement inside the buffer depends on capacity, offset and chunk boundary together.',
 [P],[('FixedLinearBuffer','parser.rs'),('DualBuffer::take / can_drain_and_take / potential_lost_bytes','parser.rs')],['items returned by ParserIter::next'],[('FixedLinearBuffer.len','bytes stored','parser.rs')])
p('C04','The parser never panics and always makes progress on any input',
 'For every byte stream, every chunking and every buffer capacity, constructing, feeding, iterating and dropping the parser never panics, overflows or reads out of bounds, and every call that reports something consumes at least one byte, so iterating over a chunk always ends after at most as many reports as there are bytes. When iteration ends, at most the buffer capacity (or five bytes, if that is more) is left pending, so nothing is lost when the next chunk arrives.',
 ['inputs','histories','configurations'],'all streams, chunkings and capacities (total bytes held below the address-space limit)',
 'Random tests stop at short noise; panics here hide behind specific offsets and lengths.',
 [P,K],[('bounds and overflow obligations of every parser function','parser.rs'),('decreasing measure of ParserIter::next','parser.rs'),('validate functions','packets.rs (generated)')],['absence of panics','number of items per consume'])
p('C05','Parser buffers are lossless FIFO byte queues',
 'For every history of operations on the two provided parser buffers, the content equals that of an ideal byte queue of the stated capacity: appending stores as many leading bytes as fit and returns the exact number that did not, removing n bytes drops the n oldest (all of them if n is the current length), indexing and ranging read the stored bytes, searching returns the first position of a byte value or nothing, and clearing empties it. The reported length and capacity always agree with that queue and other memory is untouched.',
 ['inputs','histories','configurations'],'all operation histories, byte contents and capacities',
 'The tests run a few fixed histories on small buffers.',
 [P],[('UnderlyingBuffer for Vec<u8>','parser.rs'),('UnderlyingBuffer for FixedLinearBuffer (unsafe ptr::copy in drain)','parser.rs')],['UnderlyingBuffer methods'])
p('C06','Checksums are the UBX Fletcher checksum everywhere',
 'For all data, the checksum appended to built frames and the checksum the parser demands are both the 8-bit Fletcher checksum of the UBX protocol over class, id, length and payload, no matter how the data is split into pieces while it is computed. Consequently a frame in which exactly one byte of class, id or payload was altered is never accepted.',
 ['inputs'],'all byte strings and all ways of splitting them',
 'Tests compare checksums of a few packets only; a wrap-around or split error needs particular data.',
 [P,U],[('ubx_checksum','ubx_packets.rs'),('UbxChecksumCalc (two copies)','ubx_packets.rs, parser.rs')],['last two bytes of built frames','InvalidChecksum{expect,got}'])
p('C07','Field accessors decode the documented bytes',
 'For every accepted packet of every fixed-layout message, each accessor returns exactly the value of its documented little-endian field: the right offset, width and signedness, multiplied by the documented scale factor where one is documented, wrapped in the documented type where one is. Raw accessors return the unscaled stored value, and the byte view returns the payload itself.',
 ['inputs'],'all payload contents of all fixed-layout messages and fields',
 'Only a few messages have a decode test with one sample payload each; wrong offsets or scales in other fields or for extreme values go unnoticed.',
 [K,D,DT,DI],[('generated accessors','ublox_derive/src/output.rs'),('packet declarations','packets.rs')],['accessors of the *Ref types'])
p('C08','Dispatch accepts exactly the well-formed packets of known messages',
 'For every class, id and payload of a well-framed message: if class and id belong to a supported message and the payload satisfies that message\'s length rule and value restrictions, the report is that typed packet over exactly that payload; otherwise the report is an unknown packet carrying class, id and payload unchanged. The class and id reported for any packet are those of the frame, and the parser\'s length limit is the maximum over all supported messages.',
 ['inputs'],'all 65536 class/id pairs and all payloads',
 'Tests cover some known packets and one unknown packet.',
 [K,D],[('match_packet','ublox_derive/src/output.rs'),('validate','ublox_derive/src/output.rs'),('MAX_PAYLOAD_LEN','ublox_derive/src/output.rs')],['PacketRef variant returned by ParserIter::next','PacketRef::class_and_msg_id'])
p('C09','Accepted packets can be read and printed without panicking',
 'For every packet the parser accepts, calling any accessor, iterating any repeated block to its end and formatting it for debugging completes without panicking, overflowing or reading outside the payload.',
 ['inputs'],'all accepted payloads of all messages',
 'Tests read a few sample packets; a restricted field value or a length combination outside the samples may panic.',
 [K,D,T],[('accessors and Debug of *Ref types','ublox_derive/src/output.rs'),('from_unchecked / is_valid of enums','ublox_derive/src/output.rs'),('iterators','packets.rs')],['accessors, iterators, Debug'])
p('C10','Built frames are well-formed and carry the given field values',
 'For every assignment of builder fields, the frame a packet builder returns has the sync bytes, the documented class and id, the exact payload length, every field encoded little-endian at its documented offset (scaled, or by its documented code, where one is documented) and a correct checksum.',
 ['inputs'],'all field values of all builders',
 'Tests compare a few builders with one expected byte string each.',
 [K,D,U],[('into_packet_bytes','ublox_derive/src/output.rs')],['into_packet_bytes result'])
p('C11','All ways of serialising a builder agree and report writer failures',
 'For every builder value, returning a byte array, converting into a byte array and streaming to a caller-supplied writer (or appending to an existing vector) yield the same frame bytes. When the writer refuses an allocation or a write, that error is returned to the caller and no further bytes are written after it.',
 ['inputs','fault_sequences'],'all builder values and all positions at which a writer can fail',
 'No test uses a failing writer; the array and the streaming path are compared for no packet.',
 [D,U],[('create_packet','ublox_derive/src/output.rs'),('MemWriter for Vec','ubx_packets.rs')],['create_packet, From, MemWriter'])
p('C12','Built packets parse back to the same field values',
 'For every message that can be both built and received and all field values, parsing the built frame yields exactly one packet of that message, and every accessor returns the value given to the builder: exactly for unscaled fields, and for scaled fields the nearest representable value after saturation to the field\'s range. Messages that can only be built parse to an unknown packet, or another message of the same class and id, with the same payload.',
 ['inputs'],'all builder values of all send-and-receive messages',
 'Tests round-trip two messages with single values.',
 [K,D,P],[('into_packet_bytes','output.rs'),('accessors','output.rs'),('match_packet','output.rs')],['parse(build(x))'],)
p('C13','Repeated blocks and strings yield every element once, in order',
 'For every accepted packet with repeated blocks or variable-length parts, iteration yields exactly the complete blocks contained in the payload, in order, each decoded from its own bytes, and then ends; optional trailing parts are present exactly when the packet says so. Text fields return exactly the bytes in front of the terminating zero.',
 ['inputs'],'all accepted payloads of variable-length messages, any number of blocks',
 'One or two sample packets per message are tested.',
 [K],[('NavSatIter, MonVerExtensionIter, EsfMeasDataIter, EsfStatus sensors, EsfRaw, RxmSfrbx DwrdIter, RxmRawxInfoIter','packets.rs'),('convert_to_str, is_cstr_valid','packets.rs')],['iterator items'])
p('C14','Configuration items encode to their documented key and value',
 'For every configuration item and value, encoding yields the item\'s documented 32-bit key, little-endian, followed by the value in the documented width, and the reported length equals the number of bytes produced by each way of encoding; each key\'s size class agrees with the width of its value. Decoding an encoded item yields the same item and value.',
 ['inputs'],'all configuration items and all their values',
 'There is one test with three items out of several hundred.',
 [C],[('cfg_val! macro','cfg_val.rs'),('KeyId::value_size','cfg_val.rs')],['CfgVal::{len,parse,extend_to,write_to}'])
p('C15','Configuration-set messages are appended without touching prior output',
 'For every list of configuration items and every prior content of the output, appending a configuration-set message leaves the prior content unchanged and adds exactly one well-formed frame whose payload is the version, layers and reserved bytes followed by the encodings of all items in order; the same bytes result when it is returned as a new vector. Iterating the items of such a payload yields the given items in order.',
 ['inputs'],'all item lists (payload at most 65535 bytes) and all prior outputs',
 'The only test appends to an empty output.',
 [K,D,C],[('extend_to / create_packet of the variable-length builder','ublox_derive/src/output.rs'),('CfgValIter','packets.rs')],['extended output bytes'])
p('C16','Scaled fields are encoded by rounding and saturate at the field range',
 'For every floating-point value given to a scaled builder field, the stored integer is value divided by the scale, rounded to the nearest integer, limited to the range of the field; values beyond the range saturate, and infinities saturate in their direction. Encoding never panics, NaN included.',
 ['inputs'],'all float bit patterns for every scaled field and integer width',
 'Tests try a few finite values per width.',
 [K],[('ScaleBack','packets.rs')],['bytes of scaled fields in built frames'])
p('C17','Codes and bit masks survive decoding and encoding',
 'For every documented code of every enumerated field, decoding gives the documented variant and encoding it gives the code back; undocumented codes are kept, mapped to the documented catch-all, or lead to the packet not being accepted as typed, as declared for that field, and never to another documented variant. For bit-mask fields exactly the declared bits are kept at the documented positions.',
 ['inputs'],'all raw values of all enumerated and bit-mask fields',
 'Few codes are touched by the tests.',
 [K,D],[('ubx_extend enums','ublox_derive/src/output.rs'),('ubx_extend_bitflags','ublox_derive/src/output.rs')],['accessor results, builder bytes'])
p('C18','Packed words decode and encode every sub-field at its documented bits',
 'For every raw value, each sub-field of a packed status or configuration word is taken from exactly its documented bits, and words that can also be built from sub-fields put each of them back to the same bits without disturbing the others.',
 ['inputs'],'all raw words and all sub-field values',
 'Only sample values appear in tests; several packed words have none.',
 [K],[('NavStatusFlags2, FixStatusInfo, NavSatSvFlags, TimTpFlags, TimTpRefInfo, TimTm2Flags, UartMode, CfgItfmConfig, CfgItfmConfig2, EsfStatus/EsfMeas words','packets.rs')],['sub-field accessors'])
p('C19','Positions, velocities and times convert field by field, with range checks',
 'For every accepted packet, the derived position, ECEF position and velocity are, component by component, the documented combination of that packet\'s fields in degrees, metres and metres per second. The derived time is the exact calendar instant given by year, month, day, hour, minute, second and signed nanoseconds, and an invalid date, time or nanosecond part is reported as that error instead of a wrong instant or a panic. Conversely, the aiding start message (AID-INI) takes a given position in 1e-7 degrees and centimetres, to within one unit and clipped to the range of the field, and a given UTC time of the years 2000 to 2099 as year and month, day, hour, minute, second and nanoseconds, marks each as valid, and changes nothing else.',
 ['inputs'],'all packets',
 'The tests convert at most one sample packet per type.',
 [T],[('From<&NavPosLlhRef/NavHpPosLlhRef/NavHpPosEcefRef/NavVelNedRef/NavPvtRef>','types.rs'),('TryFrom<&NavPvtRef> for DateTime','types.rs'),('AidIniBuilder::{set_position, set_time}','packets.rs')],['Position, PositionECEF, Velocity, DateTime values'])
p('C20','Poll requests, acknowledgement matching and rate helpers are exact',
 'A poll request built for any message, or for any class and id, is the eight-byte empty frame with that class and id and a correct checksum. An acknowledgement or rejection matches a message if and only if it names that message\'s class and id, and the message-rate helpers address exactly the named message with the given rates.',
 ['inputs'],'all class/id pairs and all supported messages',
 'Tests use a couple of messages.',
 [U,K],[('UbxPacketRequest','ubx_packets.rs'),('is_ack_for / is_nak_for','packets.rs'),('set_rate_for','packets.rs')],['request bytes, boolean results'])
p('C21','Serialised packets contain every field',
 'With serialisation enabled, serialising any accepted packet produces its class, its id and then every accessor value under the field\'s name, each exactly once and in declared order; repeated blocks are written item by item.',
 ['inputs','configurations'],'all accepted packets with the serde feature',
 'No test serialises packets.',
 [D],[('SerializeUbxPacketFields','ublox_derive/src/output.rs')],['serializer output'])
p('C22','Derive macros accept exactly the consistent definitions',
 'A packet definition is accepted if and only if class and id (bytes) and exactly one of fixed and maximum length (16 bits) are written once each with no unknown options, every field is named, of a supported type and mapped at most once and not to its own type, only the last field or one with a size function has a size known only at run time, and a fixed length is the sum of the field sizes while a maximum length goes with such a field. An enum is accepted only as a byte enum of plain variants with byte values, and a flag set only over an 8-, 16- or 32-bit word with distinct single-bit constants inside it, both with known options, at most one treatment of unlisted values, and no infallible conversion combined with errors on unlisted values (flag sets keep unlisted bits as reserved). Accepted definitions are handed to code generation with exactly the class, id, length, field sizes, variant values and bits as written, and everything else stops compilation with an error.',
 ['programs'],'all packet, enum and flag set definitions given to the derive macros',
 'The derive tests cover a dozen accepted definitions and none that has to be rejected.',
 [DI,DT,DL,D],[('parse_packet_description, parse_ubx_attr, parse_fields, field_size_bytes','ublox_derive/src/input.rs'),('PackDesc::packet_payload_size','ublox_derive/src/types.rs'),('parse_ubx_enum_type, parse_ubx_extend_attrs, parse_bitflags','ublox_derive/src/input.rs'),('generate_code_to_extend_bitflags','ublox_derive/src/output.rs')],['compile errors of the derive macros','constants, variants and flags in the generated code'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(r)+'\n' for r in rows))
for r in rows:
    assert len(r['title'])<=80,(r['id'],len(r['title']))
    n=r['statement'].count('. ')+1
    if n>3: print(r['id'],n)
