"""What each property rests on: units, primary obligations, replay programs."""
UNITS = dict(
    parser=dict(specs=['common.vspec', 'parser.vspec'], sources=['error', 'ubx_packets', 'parser'], rlimit=60),
    enums=dict(specs=['common.vspec', 'gen_enums.vspec'], sources=['exp'], rlimit=60),
    flags=dict(specs=['common.vspec', 'gen_flags.vspec'], sources=['exp'], rlimit=60),
    disp=dict(specs=['common.vspec', 'gen_disp.vspec'], sources=['error', 'ubx_packets', 'exp'], rlimit=60),
    vars=dict(specs=['common.vspec', 'vars.vspec', 'pk.vspec', 'gen_vars.vspec'], sources=['error', 'exp'], rlimit=60),
)
for i in '123': UNITS['build' + i] = dict(specs=['common.vspec', 'pk.vspec', 'build.vspec', 'gen_build%s.vspec' % i], sources=['error', 'exp'], rlimit=60)
UNITS['core'] = dict(specs=['common.vspec', 'build.vspec', 'core.vspec'], sources=['error', 'exp'], rlimit=60)
UNITS['words'] = dict(specs=['common.vspec', 'gen_words.vspec'], sources=['exp'], rlimit=60)
UNITS['scaleback'] = dict(specs=['scaleback.vspec', 'gen_scaleback.vspec'], sources=['packets'], kani=True)
UNITS['bufs'] = dict(specs=['bufs.vspec'], sources=[], kani=True, crate='kani_ublox', bounded='FixedLinearBuffer of capacity up to 5 through extend, drain, find, extend, clear with any content; Vec::drain, ptr::copy and Write for Vec, on which the contracts rest, for up to 6 bytes')
UNITS['bits'] = dict(specs=['gen_bits.vspec'], sources=[], kani=True, crate='kani_ublox')
UNITS['std_le'] = dict(specs=['std_le.vspec'], sources=[], kani=True)
BUILD = ['build1', 'build2', 'build3']
ACC = ['acc1', 'acc2', 'acc3', 'acc4']
for a in ACC: UNITS[a] = dict(specs=['common.vspec', 'pk.vspec', 'gen_%s.vspec' % a], sources=['error', 'exp'], rlimit=60)
BUF = r'UnderlyingBuffer|FixedLinearBuffer|Vec'
PARSER = r'Parser|DualBuffer|UbxChecksumCalc|drive_chunk|lemma|theorem|run|step|cand|fits'
COMMON = [
    'core::iter find/position and index expressions are rewritten to verified loops/methods with the same definition (the rewrites are listed under extraction)',
    'Vec::drain(0..n) and ptr::copy inside one slice have trusted contracts (spec/parser.vspec); the bounds of the copy are proved at the call',
    'the destructor of the iterator is verified as a function; that Rust runs it at the end of the borrow is assumed',
    'bytes buffered plus twice the chunk length do not exceed usize::MAX (a slice never exceeds isize::MAX bytes)',
    'a third-party implementation of the buffer trait is assumed to satisfy the trait contract',
]
RULE = 'structured random streams (garbage, partial/nested/corrupted/oversized frames, frames around the capacity) x chunkings x early stops, driven through the public API and compared with an independent reference; non-trivial: something was reported or left pending'
PROPS = {}


def P(id, units, primary, replay, level='proof', assumptions=(), **kw):
    PROPS[id] = dict(units=units, primary=primary, replay=replay, level=level, assumptions=list(assumptions), **kw)


P('C01', ['parser'], [('parser', PARSER + r'|Vec', None)], ['rparse'], assumptions=COMMON, theorems=['drive_chunk', 'theorem_chunking'], replay_rule=RULE)
P('C02', ['parser'], [('parser', PARSER + r'|Vec', None)], ['rparse'], assumptions=COMMON, theorems=['theorem_chunking', 'theorem_any_chunking', 'drive_chunk', 'drive_chunk_upto'], replay_rule=RULE)
P('C03', ['parser'], [('parser', PARSER + '|' + BUF, None)], ['rparse'], assumptions=COMMON, theorems=['drive_chunk', 'lemma_fits_all', 'ParserIter::next'], replay_rule=RULE)
P('C04', ['parser'], [('parser', '.*', 'safety'), ('parser', r'ParserIter|drive_chunk|consume|drop|lemma_step_append', None)], ['rparse'], assumptions=COMMON + ['allocation failure of Vec is out of scope'], theorems=['ParserIter::next', 'lemma_step_append', 'drive_chunk'], replay_rule=RULE)
P('C05', ['parser', 'bufs'], [('parser', BUF, None), ('bufs', '.*', None)], ['rparse'], assumptions=COMMON[:2], replay_rule='random operation histories on both buffers (capacities 1..80 and growable) compared with a byte queue after every operation, with guard bytes around the fixed buffer')
P('C06', ['parser', 'core'], [('parser', r'UbxChecksumCalc|theorem_altered_frame|theorem_single_byte|lemma_fl|extract_packet', None), ('core', r'UbxPacketRequest|ubx_checksum|UbxChecksumCalc', None)], ['rparse'], assumptions=COMMON[:1], theorems=['theorem_single_byte', 'theorem_altered_frame', 'lemma_fl_concat'], replay_rule='all 65536 poll requests; random frames, all accepted as built and none accepted with one byte of class, id, payload or checksum altered; built frames of variable length')
PK = [
    'the functions are taken from the crate as the compiler expands it; the derive macros are not verified themselves, only what they generate',
    'floating-point operations are uninterpreted: the contract fixes which stored integer, converted to which float type, is multiplied by which scale factor',
    'formatting machinery (core::fmt) is replaced by a stand-in that takes every argument by reference and returns an arbitrary result; that the derived Debug of plain enums and integers does not panic is assumed',
]
def each(us, rx, kind=None): return [(u, rx, kind) for u in us]

P('C07', ACC + ['vars', 'enums', 'flags', 'std_le'], each(ACC + ['vars'], r'Ref::(?!validate|is_)|_raw|as_bytes') + each(['enums', 'flags'], r'::from(_unchecked)?$'), ['rpack'], assumptions=PK,
  replay_rule='every supported message with random payloads that satisfy its rules, framed and parsed; every accessor is compared with the field of the layout table; non-trivial: a typed packet was read')
P('C08', ['disp'] + ACC + ['vars'], each(['disp'], '.*') + each(ACC + ['vars'], r'validate|is_valid|is_cstr'), ['rpack'], assumptions=PK[:1],
  theorems=['match_packet', 'codes_of_frame', 'MAX_PAYLOAD_LEN'],
  replay_rule='well-formed frames of supported, neighbouring and random class/id pairs with payloads that satisfy the rules, miss them by length or by one value, or are empty or of the largest length; compared with the layout table')
P('C09', ACC + ['vars', 'enums', 'flags', 'words'], each(ACC + ['vars', 'enums', 'flags', 'words'], '.*', 'safety'), ['rpack'], assumptions=PK,
  replay_rule='accepted packets of every message with random payloads: formatted in both Debug forms, every accessor called, every iterator drained')
P('C13', ['vars'], each(['vars'], '.*'), ['rpack'], assumptions=PK[:1] + ['the standard library\'s ChunksExact, CStr and UTF-8 functions satisfy the contracts in spec/vars.vspec'],
  theorems=['theorem_all_' + x for x in ('NavSatIter', 'MonVerExtensionIter', 'EsfMeasDataIter', 'EsfRawDataIter', 'DwrdIter', 'RxmRawxInfoIter')],
  replay_rule='payloads of the messages with repeated blocks or texts, with 0 to 40 blocks, optional parts present or absent, texts of every length with non-ASCII and invalid characters')
P('C17', ['enums', 'flags', 'bits'], each(['enums', 'flags'], '.*') + [('bits', '.*', None)], ['rpack'], assumptions=PK[:1],
  technique='contracts on the extracted functions of /repo, discharged by Verus; the constructors written by the bitflags crate checked on the real crate by Kani for every word; failed obligations replayed on the real crate',
  theorems=['theorem_*_roundtrip', 'theorem_*_exact'],
  replay_rule='every code 0..255 of every enumerated field and random and single-bit masks of every bit-mask field, decoded from packets and encoded by builders; every declared constant')
BD = PK + [
    'the functions are verified with the field types of the builders opaque; that each type encodes and decodes as assumed there is proved in the enums, flags and words units',
]
P('C10', BUILD + ['core', 'std_le'], each(BUILD, r'into_packet_bytes|bytes_|^lemma') + [('core', r'UbxPacketRequest|ubx_checksum|UbxChecksumCalc', None)], ['rpack'], assumptions=BD, theorems=['bytes_*', '*Builder::into_packet_bytes', 'theorem_built_frame'],
  replay_rule='every builder with random field values (extremes, halves of a step, random bit patterns, NaN and infinities); the frame is compared byte by byte with the one the layout table gives')
P('C11', BUILD + ['core'], each(BUILD, r'into_packet_bytes|create_packet|frame_from|<From|^from|MemWriter|extend_to') + [('core', r'MemWriter|Vec|create_packet|extend_to', None)], ['rpack'], assumptions=BD + ['Vec as a writer appends and never fails (std::io::Write for Vec)'], theorems=['*Builder::create_packet', 'FrameFrom::frame_from'],
  replay_rule='every builder with random values, serialised in every way; writers that refuse the allocation or fail at every position; non-trivial: the writer failed before the end')
P('C12', BUILD + ['words', 'enums', 'flags'] + ACC + ['disp', 'parser', 'std_le'], each(BUILD, r'theorem_|bytes_|into_packet_bytes') + each(['words', 'enums', 'flags'], r'theorem|into_raw|::from|_from|is_valid') + each(ACC, r'(Ref::|_raw|validate|is_valid)') + each(['disp'], r'match_packet') + [('parser', r'theorem_built_frame|extract_packet|ParserIter', None)], ['rpack'], assumptions=BD,
  theorems=['theorem_roundtrip_*', 'theorem_built_frame', 'match_packet'],
  replay_rule='every builder with random values: the frame is parsed and every accessor compared with the value given')
P('C16', ['scaleback'] + BUILD, [('scaleback', '.*', None)] + each(BUILD, r'into_packet_bytes|bytes_'), ['rpack'], assumptions=BD + ['FloatCore::round of num-traits is the standard library\'s round (CBMC has no exact floating-point remainder)', 'the product of value and reciprocal of the scale is taken in floating point; the stored integer is the one nearest to that product'],
  technique='function contracts of the extracted ScaleBack discharged by Kani over the whole floating-point domain for every scale in use; Verus contracts fix which field goes through which conversion and scale', theorems=['encodes (contract of ScaleBack::as_*)'],
  replay_rule='every builder with scaled fields: values at every half step around 0, around both ends of the range and beyond, infinities, NaN, subnormals, random bit patterns')
P('C18', ['words', 'vars'], each(['words'], '.*') + [('vars', r'Esf|lemma_mask', None)], ['rpack'], assumptions=PK[:1], theorems=['theorem_CfgItfmConfig_roundtrip', 'theorem_CfgItfmConfig2_roundtrip', 'theorem_UartMode_roundtrip'],
  replay_rule='random, single-bit and extreme words in every message that carries one, all sub-fields compared with their documented bits; words built from random sub-fields')
P('C20', ['core'] + ACC, [('core', '.*', None)] + each(ACC, r'is_ack_for|is_nak_for|class|msg_id|AckAckRef|AckNakRef'), ['rpack'], assumptions=PK[:1], theorems=['theorem_request_for', 'theorem_request_for_unknown', 'is_ack_for', 'is_nak_for', 'set_rate_for'],
  replay_rule='poll requests for known and random class/id pairs, acknowledgements matched against 12 message types, message-rate helpers with random rates')
UNITS['cfg'] = dict(specs=['common.vspec', 'build.vspec', 'cfgcommon.vspec', 'cfg.vspec', 'gen_cfg.vspec'], sources=['error', 'exp'], rlimit=100)
UNITS['cfgset'] = dict(specs=['common.vspec', 'build.vspec', 'cfgcommon.vspec', 'cfgset.vspec'], sources=['error', 'exp'], rlimit=60)
CF = PK[:1] + [
    'an output given to extend_to behaves like a growable byte sequence: extending by one byte appends it, Deref/DerefMut expose the bytes (traits Sink and SliceSink of spec/cfgcommon.vspec, implemented and verified for Vec<u8>)',
    'the bodies of the arms of CfgVal::{extend_to, write_to, parse} are verified as functions of their own, cut out mechanically on every run',
]
P('C14', ['cfg', 'std_le', 'bits'], [('cfg', '.*', None)], ['rcfg'], assumptions=CF, theorems=['theorem_item_roundtrip', 'rt_*', 'CfgVal::{len, write_to, extend_to, parse}', 'KeyId::value_size'],
  replay_rule='every item with random and extreme values, encoded in both ways and decoded; keys, widths and values compared with the key table')
P('C15', ['cfgset', 'cfg', 'std_le'], [('cfgset', '.*', None), ('cfg', r'CfgVal::(len|extend_to|parse)|theorem|into_cfg_kv', None)], ['rcfg'], assumptions=CF + ['the payload is at most 65535 bytes and the finished output is at most usize::MAX bytes'], theorems=['theorem_items_roundtrip', 'CfgValSetBuilder::extend_to', 'CfgValIter::next'],
  replay_rule='random item lists of 0 to 64 items appended to prior outputs of 0 to 200 bytes; frame, prior bytes and iterated items compared')
UNITS['types'] = dict(specs=['common.vspec', 'pk.vspec', 'gen_types.vspec'], sources=['error', 'exp'], rlimit=60)
UNITS['types_dt'] = dict(specs=['types_dt.vspec'], sources=['error', 'exp', 'types'], kani=True)
UNITS['aid'] = dict(specs=['aid.vspec'], sources=[], kani=True, crate='kani_ublox')
P('C19', ['types', 'types_dt', 'aid', 'std_le'], [('types', '.*', None), ('types_dt', '.*', None), ('aid', '.*', None)], ['rpack'], assumptions=[
    'floating-point operations are uninterpreted but commutative: the contract fixes the formula (which stored integers, converted to f64, scaled and added how), not its rounding error'] + PK[:1],
  technique='Verus contracts on the extracted conversions; the time conversion, the accessors it uses and the real chrono crate are checked together by Kani against the calendar rules for every payload (loop-free, no bound)',
  theorems=['from_NavPosLlh', 'from_NavHpPosLlh', 'from_NavHpPosEcef', 'from_NavVelNed', 'from_NavPvt', 'datetime_errors', 'datetime_instant', 'AidIniBuilder::set_position (aid: set_position__*)', 'AidIniBuilder::set_time (aid: set_time)'],
  replay_rule='accepted packets with random payloads; valid, invalid and borderline dates, times and nanoseconds; results compared with exact rational arithmetic and calendar rules')
UNITS['serde'] = dict(specs=['common.vspec', 'serde.vspec', 'gen_serde.vspec'], sources=['exps'], rlimit=60)
P('C21', ['serde'] + ACC + ['vars'], [('serde', '.*', None)], ['rserde'], assumptions=PK[:1] + [
    'a format implements serde\'s Serializer and SerializeMap faithfully: serialize_entry writes the entry it is given after those before it, end finishes the map, serialize_u8/u16/u32 write the number, collect_seq writes the items in order (traits of spec/serde.vspec)',
    'the serialised form of a value depends on the value alone; the implementations written by serde_derive (UbxUnknownPacketRef, UartMode, NavSatSvFlags, EsfMeasData and other value types) are trusted'],
  theorems=['packet_form (serialize of PacketRef)', 'entries_* (serialize_fields of every message)', 'int_form of every enumerated and bit-mask type'],
  replay_rule='accepted packets of every message with random payloads, and unknown ones, serialised as JSON; the entries are compared one by one with class, id and the accessors, repeated blocks item by item')
UNITS['defs'] = dict(specs=['syn.vspec', 'defs.vspec'], sources=['dtypes', 'dinput', 'doutput', 'dlib'], rlimit=60)
P('C22', ['defs'], [('defs', '.*', None)], ['rdefs'], assumptions=[
    'syn reads what is written: the parts of a definition are the values of its types as spec/syn.vspec states them (is_ident compares the whole path with a name, parse_meta reads an attribute, base10_parse accepts exactly the integers that fit, parse_args and parse2 are functions of what they are given)',
    'the token stream operations of syn (peek, parse of one keyword, literal, path or type, parse_terminated, braced!) are stand-ins over an abstract sequence of tokens; the implementations of Parse for the mapping of a field, the flags string and the body of bitflags! are verified against them',
    'the text written by quote! is not under contract; format_ident! is taken not to panic (it does for a scaled floating-point mapping of a byte array without into, which is then refused as well)',
    'a panic in the macro stops compilation'],
  technique='Verus contracts on the functions of ublox_derive that read and check definitions, extracted from its source',
  theorems=['parse_packet_description', '<Parse for PackFieldMap>::parse', '<Parse for BitFlagsAst>::parse', 'parse_ubx_enum_type', 'parse_bitflags', 'generate_code_to_extend_bitflags', 'generate_code_for_recv_packet', 'extend_enum', 'extend_bitflags'],
  replay_rule='generated packet, enum and flag set definitions, plain ones and ones with one or more rules broken, given to the functions behind the macros; accepted exactly when the rules hold, and the constants, variants and flags generated are those written')
NA = {}
