#!/usr/bin/env python3
"""writes props.json: for each property the modules to verify, the functions whose contracts ARE the property (core),
the functions whose contracts it relies on (fns), and the theorems over those contracts"""
import json
import os
H = os.path.dirname(os.path.abspath(__file__))
PK = ['auth', 'confirmation', 'connack', 'connect', 'disconnect', 'publish', 'suback', 'subscribe', 'unsuback', 'unsubscribe', 'structure']
DEC = ['*::Packet::decode', 'connect::ConnectFlags::*', 'structure::common::*', 'structure::codes::*::from_byte', '*::from_properties']
ENC = ['*::Packet::encode', 'packet::MqttPacket::encode', 'connect::ConnectFlags::new', 'structure::common::*', 'structure::codes::*::to_byte', '*::to_pairs', 'structure::properties::Properties::*']
BR, MW = 'byte_reader::ByteReader::*', 'mqtt_writer::MqttWriter::*'
br = lambda *n: ['byte_reader::ByteReader::' + x for x in n]
mw = lambda *n: ['mqtt_writer::MqttWriter::' + x for x in n]
ALLM = ['vspec', 'vthm', 'byte_reader', 'mqtt_writer', 'packet', 'structure', 'structure::codes', 'structure::common', 'structure::properties'] + PK[:-1]
DECM = [m for m in ALLM if m != 'mqtt_writer']
ENCM = [m for m in ALLM if m != 'byte_reader']
V = ['vspec::*', 'vthm::*']
RT = ['vspec::lemma_frame', 'vspec::lemma_first_byte', 'vthm::send', 'vthm::receive', 'vthm::thm_roundtrip']


def pk(mod, props, extra=(), codes=True):
    core = [m + '::*' for m in mod.split()] + ['structure::properties::%s::*' % p for p in props] + ['structure::properties::Properties::*'] + list(extra)
    return core


P = {}


def add(i, mods, core, fns, theorems, n, note='', core_msg=None, **kw):
    P[i] = dict(modules=mods, core=core, fns=sorted(set(core + fns + V)), theorems=theorems, min_obligations=n, note=note, **kw)
    if core_msg:
        P[i]['core_msg'] = core_msg


TOTAL = r'overflow|underflow|precondition|decreases|terminat|unreached|index|bounds|shift|division|panic'
RDR = br('take', 'reset_limit', 'limit', 'ensure_limit', 'consume', 'has_more', 'read_len', 'discard_packet', 'read_header', 'read_u8', 'read_u16', 'read_u32', 'read_bool_byte')

add('C01', DECM, ['packet::PacketDecoder::*'] + br('take', 'reset_limit', 'limit', 'ensure_limit', 'consume', 'discard_packet', 'read_header'), [BR] + DEC,
    ['packet::PacketDecoder::decode_packet (ensures: final stream == f.tail)', 'vthm::thm_sequence'], 200)
add('C02', DECM, ['packet::PacketDecoder::*'] + br('take', 'reset_limit', 'limit', 'ensure_limit', 'consume', 'has_more', 'read_len', 'discard_packet'), [BR] + DEC,
    ['packet::PacketDecoder::decode_packet (ensures: result is d_any(header, body, version))', 'vthm::thm_isolation'], 200)
add('C03', DECM, ['packet::PacketDecoder::*'] + br('take', 'limit', 'ensure_limit', 'consume', 'read_len', 'read_header', 'read_variable_int'), [BR] + DEC,
    ['packet::PacketDecoder::decode_packet (ensures: p_frame(stream) is None ==> Err)', 'vthm::thm_truncation'], 200)
add('C04', DECM, ['packet::PacketDecoder::*', BR] + DEC, [], ['absence of overflow, out-of-bounds and unwrap on None, and termination of every function reachable from decode_packet'], 200,
    core_msg=TOTAL)
add('C05', ENCM, ['packet::MqttPacket::encode', MW, 'structure::properties::Properties::*'] + ENC, [], ['absence of overflow, out-of-bounds and unwrap on None, and termination of every function reachable from MqttPacket::encode'], 200,
    core_msg=TOTAL)
add('C06', ENCM, ['packet::MqttPacket::encode', '*::Packet::encode', 'structure::properties::Properties::encode', 'structure::properties::Properties::encode_option'] +
    mw('write_header', 'write_remaining_length', 'write_sized', 'write_properties', 'write_variable_num', 'encode_variable_num', 'write_u16_len', 'into_vec', 'new'), [MW] + ENC,
    ['packet::MqttPacket::encode (ensures: result is enc_any(packet, version))', 'vspec::lemma_frame', 'vthm::thm_roundtrip'], 200)
add('C07', ['vspec', 'vthm', 'publish', 'packet', 'structure::properties', 'structure::common', 'byte_reader', 'mqtt_writer'], pk('publish', ['PublishProperties']), ['packet::*', BR, MW, 'structure::common::FixedHeader::*'],
    RT + ['vspec::lemma_publish_read', 'vthm::thm_publish'], 200)
add('C08', ['vspec', 'vthm', 'connect', 'packet', 'structure::properties', 'structure::common', 'byte_reader', 'mqtt_writer'], pk('connect', ['ConnectProperties', 'WillProperties'], ['structure::common::Protocol::*']), ['packet::*', BR, MW, 'structure::common::*'],
    RT + ['vthm::thm_connect'], 200)
add('C09', ['vspec', 'vthm', 'connack', 'disconnect', 'auth', 'structure', 'packet', 'structure::properties', 'structure::codes', 'structure::common', 'byte_reader', 'mqtt_writer'],
    pk('connack disconnect auth', ['ConnackProperties', 'DisconnectProperties', 'AuthProperties'], ['structure::Ping*', 'structure::ConnackPacket::*']), ['packet::*', BR, MW, 'structure::common::*', 'structure::codes::*'],
    RT + ['vthm::thm_connack', 'vthm::thm_disconnect', 'vthm::thm_auth', 'vthm::thm_ping'], 200)
add('C10', ['vspec', 'vthm', 'confirmation', 'packet', 'structure::properties', 'structure::codes', 'structure::common', 'byte_reader', 'mqtt_writer'],
    pk('confirmation', ['ConfirmationProperties']), ['packet::*', BR, MW, 'structure::common::*', 'structure::codes::*'], RT + ['vthm::thm_confirmation'], 200)
add('C11', ['vspec', 'vthm', 'subscribe', 'suback', 'unsubscribe', 'unsuback', 'packet', 'structure::properties', 'structure::codes', 'structure::common', 'byte_reader', 'mqtt_writer'],
    pk('subscribe suback unsubscribe unsuback', ['SubscribeProperties', 'UnsubscribeProperties', 'ConfirmationProperties']), ['packet::*', BR, MW, 'structure::common::*', 'structure::codes::*'],
    RT + ['vthm::thm_subscribe', 'vthm::thm_suback', 'vthm::thm_unsubscribe', 'vthm::thm_unsuback'], 200)
add('C12', ['vspec', 'byte_reader', 'mqtt_writer'], br('read_variable_int', 'read_header') + mw('encode_variable_num', 'write_variable_num', 'write_remaining_length'), [BR, MW],
    ['vspec::lemma_pvar', 'vspec::lemma_pvar_range'], 100)
add('C13', ['vspec', 'structure::common', 'packet', 'mqtt_writer', 'byte_reader'], ['structure::common::FixedHeader::*', 'structure::common::PacketType::*', 'packet::PacketDecoder::decode_by_type'] + mw('write_header') + br('read_header'), ['packet::*', BR, MW],
    ['vspec::lemma_first_byte'], 100)
add('C14', ['vspec', 'structure::codes', 'structure::common'] + PK[:-1], ['structure::codes::*', 'structure::common::Granted::*', 'structure::common::QoS::*'], ['*::Packet::decode', '*::Packet::encode'],
    ['vspec::lemma_tab_*'], 100)
add('C15', ['vspec', 'structure::properties', 'byte_reader', 'mqtt_writer'], ['structure::properties::*'] + br('decode_property', 'read_properties', 'start_properties_decode') + mw('write_properties'), [BR, MW],
    ['vspec::lemma_*_read'], 200)
add('C16', ['vspec', 'byte_reader'], br('new', 'take', 'reset_limit', 'limit', 'ensure_limit', 'consume', 'has_more', 'read_len', 'discard_packet', 'read_u8', 'read_u16', 'read_u32'), [BR],
    ['contracts of take, reset_limit, consume, read_len, has_more, limit (win, wf, moved, failed, took, resetted)'], 100)
add('C17', ALLM, ['*::Packet::encode', '*::Packet::decode', 'packet::*', 'structure::properties::Properties::*'], [BR, MW] + DEC + ENC,
    ['trait Packet contract: encode/decode equal enc(packet, version)/dec(header, body, version), which have no property block, v5 code or v5 option unless version == 5'], 200)
add('C18', ENCM, mw('write_u16_len', 'write_utf8_string', 'write_utf8_str', 'write_binary', 'write_binary_ref', 'write_remaining_length', 'write_variable_num', 'encode_variable_num', 'write_sized', 'write_properties') + ['*::Packet::encode'], [MW] + ENC,
    ['encode contracts: Ok ==> valid && the exact bytes; Err ==> !valid || big'], 200)
add('C19', ['vspec', 'connect', 'structure::common', 'byte_reader'], ['connect::ConnectPacket::Packet::decode', 'connect::ConnectFlags::*', 'structure::common::Protocol::*'], [BR, 'structure::*', 'connect::*'],
    ['connect::ConnectPacket::Packet::decode (ensures d_connect)', 'connect::ConnectFlags::from_byte'], 100)
add('C20', ['vspec', 'vthm', 'subscribe', 'structure::common', 'byte_reader', 'mqtt_writer'], ['subscribe::*'], [BR, MW, 'structure::common::*'], ['subscribe contracts (p_subs, e_subs)', 'vthm::thm_subscribe'], 100)
add('C21', ['vspec', 'byte_reader', 'mqtt_writer'], br('read_u8', 'read_u16', 'read_u32', 'read_len', 'read_utf8_string', 'read_binary', 'read_bool_byte', 'consume') +
    mw('write_u8', 'write_u16', 'write_u32', 'write_utf8_string', 'write_utf8_str', 'write_binary', 'write_binary_ref', 'write_vec', 'write_slice', 'write_sized', 'write_u16_len', 'encode_multibyte_num'), [BR, MW],
    ['vspec::lemma_pstr', 'vspec::lemma_pbin', 'vspec::lemma_pu16', 'vspec::lemma_pu32'], 100)
add('C22', ['vspec', 'structure::properties', 'byte_reader', 'mqtt_writer'], ['structure::properties::*'] + br('decode_property', 'read_properties', 'start_properties_decode') + mw('write_properties'), [BR, MW],
    ['vspec::lemma_*_read (bag of user properties)'], 200)

json.dump({
    'assumptions': [
        'usize has 64 bits; nothing in memory is longer than 2^48 bytes (axiom_mem_subs, axiom_mem_strs)',
        'std::io::BufReader delivers the bytes of its source in order (stream), as stated by the assumed contracts',
        'serde_support feature off; error texts are not specified',
    ],
    'thorough_modules': ALLM, 'properties': P}, open(H + '/props.json', 'w'), indent=1)
