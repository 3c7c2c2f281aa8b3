// ======================================================================
// Code tables of MQTT 3.1.1 and 5
// ======================================================================
use crate::structure::*;

pub open spec fn tab_SubscriptionReasonCode(b: u8) -> Option<SubscriptionReasonCode> {
    match b {
        0x00 => Some(SubscriptionReasonCode::GrantedQoS0),
        0x01 => Some(SubscriptionReasonCode::GrantedQoS1),
        0x02 => Some(SubscriptionReasonCode::GrantedQoS2),
        0x80 => Some(SubscriptionReasonCode::UnspecifiedError),
        0x83 => Some(SubscriptionReasonCode::ImplementationSpecificError),
        0x87 => Some(SubscriptionReasonCode::NotAuthorized),
        0x8F => Some(SubscriptionReasonCode::TopicFilterInvalid),
        0x91 => Some(SubscriptionReasonCode::PacketIdentifierInUse),
        0x97 => Some(SubscriptionReasonCode::QuotaExceeded),
        0x9E => Some(SubscriptionReasonCode::SharedSubscriptionsNotSupported),
        0xA1 => Some(SubscriptionReasonCode::SubscriptionIdentifiersNotSupported),
        0xA2 => Some(SubscriptionReasonCode::WildcardSubscriptionsNotSupported),
        _ => None,
    }
}
pub open spec fn byte_SubscriptionReasonCode(c: SubscriptionReasonCode) -> u8 {
    match c {
        SubscriptionReasonCode::GrantedQoS0 => 0x00,
        SubscriptionReasonCode::GrantedQoS1 => 0x01,
        SubscriptionReasonCode::GrantedQoS2 => 0x02,
        SubscriptionReasonCode::UnspecifiedError => 0x80,
        SubscriptionReasonCode::ImplementationSpecificError => 0x83,
        SubscriptionReasonCode::NotAuthorized => 0x87,
        SubscriptionReasonCode::TopicFilterInvalid => 0x8F,
        SubscriptionReasonCode::PacketIdentifierInUse => 0x91,
        SubscriptionReasonCode::QuotaExceeded => 0x97,
        SubscriptionReasonCode::SharedSubscriptionsNotSupported => 0x9E,
        SubscriptionReasonCode::SubscriptionIdentifiersNotSupported => 0xA1,
        SubscriptionReasonCode::WildcardSubscriptionsNotSupported => 0xA2,
    }
}
pub broadcast proof fn lemma_tab_SubscriptionReasonCode(c: SubscriptionReasonCode)
    ensures tab_SubscriptionReasonCode(#[trigger] byte_SubscriptionReasonCode(c)) == Some(c)
{}

pub open spec fn tab_DisconnectCode(b: u8) -> Option<DisconnectCode> {
    match b {
        0x00 => Some(DisconnectCode::NormalDisconnection),
        0x04 => Some(DisconnectCode::DisconnectWithWillMessage),
        0x80 => Some(DisconnectCode::UnspecifiedError),
        0x81 => Some(DisconnectCode::MalformedPacket),
        0x82 => Some(DisconnectCode::ProtocolError),
        0x83 => Some(DisconnectCode::ImplementationSpecificError),
        0x87 => Some(DisconnectCode::NotAuthorized),
        0x89 => Some(DisconnectCode::ServerBusy),
        0x8B => Some(DisconnectCode::ServerShuttingDown),
        0x8D => Some(DisconnectCode::KeepAliveTimeout),
        0x8E => Some(DisconnectCode::SessionTakenVver),
        0x8F => Some(DisconnectCode::TopicFilterInvalid),
        0x90 => Some(DisconnectCode::TopicNameInvalid),
        0x93 => Some(DisconnectCode::ReceiveMaximumExceeded),
        0x94 => Some(DisconnectCode::TopicAliasInvalid),
        0x95 => Some(DisconnectCode::PacketTooLarge),
        0x96 => Some(DisconnectCode::MessageRateTooHigh),
        0x97 => Some(DisconnectCode::QuotaExceeded),
        0x98 => Some(DisconnectCode::AdministrativeAction),
        0x99 => Some(DisconnectCode::PayloadFormatInvalid),
        0x9A => Some(DisconnectCode::RetainNotSupported),
        0x9B => Some(DisconnectCode::QoSNotSupported),
        0x9C => Some(DisconnectCode::UseAnotherServer),
        0x9D => Some(DisconnectCode::ServerMoved),
        0x9E => Some(DisconnectCode::SharedSubscriptionsNotSupported),
        0x9F => Some(DisconnectCode::ConnectionRateExceeded),
        0xA0 => Some(DisconnectCode::MaximumConnectTime),
        0xA1 => Some(DisconnectCode::SubscriptionIdentifiersNotSupported),
        0xA2 => Some(DisconnectCode::WildcardSubscriptionsNotSupported),
        _ => None,
    }
}
pub open spec fn byte_DisconnectCode(c: DisconnectCode) -> u8 {
    match c {
        DisconnectCode::NormalDisconnection => 0x00,
        DisconnectCode::DisconnectWithWillMessage => 0x04,
        DisconnectCode::UnspecifiedError => 0x80,
        DisconnectCode::MalformedPacket => 0x81,
        DisconnectCode::ProtocolError => 0x82,
        DisconnectCode::ImplementationSpecificError => 0x83,
        DisconnectCode::NotAuthorized => 0x87,
        DisconnectCode::ServerBusy => 0x89,
        DisconnectCode::ServerShuttingDown => 0x8B,
        DisconnectCode::KeepAliveTimeout => 0x8D,
        DisconnectCode::SessionTakenVver => 0x8E,
        DisconnectCode::TopicFilterInvalid => 0x8F,
        DisconnectCode::TopicNameInvalid => 0x90,
        DisconnectCode::ReceiveMaximumExceeded => 0x93,
        DisconnectCode::TopicAliasInvalid => 0x94,
        DisconnectCode::PacketTooLarge => 0x95,
        DisconnectCode::MessageRateTooHigh => 0x96,
        DisconnectCode::QuotaExceeded => 0x97,
        DisconnectCode::AdministrativeAction => 0x98,
        DisconnectCode::PayloadFormatInvalid => 0x99,
        DisconnectCode::RetainNotSupported => 0x9A,
        DisconnectCode::QoSNotSupported => 0x9B,
        DisconnectCode::UseAnotherServer => 0x9C,
        DisconnectCode::ServerMoved => 0x9D,
        DisconnectCode::SharedSubscriptionsNotSupported => 0x9E,
        DisconnectCode::ConnectionRateExceeded => 0x9F,
        DisconnectCode::MaximumConnectTime => 0xA0,
        DisconnectCode::SubscriptionIdentifiersNotSupported => 0xA1,
        DisconnectCode::WildcardSubscriptionsNotSupported => 0xA2,
    }
}
pub broadcast proof fn lemma_tab_DisconnectCode(c: DisconnectCode)
    ensures tab_DisconnectCode(#[trigger] byte_DisconnectCode(c)) == Some(c)
{}

pub open spec fn tab_UnsubackCode(b: u8) -> Option<UnsubackCode> {
    match b {
        0x00 => Some(UnsubackCode::Success),
        0x11 => Some(UnsubackCode::NoSubscriptionExisted),
        0x80 => Some(UnsubackCode::UnspecifiedError),
        0x83 => Some(UnsubackCode::ImplementationSpecificError),
        0x87 => Some(UnsubackCode::NotAuthorized),
        0x8F => Some(UnsubackCode::TopicFilterInvalid),
        0x91 => Some(UnsubackCode::PacketIdentifierInUse),
        _ => None,
    }
}
pub open spec fn byte_UnsubackCode(c: UnsubackCode) -> u8 {
    match c {
        UnsubackCode::Success => 0x00,
        UnsubackCode::NoSubscriptionExisted => 0x11,
        UnsubackCode::UnspecifiedError => 0x80,
        UnsubackCode::ImplementationSpecificError => 0x83,
        UnsubackCode::NotAuthorized => 0x87,
        UnsubackCode::TopicFilterInvalid => 0x8F,
        UnsubackCode::PacketIdentifierInUse => 0x91,
    }
}
pub broadcast proof fn lemma_tab_UnsubackCode(c: UnsubackCode)
    ensures tab_UnsubackCode(#[trigger] byte_UnsubackCode(c)) == Some(c)
{}

pub open spec fn tab_AuthCode(b: u8) -> Option<AuthCode> {
    match b {
        0x00 => Some(AuthCode::Success),
        0x18 => Some(AuthCode::ContinueAuthentication),
        0x19 => Some(AuthCode::ReAuthenticate),
        _ => None,
    }
}
pub open spec fn byte_AuthCode(c: AuthCode) -> u8 {
    match c {
        AuthCode::Success => 0x00,
        AuthCode::ContinueAuthentication => 0x18,
        AuthCode::ReAuthenticate => 0x19,
    }
}
pub broadcast proof fn lemma_tab_AuthCode(c: AuthCode)
    ensures tab_AuthCode(#[trigger] byte_AuthCode(c)) == Some(c)
{}

pub open spec fn tab_PubcompPubrelCode(b: u8) -> Option<PubcompPubrelCode> {
    match b {
        0x00 => Some(PubcompPubrelCode::Success),
        0x92 => Some(PubcompPubrelCode::PacketIdentifierNotFound),
        _ => None,
    }
}
pub open spec fn byte_PubcompPubrelCode(c: PubcompPubrelCode) -> u8 {
    match c {
        PubcompPubrelCode::Success => 0x00,
        PubcompPubrelCode::PacketIdentifierNotFound => 0x92,
    }
}
pub broadcast proof fn lemma_tab_PubcompPubrelCode(c: PubcompPubrelCode)
    ensures tab_PubcompPubrelCode(#[trigger] byte_PubcompPubrelCode(c)) == Some(c)
{}

pub open spec fn tab_PubackPubrecCode(b: u8) -> Option<PubackPubrecCode> {
    match b {
        0x00 => Some(PubackPubrecCode::Success),
        0x10 => Some(PubackPubrecCode::NoMatchingSubscribers),
        0x80 => Some(PubackPubrecCode::UnspecifiedError),
        0x83 => Some(PubackPubrecCode::ImplementationSpecificError),
        0x87 => Some(PubackPubrecCode::NotAuthorized),
        0x90 => Some(PubackPubrecCode::TopicNameInvalid),
        0x91 => Some(PubackPubrecCode::PacketIdentifierInUse),
        0x97 => Some(PubackPubrecCode::QuotaExceeded),
        0x99 => Some(PubackPubrecCode::PayloadFormatInvalid),
        _ => None,
    }
}
pub open spec fn byte_PubackPubrecCode(c: PubackPubrecCode) -> u8 {
    match c {
        PubackPubrecCode::Success => 0x00,
        PubackPubrecCode::NoMatchingSubscribers => 0x10,
        PubackPubrecCode::UnspecifiedError => 0x80,
        PubackPubrecCode::ImplementationSpecificError => 0x83,
        PubackPubrecCode::NotAuthorized => 0x87,
        PubackPubrecCode::TopicNameInvalid => 0x90,
        PubackPubrecCode::PacketIdentifierInUse => 0x91,
        PubackPubrecCode::QuotaExceeded => 0x97,
        PubackPubrecCode::PayloadFormatInvalid => 0x99,
    }
}
pub broadcast proof fn lemma_tab_PubackPubrecCode(c: PubackPubrecCode)
    ensures tab_PubackPubrecCode(#[trigger] byte_PubackPubrecCode(c)) == Some(c)
{}

pub open spec fn tab_Granted(b: u8) -> Option<Granted> {
    match b {
        0x00 => Some(Granted::QoS0),
        0x01 => Some(Granted::QoS1),
        0x02 => Some(Granted::QoS2),
        0x80 => Some(Granted::Failure),
        _ => None,
    }
}
pub open spec fn byte_Granted(c: Granted) -> u8 {
    match c {
        Granted::QoS0 => 0x00,
        Granted::QoS1 => 0x01,
        Granted::QoS2 => 0x02,
        Granted::Failure => 0x80,
    }
}
pub broadcast proof fn lemma_tab_Granted(c: Granted)
    ensures tab_Granted(#[trigger] byte_Granted(c)) == Some(c)
{}

pub open spec fn tab_QoS(b: u8) -> Option<QoS> {
    match b {
        0x00 => Some(QoS::QoS0),
        0x01 => Some(QoS::QoS1),
        0x02 => Some(QoS::QoS2),
        _ => None,
    }
}
pub open spec fn byte_QoS(c: QoS) -> u8 {
    match c {
        QoS::QoS0 => 0x00,
        QoS::QoS1 => 0x01,
        QoS::QoS2 => 0x02,
    }
}
pub broadcast proof fn lemma_tab_QoS(c: QoS)
    ensures tab_QoS(#[trigger] byte_QoS(c)) == Some(c)
{}

pub broadcast group tabs { lemma_tab_SubscriptionReasonCode, lemma_tab_DisconnectCode, lemma_tab_UnsubackCode, lemma_tab_AuthCode, lemma_tab_PubcompPubrelCode, lemma_tab_PubackPubrecCode, lemma_tab_Granted, lemma_tab_QoS }

pub open spec fn ptype(n: int) -> PacketType {
    if n == 1 { PacketType::Connect }
    else if n == 2 { PacketType::Connack }
    else if n == 3 { PacketType::Publish }
    else if n == 4 { PacketType::Puback }
    else if n == 5 { PacketType::Pubrec }
    else if n == 6 { PacketType::Pubrel }
    else if n == 7 { PacketType::Pubcomp }
    else if n == 8 { PacketType::Subscribe }
    else if n == 9 { PacketType::Suback }
    else if n == 10 { PacketType::Unsubscribe }
    else if n == 11 { PacketType::Unsuback }
    else if n == 12 { PacketType::Pingreq }
    else if n == 13 { PacketType::Pingresp }
    else if n == 14 { PacketType::Disconnect }
    else if n == 15 { PacketType::Auth }
    else { PacketType::Reserved }
}
pub open spec fn ptnum(t: PacketType) -> int {
    match t {
        PacketType::Reserved => 0,
        PacketType::Connect => 1,
        PacketType::Connack => 2,
        PacketType::Publish => 3,
        PacketType::Puback => 4,
        PacketType::Pubrec => 5,
        PacketType::Pubrel => 6,
        PacketType::Pubcomp => 7,
        PacketType::Subscribe => 8,
        PacketType::Suback => 9,
        PacketType::Unsubscribe => 10,
        PacketType::Unsuback => 11,
        PacketType::Pingreq => 12,
        PacketType::Pingresp => 13,
        PacketType::Disconnect => 14,
        PacketType::Auth => 15,
    }
}

/// what the first byte of a packet says; None if the flags are not allowed
pub open spec fn hdr(b: int) -> Option<FixedHeader> {
    let t = ptype(b / 16);
    let f = b % 16;
    let q = (f / 2) % 4;
    let ok = match t {
        PacketType::Publish => q != 3,
        PacketType::Pubrel | PacketType::Subscribe | PacketType::Unsubscribe => f == 2,
        _ => f == 0,
    };
    if ok { Some(FixedHeader { cmd: t, dup: f >= 8, qos: q as u8, retain: f % 2 == 1 }) } else { None }
}

/// first byte of a packet
pub open spec fn first_byte(t: PacketType, dup: bool, qos: u8, retain: bool) -> int {
    ptnum(t) * 16 + match t {
        PacketType::Publish => (if dup { 8int } else { 0 }) + 2 * qos + (if retain { 1int } else { 0 }),
        PacketType::Pubrel | PacketType::Subscribe | PacketType::Unsubscribe => 2,
        _ => 0,
    }
}

pub proof fn lemma_first_byte(t: PacketType, dup: bool, qos: u8, retain: bool)
    requires t == PacketType::Publish ==> qos <= 2,
    ensures
        0 <= first_byte(t, dup, qos, retain) < 256,
        hdr(first_byte(t, dup, qos, retain)) is Some,
        hdr(first_byte(t, dup, qos, retain))->0.cmd == t,
        t == PacketType::Publish ==> hdr(first_byte(t, dup, qos, retain))->0 == (FixedHeader { cmd: t, dup, qos, retain }),
        t == PacketType::Pubrel || t == PacketType::Subscribe || t == PacketType::Unsubscribe ==>
            hdr(first_byte(t, dup, qos, retain))->0 == (FixedHeader { cmd: t, dup: false, qos: 1, retain: false }),
{
}

pub spec const MQTT_NAME: Seq<u8> = seq![77u8, 81, 84, 84];
pub spec const MQISDP_NAME: Seq<u8> = seq![77u8, 81, 73, 115, 100, 112];
pub open spec fn proto_of(b: Seq<u8>) -> Option<Protocol> {
    if b == MQTT_NAME { Some(Protocol::Mqtt) }
    else if b == MQISDP_NAME { Some(Protocol::MQIsdp) }
    else { None }
}
pub open spec fn proto_name(p: Protocol) -> Seq<u8> {
    match p { Protocol::Mqtt => MQTT_NAME, Protocol::MQIsdp => MQISDP_NAME }
}
pub proof fn lemma_proto(s: Seq<char>)
    ensures
        s == "MQTT"@ <==> sb(s) == MQTT_NAME,
        s == "MQIsdp"@ <==> sb(s) == MQISDP_NAME,
{
    reveal_strlit("MQTT");
    reveal_strlit("MQIsdp");
    lemma_ascii("MQTT"@);
    lemma_ascii("MQIsdp"@);
    assert(sb("MQTT"@) =~= MQTT_NAME);
    assert(sb("MQIsdp"@) =~= MQISDP_NAME);
    encode_utf8_decode_utf8(s);
    encode_utf8_decode_utf8("MQTT"@);
    encode_utf8_decode_utf8("MQIsdp"@);
}

/// characters below 128 are one byte each
pub proof fn lemma_ascii(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 <= 127,
    ensures sb(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] sb(s)[i] == s[i] as u8
{
    is_ascii_chars_encode_utf8(s);
}
