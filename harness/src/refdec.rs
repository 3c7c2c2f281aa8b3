//! Reference decoder: bytes of one frame -> packet.  Written from the MQTT tables and
//! from spec/10_wire.rs + spec/70_packets.rs; shares no code with the crate.
use mqtt_packet_3_5::structure::*;
use mqtt_packet_3_5::packet::MqttPacket;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Hdr { pub t: u8, pub dup: bool, pub qos: u8, pub retain: bool }

pub fn first_byte(b: u8) -> Option<Hdr> {
    let (t, f) = (b >> 4, b & 15);
    let ok = match t { 0 => false, 3 => (f >> 1) & 3 != 3, 6 | 8 | 10 => f == 2, _ => f == 0 };
    if ok { Some(Hdr { t, dup: f & 8 != 0, qos: (f >> 1) & 3, retain: f & 1 != 0 }) } else { None }
}
pub fn var(w: &[u8]) -> Option<(u32, usize)> {
    let mut n = 0u32;
    for i in 0..4 {
        let b = *w.get(i)?;
        n |= ((b & 127) as u32) << (7 * i);
        if b < 128 { return Some((n, i + 1)); }
    }
    None
}
/// (first byte, body, length of the frame)
pub fn frame(w: &[u8]) -> Option<(u8, &[u8], usize)> {
    let b = *w.get(0)?;
    let (n, k) = var(&w[1..])?;
    let e = 1 + k + n as usize;
    if e > w.len() { return None; }
    Some((b, &w[1 + k..e], e))
}
pub fn evar(mut n: u32) -> Vec<u8> {
    let mut v = vec![];
    loop {
        let b = (n % 128) as u8;
        n /= 128;
        if n == 0 { v.push(b); return v; }
        v.push(b + 128);
    }
}
pub fn mkframe(first: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![first];
    v.extend(evar(body.len() as u32));
    v.extend_from_slice(body);
    v
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val { U32(u32), U16(u16), U8(u8), Bool(bool), Var(u32), Str(String), Bin(Vec<u8>), Pair(String, String) }

pub fn kind(id: u8) -> char {
    match id {
        1 | 0x17 | 0x19 | 0x25 | 0x28 | 0x29 | 0x2A => 'b',
        2 | 0x11 | 0x18 | 0x27 => '4',
        3 | 8 | 0x12 | 0x15 | 0x16 | 0x1A | 0x1C | 0x1F => 's',
        9 => 'd',
        0x0B => 'v',
        0x13 | 0x21 | 0x22 | 0x23 => '2',
        0x24 => '1',
        0x26 => 'p',
        _ => 'x',
    }
}
pub const A_CONNECT: &[u8] = &[0x11, 0x15, 0x16, 0x17, 0x19, 0x21, 0x22, 0x26, 0x27];
pub const A_WILL: &[u8] = &[1, 2, 3, 8, 9, 0x18, 0x26];
pub const A_CONNACK: &[u8] = &[0x11, 0x12, 0x13, 0x15, 0x16, 0x1A, 0x1C, 0x1F, 0x21, 0x22, 0x24, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2A];
pub const A_PUBLISH: &[u8] = &[1, 2, 3, 8, 9, 0x0B, 0x23, 0x26];
pub const A_CONF: &[u8] = &[0x1F, 0x26];
pub const A_SUB: &[u8] = &[0x0B, 0x26];
pub const A_UNSUB: &[u8] = &[0x26];
pub const A_DISC: &[u8] = &[0x11, 0x1C, 0x1F, 0x26];
pub const A_AUTH: &[u8] = &[0x15, 0x16, 0x1F, 0x26];

pub fn allowed(t: u8) -> &'static [u8] {
    match t { 1 => A_CONNECT, 2 => A_CONNACK, 3 => A_PUBLISH, 4..=7 | 9 | 11 => A_CONF, 8 => A_SUB, 10 => A_UNSUB, 14 => A_DISC, 15 => A_AUTH, _ => &[] }
}

pub struct P<'a> {
    pub w: &'a [u8],
    /// what a frame written by the crate must not contain
    pub odd: Vec<String>,
    /// identifiers of all property blocks, in order
    pub blocks: Vec<Vec<(u8, Val)>>,
    /// why the frame was refused
    pub why: &'static str,
}
type O<T> = Option<T>;
impl<'a> P<'a> {
    pub fn new(w: &'a [u8]) -> P<'a> { P { w, odd: vec![], blocks: vec![], why: "" } }
    fn no<T>(&mut self, why: &'static str) -> O<T> { if self.why.is_empty() { self.why = why; } None }
    pub fn take(&mut self, n: usize) -> O<&'a [u8]> {
        if n > self.w.len() { return self.no("short"); }
        let (a, b) = self.w.split_at(n);
        self.w = b;
        Some(a)
    }
    pub fn u8(&mut self) -> O<u8> { Some(self.take(1)?[0]) }
    pub fn u16(&mut self) -> O<u16> { let b = self.take(2)?; Some(b[0] as u16 * 256 + b[1] as u16) }
    pub fn u32(&mut self) -> O<u32> { let b = self.take(4)?; Some(u32::from_be_bytes([b[0], b[1], b[2], b[3]])) }
    pub fn bin(&mut self) -> O<Vec<u8>> { let n = self.u16()?; Some(self.take(n as usize)?.to_vec()) }
    pub fn str(&mut self) -> O<String> {
        let b = self.bin()?;
        match std::str::from_utf8(&b) { Ok(s) => Some(s.to_string()), Err(_) => self.no("utf8") }
    }
    pub fn var(&mut self) -> O<u32> {
        match var(self.w) {
            Some((n, k)) => {
                if evar(n).len() != k { self.odd.push(format!("variable byte integer {} uses {} bytes", n, k)); }
                self.w = &self.w[k..];
                Some(n)
            }
            None => self.no("var"),
        }
    }
    fn val(&mut self, id: u8) -> O<Val> {
        Some(match kind(id) {
            'b' => {
                let b = self.u8()?;
                if b > 1 { self.odd.push(format!("property {:#x} has the value {}", id, b)); }
                Val::Bool(b != 0)
            }
            '4' => Val::U32(self.u32()?),
            's' => Val::Str(self.str()?),
            'd' => Val::Bin(self.bin()?),
            'v' => Val::Var(self.var()?),
            '2' => Val::U16(self.u16()?),
            '1' => Val::U8(self.u8()?),
            'p' => { let k = self.str()?; Val::Pair(k, self.str()?) }
            _ => return self.no("propid"),
        })
    }
    /// None: refused; Some(None): no properties
    fn block(&mut self, ver: u8, allow: &'static [u8]) -> O<Option<Vec<(u8, Val)>>> {
        if ver != 5 { return Some(None); }
        let n = self.var()? as usize;
        let b = self.take(n)?;
        let mut q = P::new(b);
        let mut out = vec![];
        while !q.w.is_empty() {
            let id = q.u8().unwrap();
            match q.val(id) {
                None => { let w = if q.why == "short" { "propshort" } else { q.why }; return self.no(w); }
                Some(v) => out.push((id, v)),
            }
        }
        if let Some((id, _)) = out.iter().find(|p| !allow.contains(&p.0)) { let _ = id; return self.no("propid"); }
        self.odd.append(&mut q.odd);
        for (i, p) in out.iter().enumerate() {
            if p.0 != 0x26 && p.0 != 0x0B && out[..i].iter().any(|q| q.0 == p.0) { self.odd.push(format!("property {:#x} written twice", p.0)); }
        }
        self.blocks.push(out.clone());
        Some(if out.is_empty() { None } else { Some(out) })
    }
}

// ---------------------------------------------------------------- what a block means

struct B<'a>(&'a [(u8, Val)]);
impl<'a> B<'a> {
    fn last(&self, id: u8) -> Option<&'a Val> { self.0.iter().rev().find(|p| p.0 == id).map(|p| &p.1) }
    fn s(&self, id: u8) -> Option<String> { match self.last(id) { Some(Val::Str(s)) => Some(s.clone()), _ => None } }
    fn n4(&self, id: u8) -> Option<u32> { match self.last(id) { Some(Val::U32(n)) => Some(*n), _ => None } }
    fn n2(&self, id: u8) -> Option<u16> { match self.last(id) { Some(Val::U16(n)) => Some(*n), _ => None } }
    fn n1(&self, id: u8) -> Option<u8> { match self.last(id) { Some(Val::U8(n)) => Some(*n), _ => None } }
    fn b(&self, id: u8) -> Option<bool> { match self.last(id) { Some(Val::Bool(n)) => Some(*n), _ => None } }
    fn d(&self, id: u8) -> Vec<u8> { match self.last(id) { Some(Val::Bin(n)) => n.clone(), _ => vec![] } }
    fn subs(&self) -> Vec<u32> { self.0.iter().filter_map(|p| if let Val::Var(n) = p.1 { Some(n) } else { None }).collect() }
    fn user(&self) -> UserProperties {
        let mut m: UserProperties = HashMap::new();
        for p in self.0 { if let Val::Pair(k, v) = &p.1 { m.entry(k.clone()).or_default().push(v.clone()); } }
        m
    }
}
pub fn m_auth(b: &[(u8, Val)]) -> AuthProperties {
    let b = B(b);
    AuthProperties { authentication_method: b.s(0x15).unwrap_or_default(), authentication_data: b.s(0x16), reason_string: b.s(0x1F), user_properties: b.user() }
}
pub fn m_publish(b: &[(u8, Val)]) -> PublishProperties {
    let b = B(b);
    PublishProperties { payload_format_indicator: b.b(1).unwrap_or(false), message_expiry_interval: b.n4(2), content_type: b.s(3), response_topic: b.s(8),
        correlation_data: b.d(9), subscription_identifiers: b.subs(), topic_alias: b.n2(0x23), user_properties: b.user() }
}
pub fn m_subscribe(b: &[(u8, Val)]) -> SubscribeProperties {
    let b = B(b);
    SubscribeProperties { subscription_identifier: b.subs().last().copied().unwrap_or(0), user_properties: b.user() }
}
pub fn m_unsubscribe(b: &[(u8, Val)]) -> UnsubscribeProperties { UnsubscribeProperties { user_properties: B(b).user() } }
pub fn m_conf(b: &[(u8, Val)]) -> ConfirmationProperties { let b = B(b); ConfirmationProperties { reason_string: b.s(0x1F), user_properties: b.user() } }
pub fn m_disconnect(b: &[(u8, Val)]) -> DisconnectProperties {
    let b = B(b);
    DisconnectProperties { session_expiry_interval: b.n4(0x11), server_reference: b.s(0x1C), reason_string: b.s(0x1F), user_properties: b.user() }
}
pub fn m_will(b: &[(u8, Val)]) -> WillProperties {
    let b = B(b);
    WillProperties { payload_format_indicator: b.b(1).unwrap_or(false), message_expiry_interval: b.n4(2), content_type: b.s(3), response_topic: b.s(8),
        correlation_data: b.d(9), will_delay_interval: b.n4(0x18).unwrap_or(0), user_properties: b.user() }
}
pub fn m_connect(b: &[(u8, Val)]) -> ConnectProperties {
    let b = B(b);
    ConnectProperties { session_expiry_interval: b.n4(0x11).unwrap_or(0), receive_maximum: b.n2(0x21).unwrap_or(65535), maximum_packet_size: b.n4(0x27),
        topic_alias_maximum: b.n2(0x22).unwrap_or(0), request_response_information: b.b(0x19).unwrap_or(false),
        request_problem_information: b.b(0x17).unwrap_or(true), user_properties: b.user(), authentication_method: b.s(0x15), authentication_data: b.s(0x16) }
}
pub fn m_connack(b: &[(u8, Val)]) -> ConnackProperties {
    let b = B(b);
    ConnackProperties { session_expiry_interval: b.n4(0x11).unwrap_or(0), assigned_client_identifier: b.s(0x12), server_keep_alive: b.n2(0x13),
        authentication_method: b.s(0x15), authentication_data: b.s(0x16), response_information: b.s(0x1A), server_reference: b.s(0x1C), reason_string: b.s(0x1F),
        receive_maximum: b.n2(0x21).unwrap_or(65535), topic_alias_maximum: b.n2(0x22).unwrap_or(0), maximum_qos: b.n1(0x24).unwrap_or(2),
        retain_available: b.b(0x25).unwrap_or(true), user_properties: b.user(), maximum_packet_size: b.n4(0x27),
        wildcard_subscription_available: b.b(0x28).unwrap_or(false), subscription_identifiers_available: b.b(0x29).unwrap_or(false),
        shared_subscription_available: b.b(0x2A).unwrap_or(false), is_default: false }
}

// ---------------------------------------------------------------- code tables (MQTT 5, 2.4)

pub const T_SUBACK: &[(u8, SubscriptionReasonCode)] = { use SubscriptionReasonCode::*; &[(0, GrantedQoS0), (1, GrantedQoS1), (2, GrantedQoS2), (128, UnspecifiedError),
    (131, ImplementationSpecificError), (135, NotAuthorized), (143, TopicFilterInvalid), (145, PacketIdentifierInUse), (151, QuotaExceeded),
    (158, SharedSubscriptionsNotSupported), (161, SubscriptionIdentifiersNotSupported), (162, WildcardSubscriptionsNotSupported)] };
pub const T_DISC: &[(u8, DisconnectCode)] = { use DisconnectCode::*; &[(0, NormalDisconnection), (4, DisconnectWithWillMessage), (128, UnspecifiedError), (129, MalformedPacket),
    (130, ProtocolError), (131, ImplementationSpecificError), (135, NotAuthorized), (137, ServerBusy), (139, ServerShuttingDown), (141, KeepAliveTimeout), (142, SessionTakenVver),
    (143, TopicFilterInvalid), (144, TopicNameInvalid), (147, ReceiveMaximumExceeded), (148, TopicAliasInvalid), (149, PacketTooLarge), (150, MessageRateTooHigh), (151, QuotaExceeded),
    (152, AdministrativeAction), (153, PayloadFormatInvalid), (154, RetainNotSupported), (155, QoSNotSupported), (156, UseAnotherServer), (157, ServerMoved),
    (158, SharedSubscriptionsNotSupported), (159, ConnectionRateExceeded), (160, MaximumConnectTime), (161, SubscriptionIdentifiersNotSupported), (162, WildcardSubscriptionsNotSupported)] };
pub const T_UNSUB: &[(u8, UnsubackCode)] = { use UnsubackCode::*; &[(0, Success), (17, NoSubscriptionExisted), (128, UnspecifiedError), (131, ImplementationSpecificError),
    (135, NotAuthorized), (143, TopicFilterInvalid), (145, PacketIdentifierInUse)] };
pub const T_AUTH: &[(u8, AuthCode)] = { use AuthCode::*; &[(0, Success), (24, ContinueAuthentication), (25, ReAuthenticate)] };
pub const T_REL: &[(u8, PubcompPubrelCode)] = { use PubcompPubrelCode::*; &[(0, Success), (146, PacketIdentifierNotFound)] };
pub const T_ACK: &[(u8, PubackPubrecCode)] = { use PubackPubrecCode::*; &[(0, Success), (16, NoMatchingSubscribers), (128, UnspecifiedError), (131, ImplementationSpecificError),
    (135, NotAuthorized), (144, TopicNameInvalid), (145, PacketIdentifierInUse), (151, QuotaExceeded), (153, PayloadFormatInvalid)] };
pub const T_GRANTED: &[(u8, Granted)] = &[(0, Granted::QoS0), (1, Granted::QoS1), (2, Granted::QoS2), (128, Granted::Failure)];
pub const T_QOS: &[(u8, QoS)] = &[(0, QoS::QoS0), (1, QoS::QoS1), (2, QoS::QoS2)];

pub fn tab<T: Clone>(t: &[(u8, T)], b: u8) -> Option<T> { t.iter().find(|x| x.0 == b).map(|x| x.1.clone()) }

pub fn ptype(t: u8) -> PacketType {
    use PacketType::*;
    [Reserved, Connect, Connack, Publish, Puback, Pubrec, Pubrel, Pubcomp, Subscribe, Suback, Unsubscribe, Unsuback, Pingreq, Pingresp, Disconnect, Auth][t as usize]
}

/// the packet a body stands for (None: an error), the rest of the body stays in p
pub fn body(p: &mut P, h: &Hdr, ver: u8) -> O<MqttPacket> {
    let n = p.w.len();
    Some(match h.t {
        1 => {
            let name = p.str()?;
            let protocol_id = match name.as_str() { "MQTT" => Protocol::Mqtt, "MQIsdp" => Protocol::MQIsdp, _ => return p.no("proto") };
            let v = p.u8()?;
            if v >= 128 { p.odd.push("bridge bit".into()); }
            let ver = v % 128;
            let f = p.u8()?;
            if !(3..=5).contains(&ver) { return p.no("version"); }
            let (will, q) = (f & 4 != 0, (f >> 3) & 3);
            if f & 1 != 0 || q == 3 || (!will && (f & 32 != 0 || q != 0)) { return p.no("cflags"); }
            let keep_alive = p.u16()?;
            let properties = p.block(ver, A_CONNECT)?.map(|b| m_connect(&b));
            let client_id = p.str()?;
            let will = if will {
                let properties = p.block(ver, A_WILL)?.map(|b| m_will(&b));
                let topic = Some(p.str()?);
                let payload = Some(p.str()?);
                Some(LastWill { topic, payload, qos: q, retain: f & 32 != 0, properties })
            } else { None };
            let user_name = if f & 128 != 0 { Some(p.str()?) } else { None };
            let password = if f & 64 != 0 { Some(p.str()?) } else { None };
            MqttPacket::Connect(ConnectPacket { client_id, protocol_version: ver, protocol_id, clean_session: f & 2 != 0, keep_alive, user_name, password, will, properties })
        }
        2 => {
            let f = p.u8()?;
            if f > 1 { return p.no("flags"); }
            if ver == 5 {
                let c = if p.w.is_empty() { p.odd.push("no reason code".into()); 0 } else { p.u8()? };
                let properties = if p.w.is_empty() { None } else { p.block(ver, A_CONNACK)?.map(|b| m_connack(&b)) };
                MqttPacket::Connack(ConnackPacket { return_code: None, reason_code: Some(c), session_present: f == 1, properties })
            } else {
                MqttPacket::Connack(ConnackPacket { return_code: Some(p.u8()?), reason_code: None, session_present: f == 1, properties: None })
            }
        }
        3 => {
            let topic = p.str()?;
            let message_id = if h.qos > 0 { Some(p.u16()?) } else { None };
            let properties = p.block(ver, A_PUBLISH)?.map(|b| m_publish(&b));
            let payload = p.take(p.w.len())?.to_vec();
            MqttPacket::Publish(PublishPacket { dup: h.dup, qos: h.qos, retain: h.retain, topic, message_id, payload, properties })
        }
        4..=7 => {
            let message_id = p.u16()?;
            let mut c = ConfirmationPacket { cmd: ptype(h.t), puback_reason_code: None, pubcomp_reason_code: None, properties: None, message_id };
            if ver == 5 {
                let (b, short) = if p.w.is_empty() { (0, true) } else { (p.u8()?, false) };
                if h.t < 6 { c.puback_reason_code = tab(T_ACK, b); } else { c.pubcomp_reason_code = tab(T_REL, b); }
                if c.puback_reason_code.is_none() && c.pubcomp_reason_code.is_none() { return p.no("code"); }
                if !p.w.is_empty() { c.properties = p.block(ver, A_CONF)?.map(|b| m_conf(&b)); } else if !short { p.odd.push("property length missing".into()); }
                if b == 0 && !short && c.properties.is_none() { p.odd.push("success without properties is not in the short form".into()); }
            }
            match h.t { 4 => MqttPacket::Puback(c), 5 => MqttPacket::Pubrec(c), 6 => MqttPacket::Pubrel(c), _ => MqttPacket::Pubcomp(c) }
        }
        8 => {
            let message_id = p.u16()?;
            let properties = p.block(ver, A_SUB)?.map(|b| m_subscribe(&b));
            let mut subscriptions = vec![];
            if p.w.is_empty() { return p.no("empty"); }
            while !p.w.is_empty() {
                let topic = p.str()?;
                let o = p.u8()?;
                let q = match tab(T_QOS, o & 3) { Some(q) => q, None => return p.no("opts") };
                if if ver == 5 { o >= 64 || (o >> 4) & 3 == 3 } else { o >= 4 } { return p.no("opts"); }
                subscriptions.push(if ver == 5 { Subscription { topic, qos: q, nl: o & 4 != 0, rap: o & 8 != 0, rh: Some((o >> 4) & 3) } }
                    else { Subscription { topic, qos: q, nl: false, rap: false, rh: None } });
            }
            MqttPacket::Subscribe(SubscribePacket { qos: 1, subscriptions, properties, message_id })
        }
        9 => {
            let message_id = p.u16()?;
            let properties = p.block(ver, A_CONF)?.map(|b| m_conf(&b));
            if p.w.is_empty() { return p.no("empty"); }
            let (mut granted_reason_codes, mut granted) = (vec![], vec![]);
            while !p.w.is_empty() {
                let b = p.u8()?;
                if ver == 5 { match tab(T_SUBACK, b) { Some(c) => granted_reason_codes.push(c), None => return p.no("code") } }
                else { match tab(T_GRANTED, b) { Some(c) => granted.push(c), None => return p.no("code") } }
            }
            MqttPacket::Suback(SubackPacket { reason_code: None, message_id, properties, granted_reason_codes, granted })
        }
        10 => {
            let message_id = p.u16()?;
            let properties = p.block(ver, A_UNSUB)?.map(|b| m_unsubscribe(&b));
            if p.w.is_empty() { return p.no("empty"); }
            let mut unsubscriptions = vec![];
            while !p.w.is_empty() { unsubscriptions.push(p.str()?); }
            MqttPacket::Unsubscribe(UnsubscribePacket { qos: 1, message_id, properties, unsubscriptions })
        }
        11 => {
            let message_id = p.u16()?;
            let mut granted = vec![];
            let mut properties = None;
            if ver == 5 {
                properties = p.block(ver, A_CONF)?.map(|b| m_conf(&b));
                while !p.w.is_empty() { let b = p.u8()?; match tab(T_UNSUB, b) { Some(c) => granted.push(c), None => return p.no("code") } }
            } else if (ver == 3 || ver == 4) && n != 2 { return p.no("len"); }
            MqttPacket::Unsuback(UnsubackPacket { message_id, granted, properties })
        }
        12 => MqttPacket::Pingreq,
        13 => MqttPacket::Pingresp,
        14 => {
            if ver != 5 { return Some(MqttPacket::Disconnect(DisconnectPacket { reason_code: None, properties: None })); }
            let b = if p.w.is_empty() { p.odd.push("reason code missing".into()); 0 } else { p.u8()? };
            let c = match tab(T_DISC, b) { Some(c) => c, None => return p.no("code") };
            let properties = if p.w.is_empty() { None } else { p.block(ver, A_DISC)?.map(|b| m_disconnect(&b)) };
            MqttPacket::Disconnect(DisconnectPacket { reason_code: Some(c), properties })
        }
        15 => {
            if ver != 5 { return p.no("authver"); }
            if p.w.is_empty() { p.odd.push("reason code missing".into()); return Some(MqttPacket::Auth(AuthPacket { reason_code: AuthCode::Success, properties: None })); }
            let b = p.u8()?;
            let c = match tab(T_AUTH, b) { Some(c) => c, None => return p.no("code") };
            let properties = p.block(ver, A_AUTH)?.map(|b| m_auth(&b));
            MqttPacket::Auth(AuthPacket { reason_code: c, properties })
        }
        _ => return None,
    })
}

/// what is not part of the value: set to one value on both sides
pub fn neutral(mut p: MqttPacket) -> MqttPacket {
    match &mut p {
        MqttPacket::Connack(c) => if let Some(q) = &mut c.properties { q.is_default = false; },
        MqttPacket::Subscribe(c) => c.qos = 1,
        MqttPacket::Unsubscribe(c) => c.qos = 1,
        MqttPacket::Suback(c) => c.reason_code = None,
        _ => {}
    }
    p
}

/// (result, reason of a refusal, bytes not used)
pub fn decode(first: u8, b: &[u8], ver: u8) -> (Option<MqttPacket>, &'static str, usize) {
    match first_byte(first) {
        None => (None, "first", 0),
        Some(h) => {
            let mut p = P::new(b);
            let r = body(&mut p, &h, ver);
            (r, p.why, p.w.len())
        }
    }
}

// ---------------------------------------------------------------- what encoding keeps

fn nuser(m: &mut UserProperties) { m.retain(|_, v| !v.is_empty()); }

/// the packet that reading back has to give (properties filled in with their defaults)
pub fn canon(p: &MqttPacket, ver: u8) -> MqttPacket {
    macro_rules! fill { ($o:expr, $v:expr, $m:ident) => {{
        if $v == 5 { let mut q = $o.take().unwrap_or_else(|| $m(&[])); nuser(&mut q.user_properties); $o = Some(q); } else { $o = None; }
    }} }
    let mut p = neutral(p.clone());
    match &mut p {
        MqttPacket::Connect(c) => {
            fill!(c.properties, c.protocol_version, m_connect);
            if let Some(w) = &mut c.will {
                fill!(w.properties, c.protocol_version, m_will);
                if w.payload.is_none() { w.payload = Some(String::new()); }
            }
        }
        MqttPacket::Connack(c) => { fill!(c.properties, ver, m_connack); if ver == 5 { c.return_code = None } else { c.reason_code = None } }
        MqttPacket::Publish(c) => { fill!(c.properties, ver, m_publish); if c.qos == 0 { c.message_id = None; } }
        MqttPacket::Puback(c) | MqttPacket::Pubrec(c) | MqttPacket::Pubrel(c) | MqttPacket::Pubcomp(c) => {
            fill!(c.properties, ver, m_conf);
            if ver != 5 { c.puback_reason_code = None; c.pubcomp_reason_code = None; }
        }
        MqttPacket::Subscribe(c) => {
            fill!(c.properties, ver, m_subscribe);
            if ver != 5 { for s in &mut c.subscriptions { s.nl = false; s.rap = false; s.rh = None; } }
        }
        MqttPacket::Suback(c) => { fill!(c.properties, ver, m_conf); if ver == 5 { c.granted.clear() } else { c.granted_reason_codes.clear() } }
        MqttPacket::Unsubscribe(c) => { fill!(c.properties, ver, m_unsubscribe) }
        MqttPacket::Unsuback(c) => { fill!(c.properties, ver, m_conf); if ver != 5 { c.granted.clear() } }
        MqttPacket::Disconnect(c) => {
            fill!(c.properties, ver, m_disconnect);
            if ver == 5 { if c.reason_code.is_none() { c.reason_code = Some(DisconnectCode::NormalDisconnection); } } else { c.reason_code = None; }
        }
        MqttPacket::Auth(c) => { fill!(c.properties, ver, m_auth) }
        MqttPacket::Pingreq | MqttPacket::Pingresp => {}
    }
    neutral(p)
}

pub fn pnibble(p: &MqttPacket) -> u8 {
    match p { MqttPacket::Connect(_) => 1, MqttPacket::Connack(_) => 2, MqttPacket::Publish(_) => 3, MqttPacket::Puback(_) => 4, MqttPacket::Pubrec(_) => 5,
        MqttPacket::Pubrel(_) => 6, MqttPacket::Pubcomp(_) => 7, MqttPacket::Subscribe(_) => 8, MqttPacket::Suback(_) => 9, MqttPacket::Unsubscribe(_) => 10,
        MqttPacket::Unsuback(_) => 11, MqttPacket::Pingreq => 12, MqttPacket::Pingresp => 13, MqttPacket::Disconnect(_) => 14, MqttPacket::Auth(_) => 15 }
}
pub fn pfirst(p: &MqttPacket) -> u8 {
    let t = pnibble(p);
    t * 16 + match p { MqttPacket::Publish(q) => (q.dup as u8) * 8 + q.qos * 2 + q.retain as u8, _ => if t == 6 || t == 8 || t == 10 { 2 } else { 0 } }
}

fn fs(s: &str) -> bool { s.len() <= 65535 }
fn fo(s: &Option<String>) -> bool { s.as_ref().map_or(true, |s| s.len() <= 65535) }
fn fu(u: &UserProperties) -> bool { u.iter().all(|(k, v)| (v.is_empty() || fs(k)) && v.iter().all(|s| fs(s))) }
const MAXVAR: u32 = 268435455;

/// why the packet has no encoding ("" if it has one, unless it is too long)
pub fn refuse(p: &MqttPacket, ver: u8) -> &'static str {
    let conf = |o: &Option<ConfirmationProperties>| ver == 5 && o.as_ref().map_or(false, |q| !fo(&q.reason_string) || !fu(&q.user_properties));
    match p {
        MqttPacket::Connect(c) => {
            let v = c.protocol_version;
            if !(3..=5).contains(&v) { return "version"; }
            if c.client_id.is_empty() && !(v >= 4 && c.clean_session) { return "clientid"; }
            if let Some(w) = &c.will {
                match &w.topic { None => return "willtopic", Some(t) => if t.is_empty() { return "willtopic"; } else if !fs(t) { return "size"; } }
                if w.qos > 2 { return "willqos"; }
                if !fo(&w.payload) { return "size"; }
                if v == 5 { if let Some(q) = &w.properties {
                    if !fo(&q.content_type) || !fo(&q.response_topic) || q.correlation_data.len() > 65535 || !fu(&q.user_properties) { return "size"; }
                } }
            }
            if c.password.is_some() && c.user_name.is_none() { return "password"; }
            if !fs(&c.client_id) || !fo(&c.user_name) || !fo(&c.password) { return "size"; }
            if v == 5 { if let Some(q) = &c.properties { if !fo(&q.authentication_method) || !fo(&q.authentication_data) || !fu(&q.user_properties) { return "size"; } } }
        }
        MqttPacket::Connack(c) => {
            if (if ver == 5 { c.reason_code } else { c.return_code }).is_none() { return "nocode"; }
            if ver == 5 { if let Some(q) = &c.properties {
                if !fo(&q.assigned_client_identifier) || !fo(&q.authentication_method) || !fo(&q.authentication_data) || !fo(&q.response_information)
                    || !fo(&q.server_reference) || !fo(&q.reason_string) || !fu(&q.user_properties) { return "size"; }
            } }
        }
        MqttPacket::Publish(c) => {
            if c.topic.is_empty() { return "topic"; }
            if c.qos > 2 { return "qos"; }
            if c.qos > 0 && c.message_id.is_none() { return "noid"; }
            if !fs(&c.topic) { return "size"; }
            if ver == 5 { if let Some(q) = &c.properties {
                if !fo(&q.content_type) || !fo(&q.response_topic) || q.correlation_data.len() > 65535 || !fu(&q.user_properties) { return "size"; }
                if q.subscription_identifiers.iter().any(|n| *n > MAXVAR) { return "size"; }
            } }
        }
        MqttPacket::Puback(c) | MqttPacket::Pubrec(c) | MqttPacket::Pubrel(c) | MqttPacket::Pubcomp(c) => if ver == 5 {
            let ack = matches!(c.cmd, PacketType::Puback | PacketType::Pubrec);
            if c.puback_reason_code.is_some() != ack || c.pubcomp_reason_code.is_some() == ack { return "code"; }
            if conf(&c.properties) { return "size"; }
        },
        MqttPacket::Subscribe(c) => {
            if c.subscriptions.is_empty() { return "empty"; }
            for s in &c.subscriptions {
                if s.topic.is_empty() { return "topic"; }
                if ver == 5 && !matches!(s.rh, Some(0..=2)) { return "rh"; }
            }
            if c.subscriptions.iter().any(|s| !fs(&s.topic)) { return "size"; }
            if ver == 5 { if let Some(q) = &c.properties { if q.subscription_identifier > MAXVAR || !fu(&q.user_properties) { return "size"; } } }
        }
        MqttPacket::Suback(c) => {
            if if ver == 5 { c.granted_reason_codes.is_empty() } else { c.granted.is_empty() } { return "empty"; }
            if conf(&c.properties) { return "size"; }
        }
        MqttPacket::Unsubscribe(c) => {
            if c.unsubscriptions.is_empty() { return "empty"; }
            if c.unsubscriptions.iter().any(|s| !fs(s)) { return "size"; }
            if ver == 5 { if let Some(q) = &c.properties { if !fu(&q.user_properties) { return "size"; } } }
        }
        MqttPacket::Unsuback(c) => if conf(&c.properties) { return "size"; },
        MqttPacket::Disconnect(c) => if ver == 5 { if let Some(q) = &c.properties {
            if !fo(&q.server_reference) || !fo(&q.reason_string) || !fu(&q.user_properties) { return "size"; }
        } },
        MqttPacket::Auth(c) => {
            if ver != 5 { return "authver"; }
            if let Some(q) = &c.properties {
                if !fs(&q.authentication_method) || !fo(&q.authentication_data) || !fo(&q.reason_string) || !fu(&q.user_properties) { return "size"; }
            }
        }
        MqttPacket::Pingreq | MqttPacket::Pingresp => {}
    }
    ""
}
