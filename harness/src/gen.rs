//! generators: packets, frame bodies, readers
use crate::refdec::*;
use mqtt_packet_3_5::packet::MqttPacket;
use mqtt_packet_3_5::structure::*;
use std::io;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn one_in(&mut self, n: usize) -> bool { self.below(n) == 0 }
    pub fn bit(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { let i = self.below(s.len()); &s[i] }
}

/// literals of the code under test, to aim at its special cases
#[derive(Clone, Default)]
pub struct Dict { pub nums: Vec<u64>, pub strs: Vec<String>, /// those that are not in literals.txt, the literals when this was written
    pub new_nums: Vec<u64>, pub new_strs: Vec<String> }
impl Dict {
    pub fn split(&mut self) {
        // a literal that occurs more often than it did counts as new
        let base = include_str!("../literals.txt");
        let mut old: std::collections::HashMap<&str, usize> = Default::default();
        for l in base.lines() { if let Some((c, w)) = l.split_once(' ') { old.insert(w, c.parse().unwrap_or(0)); } }
        let more = |k: String, n: usize| n > old.get(k.as_str()).copied().unwrap_or(0);
        let (nums, strs) = (counted(&self.nums), counted(&self.strs));
        self.new_nums = nums.iter().filter(|(n, c)| more(format!("n{}", n), *c)).map(|x| x.0).collect();
        self.new_strs = strs.iter().filter(|(s, c)| more(format!("s{:?}", s), *c)).map(|x| x.0.clone()).collect();
        self.nums = nums.into_iter().map(|x| x.0).collect();
        self.strs = strs.into_iter().map(|x| x.0).collect();
    }
    /// before split
    pub fn list(&self) -> String { counted(&self.nums).iter().map(|(n, c)| format!("{} n{}\n", c, n)).chain(counted(&self.strs).iter().map(|(s, c)| format!("{} s{:?}\n", c, s))).collect() }
}

fn counted<T: Ord + Clone>(v: &[T]) -> Vec<(T, usize)> {
    let mut m = std::collections::BTreeMap::new();
    for x in v { *m.entry(x.clone()).or_insert(0) += 1; }
    m.into_iter().collect()
}

/// the number at t[i..], and where it ends
fn number(t: &[u8], i: usize) -> Option<(u64, usize)> {
    let mut j = i;
    while j < t.len() && (t[j].is_ascii_alphanumeric() || t[j] == b'_') { j += 1; }
    let s: String = String::from_utf8_lossy(&t[i..j]).replace('_', "").to_lowercase();
    for (n, m) in [("u8", 255u64), ("i8", 127), ("u16", 65535), ("i16", 32767), ("u32", 0xffff_ffff), ("i32", 0x7fff_ffff)] {
        if s == n && t[j..].starts_with(b"::MAX") { return Some((m, j + 5)); }
    }
    if !s.starts_with(|c: char| c.is_ascii_digit()) { return None; }
    let mut s = s.as_str();
    for suf in ["usize", "u8", "u16", "u32", "u64", "i32", "i64"] { if let Some(x) = s.strip_suffix(suf) { s = x; } }
    let v = if let Some(h) = s.strip_prefix("0x") { u64::from_str_radix(h, 16) } else if let Some(h) = s.strip_prefix("0b") { u64::from_str_radix(h, 2) } else { s.parse() };
    v.ok().map(|v| (v, j))
}

pub fn harvest(dir: &std::path::Path, d: &mut Dict) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    es.sort();
    for p in es {
        if p.is_dir() { harvest(&p, d); continue; }
        if p.extension().map_or(true, |e| e != "rs") { continue; }
        let Ok(t) = std::fs::read(&p) else { continue };
        let mut i = 0;
        while i < t.len() {
            let c = t[i];
            if c == b'/' && t.get(i + 1) == Some(&b'/') { while i < t.len() && t[i] != b'\n' { i += 1; } continue; }
            if c == b'"' {
                let mut j = i + 1;
                let mut s = vec![];
                while j < t.len() && t[j] != b'"' { if t[j] == b'\\' { j += 1; } if j < t.len() { s.push(t[j]); } j += 1; }
                if s.len() <= 24 && !s.is_empty() && !s.contains(&b'{') { if let Ok(s) = String::from_utf8(s) { d.strs.push(s); } }
                i = j + 1;
                continue;
            }
            if c == b'\'' && t.get(i + 2) == Some(&b'\'') { d.strs.push((t[i + 1] as char).to_string()); i += 3; continue; }
            if (c.is_ascii_digit() || c == b'u' || c == b'i') && (i == 0 || !(t[i - 1].is_ascii_alphanumeric() || t[i - 1] == b'_')) {
                if let Some((mut v, mut j)) = number(&t, i) {
                    d.nums.push(v);
                    // 1 << 20, 64 * 1024, u16::MAX as usize / 2
                    let mut k = j;
                    loop {
                        let sp = |mut k: usize| { while k < t.len() && t[k] == b' ' { k += 1; } k };
                        k = sp(k);
                        if t[k..].starts_with(b"as ") { k = sp(k + 3); while k < t.len() && t[k].is_ascii_alphanumeric() { k += 1; } k = sp(k); }
                        let op = match t.get(k) { Some(b'<') if t.get(k + 1) == Some(&b'<') => { k += 2; b'<' }, Some(c @ (b'*' | b'-' | b'+' | b'/')) if t.get(k + 1) == Some(&b' ') => { k += 1; *c }, _ => break };
                        k = sp(k);
                        let Some((w, e)) = number(&t, k) else { break };
                        v = match op { b'<' => v.checked_shl(w as u32).unwrap_or(0), b'*' => v.saturating_mul(w), b'-' => v.saturating_sub(w), b'/' => v / w.max(1), _ => v.saturating_add(w) };
                        d.nums.push(v);
                        d.nums.push(w);
                        j = e;
                        k = e;
                    }
                    i = j;
                    continue;
                }
                while i < t.len() && (t[i].is_ascii_alphanumeric() || t[i] == b'_') { i += 1; }
                continue;
            }
            i += 1;
        }
    }
}

pub struct G { pub r: Rng, pub d: Dict, /// long strings allowed
    pub big: bool }

impl G {
    /// a literal that is new in the code under test
    fn fresh(&mut self, max: u64) -> Option<u64> {
        if self.d.new_nums.is_empty() { return None; }
        let n = *self.r.pick(&self.d.new_nums);
        let n = match self.r.below(8) { 0 => n + 1, 1 => n.saturating_sub(1), 2 => n * 2, 3 if n > 0 => self.r.next() / n.max(1) * n, _ => n };
        if n <= max { Some(n) } else { None }
    }
    pub fn num(&mut self, max: u64) -> u64 {
        if self.r.one_in(5) { if let Some(n) = self.fresh(max) { return n; } }
        let r = &mut self.r;
        let v = match r.below(8) {
            0 => 0,
            1 => max,
            2 => *r.pick(&[1u64, 2, 127, 128, 129, 255, 256, 257, 16383, 16384, 32767, 32768, 65534, 65535, 65536, 2097151, 2097152, 268435455, 268435456, 0x7fffffff, 0x80000000]),
            3 | 4 if !self.d.nums.is_empty() => { let n = *r.pick(&self.d.nums); match r.below(4) { 0 => n + 1, 1 => n.saturating_sub(1), _ => n } }
            5 => r.next() >> (r.below(64)),
            6 => r.below(10) as u64,
            _ => r.next(),
        };
        if v <= max { v } else if max == u64::MAX { v } else { v % (max + 1) }
    }
    pub fn u8(&mut self) -> u8 { self.num(255) as u8 }
    pub fn u16(&mut self) -> u16 { self.num(65535) as u16 }
    pub fn u32(&mut self) -> u32 { self.num(0xffff_ffff) as u32 }
    pub fn var(&mut self) -> u32 { self.num(268435455) as u32 }
    pub fn len(&mut self) -> usize {
        if self.r.one_in(8) { if let Some(n) = self.fresh(70000) { if n < 400 || self.r.one_in(10) { return n.min(65535) as usize; } } }
        match self.r.below(40) {
            0..=4 => 0,
            5..=9 => 1,
            10..=29 => self.r.below(12),
            30 | 31 => *self.r.pick(&[16usize, 31, 32, 63, 64, 100, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 200, 253, 254, 255, 256, 257, 258]),
            32 | 33 => self.r.below(300),
            34 => self.num(2000) as usize,
            35 if self.r.one_in(8) => *self.r.pick(&[16380usize, 16381, 16382, 16383, 16384, 16385, 8190, 8191, 8192, 8193, 4096, 32767, 32768]),
            36 if self.big && self.r.one_in(6) => *self.r.pick(&[65533usize, 65534, 65535]),
            _ => self.r.below(30),
        }
    }
    pub fn string(&mut self) -> String {
        if self.r.one_in(6) && !self.d.strs.is_empty() { return self.r.pick(&self.d.strs).clone(); }
        if self.r.one_in(6) && !self.d.new_strs.is_empty() {
            let s = self.r.pick(&self.d.new_strs).clone();
            let k = self.r.below(5);
            let t = self.string_n(k);
            return match self.r.below(4) { 0 => s, 1 => s + &t, 2 => t + &s, _ => t.clone() + &s + &t };
        }
        let n = self.len();
        self.string_n(n)
    }
    /// exactly n bytes
    pub fn string_n(&mut self, n: usize) -> String {
        let mut s = String::with_capacity(n);
        let mode = self.r.below(8);
        if n > 200 {
            let c = (b'a' + self.r.below(26) as u8) as char;
            let k = if self.r.bit() { self.r.below(20) } else { 0 };
            let t = *self.r.pick(&['\0', ' ', '/', '#', '\n', 'z']);
            for _ in 0..n - k { s.push(c); }
            for _ in 0..k { s.push(t); }
            return s;
        }
        while s.len() < n {
            let left = n - s.len();
            let c = match mode {
                0 => *self.r.pick(&['/', '#', '+', '$', ' ', '\0', '\u{1}', '\u{7f}', '"', '\\']),
                1 => *self.r.pick(&['é', 'ß', '\u{80}', '\u{7ff}', 'a']),
                2 => *self.r.pick(&['\u{800}', '\u{ffff}', '\u{feff}', '字', 'z', '\u{fffd}']),
                3 => *self.r.pick(&['\u{10000}', '\u{10ffff}', '😀', 'y']),
                4 => std::char::from_u32(self.r.below(0x300) as u32).unwrap(),
                _ => (32 + self.r.below(95) as u8) as char,
            };
            if c.len_utf8() <= left { s.push(c); } else { s.push('x'); }
        }
        s
    }
    /// usually n, now and then as many as a counter of one byte can hold, and a few more
    pub fn many(&mut self, n: usize) -> usize {
        if self.r.one_in(12) { if let Some(n) = self.fresh(1000) { if n < 20 || self.r.one_in(10) { return n.max(1) as usize; } } }
        if self.r.one_in(150) { *self.r.pick(&[16usize, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 258, 300]) } else { n }
    }
    pub fn ostr(&mut self) -> Option<String> { if self.r.bit() { Some(self.string()) } else { None } }
    pub fn bytes(&mut self) -> Vec<u8> { let n = self.len(); self.bytes_n(n) }
    /// n bytes, now and then with a run of equal ones at an end
    pub fn bytes_n(&mut self, n: usize) -> Vec<u8> {
        let mut v: Vec<u8> = if n > 3000 { let a = self.r.next() as u8; let k = 1 + self.r.below(3) as u8; (0..n).map(|i| a.wrapping_add((i as u8).wrapping_mul(k))).collect() } else { (0..n).map(|_| self.r.next() as u8).collect() };
        if n > 0 && self.r.one_in(5) {
            let b = *self.r.pick(&[0u8, 0, 0, 255, b' ', b'\n', 128, 1]);
            let k = if self.r.one_in(4) { n } else { 1 + self.r.below(n.min(20)) };
            let k = k.min(n);
            if self.r.one_in(3) { for x in &mut v[..k] { *x = b } } else { for x in &mut v[n - k..] { *x = b } }
        }
        v
    }
    pub fn payload(&mut self) -> Vec<u8> {
        if !self.r.one_in(40) { return self.bytes(); }
        let n = match self.r.below(3) { 0 => match self.fresh(2100000) { Some(n) => n as usize, None => 65536 }, 1 => *self.r.pick(&[65534usize, 65535, 65536, 65537, 70000, 32768]), _ => *self.r.pick(&[16370usize, 16380, 16384, 70000, 2097152, 9000, 2097140, 4096, 8192]) };
        self.bytes_n(n)
    }
    pub fn user(&mut self) -> UserProperties {
        let mut m = UserProperties::new();
        let n = match self.r.below(8) { 0..=2 => 0, 3 | 4 => 1, 5 => 2, 6 => 3, _ => 1 + self.r.below(6) };
        let n = self.many(n);
        for i in 0..n {
            let k = if i > 8 { format!("k{}", i) } else if self.r.one_in(3) { self.r.pick(&["", "a", "b", "key"]).to_string() } else { self.string() };
            let j = match self.r.below(10) { 0 => 0, 1..=4 => 1, 5..=7 => 2, 8 => 3, _ => self.r.below(8) };
            let mut v: Vec<String> = vec![];
            let j = self.many(j);
            for _ in 0..j { let s = if self.r.one_in(4) && !v.is_empty() { v[0].clone() } else { self.string() }; v.push(s); }
            m.insert(k, v);
        }
        m
    }
    fn on<T>(&mut self, f: impl Fn(&mut G) -> T) -> Option<T> { if self.r.bit() { Some(f(self)) } else { None } }

    // ------------------------------------------------------------ packets

    pub fn p_conf(&mut self) -> Option<ConfirmationProperties> { match self.r.below(4) { 0 => None, 1 => Some(m_conf(&[])), _ => Some(ConfirmationProperties { reason_string: self.ostr(), user_properties: self.user() }) } }
    pub fn p_publish(&mut self) -> Option<PublishProperties> {
        if self.r.one_in(4) { return None; }
        let n = match self.r.below(6) { 0..=2 => 0, 3 => 1, _ => self.r.below(5) };
        Some(PublishProperties { payload_format_indicator: self.r.bit(), message_expiry_interval: self.on(|g| g.u32()), content_type: self.ostr(), response_topic: self.ostr(),
            correlation_data: if self.r.bit() { self.bytes() } else { vec![] }, subscription_identifiers: (0..n).map(|_| self.var()).collect(), topic_alias: self.on(|g| g.u16()), user_properties: self.user() })
    }
    pub fn p_will(&mut self) -> Option<WillProperties> {
        if self.r.one_in(4) { return None; }
        Some(WillProperties { payload_format_indicator: self.r.bit(), message_expiry_interval: self.on(|g| g.u32()), content_type: self.ostr(), response_topic: self.ostr(),
            correlation_data: if self.r.bit() { self.bytes() } else { vec![] }, will_delay_interval: self.u32(), user_properties: self.user() })
    }
    pub fn p_connect(&mut self) -> Option<ConnectProperties> {
        match self.r.below(5) { 0 => return None, 1 => return Some(ConnectProperties::default()), _ => {} }
        Some(ConnectProperties { session_expiry_interval: self.u32(), receive_maximum: self.u16(), maximum_packet_size: self.on(|g| g.u32()), topic_alias_maximum: self.u16(),
            request_response_information: self.r.bit(), request_problem_information: self.r.bit(), user_properties: self.user(), authentication_method: self.ostr(), authentication_data: self.ostr() })
    }
    pub fn p_connack(&mut self) -> Option<ConnackProperties> {
        match self.r.below(5) { 0 => return None, 1 => return Some(ConnackProperties::default()), _ => {} }
        Some(ConnackProperties { session_expiry_interval: self.u32(), assigned_client_identifier: self.ostr(), server_keep_alive: self.on(|g| g.u16()), authentication_method: self.ostr(),
            authentication_data: self.ostr(), response_information: self.ostr(), server_reference: self.ostr(), reason_string: self.ostr(), receive_maximum: self.u16(),
            topic_alias_maximum: self.u16(), maximum_qos: self.u8(), retain_available: self.r.bit(), user_properties: self.user(), maximum_packet_size: self.on(|g| g.u32()),
            wildcard_subscription_available: self.r.bit(), subscription_identifiers_available: self.r.bit(), shared_subscription_available: self.r.bit(), is_default: self.r.bit() })
    }
    /// a packet of type t; mostly one that can be encoded with version ver, with odd ones in between
    pub fn packet(&mut self, t: u8, ver: u8, odd: usize) -> MqttPacket {
        let o = odd > 0 && self.r.one_in(odd);
        match t {
            1 => {
                let v = if o && self.r.one_in(4) { self.u8() } else { *self.r.pick(&[3u8, 4, 5, 5]) };
                let will = if self.r.bit() { Some(LastWill { topic: if o && self.r.one_in(3) { None } else { Some(self.string()) }, payload: self.ostr(),
                    qos: if o && self.r.one_in(3) { self.u8() } else { self.r.below(3) as u8 }, retain: self.r.bit(), properties: self.p_will() }) } else { None };
                let user_name = self.ostr();
                let password = if user_name.is_some() || o { self.ostr() } else { None };
                let mut client_id = self.string();
                if client_id.is_empty() && !o && v == 3 { client_id = "x".into(); }
                let clean_session = self.r.bit() || (client_id.is_empty() && !o);
                let mut c = ConnectPacket { client_id, protocol_version: v, protocol_id: if self.r.bit() { Protocol::Mqtt } else { Protocol::MQIsdp }, clean_session,
                    keep_alive: self.u16(), user_name, password, will, properties: self.p_connect() };
                if !o { if let Some(w) = &mut c.will { if w.topic.as_deref() == Some("") { w.topic = Some("t".into()); } } }
                MqttPacket::Connect(c)
            }
            2 => {
                let (a, b) = (self.u8(), self.u8());
                let both = self.r.bit();
                let (rc, re) = if both { (Some(a), Some(b)) } else if (ver == 5) != o { (None, Some(b)) } else { (Some(a), None) };
                MqttPacket::Connack(ConnackPacket { return_code: rc, reason_code: re, session_present: self.r.bit(), properties: self.p_connack() })
            }
            3 => {
                let qos = if o && self.r.one_in(3) { self.u8() } else { self.r.below(3) as u8 };
                let mut topic = self.string();
                if topic.is_empty() && !o { topic = "t".into(); }
                let payload = self.payload();
                MqttPacket::Publish(PublishPacket { dup: self.r.bit(), qos, retain: self.r.bit(), topic, message_id: if o || qos == 0 { self.on(|g| g.u16()) } else { Some(self.u16()) }, payload, properties: self.p_publish() })
            }
            4..=7 => {
                let cmd = ptype(if o && self.r.one_in(3) { 4 + self.r.below(4) as u8 } else { t });
                let ack = matches!(cmd, PacketType::Puback | PacketType::Pubrec);
                let a = if self.r.one_in(3) { PubackPubrecCode::Success } else { self.r.pick(T_ACK).1.clone() };
                let b = if self.r.bit() { PubcompPubrelCode::Success } else { self.r.pick(T_REL).1.clone() };
                let c = ConfirmationPacket { cmd, puback_reason_code: if ack != (o && self.r.one_in(3)) { Some(a) } else { None }, pubcomp_reason_code: if !ack != (o && self.r.one_in(3)) { Some(b) } else { None },
                    properties: self.p_conf(), message_id: self.u16() };
                match cmd { PacketType::Puback => MqttPacket::Puback(c), PacketType::Pubrec => MqttPacket::Pubrec(c), PacketType::Pubrel => MqttPacket::Pubrel(c), _ => MqttPacket::Pubcomp(c) }
            }
            8 => {
                let n = if o && self.r.one_in(3) { 0 } else { 1 + self.r.below(4) };
                let n = if n > 0 { self.many(n) } else { n };
                let subscriptions = (0..n).map(|_| {
                    let mut topic = self.string();
                    if topic.is_empty() && !o { topic = "t".into(); }
                    Subscription { topic, qos: self.r.pick(T_QOS).1.clone(), nl: self.r.bit(), rap: self.r.bit(), rh: if o && self.r.one_in(3) { self.on(|g| g.u8()) } else { Some(self.r.below(3) as u8) } }
                }).collect();
                let properties = if self.r.one_in(4) { None } else { Some(SubscribeProperties { subscription_identifier: if o { self.u32() } else { self.var() }, user_properties: self.user() }) };
                MqttPacket::Subscribe(SubscribePacket { qos: 1, subscriptions, properties, message_id: self.u16() })
            }
            9 => {
                let n = if o && self.r.one_in(3) { 0 } else { 1 + self.r.below(5) };
                let n = if n > 0 { self.many(n) } else { n };
                let m = if self.r.bit() { n } else { self.r.below(3) };
                let (a, b) = if ver == 5 { (n, m) } else { (m, n) };
                MqttPacket::Suback(SubackPacket { reason_code: None, message_id: self.u16(), properties: self.p_conf(), granted_reason_codes: (0..a).map(|_| self.r.pick(T_SUBACK).1.clone()).collect(),
                    granted: (0..b).map(|_| self.r.pick(T_GRANTED).1.clone()).collect() })
            }
            10 => {
                let n = if o && self.r.one_in(3) { 0 } else { 1 + self.r.below(4) };
                let n = if n > 0 { self.many(n) } else { n };
                MqttPacket::Unsubscribe(UnsubscribePacket { qos: 1, message_id: self.u16(), properties: if self.r.one_in(4) { None } else { Some(UnsubscribeProperties { user_properties: self.user() }) },
                    unsubscriptions: (0..n).map(|_| self.string()).collect() })
            }
            11 => { let n = self.r.below(5); let n = self.many(n); MqttPacket::Unsuback(UnsubackPacket { message_id: self.u16(), granted: (0..n).map(|_| self.r.pick(T_UNSUB).1.clone()).collect(), properties: self.p_conf() }) }
            12 => MqttPacket::Pingreq,
            13 => MqttPacket::Pingresp,
            14 => MqttPacket::Disconnect(DisconnectPacket { reason_code: if self.r.one_in(4) { None } else if self.r.one_in(3) { Some(DisconnectCode::NormalDisconnection) } else { Some(self.r.pick(T_DISC).1.clone()) },
                properties: match self.r.below(4) { 0 => None, 1 => Some(m_disconnect(&[])), _ => Some(DisconnectProperties { session_expiry_interval: self.on(|g| g.u32()), server_reference: self.ostr(), reason_string: self.ostr(), user_properties: self.user() }) } }),
            _ => MqttPacket::Auth(AuthPacket { reason_code: self.r.pick(T_AUTH).1.clone(), properties: match self.r.below(4) { 0 => None, 1 => Some(m_auth(&[])),
                _ => Some(AuthProperties { authentication_method: self.string(), authentication_data: self.ostr(), reason_string: self.ostr(), user_properties: self.user() }) } }),
        }
    }

    // ------------------------------------------------------------ frame bodies

    fn w16(&mut self, v: &mut Vec<u8>) { let n = self.u16(); v.extend(n.to_be_bytes()); }
    fn wstr(&mut self, v: &mut Vec<u8>) { let s = self.string(); v.extend((s.len() as u16).to_be_bytes()); v.extend(s.bytes()); }
    pub fn wval(&mut self, id: u8, v: &mut Vec<u8>) {
        match kind(id) {
            'b' => { let b = if self.r.one_in(8) { self.u8() } else { self.r.below(2) as u8 }; v.push(b) }
            '4' => { let n = self.u32(); v.extend(n.to_be_bytes()) }
            's' => self.wstr(v),
            'd' => { let b = self.bytes(); v.extend((b.len() as u16).to_be_bytes()); v.extend(b) }
            'v' => {
                let n = self.var();
                if self.r.one_in(12) { let mut e = evar(n); if e.len() < 4 { *e.last_mut().unwrap() |= 128; e.push(0); } v.extend(e) } else { v.extend(evar(n)) }
            }
            '2' => self.w16(v),
            '1' => { let b = self.u8(); v.push(b) }
            'p' => { if self.r.one_in(3) { let k = *self.r.pick(&["", "a", "b"]); v.extend((k.len() as u16).to_be_bytes()); v.extend(k.bytes()); } else { self.wstr(v) } self.wstr(v) }
            _ => { let b = self.bytes(); v.extend(b) }
        }
    }
    pub fn wblock(&mut self, t: &[u8], ver: u8, v: &mut Vec<u8>) {
        if ver != 5 { return; }
        let mut b = vec![];
        let n = match self.r.below(8) { 0..=2 => 0, 3 => 1, 4 => 2, 5 => 3, _ => self.r.below(8) };
        for _ in 0..n {
            let id = if self.r.one_in(40) { self.u8() } else if self.r.one_in(3) { 0x26 } else { *self.r.pick(t) };
            if self.r.one_in(4) || !b.contains(&id) || true { b.push(id); self.wval(id, &mut b); }
        }
        let mut l = b.len() as u32;
        if self.r.one_in(40) { l = match self.r.below(4) { 0 => l + 1, 1 => l.saturating_sub(1), 2 => self.var(), _ => l + self.r.below(30) as u32 }; }
        v.extend(evar(l));
        v.extend(b);
    }
    /// a body that is mostly well formed
    pub fn body(&mut self, t: u8, ver: u8, qos: u8) -> Vec<u8> {
        let mut v = vec![];
        match t {
            1 => {
                let name = if self.r.one_in(20) { self.string() } else if self.r.bit() { "MQTT".into() } else { "MQIsdp".into() };
                v.extend((name.len() as u16).to_be_bytes());
                v.extend(name.bytes());
                let cv = if self.r.one_in(20) { self.u8() } else { *self.r.pick(&[3u8, 4, 5, 5, 5, 0x83, 0x84, 0x85]) };
                v.push(cv);
                let mut f = self.r.next() as u8;
                if !self.r.one_in(8) { f &= 0xFE; if f & 4 == 0 { f &= !0x38; } if f & 0x18 == 0x18 { f &= !0x10; } }
                v.push(f);
                self.w16(&mut v);
                let pv = cv % 128;
                self.wblock(A_CONNECT, pv, &mut v);
                self.wstr(&mut v);
                if f & 4 != 0 { self.wblock(A_WILL, pv, &mut v); self.wstr(&mut v); self.wstr(&mut v); }
                if f & 128 != 0 { self.wstr(&mut v); }
                if f & 64 != 0 { self.wstr(&mut v); }
            }
            2 => { v.push(if self.r.one_in(10) { self.u8() } else { self.r.below(2) as u8 }); let c = self.u8(); v.push(c); self.wblock(A_CONNACK, ver, &mut v); }
            3 => { self.wstr(&mut v); if qos > 0 { self.w16(&mut v); } self.wblock(A_PUBLISH, ver, &mut v); let b = self.payload(); v.extend(b); }
            4..=7 => {
                self.w16(&mut v);
                if ver == 5 && !self.r.one_in(3) {
                    let c = if self.r.one_in(8) { self.u8() } else if t < 6 { self.r.pick(T_ACK).0 } else { self.r.pick(T_REL).0 };
                    v.push(c);
                    if !self.r.one_in(4) { self.wblock(A_CONF, ver, &mut v); }
                }
            }
            8 => {
                self.w16(&mut v);
                self.wblock(A_SUB, ver, &mut v);
                let n = if self.r.one_in(12) { 0 } else { let n = 1 + self.r.below(4); self.many(n) };
                for _ in 0..n {
                    self.wstr(&mut v);
                    let o = if self.r.one_in(10) { self.u8() } else { let q = self.r.below(3) as u8; if ver == 5 { q | (self.r.below(4) as u8) << 2 | (self.r.below(3) as u8) << 4 } else { q } };
                    v.push(o);
                }
            }
            9 => { self.w16(&mut v); self.wblock(A_CONF, ver, &mut v); let n = if self.r.one_in(12) { 0 } else { let n = 1 + self.r.below(5); self.many(n) };
                for _ in 0..n { let c = if self.r.one_in(12) { self.u8() } else if ver == 5 { self.r.pick(T_SUBACK).0 } else { self.r.pick(T_GRANTED).0 }; v.push(c); } }
            10 => { self.w16(&mut v); self.wblock(A_UNSUB, ver, &mut v); let n = if self.r.one_in(12) { 0 } else { let n = 1 + self.r.below(4); self.many(n) }; for _ in 0..n { self.wstr(&mut v); } }
            11 => { self.w16(&mut v); self.wblock(A_CONF, ver, &mut v); if ver == 5 { let n = self.r.below(5); let n = self.many(n); for _ in 0..n { let c = if self.r.one_in(12) { self.u8() } else { self.r.pick(T_UNSUB).0 }; v.push(c); } } }
            14 => if ver == 5 && !self.r.one_in(6) { let c = if self.r.one_in(8) { self.u8() } else { self.r.pick(T_DISC).0 }; v.push(c); if !self.r.one_in(4) { self.wblock(A_DISC, ver, &mut v); } },
            15 => if !self.r.one_in(6) { let c = if self.r.one_in(8) { self.u8() } else { self.r.pick(T_AUTH).0 }; v.push(c); if !self.r.one_in(8) { self.wblock(A_AUTH, ver, &mut v); } },
            _ => {}
        }
        if self.r.one_in(30) { let b = self.bytes(); v.extend(b); }
        v
    }
    pub fn mutate(&mut self, v: &mut Vec<u8>) {
        let n = 1 + self.r.below(3);
        for _ in 0..n {
            match self.r.below(7) {
                0 if !v.is_empty() => { let i = self.r.below(v.len()); v[i] = self.u8(); }
                1 if !v.is_empty() => { let i = self.r.below(v.len()); v[i] ^= 1 << self.r.below(8); }
                2 => { let k = self.r.below(v.len() + 1); v.truncate(k); }
                3 => { let b = self.bytes(); v.extend(b); }
                4 if !v.is_empty() => { let i = self.r.below(v.len()); v.remove(i); }
                5 => { let i = self.r.below(v.len() + 1); let b = self.u8(); v.insert(i, b); }
                6 if !v.is_empty() => { let i = self.r.below(v.len()); v[i] = v[i].wrapping_add(if self.r.bit() { 1 } else { 255 }); }
                _ => {}
            }
        }
    }
    pub fn ver(&mut self) -> u8 { match self.r.below(12) { 0..=5 => 5, 6 | 7 => 4, 8 | 9 => 3, 10 => *self.r.pick(&[0u8, 1, 2, 6, 255]), _ => self.u8() } }
    /// (first byte, body)
    pub fn raw_frame(&mut self, ver: u8) -> (u8, Vec<u8>) {
        let t = if self.r.one_in(25) { self.r.below(16) as u8 } else { *self.r.pick(&[1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 1, 3, 8]) };
        self.raw_frame_t(t, ver)
    }
    pub fn raw_frame_t(&mut self, t: u8, ver: u8) -> (u8, Vec<u8>) {
        let mut fl = match t { 3 => { let q = self.r.below(3) as u8; q * 2 + (self.r.below(2) as u8) * 8 + self.r.below(2) as u8 } 6 | 8 | 10 => 2, _ => 0 };
        if self.r.one_in(25) { fl = self.r.below(16) as u8; }
        let mut b = self.body(t, ver, (fl >> 1) & 3);
        if self.r.one_in(4) { self.mutate(&mut b); }
        if self.r.one_in(60) { let n = self.len(); b = (0..n).map(|_| self.r.next() as u8).collect(); }
        (t * 16 + fl, b)
    }
}

// ---------------------------------------------------------------- readers

#[derive(Clone, Debug)]
pub struct Plan { pub chunk: usize, /// reading fails at this offset
    pub fail: Option<(usize, io::ErrorKind, bool)> }

pub struct Src { pub data: Vec<u8>, pub pos: usize, pub plan: Plan, pub x: u64 }
impl Src {
    pub fn new(data: Vec<u8>, plan: Plan) -> Src { Src { data, pos: 0, plan, x: 88172645463325252 } }
}
impl io::Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut n = buf.len().min(self.data.len() - self.pos);
        match self.plan.chunk {
            0 => {}
            usize::MAX => { self.x ^= self.x << 13; self.x ^= self.x >> 7; self.x ^= self.x << 17; n = n.min(1 + (self.x % 7) as usize); }
            c => n = n.min(c),
        }
        if let Some((at, kind, once)) = self.plan.fail {
            if self.pos >= at {
                if once { self.plan.fail = None; }
                return Err(io::Error::new(kind, "planned"));
            }
            n = n.min(at - self.pos);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
