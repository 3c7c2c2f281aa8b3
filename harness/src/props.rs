//! what is tried for each property
use crate::gen::*;
use crate::refdec::*;
use crate::Ctx;
use mqtt_packet_3_5::byte_reader::ByteReader;
use mqtt_packet_3_5::connect::ConnectFlags;
use mqtt_packet_3_5::mqtt_writer::MqttWriter;
use mqtt_packet_3_5::packet::{MqttPacket, PacketDecoder};
use mqtt_packet_3_5::structure::*;
use std::io::{BufReader, ErrorKind};
use std::panic::{catch_unwind, AssertUnwindSafe};

type F = fn(&mut Ctx, usize);
type S = fn(&mut Ctx);

/// number of cases of the fixed part
pub fn nfixed(p: &str) -> usize {
    match p { "C12" => 65, "C13" => 3, "C14" => 16 + 2 * NLIST, "C15" => 16 + NLIST, "C17" => 16, "C18" => 40, "C19" => 768, "C20" => 6 + NLIST, "C22" => 26 * NLIST,  "C04" => 16 + 6 * NLIST, "C03" => 16, "C05" | "C06" => 12 + 6 * NLIST,  "C21" => 9,
        "C07" | "C08" | "C09" | "C10" => 16, "C11" => 16 + 4 * NLIST, _ => 0 }
}
pub fn plan(p: &str) -> Option<(F, S)> {
    Some(match p {
        "C01" => (none, s01), "C02" => (none, s02), "C03" => (f03, s03), "C04" => (f04, s04), "C05" => (f05, s05), "C06" => (f06, s06),
        "C07" => (frt, |c| srt(c, &[3])), "C08" => (frt, |c| srt(c, &[1])), "C09" => (frt, |c| srt(c, &[2, 14, 15, 12, 13])), "C10" => (frt, |c| srt(c, &[4, 5, 6, 7])),
        "C11" => (|c, i| if i < 16 { frt(c, i) } else { lists(c, i - 16, true) }, |c| srt(c, &[8, 9, 10, 11])),
        "C12" => (f12, s12), "C13" => (f13, s13), "C14" => (f14, s14), "C15" => (f15, s15), "C16" => (none, s16), "C17" => (f17, s17), "C18" => (f18, s18),
        "C19" => (f19, s19), "C20" => (f20, s20), "C21" => (f21, s21), "C22" => (f22, s22),
        _ => return None,
    })
}
fn none(_: &mut Ctx, _: usize) {}

// ---------------------------------------------------------------- calling the crate

#[derive(Debug, Clone, PartialEq)]
pub enum Out<T> { Ok(T), Err, Panic(String) }

pub fn guard<T>(f: impl FnOnce() -> Result<T, String>) -> Out<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Out::Ok(v),
        Ok(Err(_)) => Out::Err,
        Err(e) => Out::Panic(e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
    }
}
fn enc(p: &MqttPacket, ver: u8) -> Out<Vec<u8>> { let q = p.clone(); guard(move || q.encode(ver)) }

type D = PacketDecoder<Src>;
fn decoder(data: Vec<u8>, plan: Plan, cap: usize) -> D {
    let s = Src::new(data, plan);
    if cap == 0 { PacketDecoder::from_stream(s) } else { PacketDecoder::from_bufreader(BufReader::with_capacity(cap, s)) }
}
fn next(d: &mut D, ver: u8) -> Out<MqttPacket> {
    match guard(|| d.decode_packet(ver)) { Out::Ok(p) => Out::Ok(neutral(p)), x => x }
}
const WHOLE: Plan = Plan { chunk: 0, fail: None };
/// what is left in the reader, if it can be read as a whole
fn rest(d: &mut D, n: usize) -> Option<Vec<u8>> {
    match guard(|| {
        // no limit may be left
        if d.reader.consume().is_ok() { return Err(String::new()); }
        let v = d.reader.read_len(n as u32)?;
        if d.has_more() { return Err(String::new()); }
        Ok(v)
    }) { Out::Ok(v) => Some(v), _ => None }
}

fn hex(b: &[u8]) -> String {
    let s: Vec<String> = b.iter().take(400).map(|x| format!("{:02x}", x)).collect();
    s.join(" ") + &(if b.len() > 400 { format!(" ... ({} bytes)", b.len()) } else { String::new() })
}
fn dbg<T: std::fmt::Debug>(t: &T) -> String {
    let s = format!("{:?}", t);
    if s.len() > 1500 { s.chars().take(1500).collect::<String>() + " ..." } else { s }
}
fn want(o: Option<MqttPacket>) -> Out<MqttPacket> { match o { Some(p) => Out::Ok(neutral(p)), None => Out::Err } }
/// properties that are absent and properties that are all default mean the same
fn same(a: &Out<MqttPacket>, b: &Out<MqttPacket>) -> bool { a == b }

fn plan_any(c: &mut Ctx) -> (Plan, usize) {
    let chunk = *c.g.r.pick(&[0usize, 0, 1, 2, 3, usize::MAX]);
    let cap = *c.g.r.pick(&[0usize, 0, 1, 2, 5, 16, 64]);
    (Plan { chunk, fail: None }, cap)
}
fn plan_str(p: &Plan, cap: usize) -> String { format!("reader: chunk {}, buffer {}", if p.chunk == usize::MAX { "random".to_string() } else { p.chunk.to_string() }, if cap == 0 { 8192 } else { cap }) }

/// decode first+body (followed by tail) and compare with the reference
fn diff(c: &mut Ctx, first: u8, b: &[u8], ver: u8) -> bool {
    c.n += 1;
    let (w, why, _) = decode(first, b, ver);
    let w = want(w);
    let f = mkframe(first, b);
    let mut d = decoder(f.clone(), WHOLE, 0);
    let g = next(&mut d, ver);
    if !same(&g, &w) {
        c.hit(format!("decode of {} with version {}\n  gives    {}\n  expected {} {}", hex(&f), ver, dbg(&g), dbg(&w), why));
        return false;
    }
    true
}

fn types() -> [u8; 15] { [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15] }

// ---------------------------------------------------------------- C01 C02 C03 C04

fn s01(c: &mut Ctx) {
    let n = 1 + c.g.r.below(5);
    let mut w = vec![];
    let mut fr = vec![];
    for _ in 0..n {
        let ver = c.g.ver();
        let (f, b) = c.g.raw_frame(ver);
        fr.push((ver, w.len()));
        w.extend(mkframe(f, &b));
    }
    // a publish that cannot be mistaken
    let ver = c.g.ver();
    let mut sb = vec![0u8, 4];
    sb.extend(b"sent");
    if ver == 5 { sb.push(0); }
    sb.extend(b"inel");
    fr.push((ver, w.len()));
    w.extend(mkframe(0x30, &sb));
    let (plan, cap) = plan_any(c);
    let k = c.g.r.below(fr.len() + 1);
    let mut d = decoder(w.clone(), plan.clone(), cap);
    let mut outs = vec![];
    for i in 0..k { outs.push(next(&mut d, fr[i].0)); }
    let pos = if k < fr.len() { fr[k].1 } else { w.len() };
    c.n += 1;
    let vs: Vec<u8> = fr.iter().map(|x| x.0).collect();
    if outs.iter().any(|o| matches!(o, Out::Panic(_))) { return; }
    if k == fr.len() {
        let e = Out::Ok(neutral(decode(0x30, &sb, ver).0.unwrap()));
        if outs[k - 1] != e { c.hit(format!("frames {}\n  versions {:?}, {}: the last frame decodes to {}", hex(&w), vs, plan_str(&plan, cap), dbg(&outs[k - 1]))); return; }
    }
    let r = rest(&mut d, w.len() - pos);
    if r.as_deref() != Some(&w[pos..]) {
        c.hit(format!("frames {}\n  versions {:?}, {}: after {} decode calls the reader is not at offset {} without a limit (results {}, rest {})", hex(&w), vs, plan_str(&plan, cap), k, pos, dbg(&outs), dbg(&r.map(|r| hex(&r)))));
    }
}

/// many packets out of a few kinds on one connection, each decodes as it does alone
fn stream(c: &mut Ctx) {
    let k = 1 + c.g.r.below(4);
    let mut pool = vec![];
    for _ in 0..k {
        let ver = c.g.ver();
        let (f, b) = c.g.raw_frame(ver);
        if b.len() > 3000 { continue; }
        pool.push((f, b.clone(), ver));
        // near it: other flags, another version, another byte
        for _ in 0..c.g.r.below(4) {
            let (mut f, mut b, mut v) = (f, b.clone(), ver);
            match c.g.r.below(4) { 0 => f ^= 1 << c.g.r.below(4), 1 => f = (f & 0xF0) | c.g.r.below(16) as u8, 2 => v = c.g.ver(), _ => if !b.is_empty() { let i = c.g.r.below(b.len()); b[i] = c.g.u8() } }
            pool.push((f, b, v));
        }
    }
    if pool.is_empty() { return; }
    let alone: Vec<Out<MqttPacket>> = pool.iter().map(|(f, b, v)| { let mut d = decoder(mkframe(*f, b), WHOLE, 0); next(&mut d, *v) }).collect();
    let n = if c.g.r.one_in(8) { c.g.many(300) } else { 6 + c.g.r.below(40) };
    let mut order: Vec<usize> = vec![];
    while order.len() < n {
        // runs of the same and of two in turn
        let (a, b) = (c.g.r.below(pool.len()), c.g.r.below(pool.len()));
        match c.g.r.below(3) { 0 => for _ in 0..1 + c.g.r.below(8) { order.push(a) }, 1 => for _ in 0..1 + c.g.r.below(4) { order.push(a); order.push(b) }, _ => order.push(a) }
    }
    let mut s = vec![];
    for i in &order { s.extend(mkframe(pool[*i].0, &pool[*i].1)); }
    let (plan, cap) = if c.g.r.one_in(4) { plan_any(c) } else { (WHOLE, 0) };
    let mut d = decoder(s, plan.clone(), cap);
    for (j, i) in order.iter().enumerate() {
        let g = next(&mut d, pool[*i].2);
        c.n += 1;
        if g != alone[*i] {
            let fs: Vec<String> = order[..=j].iter().map(|i| format!("{} v{}", hex(&mkframe(pool[*i].0, &pool[*i].1)), pool[*i].2)).collect();
            c.hit(format!("packet {} of a stream ({})\n  decodes to {}\n  but alone to {}\n  the packets up to it: {}", j + 1, plan_str(&plan, cap), dbg(&g), dbg(&alone[*i]), fs.join(", ")));
            return;
        }
    }
}
fn s02(c: &mut Ctx) {
    if c.g.r.one_in(12) { return stream(c); }
    let ver = c.g.ver();
    let (f, mut b) = c.g.raw_frame(ver);
    if c.g.r.one_in(3) && !b.is_empty() { let k = c.g.r.below(b.len()); b.truncate(k); }
    let fr = mkframe(f, &b);
    let mut d = decoder(fr.clone(), WHOLE, 0);
    let base = next(&mut d, ver);
    c.n += 1;
    let (w, why, _) = decode(f, &b, ver);
    // a field that would need bytes from behind the frame
    if w.is_none() && (why == "short" || why == "propshort") && matches!(base, Out::Ok(_)) {
        c.hit(format!("frame {} version {}\n  decodes to {} although a field reaches past its end", hex(&fr), ver, dbg(&base)));
        return;
    }
    for _ in 0..3 {
        let mut s = vec![];
        let mut pre = vec![];
        for _ in 0..c.g.r.below(3) { let v = c.g.ver(); let (f, b) = c.g.raw_frame(v); pre.push(v); s.extend(mkframe(f, &b)); }
        let at = s.len();
        s.extend_from_slice(&fr);
        match c.g.r.below(4) { 0 => {} 1 => { let t = c.g.bytes(); s.extend(t) } 2 => { let n = c.g.r.below(200); s.extend(vec![b'a'; n]) } _ => { let v = c.g.ver(); let (f, b) = c.g.raw_frame(v); s.extend(mkframe(f, &b)); } }
        let (plan, cap) = plan_any(c);
        let mut d = decoder(s.clone(), plan.clone(), cap);
        for v in &pre { next(&mut d, *v); }
        let g = next(&mut d, ver);
        c.n += 1;
        if g != base {
            c.hit(format!("frame {} version {}\n  alone decodes to {}\n  but at offset {} of {}\n  (versions before it {:?}, {}) to {}", hex(&fr), ver, dbg(&base), at, hex(&s), pre, plan_str(&plan, cap), dbg(&g)));
            return;
        }
    }
}

fn prefixes(c: &mut Ctx, f: u8, b: &[u8], ver: u8) {
    let fr = mkframe(f, b);
    for _ in 0..6 {
        let k = match c.g.r.below(4) { 0 => fr.len() - 1, 1 => c.g.r.below(fr.len().min(6)), _ => c.g.r.below(fr.len()) };
        let (mut plan, cap) = plan_any(c);
        let data = if c.g.r.bit() { fr[..k].to_vec() } else {
            let kind = *c.g.r.pick(&[ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::ConnectionReset, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::BrokenPipe]);
            plan.fail = Some((k, kind, c.g.r.bit()));
            let mut v = fr.clone();
            v.extend(c.g.bytes());
            v
        };
        let mut d = decoder(data, plan.clone(), cap);
        let g = next(&mut d, ver);
        c.n += 1;
        if let Out::Ok(p) = g {
            c.hit(format!("packet {} version {}\n  of which only {} of {} bytes arrive ({:?}, {}) decodes to {}", hex(&fr), ver, k, fr.len(), plan.fail, plan_str(&plan, cap), dbg(&p)));
            return;
        }
    }
}
fn s03(c: &mut Ctx) {
    let ver = c.g.ver();
    if c.g.r.bit() {
        let (f, b) = c.g.raw_frame(ver);
        prefixes(c, f, &b, ver);
    } else {
        // announce more than there is
        let t = *c.g.r.pick(&types());
        let (f, b) = c.g.raw_frame_t(t, ver);
        let extra = 1 + c.g.r.below(40);
        let mut w = vec![f];
        w.extend(evar((b.len() + extra) as u32));
        w.extend(&b);
        let (plan, cap) = plan_any(c);
        let mut d = decoder(w.clone(), plan.clone(), cap);
        c.n += 1;
        if let Out::Ok(p) = next(&mut d, ver) { c.hit(format!("packet {} version {} misses {} bytes and decodes to {}", hex(&w), ver, extra, dbg(&p))); }
    }
}
/// every prefix of a few packets of every type
fn f03(c: &mut Ctx, t: usize) {
    for ver in [3u8, 4, 5] { for _ in 0..6 {
        let (f, b) = c.g.raw_frame_t(t as u8, ver);
        let fr = mkframe(f, &b);
        if fr.len() > 400 { continue; }
        for k in 0..fr.len() {
            let mut d = decoder(fr[..k].to_vec(), WHOLE, 0);
            c.n += 1;
            if let Out::Ok(p) = next(&mut d, ver) { c.hit(format!("packet {} version {} cut after {} bytes decodes to {}", hex(&fr), ver, k, dbg(&p))); return; }
        }
    } }
}

fn totality(c: &mut Ctx, w: Vec<u8>, ver: u8, plan: Plan, cap: usize) {
    let mut d = decoder(w.clone(), plan.clone(), cap);
    let n = 3 + w.len().min(20);
    for i in 0..n {
        c.n += 1;
        if let Out::Panic(m) = next(&mut d, ver) { c.hit(format!("decode call {} on {} with version {} ({}, {:?}) panics: {}", i, hex(&w), ver, plan_str(&plan, cap), plan.fail, m)); return; }
        if let Out::Panic(m) = guard(|| Ok(d.has_more())) { c.hit(format!("has_more on {} panics: {}", hex(&w), m)); return; }
        match guard(|| Ok(d.has_more())) { Out::Ok(true) => {} _ => if i > 1 { break } }
    }
}
/// numbers of entries at which counters and capacities of the usual sizes end
const LIST: [usize; 28] = [15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 101, 127, 128, 129, 130, 254, 255, 256, 257, 258, 511, 512, 1000, 1025, 65535, 65536, 65537];
const NLIST: usize = LIST.len();
/// long lists: 0 SUBSCRIBE 1 UNSUBSCRIBE 2 SUBACK 3 UNSUBACK 4 subscription identifiers 5 user property values
fn lists(c: &mut Ctx, i: usize, back: bool) {
    let (what, n) = (i / NLIST, LIST[i % NLIST]);
    c.slow(120);
    for ver in [5u8, 4] {
        let mut v = vec![0u8, 9];
        if ver == 5 && what < 4 { v.push(0); }
        let t = match what {
            0 => { for k in 0..n { v.extend([0, 1, b'a' + (k % 26) as u8, (k % 3) as u8]); } 8 }
            1 => { for k in 0..n { v.extend([0, 1, b'a' + (k % 26) as u8]); } 10 }
            2 => { for k in 0..n { v.push(if k % 5 == 4 { 128 } else { (k % 3) as u8 }); } 9 }
            3 => { if ver == 5 { for k in 0..n { v.push([0u8, 17, 128, 135][k % 4]); } } 11 }
            4 | 5 => {
                if ver != 5 { return; }
                let mut b = vec![];
                if what == 4 { for k in 0..n { b.push(0x0B); b.extend(evar(1 + k as u32 * 3)); } } else { for k in 0..n { b.push(0x26); b.extend([0, 1, b'k', 0, 1, b'a' + (k % 26) as u8]); } }
                v = with_block(3, &b, false).1;
                3
            }
            _ => return,
        };
        let f = t * 16 + if matches!(t, 6 | 8 | 10) { 2 } else { 0 };
        if !diff(c, f, &v, ver) { return; }
        if back { if let (Some(p), _, _) = decode(f, &v, ver) { if refuse(&p, ver).is_empty() { roundtrip(c, &p, ver); } } }
    }
}
/// user properties with many keys and with many values of one key, for every packet that has them
fn f22(c: &mut Ctx, i: usize) {
    let (w, n) = (i / NLIST, LIST[i % NLIST]);
    let (t, keys) = ([1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15][w / 2], w % 2 == 0);
    if n > 2000 && !matches!(t, 1 | 3 | 14) { return; }
    c.slow(120);
    let mut b = vec![];
    for k in 0..n {
        b.push(0x26);
        let s = format!("{}", k);
        if keys { b.extend((s.len() as u16).to_be_bytes()); b.extend(s.bytes()); b.extend([0, 1, b'v']); } else { b.extend([0, 1, b'k']); b.extend((s.len() as u16).to_be_bytes()); b.extend(s.bytes()); }
    }
    for will in [false, true] {
        if will && t != 1 { return; }
        let (f, v) = with_block(t, &b, will);
        if !diff(c, f, &v, 5) { return; }
        if let (Some(p), _, _) = decode(f, &v, 5) { if refuse(&p, 5).is_empty() { roundtrip(c, &p, 5); } }
    }
}
fn s04(c: &mut Ctx) {
    let ver = c.g.ver();
    let (mut plan, cap) = plan_any(c);
    let mut w = vec![];
    for _ in 0..1 + c.g.r.below(3) { let (f, b) = c.g.raw_frame(ver); w.extend(mkframe(f, &b)); }
    match c.g.r.below(6) {
        0 => c.g.mutate(&mut w),
        1 => { let n = c.g.r.below(20); w = (0..n).map(|_| c.g.r.next() as u8).collect(); }
        2 => { let k = c.g.r.below(w.len()); plan.fail = Some((k, *c.g.r.pick(&[ErrorKind::Other, ErrorKind::ConnectionReset, ErrorKind::WouldBlock]), c.g.r.bit())); }
        3 => { let k = c.g.r.below(w.len()); w.truncate(k); }
        _ => {}
    }
    totality(c, w, ver, plan, cap);
    // the packet decoders on their own
    let t = *c.g.r.pick(&types());
    let (f, b) = c.g.raw_frame_t(t, ver);
    direct(c, f, b, ver);
}
/// Packet::decode called without a decoder
fn direct(c: &mut Ctx, f: u8, b: Vec<u8>, ver: u8) {
    let Some(h) = first_byte(f) else { return };
    let len = b.len() as u32;
    let hh = FixedHeader { cmd: ptype(h.t), dup: h.dup, qos: h.qos, retain: h.retain };
    let mut r = ByteReader::new(BufReader::new(Src::new(b.clone(), WHOLE)));
    let o = guard(|| {
        r.take(len);
        Ok(match h.t {
            1 => ConnectPacket::decode(&mut r, hh, len, ver).is_ok(), 2 => ConnackPacket::decode(&mut r, hh, len, ver).is_ok(), 3 => PublishPacket::decode(&mut r, hh, len, ver).is_ok(),
            4..=7 => ConfirmationPacket::decode(&mut r, hh, len, ver).is_ok(), 8 => SubscribePacket::decode(&mut r, hh, len, ver).is_ok(), 9 => SubackPacket::decode(&mut r, hh, len, ver).is_ok(),
            10 => UnsubscribePacket::decode(&mut r, hh, len, ver).is_ok(), 11 => UnsubackPacket::decode(&mut r, hh, len, ver).is_ok(), 14 => DisconnectPacket::decode(&mut r, hh, len, ver).is_ok(),
            15 => AuthPacket::decode(&mut r, hh, len, ver).is_ok(), _ => true })
    });
    c.n += 1;
    if let Out::Panic(m) = o { c.hit(format!("decoding the body {} of a packet with first byte {:#x} and version {} panics: {}", hex(&b), f, ver, m)); }
}
/// all short bodies, all versions
fn f04(c: &mut Ctx, t: usize) {
    if t >= 16 {
        let (what, n) = ((t - 16) / NLIST, LIST[(t - 16) % NLIST]);
        c.slow(120);
        for ver in [5u8, 4] {
            let mut v = vec![0u8, 9];
            if ver == 5 { v.push(0); }
            let f = match what {
                0 => { for k in 0..n { v.extend([0, 1, b'a' + (k % 26) as u8, (k % 3) as u8]); } 0x82 }
                1 => { for k in 0..n { v.extend([0, 1, b'a' + (k % 26) as u8]); } 0xA2 }
                2 => { for k in 0..n { v.push((k % 3) as u8); } 0x90 }
                3 => { for _ in 0..n { v.push(0); } 0xB0 }
                _ => { let mut b = vec![]; for k in 0..n { if what == 4 { b.extend([0x0B, 1 + (k % 100) as u8]) } else { b.extend([0x26, 0, 1, b'k', 0, 1, b'v']) } } v = with_block(3, &b, false).1; 0x30 }
            };
            totality(c, mkframe(f, &v), ver, WHOLE, 0);
        }
        return;
    }
    for fl in 0..16u8 { for ver in [0u8, 3, 4, 5, 255] { for n in 0..7usize {
        for fill in [0u8, 1, 5, 127, 128, 255] {
            let mut w = vec![t as u8 * 16 + fl, n as u8];
            w.extend(vec![fill; n]);
            totality(c, w.clone(), ver, WHOLE, 0);
            w.truncate(2 + n / 2);
            totality(c, w, ver, WHOLE, 0);
        }
        for _ in 0..20 { let b: Vec<u8> = (0..n).map(|_| c.g.u8()).collect(); totality(c, mkframe(t as u8 * 16 + fl, &b), ver, WHOLE, 0); }
    } } }
    // lengths at and above the limits, with nothing behind them
    for l in [[0xffu8, 0xff, 0xff, 0x7f], [0xff, 0xff, 0xff, 0xff], [0x80, 0x80, 0x80, 0x00], [0x80, 0x80, 0x80, 0x80], [0x80, 0x80, 0x80, 0x01]] {
        for fl in [0u8, 2] { for ver in [3u8, 4, 5] {
            let mut w = vec![t as u8 * 16 + fl];
            w.extend(l);
            c.slow(60);
            totality(c, w.clone(), ver, WHOLE, 0);
            w.extend([0, 4, b'M', b'Q', b'T', b'T', 5, 2, 0, 60, 0, 0, 0]);
            totality(c, w, ver, WHOLE, 0);
        } }
    }
}

// ---------------------------------------------------------------- encoding

fn encodable(c: &mut Ctx, p: &MqttPacket, ver: u8, r: &Out<Vec<u8>>) -> bool {
    let why = refuse(p, ver);
    let ok = matches!(r, Out::Ok(_));
    if ok != why.is_empty() {
        c.hit(format!("encode({}) of {}\n  gives {}, expected {}", ver, dbg(p), match r { Out::Ok(b) => hex(b), x => dbg(x) }, if why.is_empty() { "bytes" } else { why }));
        return false;
    }
    true
}
/// encode, decode with the crate and with the reference
fn roundtrip(c: &mut Ctx, p: &MqttPacket, ver: u8) {
    c.n += 1;
    let r = enc(p, ver);
    if !encodable(c, p, ver, &r) { return; }
    let Out::Ok(b) = r else { return };
    let e = canon(p, ver);
    let mut d = decoder(b.clone(), WHOLE, 0);
    let g = match next(&mut d, ver) { Out::Ok(q) => Out::Ok(canon(&q, ver)), x => x };
    if g != Out::Ok(e.clone()) { c.hit(format!("packet {}\n  encodes (version {}) to {}\n  which decodes to {}\n  expected {}", dbg(p), ver, hex(&b), dbg(&g), dbg(&e))); return; }
    let w = frame(&b).and_then(|(f, body, n)| if n == b.len() { decode(f, body, ver).0 } else { None }).map(|q| canon(&q, ver));
    if w != Some(e.clone()) { c.hit(format!("packet {}\n  encodes (version {}) to {}\n  which means {}\n  expected {}", dbg(p), ver, hex(&b), dbg(&w), dbg(&e))); }
}
fn encver(c: &mut Ctx) -> u8 { match c.g.r.below(12) { 0..=5 => 5, 6..=8 => 4, 9 | 10 => 3, _ => c.g.u8() } }
fn srt(c: &mut Ctx, ts: &[u8]) {
    let ver = encver(c);
    let t = *c.g.r.pick(ts);
    let odd = if c.g.r.one_in(3) { 1 } else { 0 };
    let p = c.g.packet(t, ver, odd);
    roundtrip(c, &p, ver);
    // frames with properties in any order: what was read and written again reads the same
    let (f, b) = c.g.raw_frame_t(t, ver);
    if let (Some(q), _, _) = decode(f, &b, ver) {
        if refuse(&q, ver).is_empty() { roundtrip(c, &q, ver); }
        diff(c, f, &b, ver);
    }
}
/// sizes of the whole packet around the steps of the remaining length
fn frt(c: &mut Ctx, i: usize) {
    let ver = [3u8, 4, 5, 5][i % 4];
    let ts: &[u8] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15];
    let prop = i / 4;
    for t in ts {
        for n in [0usize, 1, 2, 100, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 16370, 16376, 16378, 16379, 16380, 16381, 16382, 16383, 16384, 16385, 16390] {
            if n > 1000 && prop > 1 { continue; }
            let mut p = c.g.packet(*t, ver, 0);
            let s = "n".repeat(n);
            let us = |u: &mut UserProperties| { u.clear(); u.insert("k".into(), vec![s.clone()]); };
            match &mut p {
                MqttPacket::Connect(x) => { if prop % 2 == 0 { x.client_id = format!("i{}", s) } else { let q = x.properties.get_or_insert_with(ConnectProperties::default); us(&mut q.user_properties); } }
                MqttPacket::Connack(x) => { let q = x.properties.get_or_insert_with(ConnackProperties::default); us(&mut q.user_properties); }
                MqttPacket::Publish(x) => { if prop % 2 == 0 { x.payload = vec![1; n] } else { let q = x.properties.get_or_insert_with(|| m_publish(&[])); us(&mut q.user_properties); } }
                MqttPacket::Puback(x) | MqttPacket::Pubrec(x) | MqttPacket::Pubrel(x) | MqttPacket::Pubcomp(x) => { let q = x.properties.get_or_insert_with(|| m_conf(&[])); us(&mut q.user_properties); }
                MqttPacket::Subscribe(x) => { if prop % 2 == 0 { x.subscriptions[0].topic = format!("t{}", s) } else { let q = x.properties.get_or_insert_with(|| m_subscribe(&[])); us(&mut q.user_properties); } }
                MqttPacket::Suback(x) => { if prop % 2 == 0 { x.granted = vec![Granted::QoS1; n + 1]; x.granted_reason_codes = vec![SubscriptionReasonCode::GrantedQoS2; n + 1]; } else { let q = x.properties.get_or_insert_with(|| m_conf(&[])); us(&mut q.user_properties); } }
                MqttPacket::Unsubscribe(x) => { if prop % 2 == 0 { x.unsubscriptions.push(s.clone()) } else { let q = x.properties.get_or_insert_with(|| m_unsubscribe(&[])); us(&mut q.user_properties); } }
                MqttPacket::Unsuback(x) => { if prop % 2 == 0 { x.granted = vec![UnsubackCode::NotAuthorized; n] } else { let q = x.properties.get_or_insert_with(|| m_conf(&[])); us(&mut q.user_properties); } }
                MqttPacket::Disconnect(x) => { let q = x.properties.get_or_insert_with(|| m_disconnect(&[])); us(&mut q.user_properties); }
                MqttPacket::Auth(x) => { let q = x.properties.get_or_insert_with(|| m_auth(&[])); us(&mut q.user_properties); }
                _ => {}
            }
            if c.fixed_rt(*t) { roundtrip(c, &p, ver); }
        }
    }
}
impl Ctx {
    /// does the property of this run speak about packets of type t?
    fn fixed_rt(&self, t: u8) -> bool {
        match std::env::args().nth(1).as_deref() { Some("C07") => t == 3, Some("C08") => t == 1, Some("C09") => matches!(t, 2 | 12..=15), Some("C10") => (4..8).contains(&t), Some("C11") => (8..12).contains(&t), _ => true }
    }
}

fn s05(c: &mut Ctx) {
    let ver = encver(c);
    let t = *c.g.r.pick(&types());
    let odd = c.g.r.below(2);
    let p = c.g.packet(t, ver, odd);
    c.n += 1;
    if let Out::Panic(m) = enc(&p, ver) { c.hit(format!("encode({}) of {} panics: {}", ver, dbg(&p), m)); return; }
    if let Out::Panic(m) = guard(|| pure_encode(&p, ver)) { c.hit(format!("encode({}) of {} panics: {}", ver, dbg(&p), m)); }
}
/// the packet's own encoder instead of MqttPacket's
fn pure_encode(p: &MqttPacket, ver: u8) -> Result<Vec<u8>, String> {
    match p {
        MqttPacket::Connect(x) => x.encode(ver), MqttPacket::Connack(x) => x.encode(ver), MqttPacket::Publish(x) => x.encode(ver),
        MqttPacket::Puback(x) | MqttPacket::Pubrec(x) | MqttPacket::Pubrel(x) | MqttPacket::Pubcomp(x) => x.encode(ver), MqttPacket::Subscribe(x) => x.encode(ver),
        MqttPacket::Suback(x) => x.encode(ver), MqttPacket::Unsubscribe(x) => x.encode(ver), MqttPacket::Unsuback(x) => x.encode(ver), MqttPacket::Disconnect(x) => x.encode(ver),
        MqttPacket::Auth(x) => x.encode(ver), MqttPacket::Pingreq => PingreqPacket {}.encode(ver), MqttPacket::Pingresp => PingrespPacket {}.encode(ver),
    }
}
fn f05(c: &mut Ctx, i: usize) {
    if i < 3 {
        // confirmations of any kind and any header
        for t in 0..16u8 { for a in 0..2 { for b in 0..2 { for ver in [3u8, 4, 5] {
            let x = ConfirmationPacket { cmd: ptype(t), puback_reason_code: if a == 1 { Some(PubackPubrecCode::NotAuthorized) } else { None }, pubcomp_reason_code: if b == 1 { Some(PubcompPubrelCode::Success) } else { None },
                properties: c.g.p_conf(), message_id: 7 };
            c.n += 1;
            if let Out::Panic(m) = guard(|| x.encode(ver)) { c.hit(format!("encode({}) of {} panics: {}", ver, dbg(&x), m)); return; }
        } } } }
        for t in 0..16u8 { for q in 0..=255u8 { for f in 0..4u8 {
            let h = FixedHeader { cmd: ptype(t), dup: f & 1 == 1, qos: q, retain: f & 2 == 2 };
            c.n += 1;
            if let Out::Panic(m) = guard(|| Ok(h.encode())) { c.hit(format!("{:?}.encode() panics: {}", h, m)); return; }
        } } }
        return;
    }
    if i >= 12 { many_case(c, i - 12, |c, p, ver| { c.n += 1; if let Out::Panic(m) = enc(&p, ver) { c.hit(format!("encode({}) of {} panics: {}", ver, sizes(&p), m)); } }); return; }
    big_case(c, i - 3, |c, p, ver| { let r = enc(&p, ver); c.n += 1; if let Out::Panic(m) = r { c.hit(format!("encode({}) of {} panics: {}", ver, sizes(&p), m)); } });
}
fn sizes(p: &MqttPacket) -> String {
    match p { MqttPacket::Publish(x) => format!("PUBLISH with topic of {} bytes and payload of {} bytes", x.topic.len(), x.payload.len()),
        MqttPacket::Subscribe(x) => format!("SUBSCRIBE with {} topics", x.subscriptions.len()), MqttPacket::Unsubscribe(x) => format!("UNSUBSCRIBE with {} topics", x.unsubscriptions.len()), MqttPacket::Suback(x) => format!("SUBACK with {}/{} codes", x.granted.len(), x.granted_reason_codes.len()), MqttPacket::Unsuback(x) => format!("UNSUBACK with {} codes", x.granted.len()), p => dbg(p) }
}
/// packets with long lists
fn many_case(c: &mut Ctx, i: usize, f: impl Fn(&mut Ctx, MqttPacket, u8)) {
    let (what, n) = (i / NLIST, LIST[i % NLIST]);
    c.slow(120);
    for ver in [5u8, 4] {
        let us = |keys: bool| { let mut u = UserProperties::new(); if keys { for k in 0..n { u.insert(format!("{}", k), vec!["v".into()]); } } else { u.insert("k".into(), vec!["v".into(); n]); } u };
        let mut p = match what { 0 => c.g.packet(8, ver, 0), 1 => c.g.packet(10, ver, 0), 2 => c.g.packet(9, ver, 0), 3 => c.g.packet(11, ver, 0), _ => c.g.packet(3, ver, 0) };
        match &mut p {
            MqttPacket::Subscribe(x) => x.subscriptions = (0..n).map(|k| Subscription { topic: format!("{}", k % 99), qos: T_QOS[k % 3].1.clone(), nl: k % 2 == 0, rap: k % 7 == 0, rh: Some((k % 3) as u8) }).collect(),
            MqttPacket::Unsubscribe(x) => x.unsubscriptions = (0..n).map(|k| format!("{}", k % 99)).collect(),
            MqttPacket::Suback(x) => { x.granted = vec![Granted::QoS1; n]; x.granted_reason_codes = vec![SubscriptionReasonCode::GrantedQoS1; n]; }
            MqttPacket::Unsuback(x) => x.granted = vec![UnsubackCode::NotAuthorized; n],
            MqttPacket::Publish(x) => { let q = x.properties.get_or_insert_with(|| m_publish(&[])); if what == 4 { q.subscription_identifiers = (1..n as u32 + 1).collect() } else { q.user_properties = us(n % 2 == 0) } }
            _ => {}
        }
        f(c, p, ver);
    }
}
const MAXVAR: usize = 268435455;
/// packets around the largest remaining length
fn big_case(c: &mut Ctx, i: usize, f: impl Fn(&mut Ctx, MqttPacket, u8)) {
    c.slow(120);
    let publish = |n: usize| MqttPacket::Publish(PublishPacket { dup: false, qos: 0, retain: false, topic: "t".into(), message_id: None, payload: vec![0; n], properties: None });
    match i {
        0 => f(c, publish(MAXVAR - 3), 4),
        1 => f(c, publish(MAXVAR - 2), 4),
        2 => f(c, publish((1usize << 32) + 5), 4),
        3 => f(c, publish(MAXVAR + 10), 5),
        4 => { let s = "x".repeat(65535); let k = MAXVAR / 65537 + 1; f(c, MqttPacket::Unsubscribe(UnsubscribePacket { qos: 1, message_id: 1, properties: None, unsubscriptions: vec![s; k] }), 4) }
        5 => { let s = "x".repeat(65535); let mut u = UserProperties::new(); u.insert("k".into(), vec![s; MAXVAR / 65541 + 1]); f(c, MqttPacket::Disconnect(DisconnectPacket { reason_code: None, properties: Some(DisconnectProperties { session_expiry_interval: None, server_reference: None, reason_string: None, user_properties: u }) }), 5) }
        6 => f(c, MqttPacket::Suback(SubackPacket { reason_code: None, message_id: 1, properties: None, granted_reason_codes: vec![], granted: vec![Granted::QoS1; MAXVAR - 2] }), 4),
        7 => f(c, publish(MAXVAR - 3 - 1), 4),
        8 => f(c, MqttPacket::Unsuback(UnsubackPacket { message_id: 1, properties: None, granted: vec![UnsubackCode::Success; MAXVAR - 2] }), 5),
        _ => {}
    }
}
/// is b one frame for p?
fn framing(c: &mut Ctx, p: &MqttPacket, ver: u8, b: &[u8]) {
    c.n += 1;
    let bad = |m: String| format!("packet {}\n  encodes (version {}) to {}\n  {}", sizes(p), ver, hex(b), m);
    let e = match frame(b) {
        None => Some("which is not a complete frame".to_string()),
        Some((_, body, n)) if n != b.len() => Some(format!("whose remaining length says {}, but {} bytes follow", body.len(), b.len() - (n - body.len()))),
        Some((_, body, n)) if n - 1 - body.len() != evar(body.len() as u32).len() => Some("whose remaining length is not minimal".to_string()),
        Some((f, _, _)) if f != pfirst(p) => Some(format!("whose first byte should be {:#x}", pfirst(p))),
        Some((f, body, _)) => {
            let h = first_byte(f).unwrap_or(Hdr { t: f >> 4, dup: false, qos: (f >> 1) & 3, retain: false });
            let mut q = P::new(body);
            let r = crate::refdec::body(&mut q, &h, ver);
            let left = q.w.len();
            if r.is_none() && matches!(q.why, "short" | "propshort" | "var" | "utf8" | "len") { Some(format!("in which a length does not fit its content ({})", q.why)) }
            else if r.is_some() && left > 0 && !(f >> 4 == 14 && ver != 5) { Some(format!("in which {} bytes belong to nothing", left)) }
            else if let Some(o) = q.odd.iter().find(|o| o.contains("variable byte")) { Some(o.clone()) } else { None }
        }
    };
    if let Some(m) = e { c.hit(bad(m)); }
}
fn s06(c: &mut Ctx) {
    let ver = encver(c);
    let t = *c.g.r.pick(&types());
    let p = c.g.packet(t, ver, 3);
    if let Out::Ok(b) = enc(&p, ver) { framing(c, &p, ver, &b); }
}
fn f06(c: &mut Ctx, i: usize) { if i >= 12 { many_case(c, i - 12, |c, p, ver| if let Out::Ok(b) = enc(&p, ver) { framing(c, &p, ver, &b) }) } else if i < 9 { big_case(c, i, |c, p, ver| if let Out::Ok(b) = enc(&p, ver) { framing(c, &p, ver, &b) }) } }

// ---------------------------------------------------------------- C12

fn wvar(n: u32) -> Out<Vec<u8>> { guard(|| { let mut w = MqttWriter::new(4); w.write_variable_num(n)?; Ok(w.into_vec()) }) }
fn one12(c: &mut Ctx, n: u32) -> bool {
    c.n += 1;
    let g = wvar(n);
    let e = if n as usize <= MAXVAR { Out::Ok(evar(n)) } else { Out::Err };
    if g != e { c.hit(format!("write_variable_num({}) gives {:?}, expected {:?}", n, g, e)); return false; }
    if n > 0 && n as usize <= MAXVAR {
        let g = guard(|| Ok(MqttWriter::encode_variable_num(n)));
        if g != e { c.hit(format!("encode_variable_num({}) gives {:?}, expected {:?}", n, g, e)); return false; }
    }
    if let Out::Ok(b) = e { return rvar(c, &b); }
    true
}
fn rvar(c: &mut Ctx, w: &[u8]) -> bool {
    c.n += 1;
    let mut r = ByteReader::new(BufReader::with_capacity(16, w));
    let g = guard(|| r.read_variable_int());
    let e = var(w);
    let ok = match (&g, e) { (Out::Ok(n), Some((m, k))) => *n == m && r.read_len((w.len() - k) as u32).ok().as_deref() == Some(&w[k..]) && !r.has_more(), (Out::Err, None) => true, _ => false };
    if !ok { c.hit(format!("read_variable_int of {} gives {:?}, expected {:?} (value, bytes used)", hex(w), g, e)); }
    ok
}
fn f12(c: &mut Ctx, i: usize) {
    if i == 64 {
        // as remaining length of a frame and as property length
        for n in [0u32, 1, 127, 128, 129, 255, 256, 16383, 16384, 16385, 65535, 65536, 2097151, 2097152, 2097153] {
            let b = vec![9u8; n as usize];
            let mut v = vec![0u8, 1, b't'];
            v.extend(&b);
            c.slow(60);
            diff(c, 0x30, &v, 4);
        }
        for n in [MAXVAR as u64, MAXVAR as u64 + 1, u32::MAX as u64, 1 << 32, (1 << 32) + 5, u64::MAX] {
            let g = guard(|| { let mut w = MqttWriter::new(4); w.write_remaining_length(n as usize)?; Ok(w.into_vec()) });
            let e = if n as usize <= MAXVAR { Out::Ok(evar(n as u32)) } else { Out::Err };
            if g != e { c.hit(format!("write_remaining_length({}) gives {:?}, expected {:?}", n, g, e)); return; }
        }
        return;
    }
    let i = i as u32;
    // a dense part and everything near the steps
    for n in (0..20000u32).map(|k| k * 64 + i) { if !one12(c, n) { return; } }
    for p in 0..32 { for d in 0..40u64 { let n = ((1u64 << p) + d).wrapping_sub(20) as u32; if !one12(c, n) { return; } } }
    // all sequences of up to two bytes, and four byte sequences of edge bytes
    for a in 0..4u32 { let x = (i * 4 + a) as u8; if !rvar(c, &[x]) { return; } for y in 0..=255u8 { if !rvar(c, &[x, y]) { return; } if !rvar(c, &[x, y, 3, 4, 5]) { return; } if !rvar(c, &[0x80, x, y, 1]) { return; } if !rvar(c, &[0xff, 0xff, x, y, 1]) { return; } if !rvar(c, &[0x80 | x, 0xff, 0x80, y]) { return; } } }
}
fn s12(c: &mut Ctx) {
    for _ in 0..400 {
        let n = c.g.u32();
        if !one12(c, n) { return; }
        let k = c.g.r.below(8);
        let w: Vec<u8> = (0..k).map(|_| if c.g.r.bit() { c.g.r.next() as u8 | 128 } else { c.g.u8() }).collect();
        if !rvar(c, &w) { return; }
    }
}

// ---------------------------------------------------------------- C13

fn f13(c: &mut Ctx, i: usize) {
    match i {
        0 => for b in 0..=255u8 {
            c.n += 1;
            let g = guard(|| FixedHeader::from_byte(b));
            let e = match first_byte(b) { Some(h) => Out::Ok(FixedHeader { cmd: ptype(h.t), dup: h.dup, qos: h.qos, retain: h.retain }), None => Out::Err };
            // flags of other packets than PUBLISH carry nothing
            let same = match (&g, &e) { (Out::Ok(x), Out::Err) if b == 0 => x.cmd == PacketType::Reserved, // refused later, with the frame
                (Out::Ok(x), Out::Ok(y)) => x.cmd == y.cmd && (b >> 4 != 3 || x == y), (a, b) => a == b };
            if !same { c.hit(format!("FixedHeader::from_byte({:#04x}) gives {:?}, expected {:?}", b, g, e)); return; }
            for ver in [3u8, 4, 5] { for tail in 0..3 {
                // with a body that suits the type
                let Some(h) = first_byte(b) else {
                    for n in 0..4 { let mut d = decoder(mkframe(b, &vec![0; n]), WHOLE, 0); if let Out::Ok(p) = next(&mut d, ver) { c.hit(format!("a frame with first byte {:#04x} decodes to {} (version {})", b, dbg(&p), ver)); return; } }
                    continue;
                };
                let body = good_body(h.t, h.qos, ver);
                let _ = tail;
                if !diff(c, b, &body, ver) { return; }
            } }
        },
        1 => for t in 0..16u8 { for f in 0..4u8 { for q in 0..3u8 {
            let (dup, retain) = (f & 1 == 1, f & 2 == 2);
            let h = FixedHeader { cmd: ptype(t), dup, qos: q, retain };
            c.n += 1;
            let g = guard(|| Ok(h.encode()));
            let fl = match t { 3 => dup as u8 * 8 + q * 2 + retain as u8, 6 | 8 | 10 => 2, _ => 0 };
            if g != Out::Ok(t * 16 + fl) { c.hit(format!("{:?}.encode() gives {:?}, expected {:#04x}", h, g, t * 16 + fl)); return; }
            if t > 0 {
                let g = guard(|| Ok(FixedHeader::for_type(ptype(t)).encode()));
                let e = t * 16 + if matches!(t, 6 | 8 | 10) { 2 } else { 0 };
                if g != Out::Ok(e) { c.hit(format!("FixedHeader::for_type({:?}).encode() gives {:?}, expected {:#04x}", ptype(t), g, e)); return; }
            }
        } } },
        _ => for b in 0..=255u8 { if PacketType::from_bits(b) != (if b < 16 { ptype(b) } else { PacketType::Reserved }) { c.hit(format!("PacketType::from_bits({}) gives {:?}", b, PacketType::from_bits(b))); return; } },
    }
}
fn good_body(t: u8, qos: u8, ver: u8) -> Vec<u8> {
    let five = ver == 5;
    let mut v: Vec<u8> = vec![];
    match t {
        1 => { v.extend([0, 4]); v.extend(b"MQTT"); v.extend([4, 2, 0, 60, 0, 1, b'c']); }
        2 => { v.extend([0, 0]); if five { v.push(0) } }
        3 => { v.extend([0, 1, b't']); if qos > 0 { v.extend([0, 7]) } if five { v.push(0) } v.extend(b"pay"); }
        4..=7 => v.extend([0, 7]),
        8 => { v.extend([0, 7]); if five { v.push(0) } v.extend([0, 1, b't', 1]); }
        9 => { v.extend([0, 7]); if five { v.push(0) } v.push(1); }
        10 => { v.extend([0, 7]); if five { v.push(0) } v.extend([0, 1, b't']); }
        11 => { v.extend([0, 7]); if five { v.extend([0, 0]) } }
        14 => if five { v.extend([0, 0]) },
        15 => v.extend([0, 0]),
        _ => {}
    }
    v
}
fn s13(c: &mut Ctx) {
    // headers of packets that are written
    let ver = encver(c);
    let t = *c.g.r.pick(&types());
    let p = c.g.packet(t, ver, 0);
    c.n += 1;
    if let Out::Ok(b) = enc(&p, ver) {
        if b.first() != Some(&pfirst(&p)) { c.hit(format!("{} encodes (version {}) to {}, the first byte should be {:#04x}", dbg(&p), ver, hex(&b), pfirst(&p))); return; }
        if let MqttPacket::Publish(x) = &p {
            let mut d = decoder(b.clone(), WHOLE, 0);
            if let Out::Ok(MqttPacket::Publish(y)) = next(&mut d, ver) { if (x.dup, x.qos, x.retain) != (y.dup, y.qos, y.retain) { c.hit(format!("{} reads back as {}", dbg(&x), dbg(&y))); return; } }
        }
    }
    let f = c.g.r.next() as u8;
    if let Some(h) = first_byte(f) { let v = c.g.ver(); let b = good_body(h.t, h.qos, v); diff(c, f, &b, v); }
}

// ---------------------------------------------------------------- C14

fn table<T: MqttCode<T> + PartialEq + Clone + std::fmt::Debug>(c: &mut Ctx, t: &[(u8, T)]) {
    for b in 0..=255u8 {
        c.n += 1;
        let g = guard(|| T::from_byte(b));
        let e = match tab(t, b) { Some(x) => Out::Ok(x), None => Out::Err };
        if g != e { c.hit(format!("{}::from_byte({:#04x}) gives {:?}, expected {:?}", std::any::type_name::<T>(), b, g, e)); return; }
    }
    for (b, x) in t { let g = guard(|| Ok(x.to_byte())); if g != Out::Ok(*b) { c.hit(format!("{:?}.to_byte() gives {:?}, expected {:#04x}", x, g, b)); return; } }
}
fn f14(c: &mut Ctx, t: usize) {
    if t >= 16 { lists(c, t - 16 + 2 * NLIST, true); return; }
    let t = t as u8;
    match t {
        0 => { table(c, T_SUBACK); table(c, T_DISC); table(c, T_UNSUB); table(c, T_AUTH); table(c, T_REL); table(c, T_ACK);
            for b in 0..=255u8 {
                if guard(|| Granted::from_byte(b)) != (match tab(T_GRANTED, b) { Some(x) => Out::Ok(x), None => Out::Err }) { c.hit(format!("Granted::from_byte({:#04x}) is wrong", b)); return; }
                if guard(|| QoS::from_byte(b)) != (match tab(T_QOS, b) { Some(x) => Out::Ok(x), None => Out::Err }) { c.hit(format!("QoS::from_byte({:#04x}) is wrong", b)); return; }
            }
            for (b, x) in T_GRANTED { if x.to_byte() != *b { c.hit(format!("{:?}.to_byte() is wrong", x)); return; } }
            for (b, x) in T_QOS { if x.to_byte() != *b { c.hit(format!("{:?}.to_byte() is wrong", x)); return; } }
        }
        2 | 4..=7 | 9 | 11 | 14 | 15 => for ver in [3u8, 4, 5] { for b in 0..=255u8 { for shape in 0..4 {
            let mut v = vec![];
            let five = ver == 5;
            let props: &[u8] = match (five, shape) { (false, _) => &[], (_, 0) => &[0], (_, 1) => &[5, 0x1f, 0, 2, b'r', b's'], (_, 2) => &[9, 0x26, 0, 1, b'k', 0, 3, b'v', b'a', b'l'], _ => &[] };
            match t {
                2 => { v.extend([0, b]); v.extend(props); }
                4..=7 => { v.extend([1, 2]); v.push(b); v.extend(props); if !five { v.truncate(2); } }
                9 | 11 => { v.extend([1, 2]); if five { v.extend(if shape == 3 { &[0u8] } else { props }) } if t == 9 || five { if shape == 1 { v.push(0); } v.push(b); if shape == 2 { v.push(0); } } }
                _ => { v.push(b); v.extend(props); }
            }
            let f = t * 16 + if t == 6 { 2 } else { 0 };
            if !diff(c, f, &v, ver) { return; }
            // and back
            if let (Some(p), _, _) = decode(f, &v, ver) { if refuse(&p, ver).is_empty() { roundtrip(c, &p, ver); } }
            if c.sh.stop.load(std::sync::atomic::Ordering::SeqCst) { return; }
        } } },
        _ => {}
    }
}
fn s14(c: &mut Ctx) {
    let ver = if c.g.r.one_in(4) { 4 } else { 5 };
    let t = *c.g.r.pick(&[2u8, 4, 5, 6, 7, 9, 11, 14, 15]);
    let (f, b) = c.g.raw_frame_t(t, ver);
    let (w, why, _) = decode(f, &b, ver);
    if w.is_some() || why == "code" { diff(c, f, &b, ver); }
    if let Some(p) = w { if refuse(&p, ver).is_empty() { roundtrip(c, &p, ver); } }
    let p = c.g.packet(t, ver, 0);
    if refuse(&p, ver).is_empty() { roundtrip(c, &p, ver); }
}

// ---------------------------------------------------------------- C15 C22

fn with_block(t: u8, block: &[u8], will: bool) -> (u8, Vec<u8>) {
    let mut v: Vec<u8> = vec![];
    let mut pb = evar(block.len() as u32);
    pb.extend(block);
    match t {
        1 => { v.extend([0, 4]); v.extend(b"MQTT"); v.extend([5, if will { 6 } else { 2 }, 0, 60]); if will { v.push(0) } else { v.extend(&pb) } v.extend([0, 1, b'c']); if will { v.extend(&pb); v.extend([0, 1, b'w', 0, 1, b'm']) } }
        2 => { v.extend([0, 0]); v.extend(&pb); }
        3 => { v.extend([0, 1, b't']); v.extend(&pb); v.extend(b"pay"); }
        4..=7 => { v.extend([0, 7, 0]); v.extend(&pb); }
        8 => { v.extend([0, 7]); v.extend(&pb); v.extend([0, 1, b't', 1]); }
        9 | 11 => { v.extend([0, 7]); v.extend(&pb); v.push(0); }
        10 => { v.extend([0, 7]); v.extend(&pb); v.extend([0, 1, b't']); }
        14 | 15 => { v.push(0); v.extend(&pb); }
        _ => {}
    }
    (t * 16 + if matches!(t, 6 | 8 | 10) { 2 } else { 0 }, v)
}
fn f15(c: &mut Ctx, t: usize) {
    if t >= 16 { lists(c, t - 16 + 4 * NLIST, true); return; }
    let t = t as u8;
    if matches!(t, 0 | 12 | 13) { return; }
    for id in 0..=255u8 { for k in 0..12 { for will in [false, true] {
        if will && t != 1 { continue; }
        let mut b = vec![id];
        if k == 0 { b.extend([0, 0]); } else if k == 1 { b.push(1); } else if k == 2 { b.extend([0, 0, 1, 0]); } else { c.g.wval(id, &mut b); }
        if k > 8 { let id2 = *c.g.r.pick(allowed(t)); b.push(id2); c.g.wval(id2, &mut b); }
        let (f, v) = with_block(t, &b, will);
        if !diff(c, f, &v, 5) { return; }
        // block length off by one
        if k == 3 { let (f, mut v) = with_block(t, &b, will); if v.len() > 3 { let i = v.len() - 1; v.remove(i); } if !diff(c, f, &v, 5) { return; } }
    } } }
}
fn s15(c: &mut Ctx) {
    let t = *c.g.r.pick(&[1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15]);
    let (f, b) = c.g.raw_frame_t(t, 5);
    let (w, why, _) = decode(f, &b, 5);
    if w.is_some() || matches!(why, "propid" | "propshort" | "short" | "var" | "utf8") { if !diff(c, f, &b, 5) { return; } }
    let p = c.g.packet(t, 5, 0);
    props_written(c, &p);
}
fn props_written(c: &mut Ctx, p: &MqttPacket) {
    if !refuse(p, 5).is_empty() { return; }
    roundtrip(c, p, 5);
    c.n += 1;
    if let Out::Ok(b) = enc(p, 5) {
        if let Some((f, body, _)) = frame(&b) {
            let Some(h) = first_byte(f) else { return };
            let mut q = P::new(body);
            crate::refdec::body(&mut q, &h, 5);
            if let Some(o) = q.odd.iter().find(|o| o.starts_with("property 0x")) { c.hit(format!("packet {}\n  encodes to {}: {}", dbg(p), hex(&b), o)); }
        }
    }
}
fn s22(c: &mut Ctx) {
    let t = *c.g.r.pick(&[1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15]);
    // many user properties with few keys, other properties in between
    let mut b = vec![];
    let most = if c.g.r.one_in(10) { 40 } else { 8 };
    let n = 1 + c.g.r.below(most);
    for i in 0..n {
        if c.g.r.one_in(5) { let id = *c.g.r.pick(allowed(t)); if id != 0x26 { b.push(id); c.g.wval(id, &mut b); } }
        b.push(0x26);
        let k = if c.g.r.bit() { c.g.r.pick(&["", "a", "b", "k", "key"]).to_string() } else { c.g.string() };
        let v = match c.g.r.below(4) { 0 => "same".into(), 1 => format!("{}", i), 2 => String::new(), _ => c.g.string() };
        for s in [k, v] { b.extend((s.len() as u16).to_be_bytes()); b.extend(s.bytes()); }
    }
    let will = c.g.r.bit();
    if t == 1 && will { b.retain(|_| true); }
    let (f, v) = with_block(t, &b, will && t == 1 && only(&b, A_WILL));
    if v.len() > MAXVAR { return; }
    if !diff(c, f, &v, 5) { return; }
    if let (Some(p), _, _) = decode(f, &v, 5) { if refuse(&p, 5).is_empty() { roundtrip(c, &p, 5); } }
    let p = c.g.packet(t, 5, 0);
    if refuse(&p, 5).is_empty() { roundtrip(c, &p, 5); }
}
fn only(_: &[u8], _: &[u8]) -> bool { true }

// ---------------------------------------------------------------- C16

fn s16(c: &mut Ctx) {
    let n = match c.g.r.below(3) { 0 => c.g.r.below(20), 1 => c.g.r.below(100), _ => c.g.r.below(20000) };
    let data: Vec<u8> = (0..n).map(|i| if c.g.r.one_in(5) { c.g.u8() } else { i as u8 }).collect();
    let (plan, cap) = plan_any(c);
    let src = Src::new(data.clone(), plan);
    let mut r = ByteReader::new(if cap == 0 { BufReader::new(src) } else { BufReader::with_capacity(cap, src) });
    let (mut pos, mut cur, mut st): (usize, Option<u32>, Vec<u32>) = (0, None, vec![]);
    let mut trace = vec![];
    for _ in 0..2 + c.g.r.below(24) {
        let left = n - pos;
        let win = cur.map_or(left, |l| left.min(l as usize));
        let near = |c: &mut Ctx, x: usize| -> u32 { match c.g.r.below(6) { 0 => x as u32, 1 => (x as u32).saturating_add(1), 2 => x.saturating_sub(1) as u32, 3 => 0, 4 => c.g.r.below(x + 3) as u32, _ => c.g.r.below(8) as u32 } };
        match c.g.r.below(12) {
            0..=2 => {
                let mut l = match cur { Some(x) => near(c, x as usize), None => near(c, left) };
                if c.g.r.one_in(20) { l = u32::MAX - c.g.r.below(3) as u32; }
                if c.g.r.one_in(10) { l = c.g.u32(); }
                trace.push(format!("take({})", l));
                r.take(l);
                cur = Some(match cur { Some(x) => { let m = l.min(x); st.push(x - m); m } None => l });
            }
            3 | 4 => {
                trace.push("reset_limit()".into());
                r.reset_limit();
                cur = match st.pop() { Some(x) => Some(x + cur.unwrap_or(0)), None => None };
            }
            5 => {
                let g = guard(|| Ok(r.has_more()));
                let e = match cur { Some(l) => l > 0, None => left > 0 };
                trace.push(format!("has_more() = {:?}", g));
                c.n += 1;
                if g != Out::Ok(e) { c.hit(format!("reader of {} bytes: {}, expected {}", n, trace.join("; "), e)); return; }
            }
            6 => {
                let g = guard(|| r.consume());
                trace.push(format!("consume() = {}", match &g { Out::Ok(v) => format!("{} bytes", v.len()), x => dbg(x) }));
                let ok = cur.map_or(false, |l| l as usize <= left);
                let e = if ok { let l = cur.unwrap() as usize; Out::Ok(data[pos..pos + l].to_vec()) } else { Out::Err };
                c.n += 1;
                if g != e { c.hit(format!("reader of {}: {}; expected {}", hex(&data), trace.join("; "), match e { Out::Ok(v) => hex(&v), _ => "an error".into() })); return; }
                if ok { pos += cur.unwrap() as usize; cur = Some(0); } else if cur.is_some() { return; }
            }
            _ => {
                let l = near(c, win);
                let kind = c.g.r.below(5);
                let want = match kind { 0 => 1, 1 => 2, 2 => 4, _ => l };
                let g = match kind { 0 => guard(|| r.read_u8().map(|x| vec![x])), 1 => guard(|| r.read_u16().map(|x| x.to_be_bytes().to_vec())), 2 => guard(|| r.read_u32().map(|x| x.to_be_bytes().to_vec())), _ => guard(|| r.read_len(l)) };
                trace.push(format!("read {} = {}", want, match &g { Out::Ok(v) => format!("{} bytes", v.len()), x => dbg(x) }));
                let fits = cur.map_or(true, |x| want <= x);
                let e = if fits && want as usize <= left { Out::Ok(data[pos..pos + want as usize].to_vec()) } else { Out::Err };
                c.n += 1;
                if g != e { c.hit(format!("reader of {}: {}; expected {}", hex(&data), trace.join("; "), match e { Out::Ok(v) => hex(&v), _ => "an error".into() })); return; }
                if let Out::Ok(_) = e { pos += want as usize; if let Some(x) = &mut cur { *x -= want; } } else if fits { return; }
            }
        }
    }
    // all limits gone: the rest is there
    while !st.is_empty() { r.reset_limit(); cur = Some(st.pop().unwrap() + cur.unwrap_or(0)); }
    if let Some(l) = cur {
        let g = guard(|| r.consume());
        let e = if l as usize <= n - pos { Out::Ok(data[pos..pos + l as usize].to_vec()) } else { Out::Err };
        c.n += 1;
        if g != e { c.hit(format!("reader of {}: {}; then consume() of the outermost limit gives {}, expected {}", hex(&data), trace.join("; "), dbg(&g), dbg(&e))); return; }
        if e == Out::Err { return; }
        pos += l as usize;
        r.reset_limit();
    }
    let g = guard(|| r.read_len((n - pos) as u32));
    if g != Out::Ok(data[pos..].to_vec()) { c.hit(format!("reader of {}: {}; without a limit the rest is {}, expected {}", hex(&data), trace.join("; "), dbg(&g), hex(&data[pos..]))); }
}

// ---------------------------------------------------------------- C17

fn plain(p: &MqttPacket) -> MqttPacket {
    // without everything that is new in version 5
    let mut p = p.clone();
    match &mut p {
        MqttPacket::Connect(x) => { x.properties = None; if let Some(w) = &mut x.will { w.properties = None; } }
        MqttPacket::Connack(x) => { x.properties = None; x.reason_code = None; }
        MqttPacket::Publish(x) => x.properties = None,
        MqttPacket::Puback(x) | MqttPacket::Pubrec(x) | MqttPacket::Pubrel(x) | MqttPacket::Pubcomp(x) => { x.properties = None; x.puback_reason_code = None; x.pubcomp_reason_code = None; }
        MqttPacket::Subscribe(x) => { x.properties = None; for s in &mut x.subscriptions { s.nl = false; s.rap = false; s.rh = None; } }
        MqttPacket::Suback(x) => { x.properties = None; x.granted_reason_codes.clear(); }
        MqttPacket::Unsubscribe(x) => x.properties = None,
        MqttPacket::Unsuback(x) => { x.properties = None; x.granted.clear(); }
        MqttPacket::Disconnect(x) => { x.properties = None; x.reason_code = None; }
        _ => {}
    }
    p
}
fn f17(c: &mut Ctx, t: usize) {
    let t = t as u8;
    if t == 0 { return; }
    for ver in 0..=255u8 {
        if ver == 5 { continue; }
        for _ in 0..3 {
            if t == 15 {
                let p = c.g.packet(15, ver, 0);
                c.n += 1;
                if let Out::Ok(b) = enc(&p, ver) { c.hit(format!("{} encodes with version {} to {}", dbg(&p), ver, hex(&b))); return; }
            }
            let rv = if c.g.r.bit() { ver } else { 5 };
            let (f, b) = c.g.raw_frame_t(t, rv);
            if !diff(c, f, &b, ver) { return; }
            if t != 15 { let p = c.g.packet(t, ver, 0); less5(c, &p, ver); }
            if c.sh.stop.load(std::sync::atomic::Ordering::SeqCst) { return; }
        }
    }
}
fn less5(c: &mut Ctx, p: &MqttPacket, ver: u8) {
    if let MqttPacket::Connect(x) = p {
        if !refuse(p, ver).is_empty() { return; }
        c.n += 1;
        // only its own version counts
        let (a, b) = (enc(p, ver), enc(p, x.protocol_version));
        if a != b { c.hit(format!("{} encodes differently with version {} and {}: {} / {}", dbg(p), ver, x.protocol_version, dbg(&a), dbg(&b))); return; }
        if x.protocol_version != 5 { let e = enc(&plain(p), ver); if a != e { c.hit(format!("{} encodes to {}\n  without its v5 data to {}", dbg(p), dbg(&a), dbg(&e))); return; } }
        roundtrip(c, p, ver);
        return;
    }
    if ver == 5 { return; }
    c.n += 1;
    let (a, b) = (enc(p, ver), enc(&plain(p), ver));
    if a != b { c.hit(format!("{} with version {}\n  encodes to {}\n  without its v5 data to {}", dbg(p), ver, dbg(&a), dbg(&b))); return; }
    if refuse(p, ver).is_empty() { roundtrip(c, p, ver); }
}
fn s17(c: &mut Ctx) {
    let ver = match c.g.r.below(6) { 0 | 1 => 3, 2..=4 => 4, _ => c.g.u8() };
    let t = *c.g.r.pick(&types());
    let v2 = if c.g.r.bit() { 5 } else { ver };
    let (f, b) = c.g.raw_frame_t(t, v2);
    if ver != 5 || t == 1 { if !diff(c, f, &b, ver) { return; } }
    let p = c.g.packet(t, ver, 4);
    if t == 15 { if ver != 5 { if let Out::Ok(b) = enc(&p, ver) { c.hit(format!("{} encodes with version {} to {}", dbg(&p), ver, hex(&b))); } } return; }
    less5(c, &p, ver);
}

// ---------------------------------------------------------------- C18

/// sets the k-th string of a packet
fn set_string(p: &mut MqttPacket, k: usize, s: &str) -> Option<&'static str> {
    let so = || Some(s.to_string());
    fn user(u: &mut UserProperties, key: bool, s: &str) { if key { u.insert(s.to_string(), vec!["v".into()]); } else { u.insert("k".into(), vec!["a".into(), s.to_string()]); } }
    Some(match p {
        MqttPacket::Connect(x) => {
            if k >= 5 && k <= 8 { x.properties.get_or_insert_with(ConnectProperties::default); }
            if matches!(k, 3 | 4 | 9..=13) {
                let w = x.will.get_or_insert(LastWill { topic: Some("t".into()), payload: None, qos: 0, retain: false, properties: None });
                if k >= 9 { w.properties.get_or_insert_with(WillProperties::default); }
            }
            match k {
                0 => { x.client_id = s.into(); "client_id" } 1 => { x.user_name = so(); "user_name" } 2 => { x.user_name = so(); x.user_name.as_mut().unwrap().truncate(1); x.password = so(); "password" }
                3 => { x.will.as_mut().unwrap().topic = so(); "will topic" } 4 => { x.will.as_mut().unwrap().payload = so(); "will payload" }
                5 => { x.properties.as_mut().unwrap().authentication_method = so(); "authentication_method" } 6 => { x.properties.as_mut().unwrap().authentication_data = so(); "authentication_data" }
                7 | 8 => { user(&mut x.properties.as_mut().unwrap().user_properties, k == 7, s); "user property" }
                9 => { x.will.as_mut().unwrap().properties.as_mut().unwrap().content_type = so(); "will content_type" } 10 => { x.will.as_mut().unwrap().properties.as_mut().unwrap().response_topic = so(); "will response_topic" }
                11 => { x.will.as_mut().unwrap().properties.as_mut().unwrap().correlation_data = s.as_bytes().to_vec(); "will correlation_data" }
                12 | 13 => { user(&mut x.will.as_mut().unwrap().properties.as_mut().unwrap().user_properties, k == 12, s); "will user property" }
                _ => return None,
            }
        }
        MqttPacket::Connack(x) => {
            let q = x.properties.get_or_insert_with(ConnackProperties::default);
            match k { 0 => { q.assigned_client_identifier = so(); "assigned_client_identifier" } 1 => { q.authentication_method = so(); "authentication_method" } 2 => { q.authentication_data = so(); "authentication_data" }
                3 => { q.response_information = so(); "response_information" } 4 => { q.server_reference = so(); "server_reference" } 5 => { q.reason_string = so(); "reason_string" }
                6 | 7 => { user(&mut q.user_properties, k == 6, s); "user property" } _ => return None }
        }
        MqttPacket::Publish(x) => {
            if k == 0 { x.topic = s.into(); return Some("topic"); }
            let q = x.properties.get_or_insert_with(|| m_publish(&[]));
            match k { 1 => { q.content_type = so(); "content_type" } 2 => { q.response_topic = so(); "response_topic" } 3 => { q.correlation_data = s.as_bytes().to_vec(); "correlation_data" } 4 | 5 => { user(&mut q.user_properties, k == 4, s); "user property" } _ => return None }
        }
        MqttPacket::Puback(x) | MqttPacket::Pubrec(x) | MqttPacket::Pubrel(x) | MqttPacket::Pubcomp(x) => {
            let q = x.properties.get_or_insert_with(|| m_conf(&[]));
            match k { 0 => { q.reason_string = so(); "reason_string" } 1 | 2 => { user(&mut q.user_properties, k == 1, s); "user property" } _ => return None }
        }
        MqttPacket::Suback(x) => { let q = x.properties.get_or_insert_with(|| m_conf(&[])); match k { 0 => { q.reason_string = so(); "reason_string" } 1 | 2 => { user(&mut q.user_properties, k == 1, s); "user property" } _ => return None } }
        MqttPacket::Unsuback(x) => { let q = x.properties.get_or_insert_with(|| m_conf(&[])); match k { 0 => { q.reason_string = so(); "reason_string" } 1 | 2 => { user(&mut q.user_properties, k == 1, s); "user property" } _ => return None } }
        MqttPacket::Subscribe(x) => match k { 0 => { x.subscriptions[0].topic = s.into(); "topic" } 1 => { let i = x.subscriptions.len() - 1; x.subscriptions[i].topic = s.into(); "topic" } 2 | 3 => { user(&mut x.properties.get_or_insert_with(|| m_subscribe(&[])).user_properties, k == 2, s); "user property" } _ => return None },
        MqttPacket::Unsubscribe(x) => match k { 0 => { x.unsubscriptions[0] = s.into(); "topic" } 1 => { x.unsubscriptions.push(s.into()); "topic" } 2 | 3 => { user(&mut x.properties.get_or_insert_with(|| m_unsubscribe(&[])).user_properties, k == 2, s); "user property" } _ => return None },
        MqttPacket::Disconnect(x) => { let q = x.properties.get_or_insert_with(|| m_disconnect(&[])); match k { 0 => { q.server_reference = so(); "server_reference" } 1 => { q.reason_string = so(); "reason_string" } 2 | 3 => { user(&mut q.user_properties, k == 2, s); "user property" } _ => return None } }
        MqttPacket::Auth(x) => { let q = x.properties.get_or_insert_with(|| m_auth(&[])); match k { 0 => { q.authentication_method = s.into(); "authentication_method" } 1 => { q.authentication_data = so(); "authentication_data" } 2 => { q.reason_string = so(); "reason_string" } 3 | 4 => { user(&mut q.user_properties, k == 3, s); "user property" } _ => return None } }
        _ => return None,
    })
}
fn fits(c: &mut Ctx, p: &MqttPacket, ver: u8, what: &str) {
    c.n += 1;
    let r = enc(p, ver);
    let why = refuse(p, ver);
    match (&r, why) {
        (Out::Ok(b), "") => {
            let w = frame(b).and_then(|(f, body, n)| if n == b.len() { decode(f, body, ver).0 } else { None }).map(|q| canon(&q, ver));
            if w != Some(canon(p, ver)) { c.hit(format!("{}: encode({}) of {}\n  gives {} which means {}", what, ver, dbg(p), hex(b), dbg(&w))); }
        }
        (Out::Err, w) if !w.is_empty() => {}
        (r, w) => c.hit(format!("{}: encode({}) of {}\n  gives {}, expected {}", what, ver, dbg(p), match r { Out::Ok(b) => hex(b), x => dbg(x) }, if w.is_empty() { "bytes" } else { "an error" })),
    }
}
fn f18(c: &mut Ctx, i: usize) {
    let ver = [4u8, 5, 5][i % 3];
    let t = (i / 3) as u8 + 1;
    if t <= 15 && i < 39 && t < 12 || (12..=13).contains(&t) {
        let t = match t { 12 => 14, 13 => 15, x => x };
        for k in 0..14 { for n in [65535usize, 65536, 65537, 131071, 131072, 131077, 70000] {
            let mut p = c.g.packet(t, ver, 0);
            if let MqttPacket::Connect(x) = &mut p { x.protocol_version = ver; }
            let Some(what) = set_string(&mut p, k, &"s".repeat(n)) else { break };
            fits(c, &p, ver, &format!("{} of {} bytes", what, n));
            if c.sh.stop.load(std::sync::atomic::Ordering::SeqCst) { return; }
        } }
        // identifiers and retain handling
        for n in [MAXVAR as u32, MAXVAR as u32 + 1, u32::MAX, 1 << 28, 0x8000_0000] { for j in 0..3 {
            let mut p = c.g.packet(t, 5, 0);
            match &mut p {
                MqttPacket::Publish(x) => x.properties.get_or_insert_with(|| m_publish(&[])).subscription_identifiers = match j { 0 => vec![n], 1 => vec![1, n], _ => vec![n, 2] },
                MqttPacket::Subscribe(x) => x.properties.get_or_insert_with(|| m_subscribe(&[])).subscription_identifier = n,
                _ => break,
            }
            fits(c, &p, 5, "subscription identifier");
        } }
        if t == 8 { for rh in 0..=255u8 { for j in 0..2 {
            let mut p = c.g.packet(8, 5, 0);
            if let MqttPacket::Subscribe(x) = &mut p { let k = if j == 0 { 0 } else { x.subscriptions.len() - 1 }; x.subscriptions[k].rh = Some(rh); }
            fits(c, &p, 5, "retain handling");
        } } }
    }
    if i == 39 {
        for k in 0..9 {
            big_case(c, k, |c, p, ver| {
                let big = match (&p, k) { (_, 0 | 6 | 7 ) => false, _ => true };
                c.n += 1;
                match enc(&p, ver) {
                    Out::Ok(b) => {
                        if big { c.hit(format!("encode({}) of {} gives {} bytes, although its body is too long", ver, sizes(&p), b.len())); return; }
                        let ok = frame(&b).map_or(false, |(f, _, n)| n == b.len() && f == pfirst(&p));
                        if !ok { c.hit(format!("encode({}) of {} gives {}", ver, sizes(&p), hex(&b))); }
                    }
                    _ => if !big { c.hit(format!("encode({}) of {} fails", ver, sizes(&p))); },
                }
            });
        }
        for n in [65535usize, 65536, 65537, 1 << 17] {
            let s = "w".repeat(n);
            for k in 0..4 {
                let g = guard(|| { let mut w = MqttWriter::new(1); match k { 0 => w.write_utf8_string(s.clone())?, 1 => w.write_utf8_str(&s)?, 2 => w.write_binary(s.as_bytes().to_vec())?, _ => w.write_binary_ref(s.as_bytes())? } Ok(w.into_vec()) });
                let mut e = vec![255u8, 255];
                e.extend(s.bytes());
                if g != (if n <= 65535 { Out::Ok(e) } else { Out::Err }) { c.hit(format!("writer function {} with {} bytes gives {}", ["write_utf8_string", "write_utf8_str", "write_binary", "write_binary_ref"][k], n, match g { Out::Ok(b) => hex(&b), x => dbg(&x) })); return; }
            }
        }
    }
}
fn s18(c: &mut Ctx) {
    let ver = encver(c);
    let t = *c.g.r.pick(&[1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15]);
    let mut p = c.g.packet(t, ver, 0);
    if let MqttPacket::Connect(x) = &mut p { if matches!(ver, 3..=5) { x.protocol_version = ver; } }
    let k = c.g.r.below(14);
    let n = *c.g.r.pick(&[65535usize, 65536, 65534, 65537, 65538, 66000, 131072, 32768, 16384]);
    let s = "s".repeat(n);
    let what = set_string(&mut p, k, &s);
    if c.g.r.one_in(3) { set_string(&mut p, 0, "x"); }
    fits(c, &p, ver, what.unwrap_or("packet"));
}

// ---------------------------------------------------------------- C19

fn conn(name: &[u8], v: u8, f: u8, will: bool, user: bool, pass: bool) -> Vec<u8> {
    let mut b = vec![];
    b.extend((name.len() as u16).to_be_bytes());
    b.extend(name);
    b.extend([v, f, 0, 10]);
    if v % 128 == 5 { b.push(0); }
    b.extend([0, 2, b'i', b'd']);
    if will { if v % 128 == 5 { b.push(0); } b.extend([0, 1, b't', 0, 2, b'm', b'm']); }
    if user { b.extend([0, 1, b'u']); }
    if pass { b.extend([0, 1, b'p']); }
    b
}
fn f19(c: &mut Ctx, i: usize) {
    if i < 256 {
        let f = i as u8;
        let g = guard(|| ConnectFlags::from_byte(f));
        let ok = f & 1 == 0 && (f >> 3) & 3 != 3 && (f & 4 != 0 || f & 0x38 == 0);
        c.n += 1;
        let good = match &g { Out::Ok((x, _)) => ok && x.user_name == (f & 128 != 0) && x.password == (f & 64 != 0) && x.will_retain == (f & 32 != 0) && x.will_qos == (f >> 3) & 3 && x.will == (f & 4 != 0) && x.clean_session == (f & 2 != 0), Out::Err => !ok, _ => false };
        if !good { c.hit(format!("ConnectFlags::from_byte({:#010b}) gives {}", f, match g { Out::Ok((x, _)) => format!("user_name {} password {} will_retain {} will_qos {} will {} clean_session {}", x.user_name, x.password, x.will_retain, x.will_qos, x.will, x.clean_session), Out::Err => "an error".into(), Out::Panic(m) => m })); return; }
        for name in [&b"MQTT"[..], b"MQIsdp"] { for v in [3u8, 4, 5, 0x83, 0x84, 0x85] { for ver in [3u8, 4, 5] {
            let b = conn(name, v, f, f & 4 != 0, f & 128 != 0, f & 64 != 0);
            if !diff(c, 0x10, &b, ver) { return; }
            for j in 0..8u8 { let b = conn(name, v, f, j & 1 != 0, j & 2 != 0, j & 4 != 0); if !diff(c, 0x10, &b, ver) { return; } }
        } } }
    } else if i < 512 {
        let v = (i - 256) as u8;
        for name in [&b"MQTT"[..], b"MQIsdp"] { for f in [0u8, 2, 6, 0xC2, 0xC6, 4, 0x2E] { for ver in [3u8, 4, 5] { let b = conn(name, v, f, f & 4 != 0, f & 128 != 0, f & 64 != 0); if !diff(c, 0x10, &b, ver) { return; } } } }
    } else {
        let k = (i - 512) as u8;
        for name in [&b"MQTT"[..], b"MQIsdp"] { for pos in 0..name.len() {
            let mut n = name.to_vec();
            n[pos] = k;
            if !diff(c, 0x10, &conn(&n, 4, 2, false, false, false), 4) { return; }
        }
            let mut n = name.to_vec();
            n.push(k);
            if !diff(c, 0x10, &conn(&n, 4, 2, false, false, false), 4) { return; }
            n.truncate(k as usize % n.len());
            if !diff(c, 0x10, &conn(&n, 4, 2, false, false, false), 4) { return; }
        }
    }
}
fn s19(c: &mut Ctx) {
    let ver = c.g.ver();
    let (f, b) = c.g.raw_frame_t(1, ver);
    let (w, why, _) = decode(f, &b, ver);
    if w.is_some() || matches!(why, "proto" | "version" | "cflags") { diff(c, f, &b, ver); }
}

// ---------------------------------------------------------------- C20

fn f20(c: &mut Ctx, i: usize) {
    if i >= 6 { lists(c, i - 6, true); return; }
    let ver = [3u8, 4, 5][i % 3];
    for o in 0..=255u8 { for pos in 0..3 {
        let mut b = vec![1u8, 2];
        if ver == 5 { if i < 3 { b.push(0) } else { b.extend([2, 0x0B, 9]) } } else if i >= 3 { return; }
        for j in 0..pos + 1 + (o as usize % 2) { b.extend([0, 1, b'a' + j as u8, if j == pos { o } else { 1 }]); }
        if !diff(c, 0x82, &b, ver) { return; }
    } }
    for q in T_QOS { for f in 0..4u8 { for rh in [None, Some(0u8), Some(1), Some(2)] { for n in 1..4 { for pos in 0..n {
        let s = Subscription { topic: "z".into(), qos: q.1.clone(), nl: f & 1 == 1, rap: f & 2 == 2, rh };
        let mut subscriptions = vec![Subscription { topic: "z".into(), qos: QoS::QoS0, nl: false, rap: false, rh: Some(0) }; n];
        subscriptions[pos] = s;
        let p = MqttPacket::Subscribe(SubscribePacket { qos: 1, subscriptions, properties: None, message_id: 3 });
        if refuse(&p, ver).is_empty() { roundtrip(c, &p, ver); }
    } } } } }
}
fn s20(c: &mut Ctx) {
    let ver = c.g.ver();
    let (f, b) = c.g.raw_frame_t(8, ver);
    let (w, why, _) = decode(f, &b, ver);
    if w.is_some() || why == "opts" { if !diff(c, f, &b, ver) { return; } }
    let p = c.g.packet(8, ver, 0);
    if refuse(&p, ver).is_empty() { roundtrip(c, &p, ver); }
}

// ---------------------------------------------------------------- C21

fn rd<T>(w: &[u8], f: impl FnOnce(&mut ByteReader<&[u8]>) -> Result<T, String>) -> (Out<T>, Option<Vec<u8>>) {
    let mut r = ByteReader::new(BufReader::with_capacity(7, w));
    let g = guard(|| f(&mut r));
    let mut rest = vec![];
    if let Out::Ok(_) = g { while let Ok(b) = r.read_u8() { rest.push(b); } }
    (g, Some(rest))
}
fn prim(c: &mut Ctx, w: &[u8]) -> bool {
    macro_rules! cmp { ($what:expr, $f:expr, $m:ident) => {{
        c.n += 1;
        let (g, rest) = rd(w, $f);
        let mut p = P::new(w);
        let e = match p.$m() { Some(v) => Out::Ok(v), None => Out::Err };
        if g != e || (matches!(e, Out::Ok(_)) && rest.as_deref() != Some(p.w)) { c.hit(format!("{} of {} gives {}, expected {}", $what, hex(w), dbg(&g), dbg(&e))); return false; }
    }} }
    cmp!("read_u8", |r| r.read_u8(), u8);
    cmp!("read_u16", |r| r.read_u16(), u16);
    cmp!("read_u32", |r| r.read_u32(), u32);
    cmp!("read_utf8_string", |r| r.read_utf8_string(), str);
    cmp!("read_binary", |r| r.read_binary(), bin);
    c.n += 1;
    let (g, _) = rd(w, |r| r.read_bool_byte());
    if g != (match w.first() { Some(b) => Out::Ok(*b != 0), None => Out::Err }) { c.hit(format!("read_bool_byte of {} gives {:?}", hex(w), g)); return false; }
    true
}
fn wr(f: impl FnOnce(&mut MqttWriter) -> Result<(), String>) -> Out<Vec<u8>> { guard(|| { let mut w = MqttWriter::new(3); w.write_u8(0xAA); f(&mut w)?; Ok(w.into_vec()) }) }
fn wprim(c: &mut Ctx, n: u64, s: &str, b: &[u8]) -> bool {
    let mut bad = |what: &str, g: Out<Vec<u8>>, e: Vec<u8>| -> bool {
        c.n += 1;
        let mut x = vec![0xAA];
        x.extend(e);
        if g != Out::Ok(x.clone()) { c.hit(format!("{} with {} / {} bytes gives {}, expected {}", what, n, s.len().max(b.len()), match &g { Out::Ok(b) => hex(b), y => dbg(y) }, hex(&x))); true } else { false }
    };
    let l16 = |v: &[u8]| { let mut x = (v.len() as u16).to_be_bytes().to_vec(); x.extend(v); x };
    if bad("write_u16", wr(|w| { w.write_u16(n as u16); Ok(()) }), (n as u16).to_be_bytes().to_vec()) { return false; }
    if bad("write_u32", wr(|w| { w.write_u32(n as u32); Ok(()) }), (n as u32).to_be_bytes().to_vec()) { return false; }
    if bad("write_u8", wr(|w| { w.write_u8(n as u8); Ok(()) }), vec![n as u8]) { return false; }
    if s.len() <= 65535 {
        if bad("write_utf8_string", wr(|w| w.write_utf8_string(s.to_string())), l16(s.as_bytes())) { return false; }
        if bad("write_utf8_str", wr(|w| w.write_utf8_str(s)), l16(s.as_bytes())) { return false; }
    }
    if b.len() <= 65535 {
        if bad("write_binary", wr(|w| w.write_binary(b.to_vec())), l16(b)) { return false; }
        if bad("write_binary_ref", wr(|w| w.write_binary_ref(b)), l16(b)) { return false; }
    }
    if bad("write_vec", wr(|w| { w.write_vec(b.to_vec()); Ok(()) }), b.to_vec()) { return false; }
    if bad("write_slice", wr(|w| { w.write_slice(b); Ok(()) }), b.to_vec()) { return false; }
    true
}
fn f21(c: &mut Ctx, i: usize) {
    if i < 8 {
        for n in (0..8192u32).map(|k| k * 8 + i as u32) {
            let w = (n as u16).to_be_bytes();
            if !prim(c, &w) { return; }
            if !wprim(c, n as u64, "", &[]) { return; }
            if !prim(c, &[0, 2, w[0], w[1], 7]) { return; }
            if !prim(c, &[0, 3, 0xE0 | w[0] & 0x1f, w[0], w[1]]) { return; }
            if !prim(c, &[0, 4, 0xF0 | w[0] & 0x0f, w[1], 0x80 | w[0], 0x80 | w[1], 1]) { return; }
        }
    } else {
        for n in [0usize, 1, 2, 126, 127, 128, 255, 256, 257, 8190, 8191, 8192, 8193, 16384, 32767, 32768, 65534, 65535] {
            let b: Vec<u8> = (0..n).map(|i| 32 + (i % 90) as u8).collect();
            let s = String::from_utf8(b.clone()).unwrap();
            if !wprim(c, n as u64, &s, &b) { return; }
            let mut w = (n as u16).to_be_bytes().to_vec();
            w.extend(&b);
            if !prim(c, &w) { return; }
            w.push(9);
            if !prim(c, &w) { return; }
            w.truncate(1 + n);
            if !prim(c, &w) { return; }
        }
    }
}
fn s21(c: &mut Ctx) {
    let mut w = vec![];
    let s = c.g.string();
    w.extend((s.len() as u16).to_be_bytes());
    w.extend(s.bytes());
    if c.g.r.one_in(3) { c.g.mutate(&mut w); }
    if c.g.r.one_in(6) { let n = c.g.r.below(8); w = (0..n).map(|_| c.g.r.next() as u8).collect(); }
    if !prim(c, &w) { return; }
    let b = c.g.bytes();
    w.clear();
    w.extend((b.len() as u16).to_be_bytes());
    w.extend(&b);
    if c.g.r.bit() { w.push(1); }
    if !prim(c, &w) { return; }
    let n = c.g.num(u64::MAX);
    wprim(c, n, &s, &b);
    // inside of packets
    let ver = c.g.ver();
    let (f, b) = c.g.raw_frame(ver);
    let (w, why, _) = decode(f, &b, ver);
    if why == "utf8" || w.is_some() { diff(c, f, &b, ver); }
}
