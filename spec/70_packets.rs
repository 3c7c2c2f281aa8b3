pub use crate::connect::ConnectFlags;
pub use crate::packet::MqttPacket;
// ======================================================================
// Packets: what their bytes mean
// ======================================================================

/// a whole frame
pub open spec fn frame(first: int, body: Seq<u8>) -> Seq<u8> { seq![first as u8] + e_var(body.len() as int) + body }

/// a frame delimits itself, whatever follows it
pub proof fn lemma_frame(first: int, body: Seq<u8>, tail: Seq<u8>)
    requires 0 <= first < 256, body.len() <= MAXVAR,
    ensures p_frame(frame(first, body) + tail) == Some(Frame { first: first as u8, body, tail })
{
    let w = frame(first, body) + tail;
    let n = body.len() as int;
    assert(rest(w, 1) =~= e_var(n) + (body + tail));
    lemma_pvar(n, body + tail);
    lemma_plen(body, tail);
}

// ------------------------------------------------------------ pieces

pub open spec fn opv<P: Properties>(o: Option<P>) -> Option<P::V> { match o { Some(p) => Some(p.v()), None => None } }

pub open spec fn p_mid(w: Seq<u8>, there: bool) -> Option<(Option<u16>, Seq<u8>)> {
    if there { match p_u16(w) { Some((n, r)) => Some((Some(n), r)), None => None } } else { Some((None, w)) }
}
pub open spec fn p_ostr(w: Seq<u8>, there: bool) -> Option<(Option<Seq<u8>>, Seq<u8>)> {
    if there { match p_str(w) { Some((s, r)) => Some((Some(s), r)), None => None } } else { Some((None, w)) }
}
pub open spec fn e_opt16(o: Option<u16>) -> Seq<u8> { match o { Some(n) => e16(n as int), None => Seq::empty() } }
pub open spec fn e_ostr(o: Option<Seq<u8>>) -> Seq<u8> { match o { Some(s) => e_str(s), None => Seq::empty() } }
pub open spec fn fit(s: Seq<u8>) -> bool { s.len() <= 65535 }
pub open spec fn ofit(o: Option<Seq<u8>>) -> bool { o matches Some(s) ==> s.len() <= 65535 }

pub proof fn lemma_mid(o: Option<u16>, w: Seq<u8>)
    ensures p_mid(e_opt16(o) + w, o is Some) == Some((o, w))
{
    match o { Some(n) => lemma_p16(n as int, w), None => { assert(e_opt16(o) + w =~= w); } }
}
pub proof fn lemma_ostr(o: Option<Seq<u8>>, w: Seq<u8>)
    requires o matches Some(s) ==> str_ok(s),
    ensures p_ostr(e_ostr(o) + w, o is Some) == Some((o, w))
{
    match o { Some(s) => lemma_pstr(s, w), None => { assert(e_ostr(o) + w =~= w); } }
}

// ------------------------------------------------------------ PUBLISH

pub struct PublishPk { pub dup: bool, pub qos: u8, pub retain: bool, pub topic: Seq<u8>, pub message_id: Option<u16>, pub payload: Seq<u8>, pub props: Option<PublishV> }

pub open spec fn d_publish(h: FixedHeader, w: Seq<u8>, ver: u8) -> Option<PublishPk> {
    match p_str(w) {
        None => None,
        Some((topic, w1)) => match p_mid(w1, h.qos > 0) {
            None => None,
            Some((message_id, w2)) => match p_publish(w2, ver) {
                None => None,
                Some((props, payload)) => Some(PublishPk { dup: h.dup, qos: h.qos, retain: h.retain, topic, message_id, payload, props }),
            },
        },
    }
}
/// can be encoded
pub open spec fn ok_publish(p: PublishPk, ver: u8) -> bool {
    &&& 0 < p.topic.len() <= 65535
    &&& p.qos <= 2
    &&& p.qos > 0 ==> p.message_id is Some
    &&& publish_can(p.props, ver)
}
pub open spec fn b_publish(p: PublishPk, blk: Seq<u8>) -> Seq<u8> {
    e_str(p.topic) + e_opt16(if p.qos > 0 { p.message_id } else { None }) + blk + p.payload
}
/// b encodes p
pub open spec fn enc_publish(p: PublishPk, ver: u8, b: Seq<u8>) -> bool {
    exists|blk: Seq<u8>| #[trigger] publish_blk(p.props, ver, blk) && b_publish(p, blk).len() <= MAXVAR && b =~= frame(first_byte(PacketType::Publish, p.dup, p.qos, p.retain), b_publish(p, blk))
}
pub open spec fn big_publish(p: PublishPk, ver: u8) -> bool {
    exists|blk: Seq<u8>| #[trigger] publish_blk(p.props, ver, blk) && b_publish(p, blk).len() > MAXVAR
}

// ------------------------------------------------------------ CONNECT

pub struct WillPk { pub topic: Option<Seq<u8>>, pub payload: Option<Seq<u8>>, pub qos: u8, pub retain: bool, pub props: Option<WillV> }
pub struct ConnectPk { pub client_id: Seq<u8>, pub version: u8, pub proto: Protocol, pub clean: bool, pub keep_alive: u16,
    pub user: Option<Seq<u8>>, pub pass: Option<Seq<u8>>, pub will: Option<WillPk>, pub props: Option<ConnectV> }

pub open spec fn v_will(w: LastWill) -> WillPk { WillPk { topic: osb(w.topic), payload: osb(w.payload), qos: w.qos, retain: w.retain, props: opv(w.properties) } }
pub open spec fn v_connect(p: ConnectPacket) -> ConnectPk {
    ConnectPk { client_id: sb(p.client_id@), version: p.protocol_version, proto: p.protocol_id, clean: p.clean_session, keep_alive: p.keep_alive,
        user: osb(p.user_name), pass: osb(p.password), will: match p.will { Some(w) => Some(v_will(w)), None => None }, props: opv(p.properties) }
}
pub open spec fn cflags_ok(b: u8) -> bool {
    &&& b % 2 == 0
    &&& (b / 4) % 2 == 0 ==> (b / 32) % 2 == 0 && (b / 8) % 4 == 0
    &&& (b / 8) % 4 <= 2
}
pub open spec fn cflags(b: u8) -> ConnectFlags {
    ConnectFlags { user_name: b >= 128, password: (b / 64) % 2 == 1, will_retain: (b / 32) % 2 == 1, will_qos: (b / 8) % 4, will: (b / 4) % 2 == 1, clean_session: (b / 2) % 2 == 1 }
}
/// the will, without its flag nothing at all
pub open spec fn p_wl(w: Seq<u8>, f: ConnectFlags, ver: u8) -> Option<(Option<WillPk>, Seq<u8>)> {
    if f.will {
        match p_will(w, ver) {
            None => None,
            Some((props, w1)) => match p_str(w1) {
                None => None,
                Some((t, w2)) => match p_str(w2) {
                    None => None,
                    Some((p, w3)) => Some((Some(WillPk { topic: Some(t), payload: Some(p), qos: f.will_qos, retain: f.will_retain, props }), w3)),
                },
            },
        }
    } else { Some((None, w)) }
}
/// keep alive and everything that follows it
pub open spec fn d_connect2(proto: Protocol, ver: u8, f: ConnectFlags, w: Seq<u8>) -> Option<ConnectPk> {
    match p_u16(w) {
        None => None,
        Some((keep_alive, w1)) => match p_connect(w1, ver) {
            None => None,
            Some((props, w2)) => match p_str(w2) {
                None => None,
                Some((client_id, w3)) => match p_wl(w3, f, ver) {
                    None => None,
                    Some((will, w4)) => match p_ostr(w4, f.user_name) {
                        None => None,
                        Some((user, w5)) => match p_ostr(w5, f.password) {
                            None => None,
                            Some((pass, w6)) => Some(ConnectPk { client_id, version: ver, proto, clean: f.clean_session, keep_alive, user, pass, will, props }),
                        },
                    },
                },
            },
        },
    }
}
pub open spec fn d_connect(w: Seq<u8>) -> Option<ConnectPk> {
    match p_str(w) {
        None => None,
        Some((name, w1)) => match proto_of(name) {
            None => None,
            Some(proto) => match p_u8(w1) {
                None => None,
                Some((v, w2)) => {
                    // the highest bit marks a bridge
                    let ver = (if v >= 128 { v - 128 } else { v as int }) as u8;
                    match p_u8(w2) {
                        None => None,
                        Some((flags, w3)) => if 3 <= ver <= 5 && cflags_ok(flags) { d_connect2(proto, ver, cflags(flags), w3) } else { None },
                    }
                },
            },
        },
    }
}
pub proof fn lemma_names()
    ensures proto_name(Protocol::Mqtt).len() == 4, proto_name(Protocol::MQIsdp).len() == 6,
{}
pub open spec fn ok_will(w: WillPk, ver: u8) -> bool {
    &&& w.topic matches Some(t) && 0 < t.len() <= 65535
    &&& w.qos <= 2
    &&& ofit(w.payload)
    &&& will_can(w.props, ver)
}
pub open spec fn ok_connect(p: ConnectPk) -> bool {
    &&& 3 <= p.version <= 5
    &&& fit(p.client_id)
    &&& p.client_id.len() == 0 ==> p.version >= 4 && p.clean
    &&& p.will matches Some(w) ==> ok_will(w, p.version)
    &&& ofit(p.user) && ofit(p.pass)
    &&& p.pass is Some ==> p.user is Some
    &&& connect_can(p.props, p.version)
}
pub open spec fn flag(b: bool, n: int) -> int { if b { n } else { 0 } }
pub open spec fn e_cflags(p: ConnectPk) -> int {
    flag(p.user is Some, 128) + flag(p.pass is Some, 64)
    + (match p.will { Some(w) => flag(w.retain, 32) + 8 * w.qos + 4, None => 0 })
    + flag(p.clean, 2)
}
pub open spec fn e_will(w: Option<WillPk>, blk: Seq<u8>) -> Seq<u8> {
    match w {
        Some(w) => blk + e_str(match w.topic { Some(t) => t, None => Seq::empty() }) + e_str(match w.payload { Some(t) => t, None => Seq::empty() }),
        None => Seq::empty(),
    }
}
pub open spec fn wblk(w: Option<WillPk>, ver: u8, b: Seq<u8>) -> bool {
    match w { Some(w) => will_blk(w.props, ver, b), None => b.len() == 0 }
}
pub proof fn lemma_will_blk0(o: Option<WillV>, ver: u8)
    ensures ver != 5 ==> will_blk(o, ver, Seq::empty())
{}
pub open spec fn b_connect(p: ConnectPk, blk: Seq<u8>, wb: Seq<u8>) -> Seq<u8> {
    e_str(proto_name(p.proto)) + seq![p.version] + seq![e_cflags(p) as u8] + e16(p.keep_alive as int) + blk + e_str(p.client_id)
        + e_will(p.will, wb) + e_ostr(p.user) + e_ostr(p.pass)
}
pub open spec fn enc_connect(p: ConnectPk, b: Seq<u8>) -> bool {
    exists|blk: Seq<u8>, wb: Seq<u8>| #[trigger] connect_blk(p.props, p.version, blk) && #[trigger] wblk(p.will, p.version, wb)
        && b_connect(p, blk, wb).len() <= MAXVAR && b =~= frame(16, b_connect(p, blk, wb))
}
pub open spec fn big_connect(p: ConnectPk) -> bool {
    exists|blk: Seq<u8>, wb: Seq<u8>| #[trigger] connect_blk(p.props, p.version, blk) && #[trigger] wblk(p.will, p.version, wb) && b_connect(p, blk, wb).len() > MAXVAR
}

/// what a packet that can be encoded looks like, one condition at a time
pub proof fn lemma_ok_connect(p: ConnectPk)
    ensures
        ok_connect(p) ==> 3 <= p.version <= 5,
        ok_connect(p) ==> p.client_id.len() <= 65535,
        ok_connect(p) && p.client_id.len() == 0 ==> p.version >= 4 && p.clean,
        ok_connect(p) && p.will is Some ==> p.will->0.topic is Some && 0 < p.will->0.topic->0.len() <= 65535,
        ok_connect(p) && p.will is Some ==> p.will->0.qos <= 2 && will_can(p.will->0.props, p.version),
        ok_connect(p) && p.will is Some && p.will->0.payload is Some ==> p.will->0.payload->0.len() <= 65535,
        ok_connect(p) && p.user is Some ==> p.user->0.len() <= 65535,
        ok_connect(p) && p.pass is Some ==> p.user is Some && p.pass->0.len() <= 65535,
        ok_connect(p) ==> connect_can(p.props, p.version),
        (3 <= p.version <= 5 && p.client_id.len() <= 65535 && (p.client_id.len() == 0 ==> p.version >= 4 && p.clean)
            && (p.will is Some ==> p.will->0.topic is Some && 0 < p.will->0.topic->0.len() <= 65535 && p.will->0.qos <= 2
                && will_can(p.will->0.props, p.version) && (p.will->0.payload is Some ==> p.will->0.payload->0.len() <= 65535))
            && (p.user is Some ==> p.user->0.len() <= 65535)
            && (p.pass is Some ==> p.user is Some && p.pass->0.len() <= 65535)
            && connect_can(p.props, p.version)) ==> ok_connect(p),
{}
pub proof fn lemma_b_connect(p: ConnectPk, blk: Seq<u8>, wb: Seq<u8>)
    ensures b_connect(p, blk, wb).len() == 2 + proto_name(p.proto).len() + 4 + blk.len() + 2 + p.client_id.len()
        + (match p.will { Some(w) => wb.len() + 4 + (match w.topic { Some(t) => t.len(), None => 0 }) + (match w.payload { Some(t) => t.len(), None => 0 }), None => 0 })
        + (match p.user { Some(t) => 2 + t.len(), None => 0 }) + (match p.pass { Some(t) => 2 + t.len(), None => 0 }),
{}

// ------------------------------------------------------------ CONNACK

pub struct ConnackPk { pub return_code: Option<u8>, pub reason_code: Option<u8>, pub session_present: bool, pub props: Option<ConnackV> }

pub open spec fn d_connack(w: Seq<u8>, ver: u8) -> Option<ConnackPk> {
    match p_u8(w) {
        None => None,
        Some((flags, w1)) => if flags > 1 { None } else if ver == 5 {
            // the reason code may be missing
            let (code, w2) = match p_u8(w1) { Some((c, w2)) => (c, w2), None => (0u8, w1) };
            if w2.len() == 0 { Some(ConnackPk { return_code: None, reason_code: Some(code), session_present: flags == 1, props: None }) } else {
                match p_connack(w2, ver) {
                    None => None,
                    Some((props, _)) => Some(ConnackPk { return_code: None, reason_code: Some(code), session_present: flags == 1, props }),
                }
            }
        } else {
            match p_u8(w1) {
                None => None,
                Some((c, _)) => Some(ConnackPk { return_code: Some(c), reason_code: None, session_present: flags == 1, props: None }),
            }
        },
    }
}
pub open spec fn cc(p: ConnackPk, ver: u8) -> Option<u8> { if ver == 5 { p.reason_code } else { p.return_code } }
pub open spec fn ok_connack(p: ConnackPk, ver: u8) -> bool { cc(p, ver) is Some && connack_can(p.props, ver) }
pub open spec fn b_connack(p: ConnackPk, ver: u8, blk: Seq<u8>) -> Seq<u8> { seq![flag(p.session_present, 1) as u8] + seq![cc(p, ver)->0] + blk }
pub open spec fn enc_connack(p: ConnackPk, ver: u8, b: Seq<u8>) -> bool {
    exists|blk: Seq<u8>| #[trigger] connack_blk(p.props, ver, blk) && b_connack(p, ver, blk).len() <= MAXVAR && b =~= frame(32, b_connack(p, ver, blk))
}
pub open spec fn big_connack(p: ConnackPk, ver: u8) -> bool {
    exists|blk: Seq<u8>| #[trigger] connack_blk(p.props, ver, blk) && b_connack(p, ver, blk).len() > MAXVAR
}

// ------------------------------------------------------------ DISCONNECT

pub struct DisconnectPk { pub reason_code: Option<DisconnectCode>, pub props: Option<DisconnectV> }

pub open spec fn d_disconnect(w: Seq<u8>, ver: u8) -> Option<DisconnectPk> {
    if ver != 5 { Some(DisconnectPk { reason_code: None, props: None }) }
    else {
        // the reason code and the property length may be missing
        let (code, w1) = match p_u8(w) { Some((c, w1)) => (c, w1), None => (0u8, w) };
        match tab_DisconnectCode(code) {
            None => None,
            Some(c) => if w1.len() == 0 { Some(DisconnectPk { reason_code: Some(c), props: None }) } else {
                match p_disconnect(w1, ver) {
                    None => None,
                    Some((props, _)) => Some(DisconnectPk { reason_code: Some(c), props }),
                }
            },
        }
    }
}
pub open spec fn ok_disconnect(p: DisconnectPk, ver: u8) -> bool { disconnect_can(p.props, ver) }
pub open spec fn b_disconnect(p: DisconnectPk, ver: u8, blk: Seq<u8>) -> Seq<u8> {
    (if ver == 5 { seq![match p.reason_code { Some(c) => byte_DisconnectCode(c), None => 0 }] } else { Seq::empty() }) + blk
}
pub open spec fn enc_disconnect(p: DisconnectPk, ver: u8, b: Seq<u8>) -> bool {
    exists|blk: Seq<u8>| #[trigger] disconnect_blk(p.props, ver, blk) && b_disconnect(p, ver, blk).len() <= MAXVAR && b =~= frame(224, b_disconnect(p, ver, blk))
}
pub open spec fn big_disconnect(p: DisconnectPk, ver: u8) -> bool {
    exists|blk: Seq<u8>| #[trigger] disconnect_blk(p.props, ver, blk) && b_disconnect(p, ver, blk).len() > MAXVAR
}

// ------------------------------------------------------------ AUTH

pub struct AuthPk { pub reason_code: AuthCode, pub props: Option<AuthV> }

pub open spec fn d_auth(w: Seq<u8>, ver: u8) -> Option<AuthPk> {
    if ver != 5 { None }
    else {
        match p_u8(w) {
            None => Some(AuthPk { reason_code: AuthCode::Success, props: None }),
            Some((c, w1)) => match tab_AuthCode(c) {
                None => None,
                Some(reason_code) => match p_auth(w1, ver) {
                    None => None,
                    Some((props, _)) => Some(AuthPk { reason_code, props }),
                },
            },
        }
    }
}
pub open spec fn ok_auth(p: AuthPk, ver: u8) -> bool { ver == 5 && auth_can(p.props, ver) }
pub open spec fn b_auth(p: AuthPk, blk: Seq<u8>) -> Seq<u8> { seq![byte_AuthCode(p.reason_code)] + blk }
pub open spec fn enc_auth(p: AuthPk, ver: u8, b: Seq<u8>) -> bool {
    exists|blk: Seq<u8>| #[trigger] auth_blk(p.props, ver, blk) && b_auth(p, blk).len() <= MAXVAR && b =~= frame(240, b_auth(p, blk))
}
pub open spec fn big_auth(p: AuthPk, ver: u8) -> bool {
    exists|blk: Seq<u8>| #[trigger] auth_blk(p.props, ver, blk) && b_auth(p, blk).len() > MAXVAR
}

// ------------------------------------------------------------ PUBACK, PUBREC, PUBREL, PUBCOMP

pub struct ConfirmPk { pub cmd: PacketType, pub message_id: u16, pub puback: Option<PubackPubrecCode>, pub pubcomp: Option<PubcompPubrelCode>, pub props: Option<ConfirmationV> }

pub open spec fn ack(t: PacketType) -> bool { t == PacketType::Puback || t == PacketType::Pubrec }
pub open spec fn rel(t: PacketType) -> bool { t == PacketType::Pubrel || t == PacketType::Pubcomp }

pub open spec fn d_confirm(h: FixedHeader, w: Seq<u8>, ver: u8) -> Option<ConfirmPk> {
    match p_u16(w) {
        None => None,
        Some((message_id, w1)) => if ver != 5 { Some(ConfirmPk { cmd: h.cmd, message_id, puback: None, pubcomp: None, props: None }) } else {
            // the reason code and the property length may be missing
            let (code, w2) = match p_u8(w1) { Some((c, w2)) => (c, w2), None => (0u8, w1) };
            let puback = if ack(h.cmd) { tab_PubackPubrecCode(code) } else { None };
            let pubcomp = if rel(h.cmd) { tab_PubcompPubrelCode(code) } else { None };
            if puback is None && pubcomp is None { None }
            else if w2.len() == 0 { Some(ConfirmPk { cmd: h.cmd, message_id, puback, pubcomp, props: None }) }
            else {
                match p_confirmation(w2, ver) {
                    None => None,
                    Some((props, _)) => Some(ConfirmPk { cmd: h.cmd, message_id, puback, pubcomp, props }),
                }
            }
        },
    }
}
pub open spec fn ok_confirm(p: ConfirmPk, ver: u8) -> bool {
    ver == 5 ==> ((ack(p.cmd) && p.puback is Some && p.pubcomp is None) || (rel(p.cmd) && p.puback is None && p.pubcomp is Some)) && confirmation_can(p.props, ver)
}
pub open spec fn ccode(p: ConfirmPk) -> u8 { match p.puback { Some(c) => byte_PubackPubrecCode(c), None => match p.pubcomp { Some(c) => byte_PubcompPubrelCode(c), None => 0 } } }
pub open spec fn b_confirm(p: ConfirmPk, ver: u8, blk: Seq<u8>) -> Seq<u8> {
    // success without properties is left out
    e16(p.message_id as int) + (if ver != 5 || (ccode(p) == 0 && blk.len() == 1) { Seq::empty() } else { seq![ccode(p)] + blk })
}
pub open spec fn enc_confirm(p: ConfirmPk, ver: u8, b: Seq<u8>) -> bool {
    exists|blk: Seq<u8>| #[trigger] confirmation_blk(p.props, ver, blk) && b_confirm(p, ver, blk).len() <= MAXVAR && b =~= frame(first_byte(p.cmd, false, 0, false), b_confirm(p, ver, blk))
}
pub open spec fn big_confirm(p: ConfirmPk, ver: u8) -> bool {
    exists|blk: Seq<u8>| #[trigger] confirmation_blk(p.props, ver, blk) && b_confirm(p, ver, blk).len() > MAXVAR
}

pub proof fn lemma_confirm_blk(o: Option<ConfirmationV>, b: Seq<u8>)
    requires confirmation_blk(o, 5, b),
    ensures b.len() > 0
{
    hide(confirmation_of);
    let ps = choose|ps: Seq<(u8, PV)>| b == #[trigger] e_block(ps) && pwritten(ps) && confirmation_known(bagof(ps)) && confirmation_of(bagof(ps)) == confirmation_norm(confirmation_val(o));
    lemma_eblock_len(ps);
}

// ------------------------------------------------------------ SUBACK, UNSUBACK

pub struct SubackPk { pub message_id: u16, pub props: Option<ConfirmationV>, pub codes: Seq<SubscriptionReasonCode>, pub granted: Seq<Granted> }

pub open spec fn all_src(w: Seq<u8>) -> bool { forall|i: int| 0 <= i < w.len() ==> tab_SubscriptionReasonCode(#[trigger] w[i]) is Some }
pub open spec fn all_granted(w: Seq<u8>) -> bool { forall|i: int| 0 <= i < w.len() ==> tab_Granted(#[trigger] w[i]) is Some }
pub open spec fn all_unsub(w: Seq<u8>) -> bool { forall|i: int| 0 <= i < w.len() ==> tab_UnsubackCode(#[trigger] w[i]) is Some }
pub open spec fn src_of(w: Seq<u8>) -> Seq<SubscriptionReasonCode> { Seq::new(w.len(), |i: int| tab_SubscriptionReasonCode(w[i])->0) }
pub open spec fn granted_of(w: Seq<u8>) -> Seq<Granted> { Seq::new(w.len(), |i: int| tab_Granted(w[i])->0) }
pub open spec fn unsub_of(w: Seq<u8>) -> Seq<UnsubackCode> { Seq::new(w.len(), |i: int| tab_UnsubackCode(w[i])->0) }
pub open spec fn e_src(s: Seq<SubscriptionReasonCode>) -> Seq<u8> { Seq::new(s.len(), |i: int| byte_SubscriptionReasonCode(s[i])) }
pub open spec fn e_granted(s: Seq<Granted>) -> Seq<u8> { Seq::new(s.len(), |i: int| byte_Granted(s[i])) }
pub open spec fn e_unsub(s: Seq<UnsubackCode>) -> Seq<u8> { Seq::new(s.len(), |i: int| byte_UnsubackCode(s[i])) }

/// the codes read so far
pub open spec fn codes_at(w: Seq<u8>, w0: Seq<u8>, n: nat) -> bool { n <= w0.len() && w == rest(w0, n as int) }
pub open spec fn src_upto(w0: Seq<u8>, l: Seq<SubscriptionReasonCode>) -> bool { l.len() <= w0.len() && forall|i: int| 0 <= i < l.len() ==> tab_SubscriptionReasonCode(#[trigger] w0[i]) == Some(l[i]) }
pub open spec fn granted_upto(w0: Seq<u8>, l: Seq<Granted>) -> bool { l.len() <= w0.len() && forall|i: int| 0 <= i < l.len() ==> tab_Granted(#[trigger] w0[i]) == Some(l[i]) }
pub open spec fn unsub_upto(w0: Seq<u8>, l: Seq<UnsubackCode>) -> bool { l.len() <= w0.len() && forall|i: int| 0 <= i < l.len() ==> tab_UnsubackCode(#[trigger] w0[i]) == Some(l[i]) }
pub proof fn lemma_codes_at(w: Seq<u8>, w0: Seq<u8>, n: nat)
    requires codes_at(w, w0, n),
    ensures w.len() > 0 ==> w[0] == w0[n as int] && n < w0.len() && codes_at(rest(w, 1), w0, n + 1), w.len() == 0 ==> n == w0.len()
{
    if w.len() > 0 { assert(rest(w, 1) =~= rest(w0, n as int + 1)); }
}

pub open spec fn d_suback(w: Seq<u8>, ver: u8) -> Option<SubackPk> {
    match p_u16(w) {
        None => None,
        Some((message_id, w1)) => match p_confirmation(w1, ver) {
            None => None,
            Some((props, w2)) => if w2.len() == 0 { None }
                else if ver == 5 { if all_src(w2) { Some(SubackPk { message_id, props, codes: src_of(w2), granted: Seq::empty() }) } else { None } }
                else { if all_granted(w2) { Some(SubackPk { message_id, props, codes: Seq::empty(), granted: granted_of(w2) }) } else { None } },
        },
    }
}
pub open spec fn scodes(p: SubackPk, ver: u8) -> Seq<u8> { if ver == 5 { e_src(p.codes) } else { e_granted(p.granted) } }
pub open spec fn ok_suback(p: SubackPk, ver: u8) -> bool { scodes(p, ver).len() > 0 && confirmation_can(p.props, ver) }
pub open spec fn b_suback(p: SubackPk, ver: u8, blk: Seq<u8>) -> Seq<u8> { e16(p.message_id as int) + blk + scodes(p, ver) }
pub open spec fn enc_suback(p: SubackPk, ver: u8, b: Seq<u8>) -> bool {
    exists|blk: Seq<u8>| #[trigger] confirmation_blk(p.props, ver, blk) && b_suback(p, ver, blk).len() <= MAXVAR && b =~= frame(144, b_suback(p, ver, blk))
}
pub open spec fn big_suback(p: SubackPk, ver: u8) -> bool {
    exists|blk: Seq<u8>| #[trigger] confirmation_blk(p.props, ver, blk) && b_suback(p, ver, blk).len() > MAXVAR
}

pub struct UnsubackPk { pub message_id: u16, pub granted: Seq<UnsubackCode>, pub props: Option<ConfirmationV> }

pub open spec fn d_unsuback(w: Seq<u8>, ver: u8) -> Option<UnsubackPk> {
    match p_u16(w) {
        None => None,
        Some((message_id, w1)) => if ver == 5 {
            match p_confirmation(w1, ver) {
                None => None,
                Some((props, w2)) => if all_unsub(w2) { Some(UnsubackPk { message_id, granted: unsub_of(w2), props }) } else { None },
            }
        } else if (ver == 3 || ver == 4) && w.len() != 2 { None }
        else { Some(UnsubackPk { message_id, granted: Seq::empty(), props: None }) },
    }
}
pub open spec fn ok_unsuback(p: UnsubackPk, ver: u8) -> bool { confirmation_can(p.props, ver) }
pub open spec fn b_unsuback(p: UnsubackPk, ver: u8, blk: Seq<u8>) -> Seq<u8> {
    e16(p.message_id as int) + blk + (if ver == 5 { e_unsub(p.granted) } else { Seq::empty() })
}
pub open spec fn enc_unsuback(p: UnsubackPk, ver: u8, b: Seq<u8>) -> bool {
    exists|blk: Seq<u8>| #[trigger] confirmation_blk(p.props, ver, blk) && b_unsuback(p, ver, blk).len() <= MAXVAR && b =~= frame(176, b_unsuback(p, ver, blk))
}
pub open spec fn big_unsuback(p: UnsubackPk, ver: u8) -> bool {
    exists|blk: Seq<u8>| #[trigger] confirmation_blk(p.props, ver, blk) && b_unsuback(p, ver, blk).len() > MAXVAR
}

// ------------------------------------------------------------ SUBSCRIBE

pub struct SubV { pub topic: Seq<u8>, pub qos: QoS, pub nl: bool, pub rap: bool, pub rh: Option<u8> }
pub struct SubscribePk { pub message_id: u16, pub props: Option<SubscribeV>, pub subs: Seq<SubV> }

pub open spec fn v_sub(s: Subscription) -> SubV { SubV { topic: sb(s.topic@), qos: s.qos, nl: s.nl, rap: s.rap, rh: s.rh } }
pub open spec fn v_subs(l: Seq<Subscription>) -> Seq<SubV> { Seq::new(l.len(), |i: int| v_sub(l[i])) }

/// the options byte
pub open spec fn d_opts(topic: Seq<u8>, o: u8, ver: u8) -> Option<SubV> {
    match tab_QoS(o % 4) {
        None => None,
        Some(qos) => if ver == 5 {
            if o < 64 && (o / 16) % 4 <= 2 { Some(SubV { topic, qos, nl: (o / 4) % 2 == 1, rap: (o / 8) % 2 == 1, rh: Some((o / 16) % 4) }) } else { None }
        } else {
            if o < 4 { Some(SubV { topic, qos, nl: false, rap: false, rh: None }) } else { None }
        },
    }
}
pub open spec fn d_sub(w: Seq<u8>, ver: u8) -> Option<(SubV, Seq<u8>)> {
    match p_str(w) {
        None => None,
        Some((topic, w1)) => match p_u8(w1) {
            None => None,
            Some((o, w2)) => match d_opts(topic, o, ver) { None => None, Some(s) => Some((s, w2)) },
        },
    }
}
pub open spec fn d_subs(w: Seq<u8>, ver: u8) -> Option<Seq<SubV>>
    decreases w.len()
{
    if w.len() == 0 { Some(Seq::empty()) }
    else {
        match d_sub(w, ver) {
            None => None,
            Some((s, r)) => if r.len() < w.len() { match d_subs(r, ver) { Some(l) => Some(seq![s] + l), None => None } } else { None },
        }
    }
}
pub open spec fn d_subscribe(w: Seq<u8>, ver: u8) -> Option<SubscribePk> {
    match p_u16(w) {
        None => None,
        Some((message_id, w1)) => match p_subscribe(w1, ver) {
            None => None,
            Some((props, w2)) => if w2.len() == 0 { None } else {
                match d_subs(w2, ver) { None => None, Some(subs) => Some(SubscribePk { message_id, props, subs }) }
            },
        },
    }
}
pub open spec fn ok_sub(s: SubV, ver: u8) -> bool {
    0 < s.topic.len() <= 65535 && (ver == 5 ==> (s.rh matches Some(n) && n <= 2))
}
pub open spec fn sub_pre(s: SubV, ver: u8) -> bool { s.topic.len() > 0 && (ver == 5 ==> (s.rh matches Some(n) && n <= 2)) }
pub open spec fn opts(s: SubV, ver: u8) -> int {
    byte_QoS(s.qos) + (if ver == 5 { flag(s.nl, 4) + flag(s.rap, 8) + 16 * s.rh->0 } else { 0 })
}
pub open spec fn e_sub(s: SubV, ver: u8) -> Seq<u8> { e_str(s.topic) + seq![opts(s, ver) as u8] }
pub open spec fn e_subs(l: Seq<SubV>, ver: u8) -> Seq<u8>
    decreases l.len()
{ if l.len() == 0 { Seq::empty() } else { e_subs(l.drop_last(), ver) + e_sub(l.last(), ver) } }
pub open spec fn ok_subscribe(p: SubscribePk, ver: u8) -> bool {
    &&& p.subs.len() > 0
    &&& forall|i: int| 0 <= i < p.subs.len() ==> ok_sub(#[trigger] p.subs[i], ver)
    &&& subscribe_can(p.props, ver)
}
pub open spec fn b_subscribe(p: SubscribePk, ver: u8, blk: Seq<u8>) -> Seq<u8> { e16(p.message_id as int) + blk + e_subs(p.subs, ver) }
pub open spec fn enc_subscribe(p: SubscribePk, ver: u8, b: Seq<u8>) -> bool {
    exists|blk: Seq<u8>| #[trigger] subscribe_blk(p.props, ver, blk) && b_subscribe(p, ver, blk).len() <= MAXVAR && b =~= frame(130, b_subscribe(p, ver, blk))
}
pub open spec fn big_subscribe(p: SubscribePk, ver: u8) -> bool {
    exists|blk: Seq<u8>| #[trigger] subscribe_blk(p.props, ver, blk) && b_subscribe(p, ver, blk).len() > MAXVAR
}

pub open spec fn catv<T>(done: Seq<T>, x: Option<Seq<T>>) -> Option<Seq<T>> { match x { Some(l) => Some(done + l), None => None } }
pub proof fn lemma_subs_start(w: Seq<u8>, ver: u8, l: Seq<Subscription>)
    requires l.len() == 0,
    ensures catv(v_subs(l), d_subs(w, ver)) == d_subs(w, ver)
{
    match d_subs(w, ver) { Some(x) => { assert(v_subs(l) + x =~= x); } None => {} }
}
pub proof fn lemma_subs_none(w: Seq<u8>, ver: u8)
    ensures w.len() > 0 && d_sub(w, ver) is None ==> d_subs(w, ver) is None
{}
pub proof fn lemma_subs_step(w: Seq<u8>, r: Seq<u8>, ver: u8, l0: Seq<Subscription>, l: Seq<Subscription>)
    requires l == l0.push(l.last()), d_sub(w, ver) == Some((v_sub(l.last()), r)),
    ensures catv(v_subs(l0), d_subs(w, ver)) == catv(v_subs(l), d_subs(r, ver))
{
    let s = v_sub(l.last());
    assert(l.len() == l0.len() + 1);
    assert(v_subs(l) =~= v_subs(l0).push(s));
    match d_subs(r, ver) { Some(x) => { assert(v_subs(l0) + (seq![s] + x) =~= v_subs(l) + x); } None => {} }
}
pub proof fn lemma_subs_end(w: Seq<u8>, ver: u8, l: Seq<Subscription>)
    requires w.len() == 0,
    ensures catv(v_subs(l), d_subs(w, ver)) == Some(v_subs(l))
{ assert(v_subs(l) + Seq::<SubV>::empty() =~= v_subs(l)); }
pub proof fn lemma_subs_take(l: Seq<SubV>, ver: u8, i: int)
    requires 0 <= i <= l.len(),
    ensures
        i < l.len() ==> e_subs(l.take(i + 1), ver) == e_subs(l.take(i), ver) + e_sub(l[i], ver),
        i == 0 ==> e_subs(l.take(i), ver).len() == 0,
        l.take(l.len() as int) == l,
        e_subs(l.take(i), ver).len() <= e_subs(l, ver).len(),
    decreases l.len() - i
{
    assert(l.take(l.len() as int) =~= l);
    if i < l.len() {
        assert(l.take(i + 1).drop_last() =~= l.take(i));
        lemma_subs_take(l, ver, i + 1);
    }
}
/// Nothing is longer than the address space (assumed).
pub proof fn axiom_mem_subs(v: &Vec<Subscription>, ver: u8)
    ensures e_subs(v_subs(v@), ver).len() < 0x2_0000_0000_0000
{ admit(); }

// ------------------------------------------------------------ UNSUBSCRIBE

pub struct UnsubscribePk { pub message_id: u16, pub props: Option<UnsubscribeV>, pub topics: Seq<Seq<u8>> }

pub open spec fn v_strs(l: Seq<String>) -> Seq<Seq<u8>> { Seq::new(l.len(), |i: int| sb(l[i]@)) }

pub open spec fn d_strs(w: Seq<u8>) -> Option<Seq<Seq<u8>>>
    decreases w.len()
{
    if w.len() == 0 { Some(Seq::empty()) }
    else {
        match p_str(w) {
            None => None,
            Some((s, r)) => if r.len() < w.len() { match d_strs(r) { Some(l) => Some(seq![s] + l), None => None } } else { None },
        }
    }
}
pub open spec fn d_unsubscribe(w: Seq<u8>, ver: u8) -> Option<UnsubscribePk> {
    match p_u16(w) {
        None => None,
        Some((message_id, w1)) => match p_unsubscribe(w1, ver) {
            None => None,
            Some((props, w2)) => if w2.len() == 0 { None } else {
                match d_strs(w2) { None => None, Some(topics) => Some(UnsubscribePk { message_id, props, topics }) }
            },
        },
    }
}
pub open spec fn e_strs(l: Seq<Seq<u8>>) -> Seq<u8>
    decreases l.len()
{ if l.len() == 0 { Seq::empty() } else { e_strs(l.drop_last()) + e_str(l.last()) } }
pub proof fn lemma_strs_start(w: Seq<u8>, l: Seq<String>)
    requires l.len() == 0,
    ensures catv(v_strs(l), d_strs(w)) == d_strs(w)
{
    match d_strs(w) { Some(x) => { assert(v_strs(l) + x =~= x); } None => {} }
}
pub proof fn lemma_strs_none(w: Seq<u8>)
    ensures w.len() > 0 && p_str(w) is None ==> d_strs(w) is None
{}
pub proof fn lemma_strs_step(w: Seq<u8>, r: Seq<u8>, l0: Seq<String>, l: Seq<String>)
    requires l == l0.push(l.last()), p_str(w) == Some((sb(l.last()@), r)),
    ensures catv(v_strs(l0), d_strs(w)) == catv(v_strs(l), d_strs(r))
{
    let s = sb(l.last()@);
    assert(l.len() == l0.len() + 1);
    assert(v_strs(l) =~= v_strs(l0).push(s));
    match d_strs(r) { Some(x) => { assert(v_strs(l0) + (seq![s] + x) =~= v_strs(l) + x); } None => {} }
}
pub proof fn lemma_strs_end(w: Seq<u8>, l: Seq<String>)
    requires w.len() == 0,
    ensures catv(v_strs(l), d_strs(w)) == Some(v_strs(l))
{ assert(v_strs(l) + Seq::<Seq<u8>>::empty() =~= v_strs(l)); }
pub proof fn lemma_strs_take(l: Seq<Seq<u8>>, i: int)
    requires 0 <= i <= l.len(),
    ensures
        i < l.len() ==> e_strs(l.take(i + 1)) == e_strs(l.take(i)) + e_str(l[i]),
        i == 0 ==> e_strs(l.take(i)).len() == 0,
        l.take(l.len() as int) == l,
        e_strs(l.take(i)).len() <= e_strs(l).len(),
    decreases l.len() - i
{
    assert(l.take(l.len() as int) =~= l);
    if i < l.len() {
        assert(l.take(i + 1).drop_last() =~= l.take(i));
        lemma_strs_take(l, i + 1);
    }
}
/// Nothing is longer than the address space (assumed).
pub proof fn axiom_mem_strs(v: &Vec<String>)
    ensures e_strs(v_strs(v@)).len() < 0x2_0000_0000_0000
{ admit(); }

pub open spec fn ok_unsubscribe(p: UnsubscribePk, ver: u8) -> bool {
    &&& p.topics.len() > 0
    &&& forall|i: int| 0 <= i < p.topics.len() ==> (#[trigger] p.topics[i]).len() <= 65535
    &&& unsubscribe_can(p.props, ver)
}
pub open spec fn b_unsubscribe(p: UnsubscribePk, blk: Seq<u8>) -> Seq<u8> { e16(p.message_id as int) + blk + e_strs(p.topics) }
pub open spec fn enc_unsubscribe(p: UnsubscribePk, ver: u8, b: Seq<u8>) -> bool {
    exists|blk: Seq<u8>| #[trigger] unsubscribe_blk(p.props, ver, blk) && b_unsubscribe(p, blk).len() <= MAXVAR && b =~= frame(162, b_unsubscribe(p, blk))
}
pub open spec fn big_unsubscribe(p: UnsubscribePk, ver: u8) -> bool {
    exists|blk: Seq<u8>| #[trigger] unsubscribe_blk(p.props, ver, blk) && b_unsubscribe(p, blk).len() > MAXVAR
}

// ------------------------------------------------------------ any packet

pub enum AnyPk {
    Connect(ConnectPk), Connack(ConnackPk), Subscribe(SubscribePk), Suback(SubackPk), Publish(PublishPk),
    Puback(ConfirmPk), Pubrec(ConfirmPk), Pubrel(ConfirmPk), Pubcomp(ConfirmPk),
    Unsubscribe(UnsubscribePk), Unsuback(UnsubackPk), Pingreq, Pingresp, Disconnect(DisconnectPk), Auth(AuthPk),
}

pub open spec fn v_any(p: MqttPacket) -> AnyPk {
    match p {
        MqttPacket::Connect(p) => AnyPk::Connect(p.pk()),
        MqttPacket::Connack(p) => AnyPk::Connack(p.pk()),
        MqttPacket::Subscribe(p) => AnyPk::Subscribe(p.pk()),
        MqttPacket::Suback(p) => AnyPk::Suback(p.pk()),
        MqttPacket::Publish(p) => AnyPk::Publish(p.pk()),
        MqttPacket::Puback(p) => AnyPk::Puback(p.pk()),
        MqttPacket::Pubrec(p) => AnyPk::Pubrec(p.pk()),
        MqttPacket::Pubrel(p) => AnyPk::Pubrel(p.pk()),
        MqttPacket::Pubcomp(p) => AnyPk::Pubcomp(p.pk()),
        MqttPacket::Unsubscribe(p) => AnyPk::Unsubscribe(p.pk()),
        MqttPacket::Unsuback(p) => AnyPk::Unsuback(p.pk()),
        MqttPacket::Pingreq => AnyPk::Pingreq,
        MqttPacket::Pingresp => AnyPk::Pingresp,
        MqttPacket::Disconnect(p) => AnyPk::Disconnect(p.pk()),
        MqttPacket::Auth(p) => AnyPk::Auth(p.pk()),
    }
}

pub open spec fn d_any(h: FixedHeader, w: Seq<u8>, ver: u8) -> Option<AnyPk> {
    match h.cmd {
        PacketType::Connect => match d_connect(w) { Some(p) => Some(AnyPk::Connect(p)), None => None },
        PacketType::Connack => match d_connack(w, ver) { Some(p) => Some(AnyPk::Connack(p)), None => None },
        PacketType::Subscribe => match d_subscribe(w, ver) { Some(p) => Some(AnyPk::Subscribe(p)), None => None },
        PacketType::Suback => match d_suback(w, ver) { Some(p) => Some(AnyPk::Suback(p)), None => None },
        PacketType::Publish => match d_publish(h, w, ver) { Some(p) => Some(AnyPk::Publish(p)), None => None },
        PacketType::Puback => match d_confirm(h, w, ver) { Some(p) => Some(AnyPk::Puback(p)), None => None },
        PacketType::Pubrec => match d_confirm(h, w, ver) { Some(p) => Some(AnyPk::Pubrec(p)), None => None },
        PacketType::Pubrel => match d_confirm(h, w, ver) { Some(p) => Some(AnyPk::Pubrel(p)), None => None },
        PacketType::Pubcomp => match d_confirm(h, w, ver) { Some(p) => Some(AnyPk::Pubcomp(p)), None => None },
        PacketType::Unsubscribe => match d_unsubscribe(w, ver) { Some(p) => Some(AnyPk::Unsubscribe(p)), None => None },
        PacketType::Unsuback => match d_unsuback(w, ver) { Some(p) => Some(AnyPk::Unsuback(p)), None => None },
        PacketType::Pingreq => Some(AnyPk::Pingreq),
        PacketType::Pingresp => Some(AnyPk::Pingresp),
        PacketType::Disconnect => match d_disconnect(w, ver) { Some(p) => Some(AnyPk::Disconnect(p)), None => None },
        PacketType::Auth => match d_auth(w, ver) { Some(p) => Some(AnyPk::Auth(p)), None => None },
        PacketType::Reserved => None,
    }
}
pub open spec fn ok_any(p: AnyPk, ver: u8) -> bool {
    match p {
        AnyPk::Connect(p) => ok_connect(p),
        AnyPk::Connack(p) => ok_connack(p, ver),
        AnyPk::Subscribe(p) => ok_subscribe(p, ver),
        AnyPk::Suback(p) => ok_suback(p, ver),
        AnyPk::Publish(p) => ok_publish(p, ver),
        AnyPk::Puback(p) | AnyPk::Pubrec(p) | AnyPk::Pubrel(p) | AnyPk::Pubcomp(p) => ok_confirm(p, ver),
        AnyPk::Unsubscribe(p) => ok_unsubscribe(p, ver),
        AnyPk::Unsuback(p) => ok_unsuback(p, ver),
        AnyPk::Pingreq | AnyPk::Pingresp => true,
        AnyPk::Disconnect(p) => ok_disconnect(p, ver),
        AnyPk::Auth(p) => ok_auth(p, ver),
    }
}
pub open spec fn enc_any(p: AnyPk, ver: u8, b: Seq<u8>) -> bool {
    match p {
        AnyPk::Connect(p) => enc_connect(p, b),
        AnyPk::Connack(p) => enc_connack(p, ver, b),
        AnyPk::Subscribe(p) => enc_subscribe(p, ver, b),
        AnyPk::Suback(p) => enc_suback(p, ver, b),
        AnyPk::Publish(p) => enc_publish(p, ver, b),
        AnyPk::Puback(p) | AnyPk::Pubrec(p) | AnyPk::Pubrel(p) | AnyPk::Pubcomp(p) => enc_confirm(p, ver, b),
        AnyPk::Unsubscribe(p) => enc_unsubscribe(p, ver, b),
        AnyPk::Unsuback(p) => enc_unsuback(p, ver, b),
        AnyPk::Pingreq => b =~= seq![192u8, 0u8],
        AnyPk::Pingresp => b =~= seq![208u8, 0u8],
        AnyPk::Disconnect(p) => enc_disconnect(p, ver, b),
        AnyPk::Auth(p) => enc_auth(p, ver, b),
    }
}
pub open spec fn big_any(p: AnyPk, ver: u8) -> bool {
    match p {
        AnyPk::Connect(p) => big_connect(p),
        AnyPk::Connack(p) => big_connack(p, ver),
        AnyPk::Subscribe(p) => big_subscribe(p, ver),
        AnyPk::Suback(p) => big_suback(p, ver),
        AnyPk::Publish(p) => big_publish(p, ver),
        AnyPk::Puback(p) | AnyPk::Pubrec(p) | AnyPk::Pubrel(p) | AnyPk::Pubcomp(p) => big_confirm(p, ver),
        AnyPk::Unsubscribe(p) => big_unsubscribe(p, ver),
        AnyPk::Unsuback(p) => big_unsuback(p, ver),
        AnyPk::Pingreq | AnyPk::Pingresp => false,
        AnyPk::Disconnect(p) => big_disconnect(p, ver),
        AnyPk::Auth(p) => big_auth(p, ver),
    }
}
