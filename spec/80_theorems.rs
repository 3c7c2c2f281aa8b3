// ======================================================================
// Theorems over the contracts
// ======================================================================
broadcast use {tabs, lemma_sb_valid};

// ------------------------------------------------------------ what survives encode and decode
// props: in version 5 each property (none means the default of each), in other versions none are sent

pub open spec fn s_publish(p: PublishPk, q: PublishPk, ver: u8) -> bool {
    &&& q.dup == p.dup && q.qos == p.qos && q.retain == p.retain && q.topic == p.topic && q.payload == p.payload
    &&& q.message_id == (if p.qos > 0 { p.message_id } else { None })
    &&& if ver == 5 { publish_val(q.props) == publish_norm(publish_val(p.props)) } else { q.props is None }
}
pub open spec fn s_will(p: Option<WillPk>, q: Option<WillPk>, ver: u8) -> bool {
    match (p, q) {
        (None, None) => true,
        (Some(p), Some(q)) => {
            &&& q.topic == p.topic && q.qos == p.qos && q.retain == p.retain
            &&& q.payload == Some(match p.payload { Some(x) => x, None => Seq::empty() })
            &&& if ver == 5 { will_val(q.props) == will_norm(will_val(p.props)) } else { q.props is None }
        },
        _ => false,
    }
}
pub open spec fn s_connect(p: ConnectPk, q: ConnectPk) -> bool {
    &&& q.client_id == p.client_id && q.version == p.version && q.proto == p.proto && q.clean == p.clean && q.keep_alive == p.keep_alive
    &&& q.user == p.user && q.pass == p.pass
    &&& s_will(p.will, q.will, p.version)
    &&& if p.version == 5 { connect_val(q.props) == connect_norm(connect_val(p.props)) } else { q.props is None }
}
pub open spec fn s_connack(p: ConnackPk, q: ConnackPk, ver: u8) -> bool {
    &&& q.session_present == p.session_present
    &&& if ver == 5 { q.reason_code == p.reason_code && q.return_code is None && connack_val(q.props) == connack_norm(connack_val(p.props)) }
        else { q.return_code == p.return_code && q.reason_code is None && q.props is None }
}
pub open spec fn s_disconnect(p: DisconnectPk, q: DisconnectPk, ver: u8) -> bool {
    if ver == 5 {
        &&& q.reason_code == Some(match p.reason_code { Some(c) => c, None => DisconnectCode::NormalDisconnection })
        &&& disconnect_val(q.props) == disconnect_norm(disconnect_val(p.props))
    } else { q.reason_code is None && q.props is None }
}
pub open spec fn s_auth(p: AuthPk, q: AuthPk) -> bool { q.reason_code == p.reason_code && auth_val(q.props) == auth_norm(auth_val(p.props)) }
pub open spec fn s_confirm(p: ConfirmPk, q: ConfirmPk, ver: u8) -> bool {
    &&& q.cmd == p.cmd && q.message_id == p.message_id
    &&& if ver == 5 { q.puback == p.puback && q.pubcomp == p.pubcomp && confirmation_val(q.props) == confirmation_norm(confirmation_val(p.props)) }
        else { q.puback is None && q.pubcomp is None && q.props is None }
}
pub open spec fn s_suback(p: SubackPk, q: SubackPk, ver: u8) -> bool {
    &&& q.message_id == p.message_id
    &&& if ver == 5 { q.codes == p.codes && q.granted.len() == 0 && confirmation_val(q.props) == confirmation_norm(confirmation_val(p.props)) }
        else { q.granted == p.granted && q.codes.len() == 0 && q.props is None }
}
pub open spec fn s_unsuback(p: UnsubackPk, q: UnsubackPk, ver: u8) -> bool {
    &&& q.message_id == p.message_id
    &&& if ver == 5 { q.granted == p.granted && confirmation_val(q.props) == confirmation_norm(confirmation_val(p.props)) }
        else { q.granted.len() == 0 && q.props is None }
}
/// the options that exist in that version
pub open spec fn s_sub(s: SubV, ver: u8) -> SubV { if ver == 5 { s } else { SubV { topic: s.topic, qos: s.qos, nl: false, rap: false, rh: None } } }
pub open spec fn s_subscribe(p: SubscribePk, q: SubscribePk, ver: u8) -> bool {
    &&& q.message_id == p.message_id
    &&& q.subs == Seq::new(p.subs.len(), |i: int| s_sub(p.subs[i], ver))
    &&& if ver == 5 { subscribe_val(q.props) == subscribe_norm(subscribe_val(p.props)) } else { q.props is None }
}
pub open spec fn s_unsubscribe(p: UnsubscribePk, q: UnsubscribePk, ver: u8) -> bool {
    &&& q.message_id == p.message_id && q.topics == p.topics
    &&& if ver == 5 { unsubscribe_val(q.props) == unsubscribe_norm(unsubscribe_val(p.props)) } else { q.props is None }
}
/// the command of a confirmation is the one its variant says
pub open spec fn cmd_any(p: AnyPk) -> bool {
    match p {
        AnyPk::Puback(p) => p.cmd == PacketType::Puback,
        AnyPk::Pubrec(p) => p.cmd == PacketType::Pubrec,
        AnyPk::Pubrel(p) => p.cmd == PacketType::Pubrel,
        AnyPk::Pubcomp(p) => p.cmd == PacketType::Pubcomp,
        _ => true,
    }
}
pub open spec fn s_any(p: AnyPk, q: AnyPk, ver: u8) -> bool {
    match (p, q) {
        (AnyPk::Connect(p), AnyPk::Connect(q)) => s_connect(p, q),
        (AnyPk::Connack(p), AnyPk::Connack(q)) => s_connack(p, q, ver),
        (AnyPk::Subscribe(p), AnyPk::Subscribe(q)) => s_subscribe(p, q, ver),
        (AnyPk::Suback(p), AnyPk::Suback(q)) => s_suback(p, q, ver),
        (AnyPk::Publish(p), AnyPk::Publish(q)) => s_publish(p, q, ver),
        (AnyPk::Puback(p), AnyPk::Puback(q)) => s_confirm(p, q, ver),
        (AnyPk::Pubrec(p), AnyPk::Pubrec(q)) => s_confirm(p, q, ver),
        (AnyPk::Pubrel(p), AnyPk::Pubrel(q)) => s_confirm(p, q, ver),
        (AnyPk::Pubcomp(p), AnyPk::Pubcomp(q)) => s_confirm(p, q, ver),
        (AnyPk::Unsubscribe(p), AnyPk::Unsubscribe(q)) => s_unsubscribe(p, q, ver),
        (AnyPk::Unsuback(p), AnyPk::Unsuback(q)) => s_unsuback(p, q, ver),
        (AnyPk::Pingreq, AnyPk::Pingreq) => true,
        (AnyPk::Pingresp, AnyPk::Pingresp) => true,
        (AnyPk::Disconnect(p), AnyPk::Disconnect(q)) => s_disconnect(p, q, ver),
        (AnyPk::Auth(p), AnyPk::Auth(q)) => s_auth(p, q),
        _ => false,
    }
}

// ------------------------------------------------------------ PUBLISH

pub proof fn thm_publish(p: PublishPk, ver: u8, b: Seq<u8>, tail: Seq<u8>) -> (f: Frame)
    requires enc_publish(p, ver, b), ok_publish(p, ver), valid_utf8(p.topic),
    ensures
        p_frame(b + tail) == Some(f), f.tail == tail,
        hdr(f.first as int) == Some(FixedHeader { cmd: PacketType::Publish, dup: p.dup, qos: p.qos, retain: p.retain }),
        d_publish(hdr(f.first as int)->0, f.body, ver) matches Some(q) && s_publish(p, q, ver),
{
    hide(p_publish); hide(publish_val); hide(publish_norm); hide(publish_blk); hide(p_frame); hide(p_str); hide(frame);
    let blk = choose|blk: Seq<u8>| #[trigger] publish_blk(p.props, ver, blk) && b_publish(p, blk).len() <= MAXVAR && b =~= frame(first_byte(PacketType::Publish, p.dup, p.qos, p.retain), b_publish(p, blk));
    let body = b_publish(p, blk);
    lemma_first_byte(PacketType::Publish, p.dup, p.qos, p.retain);
    lemma_frame(first_byte(PacketType::Publish, p.dup, p.qos, p.retain), body, tail);
    let m = if p.qos > 0 { p.message_id } else { None };
    let w2 = blk + p.payload;
    let w1 = e_opt16(m) + w2;
    assert(body =~= e_str(p.topic) + w1);
    lemma_pstr(p.topic, w1);
    lemma_mid(m, w2);
    lemma_publish_read(p.props, ver, blk, p.payload);
    Frame { first: first_byte(PacketType::Publish, p.dup, p.qos, p.retain) as u8, body, tail }
}

// ------------------------------------------------------------ CONNECT

pub proof fn lemma_cflags(p: ConnectPk)
    requires p.will matches Some(w) ==> w.qos <= 2,
    ensures
        0 <= e_cflags(p) < 256, cflags_ok(e_cflags(p) as u8),
        cflags(e_cflags(p) as u8) == (ConnectFlags { user_name: p.user is Some, password: p.pass is Some,
            will_retain: p.will matches Some(w) && w.retain, will_qos: (match p.will { Some(w) => w.qos, None => 0 }), will: p.will is Some, clean_session: p.clean }),
{
    let q = match p.will { Some(w) => w.qos, None => 0 };
    assert(q == 0 || q == 1 || q == 2);
}
pub open spec fn u_ostr(o: Option<Seq<u8>>) -> bool { o matches Some(s) ==> valid_utf8(s) }
pub open spec fn u_connect(p: ConnectPk) -> bool {
    &&& valid_utf8(p.client_id) && u_ostr(p.user) && u_ostr(p.pass)
    &&& p.will matches Some(w) ==> u_ostr(w.topic) && u_ostr(w.payload)
}
pub proof fn lemma_wl(p: ConnectPk, wb: Seq<u8>, f: ConnectFlags, w: Seq<u8>)
    requires
        p.will matches Some(w) ==> ok_will(w, p.version), wblk(p.will, p.version, wb), wb.len() <= MAXVAR, u_connect(p),
        f.will == p.will is Some, p.will matches Some(w) ==> f.will_qos == w.qos && f.will_retain == w.retain,
    ensures
        p_wl(e_will(p.will, wb) + w, f, p.version) matches Some(x) && x.1 == w && s_will(p.will, x.0, p.version),
{
    hide(p_will); hide(will_val); hide(will_norm); hide(will_blk); hide(p_str);
    match p.will {
        Some(l) => {
            let t = l.topic->0;
            let pay: Seq<u8> = match l.payload { Some(x) => x, None => Seq::empty() };
            assert(valid_utf8(pay)) by { if l.payload is None { assert(pay =~= Seq::<u8>::empty()); lemma_empty_utf8(); } }
            let w3 = e_str(pay) + w;
            let w2 = e_str(t) + w3;
            assert(e_will(p.will, wb) + w =~= wb + w2);
            lemma_will_read(l.props, p.version, wb, w2);
            lemma_pstr(t, w3);
            lemma_pstr(pay, w);
        },
        None => { assert(e_will(p.will, wb) + w =~= w); },
    }
}
pub proof fn lemma_empty_utf8()
    ensures valid_utf8(Seq::<u8>::empty())
{
    lemma_ascii(Seq::<char>::empty());
    assert(sb(Seq::<char>::empty()) =~= Seq::<u8>::empty());
}
pub proof fn lemma_connect2(p: ConnectPk, blk: Seq<u8>, wb: Seq<u8>, f: ConnectFlags)
    requires
        connect_blk(p.props, p.version, blk), wblk(p.will, p.version, wb), ok_connect(p), u_connect(p), blk.len() <= MAXVAR, wb.len() <= MAXVAR,
        f == cflags(e_cflags(p) as u8),
    ensures
        d_connect2(p.proto, p.version, f, e16(p.keep_alive as int) + (blk + (e_str(p.client_id) + (e_will(p.will, wb) + (e_ostr(p.user) + e_ostr(p.pass))))))
            matches Some(q) && s_connect(p, q),
{
    hide(p_connect); hide(connect_val); hide(connect_norm); hide(connect_blk); hide(p_str); hide(p_wl); hide(p_ostr); hide(p_u16);
    hide(wblk); hide(e_will); hide(e_str); hide(e_ostr); hide(s_will); hide(cflags); hide(e_cflags); hide(will_can); hide(connect_can);
    lemma_cflags(p);
    let w6 = Seq::<u8>::empty();
    let w5 = e_ostr(p.pass) + w6;
    assert(w5 =~= e_ostr(p.pass));
    let w4 = e_ostr(p.user) + w5;
    let w3 = e_will(p.will, wb) + w4;
    let w2 = e_str(p.client_id) + w3;
    let w1 = blk + w2;
    lemma_p16(p.keep_alive as int, w1);
    lemma_connect_read(p.props, p.version, blk, w2);
    lemma_pstr(p.client_id, w3);
    lemma_wl(p, wb, f, w4);
    lemma_ostr(p.user, w5);
    lemma_ostr(p.pass, w6);
}
pub proof fn thm_connect(p: ConnectPk, b: Seq<u8>, tail: Seq<u8>) -> (f: Frame)
    requires enc_connect(p, b), ok_connect(p), u_connect(p),
    ensures
        p_frame(b + tail) == Some(f), f.tail == tail,
        hdr(f.first as int) matches Some(h) && h.cmd == PacketType::Connect,
        d_connect(f.body) matches Some(q) && s_connect(p, q),
{
    hide(connect_blk); hide(wblk); hide(p_frame); hide(p_str); hide(frame); hide(d_connect2); hide(s_connect); hide(cflags); hide(cflags_ok); hide(e_cflags); hide(e_will); hide(e_ostr); hide(will_can); hide(connect_can);
    let (blk, wb) = choose|blk: Seq<u8>, wb: Seq<u8>| #[trigger] connect_blk(p.props, p.version, blk) && #[trigger] wblk(p.will, p.version, wb)
        && b_connect(p, blk, wb).len() <= MAXVAR && b =~= frame(16, b_connect(p, blk, wb));
    let body = b_connect(p, blk, wb);
    lemma_frame(16, body, tail);
    lemma_b_connect(p, blk, wb);
    lemma_cflags(p);
    if p.will is None { assert(wb.len() == 0) by { reveal(wblk); } }
    let w4 = e16(p.keep_alive as int) + (blk + (e_str(p.client_id) + (e_will(p.will, wb) + (e_ostr(p.user) + e_ostr(p.pass)))));
    let w3 = seq![e_cflags(p) as u8] + w4;
    let w2 = seq![p.version] + w3;
    assert(body =~= e_str(proto_name(p.proto)) + w2);
    assert(str_ok(proto_name(p.proto))) by { lemma_proto("MQTT"@); lemma_proto("MQIsdp"@); }
    lemma_pstr(proto_name(p.proto), w2);
    assert(proto_of(proto_name(p.proto)) == Some(p.proto)) by { lemma_names(); }
    lemma_p8(p.version, w3);
    lemma_p8(e_cflags(p) as u8, w4);
    lemma_connect2(p, blk, wb, cflags(e_cflags(p) as u8));
    Frame { first: 16, body, tail }
}

// ------------------------------------------------------------ CONNACK

pub proof fn thm_connack(p: ConnackPk, ver: u8, b: Seq<u8>, tail: Seq<u8>) -> (f: Frame)
    requires enc_connack(p, ver, b), ok_connack(p, ver),
    ensures
        p_frame(b + tail) == Some(f), f.tail == tail,
        hdr(f.first as int) matches Some(h) && h.cmd == PacketType::Connack,
        d_connack(f.body, ver) matches Some(q) && s_connack(p, q, ver),
{
    hide(p_connack); hide(connack_val); hide(connack_norm); hide(connack_blk); hide(p_frame); hide(frame); hide(connack_can);
    let blk = choose|blk: Seq<u8>| #[trigger] connack_blk(p.props, ver, blk) && b_connack(p, ver, blk).len() <= MAXVAR && b =~= frame(32, b_connack(p, ver, blk));
    let body = b_connack(p, ver, blk);
    lemma_frame(32, body, tail);
    let w1 = seq![cc(p, ver)->0] + blk;
    assert(body =~= seq![flag(p.session_present, 1) as u8] + w1);
    lemma_p8(flag(p.session_present, 1) as u8, w1);
    lemma_p8(cc(p, ver)->0, blk);
    assert(blk + Seq::<u8>::empty() =~= blk);
    lemma_connack_read(p.props, ver, blk, Seq::empty());
    Frame { first: 32, body, tail }
}

// ------------------------------------------------------------ DISCONNECT

pub proof fn thm_disconnect(p: DisconnectPk, ver: u8, b: Seq<u8>, tail: Seq<u8>) -> (f: Frame)
    requires enc_disconnect(p, ver, b), ok_disconnect(p, ver),
    ensures
        p_frame(b + tail) == Some(f), f.tail == tail,
        hdr(f.first as int) matches Some(h) && h.cmd == PacketType::Disconnect,
        d_disconnect(f.body, ver) matches Some(q) && s_disconnect(p, q, ver),
{
    hide(p_disconnect); hide(disconnect_val); hide(disconnect_norm); hide(disconnect_blk); hide(p_frame); hide(frame); hide(disconnect_can);
    let blk = choose|blk: Seq<u8>| #[trigger] disconnect_blk(p.props, ver, blk) && b_disconnect(p, ver, blk).len() <= MAXVAR && b =~= frame(224, b_disconnect(p, ver, blk));
    let body = b_disconnect(p, ver, blk);
    lemma_frame(224, body, tail);
    if ver == 5 {
        let c = match p.reason_code { Some(c) => c, None => DisconnectCode::NormalDisconnection };
        lemma_p8(byte_DisconnectCode(c), blk);
        assert(body =~= seq![byte_DisconnectCode(c)] + blk);
        assert(tab_DisconnectCode(byte_DisconnectCode(c)) == Some(c));
        assert(blk + Seq::<u8>::empty() =~= blk);
        lemma_disconnect_read(p.props, ver, blk, Seq::empty());
    }
    Frame { first: 224, body, tail }
}

// ------------------------------------------------------------ AUTH

pub proof fn thm_auth(p: AuthPk, ver: u8, b: Seq<u8>, tail: Seq<u8>) -> (f: Frame)
    requires enc_auth(p, ver, b), ok_auth(p, ver),
    ensures
        p_frame(b + tail) == Some(f), f.tail == tail,
        hdr(f.first as int) matches Some(h) && h.cmd == PacketType::Auth,
        d_auth(f.body, ver) matches Some(q) && s_auth(p, q),
{
    hide(p_auth); hide(auth_val); hide(auth_norm); hide(auth_blk); hide(p_frame); hide(frame); hide(auth_can);
    let blk = choose|blk: Seq<u8>| #[trigger] auth_blk(p.props, ver, blk) && b_auth(p, blk).len() <= MAXVAR && b =~= frame(240, b_auth(p, blk));
    let body = b_auth(p, blk);
    lemma_frame(240, body, tail);
    lemma_p8(byte_AuthCode(p.reason_code), blk);
    assert(blk + Seq::<u8>::empty() =~= blk);
    lemma_auth_read(p.props, ver, blk, Seq::empty());
    Frame { first: 240, body, tail }
}

// ------------------------------------------------------------ PINGREQ, PINGRESP

pub proof fn thm_ping(first: u8, tail: Seq<u8>) -> (f: Frame)
    requires first == 192 || first == 208,
    ensures
        p_frame(seq![first, 0u8] + tail) == Some(f), f.tail == tail, f.first == first, f.body.len() == 0,
        hdr(first as int) matches Some(h) && h.cmd == (if first == 192 { PacketType::Pingreq } else { PacketType::Pingresp }),
{
    let e = Seq::<u8>::empty();
    lemma_frame(first as int, e, tail);
    assert(e_var(0) =~= seq![0u8]);
    assert(frame(first as int, e) =~= seq![first, 0u8]);
    Frame { first, body: e, tail }
}

// ------------------------------------------------------------ PUBACK, PUBREC, PUBREL, PUBCOMP

pub proof fn thm_confirmation(p: ConfirmPk, ver: u8, b: Seq<u8>, tail: Seq<u8>) -> (f: Frame)
    requires enc_confirm(p, ver, b), ok_confirm(p, ver), ack(p.cmd) || rel(p.cmd),
    ensures
        p_frame(b + tail) == Some(f), f.tail == tail,
        hdr(f.first as int) matches Some(h) && h.cmd == p.cmd,
        d_confirm(hdr(f.first as int)->0, f.body, ver) matches Some(q) && s_confirm(p, q, ver),
{
    hide(p_confirmation); hide(confirmation_val); hide(confirmation_norm); hide(confirmation_blk); hide(p_frame); hide(frame); hide(confirmation_can); hide(p_u16);
    let n = first_byte(p.cmd, false, 0, false);
    let blk = choose|blk: Seq<u8>| #[trigger] confirmation_blk(p.props, ver, blk) && b_confirm(p, ver, blk).len() <= MAXVAR && b =~= frame(n, b_confirm(p, ver, blk));
    let body = b_confirm(p, ver, blk);
    lemma_first_byte(p.cmd, false, 0, false);
    lemma_frame(n, body, tail);
    let c = ccode(p);
    let e = Seq::<u8>::empty();
    if ver == 5 {
        lemma_confirm_blk(p.props, blk);
        assert(blk.len() <= MAXVAR) by { if !(c == 0 && blk.len() == 1) { assert(body =~= e16(p.message_id as int) + (seq![c] + blk)); } }
        assert(blk + e =~= blk);
        lemma_confirmation_read(p.props, ver, blk, e);
        if ack(p.cmd) { assert(tab_PubackPubrecCode(c) == p.puback); } else { assert(tab_PubcompPubrelCode(c) == p.pubcomp); }
        if c == 0 && blk.len() == 1 {
            assert(body =~= e16(p.message_id as int) + e);
            lemma_p16(p.message_id as int, e);
        } else {
            lemma_p16(p.message_id as int, seq![c] + blk);
            lemma_p8(c, blk);
        }
    } else {
        assert(body =~= e16(p.message_id as int) + e);
        lemma_p16(p.message_id as int, e);
    }
    Frame { first: n as u8, body, tail }
}

// ------------------------------------------------------------ SUBACK, UNSUBACK

pub proof fn lemma_codes(p: SubackPk, g: Seq<UnsubackCode>)
    ensures
        all_src(e_src(p.codes)), src_of(e_src(p.codes)) == p.codes,
        all_granted(e_granted(p.granted)), granted_of(e_granted(p.granted)) == p.granted,
        all_unsub(e_unsub(g)), unsub_of(e_unsub(g)) == g,
{
    assert forall|i: int| 0 <= i < p.codes.len() implies tab_SubscriptionReasonCode(#[trigger] e_src(p.codes)[i]) == Some(p.codes[i]) by {}
    assert forall|i: int| 0 <= i < p.granted.len() implies tab_Granted(#[trigger] e_granted(p.granted)[i]) == Some(p.granted[i]) by {}
    assert forall|i: int| 0 <= i < g.len() implies tab_UnsubackCode(#[trigger] e_unsub(g)[i]) == Some(g[i]) by {}
    assert(src_of(e_src(p.codes)) =~= p.codes);
    assert(granted_of(e_granted(p.granted)) =~= p.granted);
    assert(unsub_of(e_unsub(g)) =~= g);
}
pub proof fn thm_suback(p: SubackPk, ver: u8, b: Seq<u8>, tail: Seq<u8>) -> (f: Frame)
    requires enc_suback(p, ver, b), ok_suback(p, ver),
    ensures
        p_frame(b + tail) == Some(f), f.tail == tail,
        hdr(f.first as int) matches Some(h) && h.cmd == PacketType::Suback,
        d_suback(f.body, ver) matches Some(q) && s_suback(p, q, ver),
{
    hide(p_confirmation); hide(confirmation_val); hide(confirmation_norm); hide(confirmation_blk); hide(p_frame); hide(frame); hide(confirmation_can); hide(p_u16);
    hide(all_src); hide(all_granted); hide(src_of); hide(granted_of);
    let blk = choose|blk: Seq<u8>| #[trigger] confirmation_blk(p.props, ver, blk) && b_suback(p, ver, blk).len() <= MAXVAR && b =~= frame(144, b_suback(p, ver, blk));
    let body = b_suback(p, ver, blk);
    lemma_frame(144, body, tail);
    let w2 = scodes(p, ver);
    assert(body =~= e16(p.message_id as int) + (blk + w2));
    lemma_p16(p.message_id as int, blk + w2);
    lemma_confirmation_read(p.props, ver, blk, w2);
    lemma_codes(p, Seq::empty());
    Frame { first: 144, body, tail }
}
pub proof fn thm_unsuback(p: UnsubackPk, ver: u8, b: Seq<u8>, tail: Seq<u8>) -> (f: Frame)
    requires enc_unsuback(p, ver, b), ok_unsuback(p, ver),
    ensures
        p_frame(b + tail) == Some(f), f.tail == tail,
        hdr(f.first as int) matches Some(h) && h.cmd == PacketType::Unsuback,
        d_unsuback(f.body, ver) matches Some(q) && s_unsuback(p, q, ver),
{
    hide(p_confirmation); hide(confirmation_val); hide(confirmation_norm); hide(p_frame); hide(frame); hide(confirmation_can); hide(p_u16);
    hide(all_unsub); hide(unsub_of);
    let blk = choose|blk: Seq<u8>| #[trigger] confirmation_blk(p.props, ver, blk) && b_unsuback(p, ver, blk).len() <= MAXVAR && b =~= frame(176, b_unsuback(p, ver, blk));
    let body = b_unsuback(p, ver, blk);
    lemma_frame(176, body, tail);
    let w2 = if ver == 5 { e_unsub(p.granted) } else { Seq::empty() };
    assert(body =~= e16(p.message_id as int) + (blk + w2));
    lemma_p16(p.message_id as int, blk + w2);
    lemma_confirmation_read(p.props, ver, blk, w2);
    lemma_codes(SubackPk { message_id: 0, props: None, codes: Seq::empty(), granted: Seq::empty() }, p.granted);
    Frame { first: 176, body, tail }
}

// ------------------------------------------------------------ SUBSCRIBE, UNSUBSCRIBE

pub proof fn lemma_opts(s: SubV, ver: u8)
    requires ok_sub(s, ver),
    ensures 0 <= opts(s, ver) < 256, d_opts(s.topic, opts(s, ver) as u8, ver) == Some(s_sub(s, ver))
{
    let q = byte_QoS(s.qos);
    assert(q == 0 || q == 1 || q == 2);
    assert(tab_QoS(q) == Some(s.qos));
    if ver == 5 {
        let n = s.rh->0;
        assert(n == 0 || n == 1 || n == 2);
        let o = opts(s, ver) as u8;
        assert(o % 4 == q);
    }
}
pub proof fn lemma_d_sub(s: SubV, ver: u8, w: Seq<u8>)
    requires ok_sub(s, ver), valid_utf8(s.topic),
    ensures d_sub(e_sub(s, ver) + w, ver) == Some((s_sub(s, ver), w)), e_sub(s, ver).len() > 0
{
    hide(p_str);
    let o = opts(s, ver) as u8;
    lemma_opts(s, ver);
    assert(e_sub(s, ver) + w =~= e_str(s.topic) + (seq![o] + w));
    lemma_pstr(s.topic, seq![o] + w);
    lemma_p8(o, w);
}
/// what is decoded after the first n entries
pub proof fn lemma_d_subs(l: Seq<SubV>, ver: u8, w: Seq<u8>)
    requires forall|i: int| 0 <= i < l.len() ==> ok_sub(#[trigger] l[i], ver) && valid_utf8(l[i].topic),
    ensures d_subs(e_subs(l, ver) + w, ver) == catv(Seq::new(l.len(), |i: int| s_sub(l[i], ver)), d_subs(w, ver))
    decreases l.len()
{
    hide(d_sub); hide(e_sub);
    if l.len() == 0 {
        assert(e_subs(l, ver) + w =~= w);
        match d_subs(w, ver) { Some(x) => { assert(Seq::new(l.len(), |i: int| s_sub(l[i], ver)) + x =~= x); } None => {} }
    } else {
        let k = l.drop_last();
        let s = l.last();
        let w1 = e_sub(s, ver) + w;
        assert(ok_sub(l[l.len() - 1], ver));
        assert forall|i: int| 0 <= i < k.len() implies ok_sub(#[trigger] k[i], ver) && valid_utf8(k[i].topic) by { assert(k[i] == l[i]); }
        assert(e_subs(l, ver) + w =~= e_subs(k, ver) + w1);
        lemma_d_subs(k, ver, w1);
        lemma_d_sub(s, ver, w);
        assert(w1.len() > w.len());
        match d_subs(w, ver) {
            Some(x) => {
                assert(d_subs(w1, ver) == Some(seq![s_sub(s, ver)] + x));
                assert(Seq::new(k.len(), |i: int| s_sub(k[i], ver)) + (seq![s_sub(s, ver)] + x) =~= Seq::new(l.len(), |i: int| s_sub(l[i], ver)) + x);
            },
            None => {},
        }
    }
}
pub open spec fn u_subs(p: SubscribePk) -> bool { forall|i: int| 0 <= i < p.subs.len() ==> valid_utf8((#[trigger] p.subs[i]).topic) }
pub proof fn thm_subscribe(p: SubscribePk, ver: u8, b: Seq<u8>, tail: Seq<u8>) -> (f: Frame)
    requires enc_subscribe(p, ver, b), ok_subscribe(p, ver), u_subs(p),
    ensures
        p_frame(b + tail) == Some(f), f.tail == tail,
        hdr(f.first as int) matches Some(h) && h.cmd == PacketType::Subscribe,
        d_subscribe(f.body, ver) matches Some(q) && s_subscribe(p, q, ver),
{
    hide(p_subscribe); hide(subscribe_val); hide(subscribe_norm); hide(subscribe_blk); hide(p_frame); hide(frame); hide(subscribe_can); hide(p_u16); hide(e_subs); hide(d_subs); hide(ok_sub);
    let blk = choose|blk: Seq<u8>| #[trigger] subscribe_blk(p.props, ver, blk) && b_subscribe(p, ver, blk).len() <= MAXVAR && b =~= frame(130, b_subscribe(p, ver, blk));
    let body = b_subscribe(p, ver, blk);
    lemma_frame(130, body, tail);
    let e = Seq::<u8>::empty();
    let w2 = e_subs(p.subs, ver);
    assert(body =~= e16(p.message_id as int) + (blk + w2));
    lemma_p16(p.message_id as int, blk + w2);
    lemma_subscribe_read(p.props, ver, blk, w2);
    assert forall|i: int| 0 <= i < p.subs.len() implies ok_sub(#[trigger] p.subs[i], ver) && valid_utf8(p.subs[i].topic) by {}
    lemma_d_subs(p.subs, ver, e);
    assert(w2 + e =~= w2);
    let all = Seq::new(p.subs.len(), |i: int| s_sub(p.subs[i], ver));
    assert(d_subs(e, ver) == Some(Seq::<SubV>::empty())) by { reveal_with_fuel(d_subs, 2); }
    assert(all + Seq::<SubV>::empty() =~= all);
    assert(w2.len() > 0) by {
        reveal_with_fuel(e_subs, 2);
        assert(e_sub(p.subs.last(), ver).len() > 0);
    }
    Frame { first: 130, body, tail }
}
pub proof fn lemma_d_strs(l: Seq<Seq<u8>>, w: Seq<u8>)
    requires forall|i: int| 0 <= i < l.len() ==> str_ok(#[trigger] l[i]),
    ensures d_strs(e_strs(l) + w) == catv(l, d_strs(w))
    decreases l.len()
{
    hide(p_str);
    if l.len() == 0 {
        assert(e_strs(l) + w =~= w);
        match d_strs(w) { Some(x) => { assert(l + x =~= x); } None => {} }
    } else {
        let k = l.drop_last();
        let s = l.last();
        let w1 = e_str(s) + w;
        assert(str_ok(l[l.len() - 1]));
        assert forall|i: int| 0 <= i < k.len() implies str_ok(#[trigger] k[i]) by { assert(k[i] == l[i]); }
        assert(e_strs(l) + w =~= e_strs(k) + w1);
        lemma_d_strs(k, w1);
        lemma_pstr(s, w);
        assert(w1.len() > w.len());
        match d_strs(w) {
            Some(x) => {
                assert(d_strs(w1) == Some(seq![s] + x));
                assert(k + (seq![s] + x) =~= l + x);
            },
            None => {},
        }
    }
}
pub open spec fn u_strs(p: UnsubscribePk) -> bool { forall|i: int| 0 <= i < p.topics.len() ==> valid_utf8(#[trigger] p.topics[i]) }
pub proof fn thm_unsubscribe(p: UnsubscribePk, ver: u8, b: Seq<u8>, tail: Seq<u8>) -> (f: Frame)
    requires enc_unsubscribe(p, ver, b), ok_unsubscribe(p, ver), u_strs(p),
    ensures
        p_frame(b + tail) == Some(f), f.tail == tail,
        hdr(f.first as int) matches Some(h) && h.cmd == PacketType::Unsubscribe,
        d_unsubscribe(f.body, ver) matches Some(q) && s_unsubscribe(p, q, ver),
{
    hide(p_unsubscribe); hide(unsubscribe_val); hide(unsubscribe_norm); hide(unsubscribe_blk); hide(p_frame); hide(frame); hide(unsubscribe_can); hide(p_u16); hide(e_strs); hide(d_strs);
    let blk = choose|blk: Seq<u8>| #[trigger] unsubscribe_blk(p.props, ver, blk) && b_unsubscribe(p, blk).len() <= MAXVAR && b =~= frame(162, b_unsubscribe(p, blk));
    let body = b_unsubscribe(p, blk);
    lemma_frame(162, body, tail);
    let e = Seq::<u8>::empty();
    let w2 = e_strs(p.topics);
    assert(body =~= e16(p.message_id as int) + (blk + w2));
    lemma_p16(p.message_id as int, blk + w2);
    lemma_unsubscribe_read(p.props, ver, blk, w2);
    assert forall|i: int| 0 <= i < p.topics.len() implies str_ok(#[trigger] p.topics[i]) by {}
    lemma_d_strs(p.topics, e);
    assert(w2 + e =~= w2);
    assert(d_strs(e) == Some(Seq::<Seq<u8>>::empty())) by { reveal_with_fuel(d_strs, 2); }
    assert(p.topics + Seq::<Seq<u8>>::empty() =~= p.topics);
    assert(w2.len() > 0) by {
        reveal_with_fuel(e_strs, 2);
        assert(e_str(p.topics.last()).len() > 0);
    }
    Frame { first: 162, body, tail }
}

// ------------------------------------------------------------ any packet

/// every text of the packet is valid UTF-8 (true of every packet value, see lemma_texts)
pub open spec fn u_any(p: AnyPk) -> bool {
    match p {
        AnyPk::Connect(p) => u_connect(p),
        AnyPk::Subscribe(p) => u_subs(p),
        AnyPk::Publish(p) => valid_utf8(p.topic),
        AnyPk::Unsubscribe(p) => u_strs(p),
        _ => true,
    }
}
pub proof fn lemma_texts(p: MqttPacket)
    ensures u_any(v_any(p))
{}
/// version the packet is decoded with: a CONNECT packet names its own
pub open spec fn ver_any(p: AnyPk, ver: u8) -> u8 { match p { AnyPk::Connect(p) => p.version, _ => ver } }

/// C06, C07 - C11: what was encoded is one frame, and it means what was encoded, whatever follows
pub proof fn thm_roundtrip(p: AnyPk, ver: u8, b: Seq<u8>, tail: Seq<u8>) -> (f: Frame)
    requires enc_any(p, ver, b), ok_any(p, ver), u_any(p), cmd_any(p),
    ensures
        p_frame(b + tail) == Some(f), f.tail == tail,
        hdr(f.first as int) matches Some(h) && (d_any(h, f.body, ver) matches Some(q) && s_any(p, q, ver)),
{
    hide(p_frame); hide(hdr); hide(d_connect); hide(d_connack); hide(d_subscribe); hide(d_suback); hide(d_publish); hide(d_confirm); hide(d_unsubscribe); hide(d_unsuback); hide(d_disconnect); hide(d_auth);
    hide(enc_connect); hide(enc_connack); hide(enc_subscribe); hide(enc_suback); hide(enc_publish); hide(enc_confirm); hide(enc_unsubscribe); hide(enc_unsuback); hide(enc_disconnect); hide(enc_auth);
    hide(ok_connect); hide(ok_connack); hide(ok_subscribe); hide(ok_suback); hide(ok_publish); hide(ok_confirm); hide(ok_unsubscribe); hide(ok_unsuback); hide(ok_disconnect); hide(ok_auth);
    hide(s_connect); hide(s_connack); hide(s_subscribe); hide(s_suback); hide(s_publish); hide(s_confirm); hide(s_unsubscribe); hide(s_unsuback); hide(s_disconnect); hide(s_auth);
    hide(u_connect); hide(u_subs); hide(u_strs);
    match p {
        AnyPk::Connect(p) => thm_connect(p, b, tail),
        AnyPk::Connack(p) => thm_connack(p, ver, b, tail),
        AnyPk::Subscribe(p) => thm_subscribe(p, ver, b, tail),
        AnyPk::Suback(p) => thm_suback(p, ver, b, tail),
        AnyPk::Publish(p) => thm_publish(p, ver, b, tail),
        AnyPk::Puback(p) => thm_confirmation(p, ver, b, tail),
        AnyPk::Pubrec(p) => thm_confirmation(p, ver, b, tail),
        AnyPk::Pubrel(p) => thm_confirmation(p, ver, b, tail),
        AnyPk::Pubcomp(p) => thm_confirmation(p, ver, b, tail),
        AnyPk::Unsubscribe(p) => thm_unsubscribe(p, ver, b, tail),
        AnyPk::Unsuback(p) => thm_unsuback(p, ver, b, tail),
        AnyPk::Pingreq => { assert(b =~= seq![192u8, 0u8]); thm_ping(192, tail) },
        AnyPk::Pingresp => { assert(b =~= seq![208u8, 0u8]); thm_ping(208, tail) },
        AnyPk::Disconnect(p) => thm_disconnect(p, ver, b, tail),
        AnyPk::Auth(p) => thm_auth(p, ver, b, tail),
    }
}

// ------------------------------------------------------------ programs that use the contracts of the crate
// They are checked against the contracts of MqttPacket::encode and PacketDecoder::decode_packet only.

use crate::packet::PacketDecoder;
use crate::byte_reader::ByteReader;
use std::io::Read;

/// b is what encoding p gave
pub open spec fn sent(p: MqttPacket, ver: u8, b: Seq<u8>) -> bool { ok_any(v_any(p), ver) && enc_any(v_any(p), ver, b) }

pub fn send(p: MqttPacket, ver: u8) -> (r: Option<Vec<u8>>)
    ensures match r { Some(b) => sent(p, ver, b@), None => !ok_any(v_any(p), ver) || big_any(v_any(p), ver) }
{
    match p.encode(ver) { Ok(b) => Some(b), Err(_) => None }
}

/// C07 - C11: decode the packet from a stream that starts with what encoding it gave
pub fn receive<R: Read>(d: &mut PacketDecoder<R>, ver: u8, p: Ghost<MqttPacket>, b: Ghost<Seq<u8>>, tail: Ghost<Seq<u8>>) -> (r: MqttPacket)
    requires old(d).reader.clear(), old(d).reader.stream() == b@ + tail@, sent(p@, ver, b@), cmd_any(v_any(p@)),
    ensures s_any(v_any(p@), v_any(r), ver), final(d).reader.stream() == tail@, final(d).reader.clear(),
{
    proof {
        lemma_texts(p@);
        let f = thm_roundtrip(v_any(p@), ver, b@, tail@);
    }
    match d.decode_packet(ver) {
        Ok(q) => q,
        Err(_) => { assert(false); MqttPacket::Pingreq },
    }
}

// ------------------------------------------------------------ C01: any number of frames, one by one

/// n frames, whatever is in them, and a rest
pub open spec fn frames(w: Seq<u8>, n: nat, tail: Seq<u8>) -> bool
    decreases n
{
    if n == 0 { w == tail } else { p_frame(w) matches Some(f) && frames(f.tail, (n - 1) as nat, tail) }
}
/// what the n-th call returns depends on the n-th frame alone
pub open spec fn nth_frame(w: Seq<u8>, n: nat) -> Option<Frame>
    decreases n
{
    match p_frame(w) { None => None, Some(f) => if n == 0 { Some(f) } else { nth_frame(f.tail, (n - 1) as nat) } }
}
/// what a decode call returns for a frame
pub open spec fn answer(r: Result<MqttPacket, String>, f: Frame, ver: u8) -> bool {
    match r {
        Ok(p) => hdr(f.first as int) matches Some(h) && d_any(h, f.body, ver) == Some(v_any(p)),
        Err(_) => hdr(f.first as int) matches Some(h) ==> d_any(h, f.body, ver) is None,
    }
}
/// the answer number i is the one for frame number i
pub open spec fn answered_at(l: Seq<Result<MqttPacket, String>>, w: Seq<u8>, ver: u8, i: int) -> bool {
    nth_frame(w, i as nat) is Some && answer(l[i], nth_frame(w, i as nat)->0, ver)
}
pub open spec fn answered(l: Seq<Result<MqttPacket, String>>, w: Seq<u8>, ver: u8) -> bool {
    forall|i: int| 0 <= i < l.len() ==> #[trigger] answered_at(l, w, ver, i)
}
pub proof fn lemma_answered(l: Seq<Result<MqttPacket, String>>, w: Seq<u8>, ver: u8, r: Result<MqttPacket, String>)
    requires answered(l, w, ver), nth_frame(w, l.len()) is Some, answer(r, nth_frame(w, l.len())->0, ver),
    ensures answered(l.push(r), w, ver)
{
    hide(answer); hide(nth_frame);
    let m = l.push(r);
    assert forall|i: int| 0 <= i < m.len() implies #[trigger] answered_at(m, w, ver, i) by {
        if i < l.len() { assert(answered_at(l, w, ver, i)); }
    }
}
pub fn thm_sequence<R: Read>(d: &mut PacketDecoder<R>, ver: u8, n: usize, tail: Ghost<Seq<u8>>) -> (l: Vec<Result<MqttPacket, String>>)
    requires old(d).reader.clear(), frames(old(d).reader.stream(), n as nat, tail@),
    ensures
        final(d).reader.stream() == tail@, final(d).reader.clear(), l.len() == n,
        answered(l@, old(d).reader.stream(), ver),
{
    hide(answered);
    hide(p_frame);
    let mut l: Vec<Result<MqttPacket, String>> = Vec::new();
    let mut i = 0usize;
    assert(answered(l@, d.reader.stream(), ver)) by { reveal(answered); }
    let ghost w0 = d.reader.stream();
    while i < n
        invariant
            i <= n, l.len() == i, d.reader.clear(), frames(d.reader.stream(), (n - i) as nat, tail@),
            forall|j: nat| j < n - i ==> #[trigger] nth_frame(w0, (i + j) as nat) == nth_frame(d.reader.stream(), j),
            answered(l@, w0, ver),
        decreases n - i
    {
        let ghost w = d.reader.stream();
        let r = d.decode_packet(ver);
        proof {
            assert(nth_frame(w0, (i + 0) as nat) == nth_frame(w, 0));
            assert(nth_frame(w, 0) == p_frame(w));
            lemma_answered(l@, w0, ver, r);
            assert forall|j: nat| j < n - i - 1 implies #[trigger] nth_frame(w0, (i + 1 + j) as nat) == nth_frame(d.reader.stream(), j) by {
                assert(nth_frame(w0, (i + (j + 1)) as nat) == nth_frame(w, (j + 1) as nat));
            }
        }
        l.push(r);
        i = i + 1;
    }
    l
}

// ------------------------------------------------------------ C02, C03

pub proof fn lemma_vb_ext(w: Seq<u8>, t: Seq<u8>, k: nat)
    requires vb(w, k) is Some,
    ensures vb(w + t, k) == vb(w, k), 1 <= (vb(w, k)->0).1 <= w.len()
    decreases k
{
    if w[0] >= 128 {
        assert(rest(w + t, 1) =~= rest(w, 1) + t);
        lemma_vb_ext(rest(w, 1), t, (k - 1) as nat);
    }
}
/// the bytes behind a frame do not change what it is
pub proof fn lemma_frame_ext(w: Seq<u8>, t: Seq<u8>)
    requires p_frame(w) is Some,
    ensures p_frame(w + t) == Some(Frame { first: p_frame(w)->0.first, body: p_frame(w)->0.body, tail: p_frame(w)->0.tail + t }),
        p_frame(w)->0.tail.len() < w.len(),
{
    let w1 = rest(w, 1);
    assert(rest(w + t, 1) =~= w1 + t);
    lemma_vb_ext(w1, t, 4);
    let (v, n) = vb(w1, 4)->0;
    let w2 = rest(w1, n);
    assert(rest(w1 + t, n) =~= w2 + t);
    let k = v as u32;
    assert((w2 + t).subrange(0, k as int) =~= w2.subrange(0, k as int));
    assert((w2 + t).subrange(k as int, (w2 + t).len() as int) =~= w2.subrange(k as int, w2.len() as int) + t);
}
/// C02: two decoders, whatever came before, whatever follows and whatever the sources are, give the same answer for the same frame
pub fn thm_isolation<R: Read, S: Read>(d: &mut PacketDecoder<R>, e: &mut PacketDecoder<S>, ver: u8, w: Ghost<Seq<u8>>, t: Ghost<Seq<u8>>, u: Ghost<Seq<u8>>)
    -> (r: (Result<MqttPacket, String>, Result<MqttPacket, String>))
    requires
        old(d).reader.clear(), old(e).reader.clear(), p_frame(w@) matches Some(f) && f.tail.len() == 0,
        old(d).reader.stream() == w@ + t@, old(e).reader.stream() == w@ + u@,
    ensures
        r.0 is Ok <==> r.1 is Ok,
        r.0 is Ok ==> v_any(r.0->Ok_0) == v_any(r.1->Ok_0),
        final(d).reader.stream() == t@, final(e).reader.stream() == u@,
{
    proof {
        lemma_frame_ext(w@, t@);
        lemma_frame_ext(w@, u@);
        assert(p_frame(w@)->0.tail + t@ =~= t@);
        assert(p_frame(w@)->0.tail + u@ =~= u@);
    }
    let a = d.decode_packet(ver);
    let b = e.decode_packet(ver);
    (a, b)
}
/// C03: a part of a frame is no frame
pub proof fn lemma_truncated(w: Seq<u8>, k: int)
    requires p_frame(w) matches Some(f) && f.tail.len() == 0, 0 <= k < w.len(),
    ensures p_frame(w.take(k)) is None
{
    let a = w.take(k);
    let t = w.skip(k);
    assert(a + t =~= w);
    if p_frame(a) is Some {
        lemma_frame_ext(a, t);
    }
}
pub fn thm_truncation<R: Read>(d: &mut PacketDecoder<R>, ver: u8, w: Ghost<Seq<u8>>, k: Ghost<int>) -> (r: Result<MqttPacket, String>)
    requires old(d).reader.clear(), p_frame(w@) matches Some(f) && f.tail.len() == 0, 0 <= k@ < w@.len(), old(d).reader.stream() == w@.take(k@),
    ensures r is Err
{
    proof { lemma_truncated(w@, k@); }
    d.decode_packet(ver)
}
