@item structure::Packet
@members
type Pk;
spec fn pk(&self) -> Self::Pk;
spec fn dec(h: FixedHeader, w: Seq<u8>, ver: u8) -> Option<Self::Pk>;
spec fn valid(p: Self::Pk, ver: u8) -> bool;
spec fn enc(p: Self::Pk, ver: u8, b: Seq<u8>) -> bool;
spec fn big(p: Self::Pk, ver: u8) -> bool;

@fn structure::Packet::encode
ensures
    match r {
        Ok(b) => Self::valid(self.pk(), $1) && Self::enc(self.pk(), $1, b@),
        Err(_) => !Self::valid(self.pk(), $1) || Self::big(self.pk(), $1),
    }

@fn structure::Packet::decode
requires old($1).wf(), old($1).curr_limit == Some($3)
ensures
    match r {
        Ok(p) => moved(*old($1), *final($1)) && (old($1).avail() ==> Self::dec($2, old($1).win(), $4) == Some(p.pk())),
        Err(_) => failed(*old($1), *final($1)) && (old($1).avail() ==> Self::dec($2, old($1).win(), $4) is None),
    }

@item publish::PublishPacket::Packet
@members
type Pk = PublishPk;
open spec fn pk(&self) -> PublishPk { PublishPk { dup: self.dup, qos: self.qos, retain: self.retain, topic: sb(self.topic@), message_id: self.message_id, payload: self.payload@, props: opv(self.properties) } }
open spec fn dec(h: FixedHeader, w: Seq<u8>, ver: u8) -> Option<PublishPk> { d_publish(h, w, ver) }
open spec fn valid(p: PublishPk, ver: u8) -> bool { ok_publish(p, ver) }
open spec fn enc(p: PublishPk, ver: u8, b: Seq<u8>) -> bool { enc_publish(p, ver, b) }
open spec fn big(p: PublishPk, ver: u8) -> bool { big_publish(p, ver) }

@fn publish::PublishPacket::Packet::encode
@body_start
hide(publish_blk);
hide(e_var);
hide(e_str);
broadcast use bits;
let ghost ver = $1;
@before 0 let mut writer = MqttWriter
let ghost blk = choose|b: Seq<u8>| #[trigger] publish_blk(self.pk().props, ver, b) && psplit(b, props_len@, properties_data@);
@before 0 writer . write_remaining_length
proof { reveal(e_str); assert(blk.len() > MAXVAR || length == b_publish(self.pk(), blk).len()); }
@before 0 Ok ( writer . into_vec ( ) )
proof {
    let p = self.pk();
    assert(writer.buf@ =~= frame(first_byte(PacketType::Publish, self.dup, self.qos, self.retain), b_publish(self.pk(), blk)));
}

@item connect::ConnectPacket::Packet
@members
type Pk = ConnectPk;
open spec fn pk(&self) -> ConnectPk { v_connect(*self) }
open spec fn dec(h: FixedHeader, w: Seq<u8>, ver: u8) -> Option<ConnectPk> { d_connect(w) }
open spec fn valid(p: ConnectPk, ver: u8) -> bool { ok_connect(p) }
open spec fn enc(p: ConnectPk, ver: u8, b: Seq<u8>) -> bool { enc_connect(p, b) }
open spec fn big(p: ConnectPk, ver: u8) -> bool { big_connect(p) }

@item connack::ConnackPacket::Packet
@members
type Pk = ConnackPk;
open spec fn pk(&self) -> ConnackPk { ConnackPk { return_code: self.return_code, reason_code: self.reason_code, session_present: self.session_present, props: opv(self.properties) } }
open spec fn dec(h: FixedHeader, w: Seq<u8>, ver: u8) -> Option<ConnackPk> { d_connack(w, ver) }
open spec fn valid(p: ConnackPk, ver: u8) -> bool { ok_connack(p, ver) }
open spec fn enc(p: ConnackPk, ver: u8, b: Seq<u8>) -> bool { enc_connack(p, ver, b) }
open spec fn big(p: ConnackPk, ver: u8) -> bool { big_connack(p, ver) }

@fn connack::ConnackPacket::Packet::encode
@body_start
hide(connack_blk);
hide(e_var);
hide(e_str);
broadcast use bits;
let ghost ver = $1;
@before 0 let mut writer = MqttWriter
let ghost blk = choose|b: Seq<u8>| #[trigger] connack_blk(self.pk().props, ver, b) && psplit(b, props_len@, properties_data@);
@before 0 writer . write_remaining_length
proof { reveal(e_str); assert(blk.len() > MAXVAR || length == b_connack(self.pk(), ver, blk).len()); }
@before 0 Ok ( writer . into_vec ( ) )
proof {
    let p = self.pk();
    assert(writer.buf@ =~= frame(32, b_connack(self.pk(), ver, blk)));
}

@item disconnect::DisconnectPacket::Packet
@members
type Pk = DisconnectPk;
open spec fn pk(&self) -> DisconnectPk { DisconnectPk { reason_code: self.reason_code, props: opv(self.properties) } }
open spec fn dec(h: FixedHeader, w: Seq<u8>, ver: u8) -> Option<DisconnectPk> { d_disconnect(w, ver) }
open spec fn valid(p: DisconnectPk, ver: u8) -> bool { ok_disconnect(p, ver) }
open spec fn enc(p: DisconnectPk, ver: u8, b: Seq<u8>) -> bool { enc_disconnect(p, ver, b) }
open spec fn big(p: DisconnectPk, ver: u8) -> bool { big_disconnect(p, ver) }

@fn disconnect::DisconnectPacket::Packet::encode
@body_start
hide(disconnect_blk);
hide(e_var);
hide(e_str);
broadcast use bits;
let ghost ver = $1;
@before 0 let mut writer = MqttWriter
let ghost blk = choose|b: Seq<u8>| #[trigger] disconnect_blk(self.pk().props, ver, b) && psplit(b, props_len@, properties_data@);
@before 0 writer . write_remaining_length
proof { reveal(e_str); assert(blk.len() > MAXVAR || length == b_disconnect(self.pk(), ver, blk).len()); }
@before 0 Ok ( writer . into_vec ( ) )
proof {
    let p = self.pk();
    assert(writer.buf@ =~= frame(224, b_disconnect(self.pk(), ver, blk)));
}

@item auth::AuthPacket::Packet
@members
type Pk = AuthPk;
open spec fn pk(&self) -> AuthPk { AuthPk { reason_code: self.reason_code, props: opv(self.properties) } }
open spec fn dec(h: FixedHeader, w: Seq<u8>, ver: u8) -> Option<AuthPk> { d_auth(w, ver) }
open spec fn valid(p: AuthPk, ver: u8) -> bool { ok_auth(p, ver) }
open spec fn enc(p: AuthPk, ver: u8, b: Seq<u8>) -> bool { enc_auth(p, ver, b) }
open spec fn big(p: AuthPk, ver: u8) -> bool { big_auth(p, ver) }

@fn auth::AuthPacket::Packet::encode
@body_start
hide(auth_blk);
hide(e_var);
hide(e_str);
broadcast use bits;
let ghost ver = $1;
@before 0 let mut writer = MqttWriter
let ghost blk = choose|b: Seq<u8>| #[trigger] auth_blk(self.pk().props, ver, b) && psplit(b, props_len@, properties_data@);
@before 0 writer . write_remaining_length
proof { reveal(e_str); assert(blk.len() > MAXVAR || length == b_auth(self.pk(), blk).len()); }
@before 0 Ok ( writer . into_vec ( ) )
proof {
    let p = self.pk();
    assert(writer.buf@ =~= frame(240, b_auth(self.pk(), blk)));
}

@item confirmation::ConfirmationPacket::Packet
@members
type Pk = ConfirmPk;
open spec fn pk(&self) -> ConfirmPk { ConfirmPk { cmd: self.cmd, message_id: self.message_id, puback: self.puback_reason_code, pubcomp: self.pubcomp_reason_code, props: opv(self.properties) } }
open spec fn dec(h: FixedHeader, w: Seq<u8>, ver: u8) -> Option<ConfirmPk> { d_confirm(h, w, ver) }
open spec fn valid(p: ConfirmPk, ver: u8) -> bool { ok_confirm(p, ver) }
open spec fn enc(p: ConfirmPk, ver: u8, b: Seq<u8>) -> bool { enc_confirm(p, ver, b) }
open spec fn big(p: ConfirmPk, ver: u8) -> bool { big_confirm(p, ver) }

@fn confirmation::ConfirmationPacket::Packet::encode
@body_start
hide(confirmation_blk);
hide(e_var);
hide(e_str);
broadcast use bits;
let ghost ver = $1;
@before 0 let mut writer = MqttWriter
let ghost blk = choose|b: Seq<u8>| #[trigger] confirmation_blk(self.pk().props, ver, b) && psplit(b, props_len@, properties_data@);
@before 0 writer . write_remaining_length
proof { reveal(e_str); assert(98u8 | 2u8 == 98u8) by (bit_vector); if ver == 5 { lemma_confirm_blk(self.pk().props, blk); } assert(blk.len() > MAXVAR || length == b_confirm(self.pk(), ver, blk).len()); }
@before 0 Ok ( writer . into_vec ( ) )
proof {
    let p = self.pk();
    assert(writer.buf@ =~= frame(first_byte(self.cmd, false, 0, false), b_confirm(self.pk(), ver, blk)));
}

@item suback::SubackPacket::Packet
@members
type Pk = SubackPk;
open spec fn pk(&self) -> SubackPk { SubackPk { message_id: self.message_id, props: opv(self.properties), codes: self.granted_reason_codes@, granted: self.granted@ } }
open spec fn dec(h: FixedHeader, w: Seq<u8>, ver: u8) -> Option<SubackPk> { d_suback(w, ver) }
open spec fn valid(p: SubackPk, ver: u8) -> bool { ok_suback(p, ver) }
open spec fn enc(p: SubackPk, ver: u8, b: Seq<u8>) -> bool { enc_suback(p, ver, b) }
open spec fn big(p: SubackPk, ver: u8) -> bool { big_suback(p, ver) }

@fn suback::SubackPacket::Packet::encode
@body_start
hide(confirmation_blk);
hide(e_var);
hide(e_str);
broadcast use bits;
let ghost ver = $1;
@before 0 let mut writer = MqttWriter
let ghost blk = choose|b: Seq<u8>| #[trigger] confirmation_blk(self.pk().props, ver, b) && psplit(b, props_len@, properties_data@);
@before 0 writer . write_remaining_length
proof { reveal(e_str); assert(blk.len() > MAXVAR || length == b_suback(self.pk(), ver, blk).len()); }
@before 0 Ok ( writer . into_vec ( ) )
proof {
    let p = self.pk();
    assert(writer.buf@ =~= frame(144, b_suback(self.pk(), ver, blk)));
}
@loop 0
invariant
    __it.seq().len() == self.granted_reason_codes@.len(),
    forall|z: int| 0 <= z < __it.seq().len() ==> *(#[trigger] __it.seq()[z]) == self.granted_reason_codes@[z],
    __out@ == e_src(self.granted_reason_codes@).take(__it.index@ as int),
@after_loop 0
proof { assert(__out@ =~= e_src(self.granted_reason_codes@)); }
@loop_end 0
proof { assert(__out@ =~= e_src(self.granted_reason_codes@).take(__it.index@ as int + 1)); }
@loop 1
invariant
    __it.seq().len() == self.granted@.len(),
    forall|z: int| 0 <= z < __it.seq().len() ==> *(#[trigger] __it.seq()[z]) == self.granted@[z],
    __out@ == e_granted(self.granted@).take(__it.index@ as int),
@loop_end 1
proof { assert(__out@ =~= e_granted(self.granted@).take(__it.index@ as int + 1)); }
@after_loop 1
proof { assert(__out@ =~= e_granted(self.granted@)); }

@item unsuback::UnsubackPacket::Packet
@members
type Pk = UnsubackPk;
open spec fn pk(&self) -> UnsubackPk { UnsubackPk { message_id: self.message_id, granted: self.granted@, props: opv(self.properties) } }
open spec fn dec(h: FixedHeader, w: Seq<u8>, ver: u8) -> Option<UnsubackPk> { d_unsuback(w, ver) }
open spec fn valid(p: UnsubackPk, ver: u8) -> bool { ok_unsuback(p, ver) }
open spec fn enc(p: UnsubackPk, ver: u8, b: Seq<u8>) -> bool { enc_unsuback(p, ver, b) }
open spec fn big(p: UnsubackPk, ver: u8) -> bool { big_unsuback(p, ver) }

@fn unsuback::UnsubackPacket::Packet::encode
@body_start
hide(confirmation_blk);
hide(e_var);
hide(e_str);
broadcast use bits;
let ghost ver = $1;
@before 0 let mut writer = MqttWriter
let ghost blk = choose|b: Seq<u8>| #[trigger] confirmation_blk(self.pk().props, ver, b) && psplit(b, props_len@, properties_data@);
@before 0 writer . write_remaining_length
proof { reveal(e_str); assert(blk.len() > MAXVAR || length == b_unsuback(self.pk(), ver, blk).len()); }
@before 0 Ok ( writer . into_vec ( ) )
proof {
    let p = self.pk();
    assert(writer.buf@ =~= frame(176, b_unsuback(self.pk(), ver, blk)));
}
@before_loop 0
let ghost b0 = writer.buf@;
@loop 0 it
invariant
    it.seq().len() == self.granted@.len(),
    forall|z: int| 0 <= z < it.seq().len() ==> *(#[trigger] it.seq()[z]) == self.granted@[z],
    writer.buf@ == b0 + e_unsub(self.granted@).take(it.index@ as int),
@loop_end 0
proof { assert(writer.buf@ =~= b0 + e_unsub(self.granted@).take(it.index@ as int + 1)); }
@after_loop 0
proof { assert(e_unsub(self.granted@).take(self.granted@.len() as int) =~= e_unsub(self.granted@)); }

@item subscribe::SubscribePacket::Packet
@members
type Pk = SubscribePk;
open spec fn pk(&self) -> SubscribePk { SubscribePk { message_id: self.message_id, props: opv(self.properties), subs: v_subs(self.subscriptions@) } }
open spec fn dec(h: FixedHeader, w: Seq<u8>, ver: u8) -> Option<SubscribePk> { d_subscribe(w, ver) }
open spec fn valid(p: SubscribePk, ver: u8) -> bool { ok_subscribe(p, ver) }
open spec fn enc(p: SubscribePk, ver: u8, b: Seq<u8>) -> bool { enc_subscribe(p, ver, b) }
open spec fn big(p: SubscribePk, ver: u8) -> bool { big_subscribe(p, ver) }

@fn subscribe::SubscribePacket::Packet::encode
@body_start
hide(subscribe_blk);
hide(e_var);
hide(e_str);
broadcast use bits;
let ghost ver = $1;
let ghost vs = v_subs(self.subscriptions@);
proof { axiom_mem_subs(&self.subscriptions, ver); lemma_subs_take(vs, ver, 0); }
@before 0 let mut writer = MqttWriter
let ghost blk = choose|b: Seq<u8>| #[trigger] subscribe_blk(self.pk().props, ver, b) && psplit(b, props_len@, properties_data@);
@before 0 writer . write_remaining_length
proof { reveal(e_str); assert(blk.len() > MAXVAR || length == b_subscribe(self.pk(), ver, blk).len()); }
@before 0 Ok ( writer . into_vec ( ) )
proof {
    let p = self.pk();
    assert(writer.buf@ =~= frame(130, b_subscribe(self.pk(), ver, blk)));
}
@loop 0 it
invariant
    it.seq().len() == self.subscriptions@.len(),
    vs == v_subs(self.subscriptions@), ver == $1,
    forall|z: int| 0 <= z < it.seq().len() ==> *(#[trigger] it.seq()[z]) == self.subscriptions@[z],
    length == 2 + e_subs(vs.take(it.index@ as int), ver).len(),
    e_subs(vs, ver).len() < 0x2_0000_0000_0000,
    forall|z: int| 0 <= z < it.index@ ==> sub_pre(#[trigger] vs[z], ver),
@loop_start 0
let ghost i = it.index@ as int;
proof { reveal(e_str); assert(*sub == self.subscriptions@[i]); assert(vs[i] == v_sub(*sub)); lemma_subs_take(vs, ver, i); lemma_subs_take(vs, ver, i + 1); if !sub_pre(vs[i], ver) { assert(!ok_sub(vs[i], ver)); assert(!ok_subscribe(self.pk(), ver)); } }
@before_loop 1
let ghost b0 = writer.buf@;
proof { lemma_subs_take(vs, ver, 0); assert(b0 =~= b0 + e_subs(vs.take(0), ver)); }
@loop 1 it
invariant
    it.seq().len() == self.subscriptions@.len(),
    vs == v_subs(self.subscriptions@), ver == $1,
    forall|z: int| 0 <= z < it.seq().len() ==> *(#[trigger] it.seq()[z]) == self.subscriptions@[z],
    writer.buf@ == b0 + e_subs(vs.take(it.index@ as int), ver),
    forall|z: int| 0 <= z < vs.len() ==> sub_pre(#[trigger] vs[z], ver),
    forall|z: int| 0 <= z < it.index@ ==> ok_sub(#[trigger] vs[z], ver),
@loop_start 1
let ghost i = it.index@ as int;
proof { assert(*sub == self.subscriptions@[i]); assert(vs[i] == v_sub(*sub)); lemma_subs_take(vs, ver, i); assert(sub_pre(vs[i], ver)); if !ok_sub(vs[i], ver) { assert(!ok_subscribe(self.pk(), ver)); } }
@loop_end 1
proof { assert(writer.buf@ =~= b0 + e_subs(vs.take(i + 1), ver)); }
@after_loop 1
proof { lemma_subs_take(vs, ver, 0); }

@item unsubscribe::UnsubscribePacket::Packet
@members
type Pk = UnsubscribePk;
open spec fn pk(&self) -> UnsubscribePk { UnsubscribePk { message_id: self.message_id, props: opv(self.properties), topics: v_strs(self.unsubscriptions@) } }
open spec fn dec(h: FixedHeader, w: Seq<u8>, ver: u8) -> Option<UnsubscribePk> { d_unsubscribe(w, ver) }
open spec fn valid(p: UnsubscribePk, ver: u8) -> bool { ok_unsubscribe(p, ver) }
open spec fn enc(p: UnsubscribePk, ver: u8, b: Seq<u8>) -> bool { enc_unsubscribe(p, ver, b) }
open spec fn big(p: UnsubscribePk, ver: u8) -> bool { big_unsubscribe(p, ver) }

@fn unsubscribe::UnsubscribePacket::Packet::encode
@body_start
hide(unsubscribe_blk);
hide(e_var);
hide(e_str);
broadcast use bits;
let ghost ver = $1;
let ghost vs = v_strs(self.unsubscriptions@);
proof { axiom_mem_strs(&self.unsubscriptions); lemma_strs_take(vs, 0); }
@before 0 let mut writer = MqttWriter
let ghost blk = choose|b: Seq<u8>| #[trigger] unsubscribe_blk(self.pk().props, ver, b) && psplit(b, props_len@, properties_data@);
@before 0 writer . write_remaining_length
proof { reveal(e_str); assert(blk.len() > MAXVAR || length == b_unsubscribe(self.pk(), blk).len()); }
@before 0 Ok ( writer . into_vec ( ) )
proof {
    let p = self.pk();
    assert(writer.buf@ =~= frame(162, b_unsubscribe(self.pk(), blk)));
}
@loop 0
invariant
    __it.seq().len() == self.unsubscriptions@.len(),
    vs == v_strs(self.unsubscriptions@),
    forall|z: int| 0 <= z < __it.seq().len() ==> *(#[trigger] __it.seq()[z]) == self.unsubscriptions@[z],
    acc == e_strs(vs.take(__it.index@ as int)).len(),
    e_strs(vs).len() < 0x2_0000_0000_0000,
@loop_start 0
proof { let i = __it.index@ as int; assert(*unsub == self.unsubscriptions@[i]); assert(vs[i] == sb(unsub@)); lemma_strs_take(vs, i); lemma_strs_take(vs, i + 1); reveal(e_str); }
@after_loop 0
proof { lemma_strs_take(vs, 0); }
@before_loop 1
let ghost b0 = writer.buf@;
proof { lemma_strs_take(vs, 0); assert(b0 =~= b0 + e_strs(vs.take(0))); }
@loop 1 it
invariant
    it.seq().len() == self.unsubscriptions@.len(),
    vs == v_strs(self.unsubscriptions@),
    forall|z: int| 0 <= z < it.seq().len() ==> *(#[trigger] it.seq()[z]) == self.unsubscriptions@[z],
    writer.buf@ == b0 + e_strs(vs.take(it.index@ as int)),
    forall|z: int| 0 <= z < it.index@ ==> (#[trigger] vs[z]).len() <= 65535,
@loop_start 1
let ghost i = it.index@ as int;
proof { assert(*unsub == self.unsubscriptions@[i]); assert(vs[i] == sb(unsub@)); lemma_strs_take(vs, i); if vs[i].len() > 65535 { assert(!ok_unsubscribe(self.pk(), ver)); } }
@loop_end 1
proof { assert(writer.buf@ =~= b0 + e_strs(vs.take(i + 1))); }
@after_loop 1
proof { lemma_strs_take(vs, 0); }

@item structure::PingreqPacket::Packet
@members
type Pk = ();
open spec fn pk(&self) -> () { () }
open spec fn dec(h: FixedHeader, w: Seq<u8>, ver: u8) -> Option<()> { Some(()) }
open spec fn valid(p: (), ver: u8) -> bool { true }
open spec fn enc(p: (), ver: u8, b: Seq<u8>) -> bool { b =~= seq![192u8, 0u8] }
open spec fn big(p: (), ver: u8) -> bool { false }

@item structure::PingrespPacket::Packet
@members
type Pk = ();
open spec fn pk(&self) -> () { () }
open spec fn dec(h: FixedHeader, w: Seq<u8>, ver: u8) -> Option<()> { Some(()) }
open spec fn valid(p: (), ver: u8) -> bool { true }
open spec fn enc(p: (), ver: u8, b: Seq<u8>) -> bool { b =~= seq![208u8, 0u8] }
open spec fn big(p: (), ver: u8) -> bool { false }

@fn publish::PublishPacket::Packet::decode
@body_start
proof { lemma_win_avail(*$1); }

@fn connack::ConnackPacket::Packet::decode
@body_start
proof { lemma_win_avail(*$1); }

@fn disconnect::DisconnectPacket::Packet::decode
@body_start
proof { lemma_win_avail(*$1); }

@fn auth::AuthPacket::Packet::decode
@body_start
proof { lemma_win_avail(*$1); }

@fn confirmation::ConfirmationPacket::Packet::decode
@body_start
proof { lemma_win_avail(*$1); }

@fn suback::SubackPacket::Packet::decode
@body_start
proof { lemma_win_avail(*$1); }
@attr
#[verifier::spinoff_prover]
#[verifier::loop_isolation(false)]
@before_loop 0
let ghost st0 = *$1;
let ghost w0 = st0.win();
let ghost p0 = packet;
proof { lemma_rest0(w0); }
@loop 0
invariant
    moved(st0, *$1),
    failed(*old($1), *$1),
    st0.curr_limit is Some,
    packet.message_id == p0.message_id, packet.properties == p0.properties,
    codes_at($1.win(), w0, if $4 == 5 { packet.granted_reason_codes@.len() } else { packet.granted@.len() }),
    $4 == 5 ==> packet.granted@.len() == 0 && src_upto(w0, packet.granted_reason_codes@),
    $4 != 5 ==> packet.granted_reason_codes@.len() == 0 && granted_upto(w0, packet.granted@),
decreases $1.curr_limit->0
@loop_start 0
proof { lemma_win_avail(*$1); }
let ghost w1 = $1.win();
proof { lemma_codes_at(w1, w0, (if $4 == 5 { packet.granted_reason_codes@.len() } else { packet.granted@.len() }) as nat); }
@after_loop 0
proof {
    lemma_win_avail(*$1);
    if $4 == 5 { assert(packet.granted_reason_codes@ =~= src_of(w0)); assert(packet.granted@ =~= Seq::empty()); }
    else { assert(packet.granted@ =~= granted_of(w0)); assert(packet.granted_reason_codes@ =~= Seq::empty()); }
}

@fn unsuback::UnsubackPacket::Packet::decode
@body_start
proof { lemma_win_avail(*$1); }
@attr
#[verifier::spinoff_prover]
#[verifier::loop_isolation(false)]
@before_loop 0
let ghost st0 = *$1;
let ghost w0 = st0.win();
let ghost p0 = packet;
proof { lemma_rest0(w0); }
@loop 0
invariant
    moved(st0, *$1),
    failed(*old($1), *$1),
    st0.curr_limit is Some,
    packet.message_id == p0.message_id, packet.properties == p0.properties,
    codes_at($1.win(), w0, packet.granted@.len()),
    unsub_upto(w0, packet.granted@),
decreases $1.curr_limit->0
@loop_start 0
proof { lemma_win_avail(*$1); }
let ghost w1 = $1.win();
proof { lemma_codes_at(w1, w0, packet.granted@.len()); }
@after_loop 0
proof { lemma_win_avail(*$1); assert(packet.granted@ =~= unsub_of(w0)); }
@before 0 Ok ( packet )
proof { if $4 != 5 { assert(packet.granted@ =~= Seq::empty()); } }

@fn subscribe::SubscribePacket::Packet::decode
@body_start
hide(d_subs);
hide(v_subs);
proof { lemma_win_avail(*$1); }
@attr
#[verifier::spinoff_prover]
@before_loop 0
let ghost st0 = *$1;
let ghost w0 = st0.win();
let ghost p0 = packet;
proof { lemma_rest0(w0); lemma_subs_start(w0, $4, packet.subscriptions@); }
@loop 0
invariant
    old($1).wf(), old($1).curr_limit is Some,
    moved(*old($1), st0), moved(st0, *$1),
    w0 == st0.win(),
    packet.message_id == p0.message_id, packet.properties == p0.properties,
    old($1).avail() ==> d_subscribe(old($1).win(), $4) == (match d_subs(w0, $4) { None => None, Some(subs) => Some(SubscribePk { message_id: p0.message_id, props: opv(p0.properties), subs }) }),
    d_subs(w0, $4) == catv(v_subs(packet.subscriptions@), d_subs($1.win(), $4)),
decreases $1.curr_limit->0
@loop_start 0
proof { lemma_win_avail(*$1); }
let ghost w1 = $1.win();
proof { lemma_subs_none(w1, $4); }
let ghost l0 = packet.subscriptions@;
@loop_end 0
proof { assert(packet.subscriptions@ =~= l0.push(packet.subscriptions@.last())); lemma_subs_step(w1, $1.win(), $4, l0, packet.subscriptions@); }
@after_loop 0
proof { lemma_win_avail(*$1); lemma_subs_end($1.win(), $4, packet.subscriptions@); }

@fn unsubscribe::UnsubscribePacket::Packet::decode
@body_start
hide(d_strs);
hide(v_strs);
proof { lemma_win_avail(*$1); }
@attr
#[verifier::spinoff_prover]
#[verifier::loop_isolation(false)]
@before_loop 0
let ghost st0 = *$1;
let ghost w0 = st0.win();
let ghost p0 = packet;
proof { lemma_rest0(w0); lemma_strs_start(w0, packet.unsubscriptions@); }
@loop 0
invariant
    moved(st0, *$1),
    failed(*old($1), *$1),
    st0.curr_limit is Some,
    packet.message_id == p0.message_id, packet.properties == p0.properties,
    d_strs(w0) == catv(v_strs(packet.unsubscriptions@), d_strs($1.win())),
decreases $1.curr_limit->0
@loop_start 0
proof { lemma_win_avail(*$1); }
let ghost w1 = $1.win();
proof { lemma_strs_none(w1); }
let ghost l0 = packet.unsubscriptions@;
@loop_end 0
proof { assert(packet.unsubscriptions@ =~= l0.push(packet.unsubscriptions@.last())); lemma_strs_step(w1, $1.win(), l0, packet.unsubscriptions@); }
@after_loop 0
proof { lemma_win_avail(*$1); lemma_strs_end($1.win(), packet.unsubscriptions@); }

@fn structure::ConnackPacket::Default::default
ensures r == (ConnackPacket { return_code: None, reason_code: None, session_present: false, properties: None })

@fn connect::ConnectFlags::new
ensures r == cflags($1)

@fn connect::ConnectFlags::from_byte
ensures
    match r {
        Ok(v) => cflags_ok($1) && v.0 == cflags($1) && (match v.1 {
            Some(w) => v.0.will && v_will(w) == (WillPk { topic: None, payload: None, qos: v.0.will_qos, retain: v.0.will_retain, props: None }),
            None => !v.0.will,
        }),
        Err(_) => !cflags_ok($1),
    }

@fn connect::ConnectPacket::Packet::decode
@attr
#[verifier::spinoff_prover]
@attr
#[verifier::rlimit(90)]
@body_start
hide(p_str);
hide(p_u8);
hide(p_u16);
hide(ByteReader::<_>::win);
hide(ByteReader::<_>::after);
hide(ByteReader::<_>::avail);
hide(proto_of);
hide(cflags_ok);
hide(cflags);
@before 0 if ! reader . has_more
proof {
    assert(reader.avail() && reader.curr_limit == Some(0u32) ==> p_u8(reader.win()) is None) by { reveal(ByteReader::<_>::avail); reveal(p_u8); lemma_win_avail(*reader); }
}

@fn connect::ConnectPacket::Packet::encode
@attr
#[verifier::spinoff_prover]
@attr
#[verifier::rlimit(90)]
@body_start
hide(connect_blk);
hide(will_blk);
hide(e_var);
hide(e_str);
hide(psplit);
hide(connect_fits);
hide(will_fits);
hide(enc_connect);
hide(big_connect);
hide(b_connect);
hide(e_cflags);
hide(ok_connect);
hide(frame);
hide(e_will);
hide(e_ostr);
hide(wblk);
hide(e16);
hide(proto_name);
proof { lemma_names(); }
let ghost pk = self.pk();
proof { lemma_ok_connect(pk); }
@before 0 let mut writer = MqttWriter
let ghost ver = pk.version;
let ghost blk = choose|b: Seq<u8>| #[trigger] connect_blk(pk.props, ver, b) && psplit(b, props_len@, properties_data@);
let ghost wb = if pk.will is Some && ver == 5 { choose|b: Seq<u8>| #[trigger] will_blk(pk.will->0.props, ver, b) && psplit(b, will_props_len@, will_properties@) } else { Seq::empty() };
let ghost wt = sb(will_topic@);
let ghost wp = sb(will_payload@);
proof {
    reveal_strlit("");
    assert(sb(""@) =~= Seq::<u8>::empty());
    if pk.will is Some { lemma_will_blk0(pk.will->0.props, ver); }
    assert(psplit(wb, will_props_len@, will_properties@)) by { reveal(psplit); }
    assert(wblk(pk.will, ver, wb)) by { reveal(wblk); }
    lemma_b_connect(pk, blk, wb);
}
let ghost body = b_connect(pk, blk, wb);
proof {
    assert(blk.len() > MAXVAR || wb.len() > MAXVAR || length == body.len()) by { reveal(psplit); }
    assert(body.len() > MAXVAR ==> big_connect(pk)) by { reveal(big_connect); }
    assert(e_cflags(pk) == flag(has_username, 128) + flag(has_password, 64) + flag(will_retain, 32) + 8 * (match will_qos { Some(q) => *q as int, None => 0 }) + flag(has_will, 4) + flag(*clean_session, 2)) by { reveal(e_cflags); }
}
let ghost hd = e_str(proto_name(pk.proto)) + seq![pk.version] + seq![e_cflags(pk) as u8] + e16(pk.keep_alive as int);
@isolate 0 let mut writer = MqttWriter
invariant
    pk == self.pk(),
    *protocol_id == pk.proto, protocol_version == pk.version, *keep_alive == pk.keep_alive,
    sb(client_id@) == pk.client_id, osb(*user_name) == pk.user, osb(*password) == pk.pass,
    // all that may still be wrong is the length of a string
    3 <= pk.version <= 5,
    pk.client_id.len() == 0 ==> pk.version >= 4 && pk.clean,
    pk.pass is Some ==> pk.user is Some,
    connect_can(pk.props, pk.version),
    has_will == (pk.will is Some),
    has_will ==> pk.will->0.topic == Some(wt) && wt.len() > 0 && pk.will->0.qos <= 2 && will_can(pk.will->0.props, pk.version),
    has_will ==> wp == (match pk.will->0.payload { Some(t) => t, None => Seq::empty() }),
    wt == sb(will_topic@), wp == sb(will_payload@),
    has_username == (pk.user is Some), has_password == (pk.pass is Some),
    will_qos matches Some(q) ==> *q <= 2,
    e_cflags(pk) == flag(has_username, 128) + flag(has_password, 64) + flag(will_retain, 32) + 8 * (match will_qos { Some(q) => *q as int, None => 0 }) + flag(has_will, 4) + flag(*clean_session, 2),
    // the two property blocks
    blk.len() > MAXVAR || wb.len() > MAXVAR || length == body.len(),
    blk.len() > MAXVAR || wb.len() > MAXVAR ==> body.len() > MAXVAR,
    length >= properties_data@.len() + props_len@.len() && length >= will_properties@.len() + will_props_len@.len(),
    connect_blk(pk.props, pk.version, blk), wblk(pk.will, pk.version, wb),
    psplit(blk, props_len@, properties_data@), psplit(wb, will_props_len@, will_properties@),
    pk.will is None || pk.version != 5 ==> wb.len() == 0,
    body == b_connect(pk, blk, wb),
    body.len() > MAXVAR ==> big_connect(pk),
    hd == e_str(proto_name(pk.proto)) + seq![pk.version] + seq![e_cflags(pk) as u8] + e16(pk.keep_alive as int),
@after 0 writer . write_remaining_length ( length ) ? ;
let ghost b0 = writer.buf@;
proof {
    lemma_names();
    assert(b0 =~= seq![16u8] + e_var(length as int));
    assert(properties_data@.len() > 0 || props_len@.len() == 0 || props_len@ =~= seq![0u8]) by { reveal(psplit); }
    assert(will_properties@.len() > 0 || will_props_len@.len() == 0 || will_props_len@ =~= seq![0u8]) by { reveal(psplit); }
    assert(blk == props_len@ + properties_data@) by { reveal(psplit); }
    assert(wb == will_props_len@ + will_properties@) by { reveal(psplit); }
    assert(length == body.len());
}
@before 0 writer . write_u16 ( * keep_alive ) ;
let ghost fb = writer.buf@.last();
proof { assert(fb == e_cflags(pk) as u8) by { broadcast use {bv_or6, bv26, bv27}; } }
@after 0 writer . write_u16 ( * keep_alive ) ;
proof {
    assert(writer.buf@ =~= b0 + hd) by { reveal(e_str); reveal(e16); reveal(proto_name); }
}
@isolate 0 writer . write_sized ( & properties_data
invariant
    pk == self.pk(), protocol_version == pk.version,
    sb(client_id@) == pk.client_id, osb(*user_name) == pk.user, osb(*password) == pk.pass,
    3 <= pk.version <= 5,
    pk.client_id.len() == 0 ==> pk.version >= 4 && pk.clean,
    pk.pass is Some ==> pk.user is Some,
    connect_can(pk.props, pk.version),
    has_will == (pk.will is Some),
    has_will ==> pk.will->0.topic == Some(wt) && wt.len() > 0 && pk.will->0.qos <= 2 && will_can(pk.will->0.props, pk.version),
    has_will ==> wp == (match pk.will->0.payload { Some(t) => t, None => Seq::empty() }),
    wt == sb(will_topic@), wp == sb(will_payload@),
    properties_data@.len() > 0 || props_len@.len() == 0 || props_len@ =~= seq![0u8],
    will_properties@.len() > 0 || will_props_len@.len() == 0 || will_props_len@ =~= seq![0u8],
    blk == props_len@ + properties_data@,
    wb == will_props_len@ + will_properties@,
    pk.will is None || pk.version != 5 ==> wb.len() == 0,
    body == b_connect(pk, blk, wb), body.len() <= MAXVAR,
    connect_blk(pk.props, pk.version, blk), wblk(pk.will, pk.version, wb),
    hd == e_str(proto_name(pk.proto)) + seq![pk.version] + seq![e_cflags(pk) as u8] + e16(pk.keep_alive as int),
    b0 == seq![16u8] + e_var(body.len() as int),
    writer.buf@ == b0 + hd,
@before 0 writer . write_sized ( & properties_data
proof { lemma_ok_connect(pk); }
@after 0 writer . write_utf8_str ( client_id ) ? ;
let ghost s1 = hd + blk + e_str(pk.client_id);
proof { assert(writer.buf@ =~= b0 + s1); }
@before 0 if let Some ( u ) = user_name
let ghost s2 = s1 + e_will(pk.will, wb);
proof { assert(writer.buf@ =~= b0 + s2) by { reveal(e_will); } }
@before 0 if let Some ( p ) = password
let ghost s3 = s2 + e_ostr(pk.user);
proof { assert(writer.buf@ =~= b0 + s3) by { reveal(e_ostr); } }
@before 0 Ok ( writer . into_vec ( ) )
proof {
    assert(writer.buf@ =~= b0 + (s3 + e_ostr(pk.pass))) by { reveal(e_ostr); }
    assert(body == s3 + e_ostr(pk.pass)) by { reveal(b_connect); }
    assert(writer.buf@ =~= frame(16, body)) by { reveal(frame); }
    assert(enc_connect(pk, writer.buf@)) by { reveal(enc_connect); }
}

@fn confirmation::ConfirmationPacket::with_message_id
ensures r.pk() == (ConfirmPk { cmd: $1, message_id: $2, puback: None, pubcomp: None, props: None })

@fn confirmation::ConfirmationPacket::puback_v5_builder
ensures r.pk() == (ConfirmPk { cmd: $1, message_id: $2, puback: Some($3), pubcomp: None, props: opv($4) })

@fn confirmation::ConfirmationPacket::pubcomp_v5_builder
ensures r.pk() == (ConfirmPk { cmd: $1, message_id: $2, puback: None, pubcomp: Some($3), props: opv($4) })

@fn confirmation::ConfirmationPacket::puback_v3
ensures r.pk() == (ConfirmPk { cmd: PacketType::Puback, message_id: $1, puback: None, pubcomp: None, props: None })

@fn confirmation::ConfirmationPacket::puback_v5
ensures r.pk() == (ConfirmPk { cmd: PacketType::Puback, message_id: $1, puback: Some($2), pubcomp: None, props: opv($3) })

@fn confirmation::ConfirmationPacket::pubrec_v3
ensures r.pk() == (ConfirmPk { cmd: PacketType::Pubrec, message_id: $1, puback: None, pubcomp: None, props: None })

@fn confirmation::ConfirmationPacket::pubrec_v5
ensures r.pk() == (ConfirmPk { cmd: PacketType::Pubrec, message_id: $1, puback: Some($2), pubcomp: None, props: opv($3) })

@fn confirmation::ConfirmationPacket::pubrel_v3
ensures r.pk() == (ConfirmPk { cmd: PacketType::Pubrel, message_id: $1, puback: None, pubcomp: None, props: None })

@fn confirmation::ConfirmationPacket::pubrel_v5
ensures r.pk() == (ConfirmPk { cmd: PacketType::Pubrel, message_id: $1, puback: None, pubcomp: Some($2), props: opv($3) })

@fn confirmation::ConfirmationPacket::pubcomp_v3
ensures r.pk() == (ConfirmPk { cmd: PacketType::Pubcomp, message_id: $1, puback: None, pubcomp: None, props: None })

@fn confirmation::ConfirmationPacket::pubcomp_v5
ensures r.pk() == (ConfirmPk { cmd: PacketType::Pubcomp, message_id: $1, puback: None, pubcomp: Some($2), props: opv($3) })

@fn suback::SubackPacket::new_v3
ensures r.pk() == (SubackPk { message_id: $1, props: None, codes: Seq::empty(), granted: $2@ })
@body_start
proof { assert(Seq::<SubscriptionReasonCode>::empty() =~= Seq::<SubscriptionReasonCode>::empty()); }


@fn packet::MqttPacket::encode
ensures
    match r {
        Ok(b) => ok_any(v_any(self), $1) && enc_any(v_any(self), $1, b@),
        Err(_) => !ok_any(v_any(self), $1) || big_any(v_any(self), $1),
    }

@fn packet::PacketDecoder::new
ensures r.reader == $1

@fn packet::PacketDecoder::from_stream
ensures r.reader.clear()

@fn packet::PacketDecoder::from_bufreader
ensures r.reader.clear(), r.reader.stream() == stream(&$1)

@fn packet::PacketDecoder::has_more
requires old(self).reader.clear()
ensures
    final(self).reader.clear(),
    r == (old(self).reader.stream().len() > 0) || (!r && interrupts(&old(self).reader.reader)),
    r ==> final(self).reader.stream() == old(self).reader.stream(),

@fn packet::PacketDecoder::decode_by_type
requires old(self).reader.wf(), old(self).reader.curr_limit == Some($2)
ensures
    match r {
        Ok(p) => moved(old(self).reader, final(self).reader) && (old(self).reader.avail() ==> d_any($1, old(self).reader.win(), $3) == Some(v_any(p))),
        Err(_) => failed(old(self).reader, final(self).reader) && (old(self).reader.avail() ==> d_any($1, old(self).reader.win(), $3) is None),
    }

@fn packet::PacketDecoder::decode_packet
requires old(self).reader.clear()
ensures
    final(self).reader.clear(),
    match p_frame(old(self).reader.stream()) {
        // not a whole packet
        None => r is Err,
        // the next packet starts right behind this one, whatever is in it
        Some(f) => final(self).reader.stream() == f.tail && (match r {
            Ok(p) => hdr(f.first as int) matches Some(h) && d_any(h, f.body, $1) == Some(v_any(p)),
            Err(_) => hdr(f.first as int) matches Some(h) ==> d_any(h, f.body, $1) is None,
        }),
    }

