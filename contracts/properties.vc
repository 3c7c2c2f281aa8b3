#! generated by tools/genprops.py
@item structure::properties::Properties
@members
type V;
spec fn v(&self) -> Self::V;
spec fn of(b: Bag) -> Self::V;
spec fn known(b: Bag) -> bool;
spec fn ov(o: Option<&Self>) -> Option<Self::V>;
proof fn law_ov(o: Option<&Self>)
    ensures Self::ov(o) == (match o { Some(p) => Some(p.v()), None => None });
spec fn blk(o: Option<Self::V>, ver: u8, b: Seq<u8>) -> bool;
spec fn norm(v: Self::V) -> Self::V;
spec fn fits(v: Self::V) -> bool;
proof fn law(b: Bag)
    ensures Self::of(nbag(b)) == Self::norm(Self::of(b)), bag_ok(nbag(b)) ==> Self::fits(Self::of(b)),
        Self::known(b) ==> Self::known(nbag(b)), Self::known(bag0());
proof fn law_blk(o: Option<Self::V>, ver: u8, ps: Seq<(u8, PV)>)
    ensures
        ver == 5 && pwritten(ps) && Self::known(bagof(ps)) && Self::of(bagof(ps)) == Self::norm(match o { Some(v) => v, None => Self::of(bag0()) }) ==> Self::blk(o, ver, e_block(ps)),
        ver != 5 ==> Self::blk(o, ver, Seq::empty());

@fn structure::properties::Properties::to_pairs
ensures
    match r {
        Ok(l) => wlist(pvs(l@)) && Self::of(bagof(pvs(l@))) == self.v() && Self::known(bagof(pvs(l@)))
            && (Self::fits(self.v()) ==> wlist_ok(pvs(l@))),
        Err(_) => !Self::fits(self.v()),
    }

@fn structure::properties::Properties::from_properties
requires dlist($1@, false)
ensures
    match r {
        Ok(p) => p.v() == Self::of(bagof(pvs($1@))) && Self::known(bagof(pvs($1@))),
        Err(_) => !Self::known(bagof(pvs($1@))),
    }

@fn structure::properties::Properties::encode
ensures
    match r {
        Ok(b) => exists|ps: Seq<(u8, PV)>| b@ == #[trigger] e_props(ps) && pwritten(ps) && Self::known(bagof(ps)) && Self::of(bagof(ps)) == Self::norm(self.v())
            && Self::fits(self.v()),
        Err(_) => !Self::fits(self.v()),
    }

@body_start
hide(e_props);
hide(kind);
hide(bagof);
hide(props_ok);
hide(uniq);
hide(written);
hide(bag_ok);
hide(nbag);
hide(wlist);
hide(wlist_ok);
broadcast use {lemma_written, lemma_wnil};
proof { lemma_eprops_empty(); Self::law(bag0()); }
@after 0 self . to_pairs ( ) ? ;
proof { Self::law(bagof(pvs(pairs@))); }

@fn structure::properties::Properties::encode_option
ensures
    match r {
        Ok(x) => (exists|b: Seq<u8>| #[trigger] Self::blk(Self::ov($1), $2, b) && psplit(b, x.0@, x.1@))
            && ($2 == 5 ==> ($1 matches Some(p) ==> Self::fits(p.v()))),
        Err(_) => $2 == 5 && ($1 matches Some(p) && !Self::fits(p.v())),
    }
@body_start
hide(e_props);
hide(e_var);
hide(props_ok);
hide(uniq);
hide(bagof);
hide(e_block);
broadcast use {lemma_eprops_nil, lemma_psplit, lemma_psplit0, lemma_psplit1};
proof {
    lemma_eprops_empty();
    Self::law(bag0());
    let o = Self::ov($1);
    Self::law_ov($1);
    Self::law_blk(o, $2, Seq::empty());
    assert forall|ps: Seq<(u8, PV)>| #![trigger e_props(ps)] $2 == 5 && pwritten(ps) && Self::known(bagof(ps)) && Self::of(bagof(ps)) == Self::norm(match o { Some(v) => v, None => Self::of(bag0()) }) implies Self::blk(o, $2, e_block(ps)) by { Self::law_blk(o, $2, ps); }
}

@item structure::properties::AuthProperties::Properties
@members
type V = AuthV;
open spec fn v(&self) -> AuthV { AuthV { authentication_method: sb(self.authentication_method@), authentication_data: osb(self.authentication_data), reason_string: osb(self.reason_string), user: umv(self.user_properties@) } }
open spec fn of(b: Bag) -> AuthV { auth_of(b) }
open spec fn norm(v: AuthV) -> AuthV { auth_norm(v) }
open spec fn fits(v: AuthV) -> bool { auth_fits(v) }
proof fn law(b: Bag) { lemma_auth_of(b); }
open spec fn known(b: Bag) -> bool { auth_known(b) }
open spec fn ov(o: Option<&Self>) -> Option<AuthV> { match o { Some(p) => Some(p.v()), None => None } }
proof fn law_ov(o: Option<&Self>) {}
open spec fn blk(o: Option<AuthV>, ver: u8, b: Seq<u8>) -> bool { auth_blk(o, ver, b) }
proof fn law_blk(o: Option<AuthV>, ver: u8, ps: Seq<(u8, PV)>) {}

@fn structure::properties::AuthProperties::Properties::from_properties
@body_start
hide(kind);
hide(auth_of);
hide(bb);
hide(auth_known);
let ghost l0 = $1@;
proof { lemma_bb_start(l0); reveal(auth_of); reveal(auth_known); }
@before_loop 0
@loop 0 it
invariant
    it.seq() == l0, dlist(l0, false),
    (AuthV { authentication_method: sb(authentication_method@), authentication_data: osb(authentication_data), reason_string: osb(reason_string), user: umv(user_properties@) }) == auth_of(bb(l0, it.index@ as int)),
    auth_known(bb(l0, it.index@ as int)),
@loop_start 0
proof { lemma_bb_step(l0, it.index@ as int); lemma_auth_step(bb(l0, it.index@ as int), (l0[it.index@ as int].0, pv(l0[it.index@ as int].1))); reveal(kind); if !(l0[it.index@ as int].1 is Map) && !auth_has(l0[it.index@ as int].0) { reveal(auth_known); } }
@after_loop 0
proof { lemma_bb_end(l0); }

@fn structure::properties::AuthProperties::Properties::to_pairs
@attr
#[verifier::spinoff_prover]
@body_start
hide(auth_acc);
hide(kind);
hide(bagof);
hide(ids);
hide(wlist);
hide(wlist_ok);
hide(um_ok);
hide(um_fits);
hide(umv);
hide(str_of);
hide(pvs);
hide(bv);
hide(ext1);
hide(ext_pv);
hide(auth_of);
broadcast use {lemma_ext_same, lemma_ext_push, lemma_epv_same, lemma_epv_push, lemma_kinds, lemma_um_fits_ok, lemma_umv_empty, lemma_umv_clone, lemma_sb_valid, vstd::std_specs::hash::group_hash_axioms, axiom_string_key, lemma_auth_nil, lemma_auth_all};
let ghost mut __ii = Set::<u8>::empty();
@before_push_stmt
let ghost __s = $X@;
@after_push_stmt
proof { lemma_auth_acc(__s, $X@, self.v(), __ii, $ID); __ii = __ii.insert($ID); }

@item structure::properties::PublishProperties::Properties
@members
type V = PublishV;
open spec fn v(&self) -> PublishV { PublishV { payload_format_indicator: self.payload_format_indicator, message_expiry_interval: self.message_expiry_interval, content_type: osb(self.content_type), response_topic: osb(self.response_topic), correlation_data: self.correlation_data@, subscription_identifiers: self.subscription_identifiers@, topic_alias: self.topic_alias, user: umv(self.user_properties@) } }
open spec fn of(b: Bag) -> PublishV { publish_of(b) }
open spec fn norm(v: PublishV) -> PublishV { publish_norm(v) }
open spec fn fits(v: PublishV) -> bool { publish_fits(v) }
proof fn law(b: Bag) { lemma_publish_of(b); }
open spec fn known(b: Bag) -> bool { publish_known(b) }
open spec fn ov(o: Option<&Self>) -> Option<PublishV> { match o { Some(p) => Some(p.v()), None => None } }
proof fn law_ov(o: Option<&Self>) {}
open spec fn blk(o: Option<PublishV>, ver: u8, b: Seq<u8>) -> bool { publish_blk(o, ver, b) }
proof fn law_blk(o: Option<PublishV>, ver: u8, ps: Seq<(u8, PV)>) {}

@fn structure::properties::PublishProperties::Properties::from_properties
@body_start
hide(kind);
hide(publish_of);
hide(bb);
hide(publish_known);
let ghost l0 = $1@;
proof { lemma_bb_start(l0); reveal(publish_of); reveal(publish_known); }
@before_loop 0
@loop 0 it
invariant
    it.seq() == l0, dlist(l0, false),
    (PublishV { payload_format_indicator: payload_format_indicator, message_expiry_interval: message_expiry_interval, content_type: osb(content_type), response_topic: osb(response_topic), correlation_data: correlation_data@, subscription_identifiers: subscription_identifiers@, topic_alias: topic_alias, user: umv(user_properties@) }) == publish_of(bb(l0, it.index@ as int)),
    publish_known(bb(l0, it.index@ as int)),
@loop_start 0
proof { lemma_bb_step(l0, it.index@ as int); lemma_publish_step(bb(l0, it.index@ as int), (l0[it.index@ as int].0, pv(l0[it.index@ as int].1))); reveal(kind); if !(l0[it.index@ as int].1 is Map) && !publish_has(l0[it.index@ as int].0) { reveal(publish_known); } }
@after_loop 0
proof { lemma_bb_end(l0); }

@fn structure::properties::PublishProperties::Properties::to_pairs
@attr
#[verifier::spinoff_prover]
@body_start
hide(publish_acc);
hide(kind);
hide(bagof);
hide(ids);
hide(wlist);
hide(wlist_ok);
hide(um_ok);
hide(um_fits);
hide(umv);
hide(str_of);
hide(pvs);
hide(bv);
hide(ext1);
hide(ext_pv);
hide(publish_of);
broadcast use {lemma_ext_same, lemma_ext_push, lemma_epv_same, lemma_epv_push, lemma_kinds, lemma_um_fits_ok, lemma_umv_empty, lemma_umv_clone, lemma_sb_valid, vstd::std_specs::hash::group_hash_axioms, axiom_string_key, lemma_publish_nil, lemma_publish_all};
let ghost mut __ii = Set::<u8>::empty();
proof { assert(self.correlation_data@.len() == 0 ==> self.correlation_data@ =~= Seq::empty()); }
proof { assert(self.subscription_identifiers@.len() == 0 ==> self.subscription_identifiers@ =~= Seq::empty()); }
@before_push_stmt
let ghost __s = $X@;
@after_push_stmt
proof { if $ID == 0x0B { lemma_publish_subs(__s, $X@, self.v(), __ii); } else { lemma_publish_acc(__s, $X@, self.v(), __ii, $ID); } __ii = __ii.insert($ID); }
@before_loop 0
let ghost l1 = out@;
let ghost sids = self.subscription_identifiers@;
@loop 0 it
invariant
    it.seq().len() == sids.len(),
    forall|i: int| 0 <= i < sids.len() ==> *(#[trigger] it.seq()[i]) == sids[i],
    sids == self.subscription_identifiers@,
    out@ == l1 + svp(sids.take(it.index@ as int)),
    forall|i: int| 0 <= i < it.index@ ==> #[trigger] sids[i] <= MAXVAR,
@loop_start 0
broadcast use {lemma_kinds};
proof { assert(sids.take(it.index@ as int + 1) =~= sids.take(it.index@ as int).push(sids[it.index@ as int])); lemma_svp(sids, it.index@ as int); assert(self.v().subscription_identifiers[it.index@ as int] > MAXVAR ==> !Self::fits(self.v())); }
@after_loop 0
proof { assert(sids.take(sids.len() as int) =~= sids); }

@item structure::properties::SubscribeProperties::Properties
@members
type V = SubscribeV;
open spec fn v(&self) -> SubscribeV { SubscribeV { subscription_identifier: self.subscription_identifier, user: umv(self.user_properties@) } }
open spec fn of(b: Bag) -> SubscribeV { subscribe_of(b) }
open spec fn norm(v: SubscribeV) -> SubscribeV { subscribe_norm(v) }
open spec fn fits(v: SubscribeV) -> bool { subscribe_fits(v) }
proof fn law(b: Bag) { lemma_subscribe_of(b); }
open spec fn known(b: Bag) -> bool { subscribe_known(b) }
open spec fn ov(o: Option<&Self>) -> Option<SubscribeV> { match o { Some(p) => Some(p.v()), None => None } }
proof fn law_ov(o: Option<&Self>) {}
open spec fn blk(o: Option<SubscribeV>, ver: u8, b: Seq<u8>) -> bool { subscribe_blk(o, ver, b) }
proof fn law_blk(o: Option<SubscribeV>, ver: u8, ps: Seq<(u8, PV)>) {}

@fn structure::properties::SubscribeProperties::Properties::from_properties
@body_start
hide(kind);
hide(subscribe_of);
hide(bb);
hide(subscribe_known);
let ghost l0 = $1@;
proof { lemma_bb_start(l0); reveal(subscribe_of); reveal(subscribe_known); }
@before_loop 0
@loop 0 it
invariant
    it.seq() == l0, dlist(l0, false),
    (SubscribeV { subscription_identifier: subscription_identifier, user: umv(user_properties@) }) == subscribe_of(bb(l0, it.index@ as int)),
    subscribe_known(bb(l0, it.index@ as int)),
@loop_start 0
proof { lemma_bb_step(l0, it.index@ as int); lemma_subscribe_step(bb(l0, it.index@ as int), (l0[it.index@ as int].0, pv(l0[it.index@ as int].1))); reveal(kind); if !(l0[it.index@ as int].1 is Map) && !subscribe_has(l0[it.index@ as int].0) { reveal(subscribe_known); } }
@after_loop 0
proof { lemma_bb_end(l0); }

@fn structure::properties::SubscribeProperties::Properties::to_pairs
@attr
#[verifier::spinoff_prover]
@body_start
hide(subscribe_acc);
hide(kind);
hide(bagof);
hide(ids);
hide(wlist);
hide(wlist_ok);
hide(um_ok);
hide(um_fits);
hide(umv);
hide(str_of);
hide(pvs);
hide(bv);
hide(ext1);
hide(ext_pv);
hide(subscribe_of);
broadcast use {lemma_ext_same, lemma_ext_push, lemma_epv_same, lemma_epv_push, lemma_kinds, lemma_um_fits_ok, lemma_umv_empty, lemma_umv_clone, lemma_sb_valid, vstd::std_specs::hash::group_hash_axioms, axiom_string_key, lemma_subscribe_nil, lemma_subscribe_all};
let ghost mut __ii = Set::<u8>::empty();
@before_push_stmt
let ghost __s = $X@;
@after_push_stmt
proof { lemma_subscribe_acc(__s, $X@, self.v(), __ii, $ID); __ii = __ii.insert($ID); }

@item structure::properties::DisconnectProperties::Properties
@members
type V = DisconnectV;
open spec fn v(&self) -> DisconnectV { DisconnectV { session_expiry_interval: self.session_expiry_interval, server_reference: osb(self.server_reference), reason_string: osb(self.reason_string), user: umv(self.user_properties@) } }
open spec fn of(b: Bag) -> DisconnectV { disconnect_of(b) }
open spec fn norm(v: DisconnectV) -> DisconnectV { disconnect_norm(v) }
open spec fn fits(v: DisconnectV) -> bool { disconnect_fits(v) }
proof fn law(b: Bag) { lemma_disconnect_of(b); }
open spec fn known(b: Bag) -> bool { disconnect_known(b) }
open spec fn ov(o: Option<&Self>) -> Option<DisconnectV> { match o { Some(p) => Some(p.v()), None => None } }
proof fn law_ov(o: Option<&Self>) {}
open spec fn blk(o: Option<DisconnectV>, ver: u8, b: Seq<u8>) -> bool { disconnect_blk(o, ver, b) }
proof fn law_blk(o: Option<DisconnectV>, ver: u8, ps: Seq<(u8, PV)>) {}

@fn structure::properties::DisconnectProperties::Properties::from_properties
@body_start
hide(kind);
hide(disconnect_of);
hide(bb);
hide(disconnect_known);
let ghost l0 = $1@;
proof { lemma_bb_start(l0); reveal(disconnect_of); reveal(disconnect_known); }
@before_loop 0
@loop 0 it
invariant
    it.seq() == l0, dlist(l0, false),
    (props.v()) == disconnect_of(bb(l0, it.index@ as int)),
    disconnect_known(bb(l0, it.index@ as int)),
@loop_start 0
proof { lemma_bb_step(l0, it.index@ as int); lemma_disconnect_step(bb(l0, it.index@ as int), (l0[it.index@ as int].0, pv(l0[it.index@ as int].1))); reveal(kind); if !(l0[it.index@ as int].1 is Map) && !disconnect_has(l0[it.index@ as int].0) { reveal(disconnect_known); } }
@after_loop 0
proof { lemma_bb_end(l0); }

@fn structure::properties::DisconnectProperties::Properties::to_pairs
@attr
#[verifier::spinoff_prover]
@body_start
hide(disconnect_acc);
hide(kind);
hide(bagof);
hide(ids);
hide(wlist);
hide(wlist_ok);
hide(um_ok);
hide(um_fits);
hide(umv);
hide(str_of);
hide(pvs);
hide(bv);
hide(ext1);
hide(ext_pv);
hide(disconnect_of);
broadcast use {lemma_ext_same, lemma_ext_push, lemma_epv_same, lemma_epv_push, lemma_kinds, lemma_um_fits_ok, lemma_umv_empty, lemma_umv_clone, lemma_sb_valid, vstd::std_specs::hash::group_hash_axioms, axiom_string_key, lemma_disconnect_nil, lemma_disconnect_all};
let ghost mut __ii = Set::<u8>::empty();
@before_push_stmt
let ghost __s = $X@;
@after_push_stmt
proof { lemma_disconnect_acc(__s, $X@, self.v(), __ii, $ID); __ii = __ii.insert($ID); }

@item structure::properties::UnsubscribeProperties::Properties
@members
type V = UnsubscribeV;
open spec fn v(&self) -> UnsubscribeV { UnsubscribeV { user: umv(self.user_properties@) } }
open spec fn of(b: Bag) -> UnsubscribeV { unsubscribe_of(b) }
open spec fn norm(v: UnsubscribeV) -> UnsubscribeV { unsubscribe_norm(v) }
open spec fn fits(v: UnsubscribeV) -> bool { unsubscribe_fits(v) }
proof fn law(b: Bag) { lemma_unsubscribe_of(b); }
open spec fn known(b: Bag) -> bool { unsubscribe_known(b) }
open spec fn ov(o: Option<&Self>) -> Option<UnsubscribeV> { match o { Some(p) => Some(p.v()), None => None } }
proof fn law_ov(o: Option<&Self>) {}
open spec fn blk(o: Option<UnsubscribeV>, ver: u8, b: Seq<u8>) -> bool { unsubscribe_blk(o, ver, b) }
proof fn law_blk(o: Option<UnsubscribeV>, ver: u8, ps: Seq<(u8, PV)>) {}

@fn structure::properties::UnsubscribeProperties::Properties::from_properties
@body_start
hide(kind);
hide(unsubscribe_of);
hide(bb);
hide(unsubscribe_known);
let ghost l0 = $1@;
proof { lemma_bb_start(l0); reveal(unsubscribe_of); reveal(unsubscribe_known); }
@before_loop 0
@loop 0 it
invariant
    it.seq() == l0, dlist(l0, false),
    (UnsubscribeV { user: umv(user_properties@) }) == unsubscribe_of(bb(l0, it.index@ as int)),
    unsubscribe_known(bb(l0, it.index@ as int)),
@loop_start 0
proof { lemma_bb_step(l0, it.index@ as int); lemma_unsubscribe_step(bb(l0, it.index@ as int), (l0[it.index@ as int].0, pv(l0[it.index@ as int].1))); reveal(kind); if !(l0[it.index@ as int].1 is Map) && !unsubscribe_has(l0[it.index@ as int].0) { reveal(unsubscribe_known); } }
@after_loop 0
proof { lemma_bb_end(l0); }

@fn structure::properties::UnsubscribeProperties::Properties::to_pairs
@attr
#[verifier::spinoff_prover]
@body_start
hide(unsubscribe_acc);
hide(kind);
hide(bagof);
hide(ids);
hide(wlist);
hide(wlist_ok);
hide(um_ok);
hide(um_fits);
hide(umv);
hide(str_of);
hide(pvs);
hide(bv);
hide(ext1);
hide(ext_pv);
hide(unsubscribe_of);
broadcast use {lemma_ext_same, lemma_ext_push, lemma_epv_same, lemma_epv_push, lemma_kinds, lemma_um_fits_ok, lemma_umv_empty, lemma_umv_clone, lemma_sb_valid, vstd::std_specs::hash::group_hash_axioms, axiom_string_key, lemma_unsubscribe_nil, lemma_unsubscribe_all};
let ghost mut __ii = Set::<u8>::empty();
@before_push_stmt
let ghost __s = $X@;
@after_push_stmt
proof { lemma_unsubscribe_acc(__s, $X@, self.v(), __ii, $ID); __ii = __ii.insert($ID); }

@fn structure::properties::WillProperties::Default::default
ensures r.v() == will_of(bag0())
@body_start
proof { lemma_bb_start(Seq::empty()); }

@item structure::properties::WillProperties::Properties
@members
type V = WillV;
open spec fn v(&self) -> WillV { WillV { payload_format_indicator: self.payload_format_indicator, message_expiry_interval: self.message_expiry_interval, content_type: osb(self.content_type), response_topic: osb(self.response_topic), correlation_data: self.correlation_data@, will_delay_interval: self.will_delay_interval, user: umv(self.user_properties@) } }
open spec fn of(b: Bag) -> WillV { will_of(b) }
open spec fn norm(v: WillV) -> WillV { will_norm(v) }
open spec fn fits(v: WillV) -> bool { will_fits(v) }
proof fn law(b: Bag) { lemma_will_of(b); }
open spec fn known(b: Bag) -> bool { will_known(b) }
open spec fn ov(o: Option<&Self>) -> Option<WillV> { match o { Some(p) => Some(p.v()), None => None } }
proof fn law_ov(o: Option<&Self>) {}
open spec fn blk(o: Option<WillV>, ver: u8, b: Seq<u8>) -> bool { will_blk(o, ver, b) }
proof fn law_blk(o: Option<WillV>, ver: u8, ps: Seq<(u8, PV)>) {}

@fn structure::properties::WillProperties::Properties::from_properties
@body_start
hide(kind);
hide(will_of);
hide(bb);
hide(will_known);
let ghost l0 = $1@;
proof { lemma_bb_start(l0); reveal(will_of); reveal(will_known); }
@before_loop 0
@loop 0 it
invariant
    it.seq() == l0, dlist(l0, false),
    (out.v()) == will_of(bb(l0, it.index@ as int)),
    will_known(bb(l0, it.index@ as int)),
@loop_start 0
proof { lemma_bb_step(l0, it.index@ as int); lemma_will_step(bb(l0, it.index@ as int), (l0[it.index@ as int].0, pv(l0[it.index@ as int].1))); reveal(kind); if !(l0[it.index@ as int].1 is Map) && !will_has(l0[it.index@ as int].0) { reveal(will_known); } }
@after_loop 0
proof { lemma_bb_end(l0); }

@fn structure::properties::WillProperties::Properties::to_pairs
@attr
#[verifier::spinoff_prover]
@body_start
hide(will_acc);
hide(kind);
hide(bagof);
hide(ids);
hide(wlist);
hide(wlist_ok);
hide(um_ok);
hide(um_fits);
hide(umv);
hide(str_of);
hide(pvs);
hide(bv);
hide(ext1);
hide(ext_pv);
hide(will_of);
broadcast use {lemma_ext_same, lemma_ext_push, lemma_epv_same, lemma_epv_push, lemma_kinds, lemma_um_fits_ok, lemma_umv_empty, lemma_umv_clone, lemma_sb_valid, vstd::std_specs::hash::group_hash_axioms, axiom_string_key, lemma_will_nil, lemma_will_all};
let ghost mut __ii = Set::<u8>::empty();
proof { assert(self.correlation_data@.len() == 0 ==> self.correlation_data@ =~= Seq::empty()); }
@before_push_stmt
let ghost __s = $X@;
@after_push_stmt
proof { lemma_will_acc(__s, $X@, self.v(), __ii, $ID); __ii = __ii.insert($ID); }

@fn structure::properties::ConnackProperties::Default::default
ensures r.v() == connack_of(bag0())
@body_start
proof { lemma_bb_start(Seq::empty()); }

@item structure::properties::ConnackProperties::Properties
@members
type V = ConnackV;
open spec fn v(&self) -> ConnackV { ConnackV { session_expiry_interval: self.session_expiry_interval, assigned_client_identifier: osb(self.assigned_client_identifier), server_keep_alive: self.server_keep_alive, authentication_method: osb(self.authentication_method), authentication_data: osb(self.authentication_data), response_information: osb(self.response_information), server_reference: osb(self.server_reference), reason_string: osb(self.reason_string), receive_maximum: self.receive_maximum, topic_alias_maximum: self.topic_alias_maximum, maximum_qos: self.maximum_qos, retain_available: self.retain_available, maximum_packet_size: self.maximum_packet_size, wildcard_subscription_available: self.wildcard_subscription_available, subscription_identifiers_available: self.subscription_identifiers_available, shared_subscription_available: self.shared_subscription_available, user: umv(self.user_properties@) } }
open spec fn of(b: Bag) -> ConnackV { connack_of(b) }
open spec fn norm(v: ConnackV) -> ConnackV { connack_norm(v) }
open spec fn fits(v: ConnackV) -> bool { connack_fits(v) }
proof fn law(b: Bag) { lemma_connack_of(b); }
open spec fn known(b: Bag) -> bool { connack_known(b) }
open spec fn ov(o: Option<&Self>) -> Option<ConnackV> { match o { Some(p) => Some(p.v()), None => None } }
proof fn law_ov(o: Option<&Self>) {}
open spec fn blk(o: Option<ConnackV>, ver: u8, b: Seq<u8>) -> bool { connack_blk(o, ver, b) }
proof fn law_blk(o: Option<ConnackV>, ver: u8, ps: Seq<(u8, PV)>) {}

@fn structure::properties::ConnackProperties::Properties::from_properties
@body_start
hide(kind);
hide(connack_of);
hide(bb);
hide(connack_known);
let ghost l0 = $1@;
proof { lemma_bb_start(l0); reveal(connack_of); reveal(connack_known); }
@before_loop 0
@loop 0 it
invariant
    it.seq() == l0, dlist(l0, false),
    (out.v()) == connack_of(bb(l0, it.index@ as int)),
    connack_known(bb(l0, it.index@ as int)),
@loop_start 0
proof { lemma_bb_step(l0, it.index@ as int); lemma_connack_step(bb(l0, it.index@ as int), (l0[it.index@ as int].0, pv(l0[it.index@ as int].1))); reveal(kind); if !(l0[it.index@ as int].1 is Map) && !connack_has(l0[it.index@ as int].0) { reveal(connack_known); } }
@after_loop 0
proof { lemma_bb_end(l0); }

@fn structure::properties::ConnackProperties::Properties::to_pairs
@attr
#[verifier::spinoff_prover]
@body_start
hide(connack_acc);
hide(kind);
hide(bagof);
hide(ids);
hide(wlist);
hide(wlist_ok);
hide(um_ok);
hide(um_fits);
hide(umv);
hide(str_of);
hide(pvs);
hide(bv);
hide(ext1);
hide(ext_pv);
hide(connack_of);
broadcast use {lemma_ext_same, lemma_ext_push, lemma_epv_same, lemma_epv_push, lemma_kinds, lemma_um_fits_ok, lemma_umv_empty, lemma_umv_clone, lemma_sb_valid, vstd::std_specs::hash::group_hash_axioms, axiom_string_key, lemma_connack_nil, lemma_connack_all};
let ghost mut __ii = Set::<u8>::empty();
@before_push_stmt
loop
    invariant_except_break connack_acc($X@, self.v(), __ii), !__ii.contains($ID),
    ensures connack_acc($X@, self.v(), __ii.insert($ID)),
    decreases 0int
{
broadcast use {lemma_ext_same, lemma_ext_push, lemma_epv_same, lemma_epv_push, lemma_kinds, lemma_um_fits_ok, lemma_umv_empty, lemma_umv_clone, lemma_sb_valid, vstd::std_specs::hash::group_hash_axioms, axiom_string_key, lemma_connack_nil, lemma_connack_all};
let ghost __s = $X@;
@after_push_stmt
proof { lemma_connack_acc(__s, $X@, self.v(), __ii, $ID); } break; }
proof { __ii = __ii.insert($ID); }

@item structure::properties::ConfirmationProperties::Properties
@members
type V = ConfirmationV;
open spec fn v(&self) -> ConfirmationV { ConfirmationV { reason_string: osb(self.reason_string), user: umv(self.user_properties@) } }
open spec fn of(b: Bag) -> ConfirmationV { confirmation_of(b) }
open spec fn norm(v: ConfirmationV) -> ConfirmationV { confirmation_norm(v) }
open spec fn fits(v: ConfirmationV) -> bool { confirmation_fits(v) }
proof fn law(b: Bag) { lemma_confirmation_of(b); }
open spec fn known(b: Bag) -> bool { confirmation_known(b) }
open spec fn ov(o: Option<&Self>) -> Option<ConfirmationV> { match o { Some(p) => Some(p.v()), None => None } }
proof fn law_ov(o: Option<&Self>) {}
open spec fn blk(o: Option<ConfirmationV>, ver: u8, b: Seq<u8>) -> bool { confirmation_blk(o, ver, b) }
proof fn law_blk(o: Option<ConfirmationV>, ver: u8, ps: Seq<(u8, PV)>) {}

@fn structure::properties::ConfirmationProperties::Properties::from_properties
@body_start
hide(kind);
hide(confirmation_of);
hide(bb);
hide(confirmation_known);
let ghost l0 = $1@;
proof { lemma_bb_start(l0); reveal(confirmation_of); reveal(confirmation_known); }
@before_loop 0
@loop 0 it
invariant
    it.seq() == l0, dlist(l0, false),
    (ConfirmationV { reason_string: osb(reason_string), user: umv(user_properties@) }) == confirmation_of(bb(l0, it.index@ as int)),
    confirmation_known(bb(l0, it.index@ as int)),
@loop_start 0
proof { lemma_bb_step(l0, it.index@ as int); lemma_confirmation_step(bb(l0, it.index@ as int), (l0[it.index@ as int].0, pv(l0[it.index@ as int].1))); reveal(kind); if !(l0[it.index@ as int].1 is Map) && !confirmation_has(l0[it.index@ as int].0) { reveal(confirmation_known); } }
@after_loop 0
proof { lemma_bb_end(l0); }

@fn structure::properties::ConfirmationProperties::Properties::to_pairs
@attr
#[verifier::spinoff_prover]
@body_start
hide(confirmation_acc);
hide(kind);
hide(bagof);
hide(ids);
hide(wlist);
hide(wlist_ok);
hide(um_ok);
hide(um_fits);
hide(umv);
hide(str_of);
hide(pvs);
hide(bv);
hide(ext1);
hide(ext_pv);
hide(confirmation_of);
broadcast use {lemma_ext_same, lemma_ext_push, lemma_epv_same, lemma_epv_push, lemma_kinds, lemma_um_fits_ok, lemma_umv_empty, lemma_umv_clone, lemma_sb_valid, vstd::std_specs::hash::group_hash_axioms, axiom_string_key, lemma_confirmation_nil, lemma_confirmation_all};
let ghost mut __ii = Set::<u8>::empty();
@before_push_stmt
let ghost __s = $X@;
@after_push_stmt
proof { lemma_confirmation_acc(__s, $X@, self.v(), __ii, $ID); __ii = __ii.insert($ID); }

@fn structure::properties::ConnectProperties::Default::default
ensures r.v() == connect_of(bag0())
@body_start
proof { lemma_bb_start(Seq::empty()); }

@item structure::properties::ConnectProperties::Properties
@members
type V = ConnectV;
open spec fn v(&self) -> ConnectV { ConnectV { session_expiry_interval: self.session_expiry_interval, authentication_method: osb(self.authentication_method), authentication_data: osb(self.authentication_data), request_problem_information: self.request_problem_information, request_response_information: self.request_response_information, receive_maximum: self.receive_maximum, topic_alias_maximum: self.topic_alias_maximum, maximum_packet_size: self.maximum_packet_size, user: umv(self.user_properties@) } }
open spec fn of(b: Bag) -> ConnectV { connect_of(b) }
open spec fn norm(v: ConnectV) -> ConnectV { connect_norm(v) }
open spec fn fits(v: ConnectV) -> bool { connect_fits(v) }
proof fn law(b: Bag) { lemma_connect_of(b); }
open spec fn known(b: Bag) -> bool { connect_known(b) }
open spec fn ov(o: Option<&Self>) -> Option<ConnectV> { match o { Some(p) => Some(p.v()), None => None } }
proof fn law_ov(o: Option<&Self>) {}
open spec fn blk(o: Option<ConnectV>, ver: u8, b: Seq<u8>) -> bool { connect_blk(o, ver, b) }
proof fn law_blk(o: Option<ConnectV>, ver: u8, ps: Seq<(u8, PV)>) {}

@fn structure::properties::ConnectProperties::Properties::from_properties
@body_start
hide(kind);
hide(connect_of);
hide(bb);
hide(connect_known);
let ghost l0 = $1@;
proof { lemma_bb_start(l0); reveal(connect_of); reveal(connect_known); }
@before_loop 0
@loop 0 it
invariant
    it.seq() == l0, dlist(l0, false),
    (out.v()) == connect_of(bb(l0, it.index@ as int)),
    connect_known(bb(l0, it.index@ as int)),
@loop_start 0
proof { lemma_bb_step(l0, it.index@ as int); lemma_connect_step(bb(l0, it.index@ as int), (l0[it.index@ as int].0, pv(l0[it.index@ as int].1))); reveal(kind); if !(l0[it.index@ as int].1 is Map) && !connect_has(l0[it.index@ as int].0) { reveal(connect_known); } }
@after_loop 0
proof { lemma_bb_end(l0); }

@fn structure::properties::ConnectProperties::Properties::to_pairs
@attr
#[verifier::spinoff_prover]
@body_start
hide(connect_acc);
hide(kind);
hide(bagof);
hide(ids);
hide(wlist);
hide(wlist_ok);
hide(um_ok);
hide(um_fits);
hide(umv);
hide(str_of);
hide(pvs);
hide(bv);
hide(ext1);
hide(ext_pv);
hide(connect_of);
broadcast use {lemma_ext_same, lemma_ext_push, lemma_epv_same, lemma_epv_push, lemma_kinds, lemma_um_fits_ok, lemma_umv_empty, lemma_umv_clone, lemma_sb_valid, vstd::std_specs::hash::group_hash_axioms, axiom_string_key, lemma_connect_nil, lemma_connect_all};
let ghost mut __ii = Set::<u8>::empty();
@before_push_stmt
let ghost __s = $X@;
@after_push_stmt
proof { lemma_connect_acc(__s, $X@, self.v(), __ii, $ID); __ii = __ii.insert($ID); }

