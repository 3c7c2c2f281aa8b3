// generated by tools/genprops.py: the properties of every packet type

pub struct AuthV { pub authentication_method: Seq<u8>, pub authentication_data: Option<Seq<u8>>, pub reason_string: Option<Seq<u8>>, pub user: UV }
/// what a bag of properties means
pub open spec fn auth_of(b: Bag) -> AuthV {
    AuthV { authentication_method: g_str(b, 0x15u8), authentication_data: g_ostr(b, 0x16u8), reason_string: g_ostr(b, 0x1Fu8), user: b.user }
}
pub open spec fn auth_has(id: u8) -> bool { id == 0x15u8 || id == 0x16u8 || id == 0x1Fu8 }
/// only identifiers that the packet may have
pub open spec fn auth_known(b: Bag) -> bool { forall|id: u8| #![trigger bv(b, id)] #![trigger b.vals.contains_key(id)] bv(b, id) is Some ==> auth_has(id) }
pub open spec fn auth_norm(v: AuthV) -> AuthV { AuthV { user: nuv(v.user), ..v } }
/// no properties mean the same as the default value of each
pub open spec fn auth_val(o: Option<AuthV>) -> AuthV { match o { Some(v) => v, None => auth_of(bag0()) } }
/// reading the property block; there is none before version 5
pub open spec fn p_auth(w: Seq<u8>, ver: u8) -> Option<(Option<AuthV>, Seq<u8>)> {
    if ver == 5 {
        match p_block(w) {
            Some((ps, r)) => if auth_known(bagof(ps)) { Some((if ps.len() == 0 { None } else { Some(auth_of(bagof(ps))) }, r)) } else { None },
            None => None,
        }
    } else { Some((None, w)) }
}
/// b is a property block that says what o says
pub open spec fn auth_blk(o: Option<AuthV>, ver: u8, b: Seq<u8>) -> bool {
    if ver == 5 { exists|ps: Seq<(u8, PV)>| b == #[trigger] e_block(ps) && pwritten(ps) && auth_known(bagof(ps)) && auth_of(bagof(ps)) == auth_norm(auth_val(o)) }
    else { b.len() == 0 }
}
pub open spec fn auth_can(o: Option<AuthV>, ver: u8) -> bool { ver == 5 ==> (o matches Some(v) ==> auth_fits(v)) }
pub proof fn lemma_auth_read(o: Option<AuthV>, ver: u8, b: Seq<u8>, w: Seq<u8>)
    requires auth_blk(o, ver, b), b.len() <= MAXVAR,
    ensures
        p_auth(b + w, ver) matches Some(x) && x.1 == w && (if ver == 5 { auth_val(x.0) == auth_norm(auth_val(o)) && b.len() > 0 } else { x.0 is None }),
        ver == 5 && b.len() == 1 ==> auth_norm(auth_val(o)) == auth_val(None),
{
    hide(auth_of);
    if ver == 5 {
        let ps = choose|ps: Seq<(u8, PV)>| b == #[trigger] e_block(ps) && pwritten(ps) && auth_known(bagof(ps)) && auth_of(bagof(ps)) == auth_norm(auth_val(o));
        lemma_pblock(ps, w);
        lemma_eblock_len(ps);
    } else {
        assert(b + w =~= w);
    }
}

/// one more property
pub open spec fn auth_upd(v: AuthV, id: u8, p: PV) -> AuthV {
    match id {
        0x15 => match p { PV::Str(x) => AuthV { authentication_method: x, ..v }, _ => v },
        0x16 => match p { PV::Str(x) => AuthV { authentication_data: Some(x), ..v }, _ => v },
        0x1F => match p { PV::Str(x) => AuthV { reason_string: Some(x), ..v }, _ => v },
        0x26 => match p { PV::UMap(x) => AuthV { user: x, ..v }, _ => v },
        _ => v,
    }
}
pub proof fn lemma_auth_step(b: Bag, x: (u8, PV))
    requires !(x.1 is Pair), kind_of(x.1) == kind(x.0),
    ensures
        auth_has(x.0) || x.0 == 0x26 ==> auth_of(bag_push(b, x)) == auth_upd(auth_of(b), x.0, x.1),
        (auth_has(x.0) || x.0 == 0x26) && auth_known(b) ==> auth_known(bag_push(b, x)),
{
    let c = bag_push(b, x);
    assert(x.1 is UMap <==> x.0 == 0x26);
    assert forall|id: u8| #[trigger] bv(c, id) == if id == x.0 && x.0 != 0x26 { Some(x.1) } else { bv(b, id) } by {}
    assert((auth_of(c)) == auth_of(c));
}

/// o is a value of the property id that says what v says
pub open spec fn auth_fld(v: AuthV, o: Option<PV>, id: u8) -> bool {
    match id {
        0x15 => v.authentication_method == (match o { Some(PV::Str(x)) => x, _ => Seq::empty() }),
        0x16 => v.authentication_data == (match o { Some(PV::Str(x)) => Some(x), _ => None }),
        0x1F => v.reason_string == (match o { Some(PV::Str(x)) => Some(x), _ => None }),
        _ => true,
    }
}
/// the list l says what v says about the properties ii
pub open spec fn auth_acc(l: Seq<(u8, PropType)>, v: AuthV, ii: Set<u8>) -> bool {
    &&& acc0(l, ii)
    &&& forall|id: u8| #[trigger] ii.contains(id) ==> (auth_has(id) || id == 0x26) && auth_fld(v, lk(l, id), id)
    &&& ii.contains(0x26) ==> pus(l) == v.user
    &&& ii.contains(0x0B) ==> psub(l) == Seq::<u32>::empty()
    &&& auth_fits(v) ==> pok(l)
}
pub broadcast proof fn lemma_auth_nil(l: Seq<(u8, PropType)>, v: AuthV)
    requires l.len() == 0,
    ensures #[trigger] auth_acc(l, v, Set::empty())
{ lemma_pst_nil(l); assert forall|id: u8| (#[trigger] lk(l, id)) is None by { lemma_pst_nil2(l, id); } }
pub proof fn lemma_auth_acc(s: Seq<(u8, PropType)>, t: Seq<(u8, PropType)>, v: AuthV, ii: Set<u8>, id0: u8)
    requires
        auth_acc(s, v, ii), !ii.contains(id0), ext1(s, t, id0), auth_has(id0) || id0 == 0x26,
        id0 != 0x26 ==> auth_fld(v, ext_pv(s, t), id0),
        id0 != 0x0B,
        id0 == 0x26 ==> (match ext_pv(s, t) { Some(PV::UMap(u)) => u, _ => UV::empty() }) == v.user,
        auth_fits(v) ==> (ext_pv(s, t) matches Some(x) ==> wval_ok(x)),
    ensures auth_acc(t, v, ii.insert(id0))
{ lemma_acc0(s, t, ii, id0); }
pub broadcast proof fn lemma_auth_all(l: Seq<(u8, PropType)>, v: AuthV, ii: Set<u8>)
    requires auth_acc(l, v, ii), ii.contains(0x15u8), ii.contains(0x16u8), ii.contains(0x1Fu8), ii.contains(0x26),
    ensures #![trigger pvs(l), auth_acc(l, v, ii)] wlist(pvs(l)), auth_of(bagof(pvs(l))) == v, auth_known(bagof(pvs(l))), auth_fits(v) ==> wlist_ok(pvs(l))
{ assert(lk(l, 0x15u8) == bv(bagof(pvs(l)), 0x15u8)); assert(lk(l, 0x16u8) == bv(bagof(pvs(l)), 0x16u8)); assert(lk(l, 0x1Fu8) == bv(bagof(pvs(l)), 0x1Fu8)); assert forall|id: u8| bv(bagof(pvs(l)), id) is Some implies auth_has(id) by { assert(lk(l, id) is Some); } }

pub open spec fn auth_fits(v: AuthV) -> bool {
    v.authentication_method.len() <= 65535 && (v.authentication_data matches Some(s) ==> s.len() <= 65535) && (v.reason_string matches Some(s) ==> s.len() <= 65535) && um_fits(v.user)
}
pub broadcast proof fn lemma_auth_of(b: Bag)
    ensures
        #[trigger] auth_of(nbag(b)) == (AuthV { user: nuv(b.user), ..auth_of(b) }),
        bag_ok(nbag(b)) ==> auth_fits(auth_of(b)),
{
    hide(um_ok);
    hide(str_ok);
    lemma_um_fits(b.user);
    if bag_ok(nbag(b)) { assert(b.vals.contains_key(0x15u8) ==> val_ok(b.vals[0x15u8])); assert(b.vals.contains_key(0x16u8) ==> val_ok(b.vals[0x16u8])); assert(b.vals.contains_key(0x1Fu8) ==> val_ok(b.vals[0x1Fu8])); reveal(str_ok); reveal(str_ok); reveal(str_ok); }
}

pub struct PublishV { pub payload_format_indicator: bool, pub message_expiry_interval: Option<u32>, pub content_type: Option<Seq<u8>>, pub response_topic: Option<Seq<u8>>, pub correlation_data: Seq<u8>, pub subscription_identifiers: Seq<u32>, pub topic_alias: Option<u16>, pub user: UV }
/// what a bag of properties means
pub open spec fn publish_of(b: Bag) -> PublishV {
    PublishV { payload_format_indicator: g_bool(b, 0x01u8, false), message_expiry_interval: g_ou32(b, 0x02u8), content_type: g_ostr(b, 0x03u8), response_topic: g_ostr(b, 0x08u8), correlation_data: g_bin(b, 0x09u8), subscription_identifiers: b.subs, topic_alias: g_ou16(b, 0x23u8), user: b.user }
}
pub open spec fn publish_has(id: u8) -> bool { id == 0x01u8 || id == 0x02u8 || id == 0x03u8 || id == 0x08u8 || id == 0x09u8 || id == 0x0Bu8 || id == 0x23u8 }
/// only identifiers that the packet may have
pub open spec fn publish_known(b: Bag) -> bool { forall|id: u8| #![trigger bv(b, id)] #![trigger b.vals.contains_key(id)] bv(b, id) is Some ==> publish_has(id) }
pub open spec fn publish_norm(v: PublishV) -> PublishV { PublishV { user: nuv(v.user), ..v } }
/// no properties mean the same as the default value of each
pub open spec fn publish_val(o: Option<PublishV>) -> PublishV { match o { Some(v) => v, None => publish_of(bag0()) } }
/// reading the property block; there is none before version 5
pub open spec fn p_publish(w: Seq<u8>, ver: u8) -> Option<(Option<PublishV>, Seq<u8>)> {
    if ver == 5 {
        match p_block(w) {
            Some((ps, r)) => if publish_known(bagof(ps)) { Some((if ps.len() == 0 { None } else { Some(publish_of(bagof(ps))) }, r)) } else { None },
            None => None,
        }
    } else { Some((None, w)) }
}
/// b is a property block that says what o says
pub open spec fn publish_blk(o: Option<PublishV>, ver: u8, b: Seq<u8>) -> bool {
    if ver == 5 { exists|ps: Seq<(u8, PV)>| b == #[trigger] e_block(ps) && pwritten(ps) && publish_known(bagof(ps)) && publish_of(bagof(ps)) == publish_norm(publish_val(o)) }
    else { b.len() == 0 }
}
pub open spec fn publish_can(o: Option<PublishV>, ver: u8) -> bool { ver == 5 ==> (o matches Some(v) ==> publish_fits(v)) }
pub proof fn lemma_publish_read(o: Option<PublishV>, ver: u8, b: Seq<u8>, w: Seq<u8>)
    requires publish_blk(o, ver, b), b.len() <= MAXVAR,
    ensures
        p_publish(b + w, ver) matches Some(x) && x.1 == w && (if ver == 5 { publish_val(x.0) == publish_norm(publish_val(o)) && b.len() > 0 } else { x.0 is None }),
        ver == 5 && b.len() == 1 ==> publish_norm(publish_val(o)) == publish_val(None),
{
    hide(publish_of);
    if ver == 5 {
        let ps = choose|ps: Seq<(u8, PV)>| b == #[trigger] e_block(ps) && pwritten(ps) && publish_known(bagof(ps)) && publish_of(bagof(ps)) == publish_norm(publish_val(o));
        lemma_pblock(ps, w);
        lemma_eblock_len(ps);
    } else {
        assert(b + w =~= w);
    }
}

/// one more property
pub open spec fn publish_upd(v: PublishV, id: u8, p: PV) -> PublishV {
    match id {
        0x01 => match p { PV::Bool(x) => PublishV { payload_format_indicator: x, ..v }, _ => v },
        0x02 => match p { PV::U32(x) => PublishV { message_expiry_interval: Some(x), ..v }, _ => v },
        0x03 => match p { PV::Str(x) => PublishV { content_type: Some(x), ..v }, _ => v },
        0x08 => match p { PV::Str(x) => PublishV { response_topic: Some(x), ..v }, _ => v },
        0x09 => match p { PV::Bin(x) => PublishV { correlation_data: x, ..v }, _ => v },
        0x0B => match p { PV::VarInt(x) => PublishV { subscription_identifiers: v.subscription_identifiers.push(x), ..v }, _ => v },
        0x23 => match p { PV::U16(x) => PublishV { topic_alias: Some(x), ..v }, _ => v },
        0x26 => match p { PV::UMap(x) => PublishV { user: x, ..v }, _ => v },
        _ => v,
    }
}
pub proof fn lemma_publish_step(b: Bag, x: (u8, PV))
    requires !(x.1 is Pair), kind_of(x.1) == kind(x.0),
    ensures
        publish_has(x.0) || x.0 == 0x26 ==> publish_of(bag_push(b, x)) == publish_upd(publish_of(b), x.0, x.1),
        (publish_has(x.0) || x.0 == 0x26) && publish_known(b) ==> publish_known(bag_push(b, x)),
{
    let c = bag_push(b, x);
    assert(x.1 is UMap <==> x.0 == 0x26);
    assert forall|id: u8| #[trigger] bv(c, id) == if id == x.0 && x.0 != 0x26 { Some(x.1) } else { bv(b, id) } by {}
    assert((publish_of(c)) == publish_of(c));
}

/// o is a value of the property id that says what v says
pub open spec fn publish_fld(v: PublishV, o: Option<PV>, id: u8) -> bool {
    match id {
        0x01 => v.payload_format_indicator == (match o { Some(PV::Bool(x)) => x, _ => false }),
        0x02 => v.message_expiry_interval == (match o { Some(PV::U32(x)) => Some(x), _ => None }),
        0x03 => v.content_type == (match o { Some(PV::Str(x)) => Some(x), _ => None }),
        0x08 => v.response_topic == (match o { Some(PV::Str(x)) => Some(x), _ => None }),
        0x09 => v.correlation_data == (match o { Some(PV::Bin(x)) => x, _ => Seq::empty() }),
        0x23 => v.topic_alias == (match o { Some(PV::U16(x)) => Some(x), _ => None }),
        _ => true,
    }
}
/// the list l says what v says about the properties ii
pub open spec fn publish_acc(l: Seq<(u8, PropType)>, v: PublishV, ii: Set<u8>) -> bool {
    &&& acc0(l, ii)
    &&& forall|id: u8| #[trigger] ii.contains(id) ==> (publish_has(id) || id == 0x26) && publish_fld(v, lk(l, id), id)
    &&& ii.contains(0x26) ==> pus(l) == v.user
    &&& ii.contains(0x0B) ==> psub(l) == v.subscription_identifiers
    &&& publish_fits(v) ==> pok(l)
}
pub broadcast proof fn lemma_publish_nil(l: Seq<(u8, PropType)>, v: PublishV)
    requires l.len() == 0,
    ensures #[trigger] publish_acc(l, v, Set::empty())
{ lemma_pst_nil(l); assert forall|id: u8| (#[trigger] lk(l, id)) is None by { lemma_pst_nil2(l, id); } }
pub proof fn lemma_publish_acc(s: Seq<(u8, PropType)>, t: Seq<(u8, PropType)>, v: PublishV, ii: Set<u8>, id0: u8)
    requires
        publish_acc(s, v, ii), !ii.contains(id0), ext1(s, t, id0), publish_has(id0) || id0 == 0x26,
        id0 != 0x26 ==> publish_fld(v, ext_pv(s, t), id0),
        id0 != 0x0B,
        id0 == 0x26 ==> (match ext_pv(s, t) { Some(PV::UMap(u)) => u, _ => UV::empty() }) == v.user,
        publish_fits(v) ==> (ext_pv(s, t) matches Some(x) ==> wval_ok(x)),
    ensures publish_acc(t, v, ii.insert(id0))
{ lemma_acc0(s, t, ii, id0); }
pub broadcast proof fn lemma_publish_all(l: Seq<(u8, PropType)>, v: PublishV, ii: Set<u8>)
    requires publish_acc(l, v, ii), ii.contains(0x01u8), ii.contains(0x02u8), ii.contains(0x03u8), ii.contains(0x08u8), ii.contains(0x09u8), ii.contains(0x0Bu8), ii.contains(0x23u8), ii.contains(0x26),
    ensures #![trigger pvs(l), publish_acc(l, v, ii)] wlist(pvs(l)), publish_of(bagof(pvs(l))) == v, publish_known(bagof(pvs(l))), publish_fits(v) ==> wlist_ok(pvs(l))
{ assert(lk(l, 0x01u8) == bv(bagof(pvs(l)), 0x01u8)); assert(lk(l, 0x02u8) == bv(bagof(pvs(l)), 0x02u8)); assert(lk(l, 0x03u8) == bv(bagof(pvs(l)), 0x03u8)); assert(lk(l, 0x08u8) == bv(bagof(pvs(l)), 0x08u8)); assert(lk(l, 0x09u8) == bv(bagof(pvs(l)), 0x09u8)); assert(lk(l, 0x0Bu8) == bv(bagof(pvs(l)), 0x0Bu8)); assert(lk(l, 0x23u8) == bv(bagof(pvs(l)), 0x23u8)); assert forall|id: u8| bv(bagof(pvs(l)), id) is Some implies publish_has(id) by { assert(lk(l, id) is Some); } }

pub proof fn lemma_publish_subs(s: Seq<(u8, PropType)>, t: Seq<(u8, PropType)>, v: PublishV, ii: Set<u8>)
    requires publish_acc(s, v, ii), !ii.contains(0x0B), t == s + svp(v.subscription_identifiers),
    ensures publish_acc(t, v, ii.insert(0x0B))
{ lemma_subs(s, t, v.subscription_identifiers, ii); }

pub open spec fn publish_fits(v: PublishV) -> bool {
    (v.content_type matches Some(s) ==> s.len() <= 65535) && (v.response_topic matches Some(s) ==> s.len() <= 65535) && v.correlation_data.len() <= 65535 && (forall|i: int| 0 <= i < v.subscription_identifiers.len() ==> #[trigger] v.subscription_identifiers[i] <= MAXVAR) && um_fits(v.user)
}
pub broadcast proof fn lemma_publish_of(b: Bag)
    ensures
        #[trigger] publish_of(nbag(b)) == (PublishV { user: nuv(b.user), ..publish_of(b) }),
        bag_ok(nbag(b)) ==> publish_fits(publish_of(b)),
{
    hide(um_ok);
    hide(str_ok);
    lemma_um_fits(b.user);
    if bag_ok(nbag(b)) { assert(b.vals.contains_key(0x03u8) ==> val_ok(b.vals[0x03u8])); assert(b.vals.contains_key(0x08u8) ==> val_ok(b.vals[0x08u8])); assert(b.vals.contains_key(0x09u8) ==> val_ok(b.vals[0x09u8])); reveal(str_ok); reveal(str_ok); assert(nbag(b).subs == b.subs); }
}

pub struct SubscribeV { pub subscription_identifier: u32, pub user: UV }
/// what a bag of properties means
pub open spec fn subscribe_of(b: Bag) -> SubscribeV {
    SubscribeV { subscription_identifier: g_sub1(b), user: b.user }
}
pub open spec fn subscribe_has(id: u8) -> bool { id == 0x0Bu8 }
/// only identifiers that the packet may have
pub open spec fn subscribe_known(b: Bag) -> bool { forall|id: u8| #![trigger bv(b, id)] #![trigger b.vals.contains_key(id)] bv(b, id) is Some ==> subscribe_has(id) }
pub open spec fn subscribe_norm(v: SubscribeV) -> SubscribeV { SubscribeV { user: nuv(v.user), ..v } }
/// no properties mean the same as the default value of each
pub open spec fn subscribe_val(o: Option<SubscribeV>) -> SubscribeV { match o { Some(v) => v, None => subscribe_of(bag0()) } }
/// reading the property block; there is none before version 5
pub open spec fn p_subscribe(w: Seq<u8>, ver: u8) -> Option<(Option<SubscribeV>, Seq<u8>)> {
    if ver == 5 {
        match p_block(w) {
            Some((ps, r)) => if subscribe_known(bagof(ps)) { Some((if ps.len() == 0 { None } else { Some(subscribe_of(bagof(ps))) }, r)) } else { None },
            None => None,
        }
    } else { Some((None, w)) }
}
/// b is a property block that says what o says
pub open spec fn subscribe_blk(o: Option<SubscribeV>, ver: u8, b: Seq<u8>) -> bool {
    if ver == 5 { exists|ps: Seq<(u8, PV)>| b == #[trigger] e_block(ps) && pwritten(ps) && subscribe_known(bagof(ps)) && subscribe_of(bagof(ps)) == subscribe_norm(subscribe_val(o)) }
    else { b.len() == 0 }
}
pub open spec fn subscribe_can(o: Option<SubscribeV>, ver: u8) -> bool { ver == 5 ==> (o matches Some(v) ==> subscribe_fits(v)) }
pub proof fn lemma_subscribe_read(o: Option<SubscribeV>, ver: u8, b: Seq<u8>, w: Seq<u8>)
    requires subscribe_blk(o, ver, b), b.len() <= MAXVAR,
    ensures
        p_subscribe(b + w, ver) matches Some(x) && x.1 == w && (if ver == 5 { subscribe_val(x.0) == subscribe_norm(subscribe_val(o)) && b.len() > 0 } else { x.0 is None }),
        ver == 5 && b.len() == 1 ==> subscribe_norm(subscribe_val(o)) == subscribe_val(None),
{
    hide(subscribe_of);
    if ver == 5 {
        let ps = choose|ps: Seq<(u8, PV)>| b == #[trigger] e_block(ps) && pwritten(ps) && subscribe_known(bagof(ps)) && subscribe_of(bagof(ps)) == subscribe_norm(subscribe_val(o));
        lemma_pblock(ps, w);
        lemma_eblock_len(ps);
    } else {
        assert(b + w =~= w);
    }
}

/// one more property
pub open spec fn subscribe_upd(v: SubscribeV, id: u8, p: PV) -> SubscribeV {
    match id {
        0x0B => match p { PV::VarInt(x) => SubscribeV { subscription_identifier: x, ..v }, _ => v },
        0x26 => match p { PV::UMap(x) => SubscribeV { user: x, ..v }, _ => v },
        _ => v,
    }
}
pub proof fn lemma_subscribe_step(b: Bag, x: (u8, PV))
    requires !(x.1 is Pair), kind_of(x.1) == kind(x.0),
    ensures
        subscribe_has(x.0) || x.0 == 0x26 ==> subscribe_of(bag_push(b, x)) == subscribe_upd(subscribe_of(b), x.0, x.1),
        (subscribe_has(x.0) || x.0 == 0x26) && subscribe_known(b) ==> subscribe_known(bag_push(b, x)),
{
    let c = bag_push(b, x);
    assert(x.1 is UMap <==> x.0 == 0x26);
    assert forall|id: u8| #[trigger] bv(c, id) == if id == x.0 && x.0 != 0x26 { Some(x.1) } else { bv(b, id) } by {}
    assert((subscribe_of(c)) == subscribe_of(c));
}

/// o is a value of the property id that says what v says
pub open spec fn subscribe_fld(v: SubscribeV, o: Option<PV>, id: u8) -> bool {
    match id {
        _ => true,
    }
}
/// the list l says what v says about the properties ii
pub open spec fn subscribe_acc(l: Seq<(u8, PropType)>, v: SubscribeV, ii: Set<u8>) -> bool {
    &&& acc0(l, ii)
    &&& forall|id: u8| #[trigger] ii.contains(id) ==> (subscribe_has(id) || id == 0x26) && subscribe_fld(v, lk(l, id), id)
    &&& ii.contains(0x26) ==> pus(l) == v.user
    &&& ii.contains(0x0B) ==> (if psub(l).len() == 0 { 0 } else { psub(l).last() }) == v.subscription_identifier
    &&& subscribe_fits(v) ==> pok(l)
}
pub broadcast proof fn lemma_subscribe_nil(l: Seq<(u8, PropType)>, v: SubscribeV)
    requires l.len() == 0,
    ensures #[trigger] subscribe_acc(l, v, Set::empty())
{ lemma_pst_nil(l); assert forall|id: u8| (#[trigger] lk(l, id)) is None by { lemma_pst_nil2(l, id); } }
pub proof fn lemma_subscribe_acc(s: Seq<(u8, PropType)>, t: Seq<(u8, PropType)>, v: SubscribeV, ii: Set<u8>, id0: u8)
    requires
        subscribe_acc(s, v, ii), !ii.contains(id0), ext1(s, t, id0), subscribe_has(id0) || id0 == 0x26,
        id0 != 0x26 ==> subscribe_fld(v, ext_pv(s, t), id0),
        id0 == 0x0B ==> (match ext_pv(s, t) { Some(PV::VarInt(n)) => n, _ => 0 }) == v.subscription_identifier,
        id0 == 0x26 ==> (match ext_pv(s, t) { Some(PV::UMap(u)) => u, _ => UV::empty() }) == v.user,
        subscribe_fits(v) ==> (ext_pv(s, t) matches Some(x) ==> wval_ok(x)),
    ensures subscribe_acc(t, v, ii.insert(id0))
{ lemma_acc0(s, t, ii, id0); }
pub broadcast proof fn lemma_subscribe_all(l: Seq<(u8, PropType)>, v: SubscribeV, ii: Set<u8>)
    requires subscribe_acc(l, v, ii), ii.contains(0x0Bu8), ii.contains(0x26),
    ensures #![trigger pvs(l), subscribe_acc(l, v, ii)] wlist(pvs(l)), subscribe_of(bagof(pvs(l))) == v, subscribe_known(bagof(pvs(l))), subscribe_fits(v) ==> wlist_ok(pvs(l))
{ assert(lk(l, 0x0Bu8) == bv(bagof(pvs(l)), 0x0Bu8)); assert forall|id: u8| bv(bagof(pvs(l)), id) is Some implies subscribe_has(id) by { assert(lk(l, id) is Some); } }

pub open spec fn subscribe_fits(v: SubscribeV) -> bool {
    v.subscription_identifier <= MAXVAR && um_fits(v.user)
}
pub broadcast proof fn lemma_subscribe_of(b: Bag)
    ensures
        #[trigger] subscribe_of(nbag(b)) == (SubscribeV { user: nuv(b.user), ..subscribe_of(b) }),
        bag_ok(nbag(b)) ==> subscribe_fits(subscribe_of(b)),
{
    hide(um_ok);
    hide(str_ok);
    lemma_um_fits(b.user);
    if bag_ok(nbag(b)) { assert(nbag(b).subs == b.subs); assert(b.subs.len() > 0 ==> b.subs[b.subs.len() - 1] <= MAXVAR); }
}

pub struct DisconnectV { pub session_expiry_interval: Option<u32>, pub server_reference: Option<Seq<u8>>, pub reason_string: Option<Seq<u8>>, pub user: UV }
/// what a bag of properties means
pub open spec fn disconnect_of(b: Bag) -> DisconnectV {
    DisconnectV { session_expiry_interval: g_ou32(b, 0x11u8), server_reference: g_ostr(b, 0x1Cu8), reason_string: g_ostr(b, 0x1Fu8), user: b.user }
}
pub open spec fn disconnect_has(id: u8) -> bool { id == 0x11u8 || id == 0x1Cu8 || id == 0x1Fu8 }
/// only identifiers that the packet may have
pub open spec fn disconnect_known(b: Bag) -> bool { forall|id: u8| #![trigger bv(b, id)] #![trigger b.vals.contains_key(id)] bv(b, id) is Some ==> disconnect_has(id) }
pub open spec fn disconnect_norm(v: DisconnectV) -> DisconnectV { DisconnectV { user: nuv(v.user), ..v } }
/// no properties mean the same as the default value of each
pub open spec fn disconnect_val(o: Option<DisconnectV>) -> DisconnectV { match o { Some(v) => v, None => disconnect_of(bag0()) } }
/// reading the property block; there is none before version 5
pub open spec fn p_disconnect(w: Seq<u8>, ver: u8) -> Option<(Option<DisconnectV>, Seq<u8>)> {
    if ver == 5 {
        match p_block(w) {
            Some((ps, r)) => if disconnect_known(bagof(ps)) { Some((if ps.len() == 0 { None } else { Some(disconnect_of(bagof(ps))) }, r)) } else { None },
            None => None,
        }
    } else { Some((None, w)) }
}
/// b is a property block that says what o says
pub open spec fn disconnect_blk(o: Option<DisconnectV>, ver: u8, b: Seq<u8>) -> bool {
    if ver == 5 { exists|ps: Seq<(u8, PV)>| b == #[trigger] e_block(ps) && pwritten(ps) && disconnect_known(bagof(ps)) && disconnect_of(bagof(ps)) == disconnect_norm(disconnect_val(o)) }
    else { b.len() == 0 }
}
pub open spec fn disconnect_can(o: Option<DisconnectV>, ver: u8) -> bool { ver == 5 ==> (o matches Some(v) ==> disconnect_fits(v)) }
pub proof fn lemma_disconnect_read(o: Option<DisconnectV>, ver: u8, b: Seq<u8>, w: Seq<u8>)
    requires disconnect_blk(o, ver, b), b.len() <= MAXVAR,
    ensures
        p_disconnect(b + w, ver) matches Some(x) && x.1 == w && (if ver == 5 { disconnect_val(x.0) == disconnect_norm(disconnect_val(o)) && b.len() > 0 } else { x.0 is None }),
        ver == 5 && b.len() == 1 ==> disconnect_norm(disconnect_val(o)) == disconnect_val(None),
{
    hide(disconnect_of);
    if ver == 5 {
        let ps = choose|ps: Seq<(u8, PV)>| b == #[trigger] e_block(ps) && pwritten(ps) && disconnect_known(bagof(ps)) && disconnect_of(bagof(ps)) == disconnect_norm(disconnect_val(o));
        lemma_pblock(ps, w);
        lemma_eblock_len(ps);
    } else {
        assert(b + w =~= w);
    }
}

/// one more property
pub open spec fn disconnect_upd(v: DisconnectV, id: u8, p: PV) -> DisconnectV {
    match id {
        0x11 => match p { PV::U32(x) => DisconnectV { session_expiry_interval: Some(x), ..v }, _ => v },
        0x1C => match p { PV::Str(x) => DisconnectV { server_reference: Some(x), ..v }, _ => v },
        0x1F => match p { PV::Str(x) => DisconnectV { reason_string: Some(x), ..v }, _ => v },
        0x26 => match p { PV::UMap(x) => DisconnectV { user: x, ..v }, _ => v },
        _ => v,
    }
}
pub proof fn lemma_disconnect_step(b: Bag, x: (u8, PV))
    requires !(x.1 is Pair), kind_of(x.1) == kind(x.0),
    ensures
        disconnect_has(x.0) || x.0 == 0x26 ==> disconnect_of(bag_push(b, x)) == disconnect_upd(disconnect_of(b), x.0, x.1),
        (disconnect_has(x.0) || x.0 == 0x26) && disconnect_known(b) ==> disconnect_known(bag_push(b, x)),
{
    let c = bag_push(b, x);
    assert(x.1 is UMap <==> x.0 == 0x26);
    assert forall|id: u8| #[trigger] bv(c, id) == if id == x.0 && x.0 != 0x26 { Some(x.1) } else { bv(b, id) } by {}
    assert((disconnect_of(c)) == disconnect_of(c));
}

/// o is a value of the property id that says what v says
pub open spec fn disconnect_fld(v: DisconnectV, o: Option<PV>, id: u8) -> bool {
    match id {
        0x11 => v.session_expiry_interval == (match o { Some(PV::U32(x)) => Some(x), _ => None }),
        0x1C => v.server_reference == (match o { Some(PV::Str(x)) => Some(x), _ => None }),
        0x1F => v.reason_string == (match o { Some(PV::Str(x)) => Some(x), _ => None }),
        _ => true,
    }
}
/// the list l says what v says about the properties ii
pub open spec fn disconnect_acc(l: Seq<(u8, PropType)>, v: DisconnectV, ii: Set<u8>) -> bool {
    &&& acc0(l, ii)
    &&& forall|id: u8| #[trigger] ii.contains(id) ==> (disconnect_has(id) || id == 0x26) && disconnect_fld(v, lk(l, id), id)
    &&& ii.contains(0x26) ==> pus(l) == v.user
    &&& ii.contains(0x0B) ==> psub(l) == Seq::<u32>::empty()
    &&& disconnect_fits(v) ==> pok(l)
}
pub broadcast proof fn lemma_disconnect_nil(l: Seq<(u8, PropType)>, v: DisconnectV)
    requires l.len() == 0,
    ensures #[trigger] disconnect_acc(l, v, Set::empty())
{ lemma_pst_nil(l); assert forall|id: u8| (#[trigger] lk(l, id)) is None by { lemma_pst_nil2(l, id); } }
pub proof fn lemma_disconnect_acc(s: Seq<(u8, PropType)>, t: Seq<(u8, PropType)>, v: DisconnectV, ii: Set<u8>, id0: u8)
    requires
        disconnect_acc(s, v, ii), !ii.contains(id0), ext1(s, t, id0), disconnect_has(id0) || id0 == 0x26,
        id0 != 0x26 ==> disconnect_fld(v, ext_pv(s, t), id0),
        id0 != 0x0B,
        id0 == 0x26 ==> (match ext_pv(s, t) { Some(PV::UMap(u)) => u, _ => UV::empty() }) == v.user,
        disconnect_fits(v) ==> (ext_pv(s, t) matches Some(x) ==> wval_ok(x)),
    ensures disconnect_acc(t, v, ii.insert(id0))
{ lemma_acc0(s, t, ii, id0); }
pub broadcast proof fn lemma_disconnect_all(l: Seq<(u8, PropType)>, v: DisconnectV, ii: Set<u8>)
    requires disconnect_acc(l, v, ii), ii.contains(0x11u8), ii.contains(0x1Cu8), ii.contains(0x1Fu8), ii.contains(0x26),
    ensures #![trigger pvs(l), disconnect_acc(l, v, ii)] wlist(pvs(l)), disconnect_of(bagof(pvs(l))) == v, disconnect_known(bagof(pvs(l))), disconnect_fits(v) ==> wlist_ok(pvs(l))
{ assert(lk(l, 0x11u8) == bv(bagof(pvs(l)), 0x11u8)); assert(lk(l, 0x1Cu8) == bv(bagof(pvs(l)), 0x1Cu8)); assert(lk(l, 0x1Fu8) == bv(bagof(pvs(l)), 0x1Fu8)); assert forall|id: u8| bv(bagof(pvs(l)), id) is Some implies disconnect_has(id) by { assert(lk(l, id) is Some); } }

pub open spec fn disconnect_fits(v: DisconnectV) -> bool {
    (v.server_reference matches Some(s) ==> s.len() <= 65535) && (v.reason_string matches Some(s) ==> s.len() <= 65535) && um_fits(v.user)
}
pub broadcast proof fn lemma_disconnect_of(b: Bag)
    ensures
        #[trigger] disconnect_of(nbag(b)) == (DisconnectV { user: nuv(b.user), ..disconnect_of(b) }),
        bag_ok(nbag(b)) ==> disconnect_fits(disconnect_of(b)),
{
    hide(um_ok);
    hide(str_ok);
    lemma_um_fits(b.user);
    if bag_ok(nbag(b)) { assert(b.vals.contains_key(0x1Cu8) ==> val_ok(b.vals[0x1Cu8])); assert(b.vals.contains_key(0x1Fu8) ==> val_ok(b.vals[0x1Fu8])); reveal(str_ok); reveal(str_ok); }
}

pub struct UnsubscribeV { pub user: UV }
/// what a bag of properties means
pub open spec fn unsubscribe_of(b: Bag) -> UnsubscribeV {
    UnsubscribeV { user: b.user }
}
pub open spec fn unsubscribe_has(id: u8) -> bool { false }
/// only identifiers that the packet may have
pub open spec fn unsubscribe_known(b: Bag) -> bool { forall|id: u8| #![trigger bv(b, id)] #![trigger b.vals.contains_key(id)] bv(b, id) is Some ==> unsubscribe_has(id) }
pub open spec fn unsubscribe_norm(v: UnsubscribeV) -> UnsubscribeV { UnsubscribeV { user: nuv(v.user), ..v } }
/// no properties mean the same as the default value of each
pub open spec fn unsubscribe_val(o: Option<UnsubscribeV>) -> UnsubscribeV { match o { Some(v) => v, None => unsubscribe_of(bag0()) } }
/// reading the property block; there is none before version 5
pub open spec fn p_unsubscribe(w: Seq<u8>, ver: u8) -> Option<(Option<UnsubscribeV>, Seq<u8>)> {
    if ver == 5 {
        match p_block(w) {
            Some((ps, r)) => if unsubscribe_known(bagof(ps)) { Some((if ps.len() == 0 { None } else { Some(unsubscribe_of(bagof(ps))) }, r)) } else { None },
            None => None,
        }
    } else { Some((None, w)) }
}
/// b is a property block that says what o says
pub open spec fn unsubscribe_blk(o: Option<UnsubscribeV>, ver: u8, b: Seq<u8>) -> bool {
    if ver == 5 { exists|ps: Seq<(u8, PV)>| b == #[trigger] e_block(ps) && pwritten(ps) && unsubscribe_known(bagof(ps)) && unsubscribe_of(bagof(ps)) == unsubscribe_norm(unsubscribe_val(o)) }
    else { b.len() == 0 }
}
pub open spec fn unsubscribe_can(o: Option<UnsubscribeV>, ver: u8) -> bool { ver == 5 ==> (o matches Some(v) ==> unsubscribe_fits(v)) }
pub proof fn lemma_unsubscribe_read(o: Option<UnsubscribeV>, ver: u8, b: Seq<u8>, w: Seq<u8>)
    requires unsubscribe_blk(o, ver, b), b.len() <= MAXVAR,
    ensures
        p_unsubscribe(b + w, ver) matches Some(x) && x.1 == w && (if ver == 5 { unsubscribe_val(x.0) == unsubscribe_norm(unsubscribe_val(o)) && b.len() > 0 } else { x.0 is None }),
        ver == 5 && b.len() == 1 ==> unsubscribe_norm(unsubscribe_val(o)) == unsubscribe_val(None),
{
    hide(unsubscribe_of);
    if ver == 5 {
        let ps = choose|ps: Seq<(u8, PV)>| b == #[trigger] e_block(ps) && pwritten(ps) && unsubscribe_known(bagof(ps)) && unsubscribe_of(bagof(ps)) == unsubscribe_norm(unsubscribe_val(o));
        lemma_pblock(ps, w);
        lemma_eblock_len(ps);
    } else {
        assert(b + w =~= w);
    }
}

/// one more property
pub open spec fn unsubscribe_upd(v: UnsubscribeV, id: u8, p: PV) -> UnsubscribeV {
    match id {
        0x26 => match p { PV::UMap(x) => UnsubscribeV { user: x, ..v }, _ => v },
        _ => v,
    }
}
pub proof fn lemma_unsubscribe_step(b: Bag, x: (u8, PV))
    requires !(x.1 is Pair), kind_of(x.1) == kind(x.0),
    ensures
        unsubscribe_has(x.0) || x.0 == 0x26 ==> unsubscribe_of(bag_push(b, x)) == unsubscribe_upd(unsubscribe_of(b), x.0, x.1),
        (unsubscribe_has(x.0) || x.0 == 0x26) && unsubscribe_known(b) ==> unsubscribe_known(bag_push(b, x)),
{
    let c = bag_push(b, x);
    assert(x.1 is UMap <==> x.0 == 0x26);
    assert forall|id: u8| #[trigger] bv(c, id) == if id == x.0 && x.0 != 0x26 { Some(x.1) } else { bv(b, id) } by {}
    assert((unsubscribe_of(c)) == unsubscribe_of(c));
}

/// o is a value of the property id that says what v says
pub open spec fn unsubscribe_fld(v: UnsubscribeV, o: Option<PV>, id: u8) -> bool {
    match id {
        _ => true,
    }
}
/// the list l says what v says about the properties ii
pub open spec fn unsubscribe_acc(l: Seq<(u8, PropType)>, v: UnsubscribeV, ii: Set<u8>) -> bool {
    &&& acc0(l, ii)
    &&& forall|id: u8| #[trigger] ii.contains(id) ==> (unsubscribe_has(id) || id == 0x26) && unsubscribe_fld(v, lk(l, id), id)
    &&& ii.contains(0x26) ==> pus(l) == v.user
    &&& ii.contains(0x0B) ==> psub(l) == Seq::<u32>::empty()
    &&& unsubscribe_fits(v) ==> pok(l)
}
pub broadcast proof fn lemma_unsubscribe_nil(l: Seq<(u8, PropType)>, v: UnsubscribeV)
    requires l.len() == 0,
    ensures #[trigger] unsubscribe_acc(l, v, Set::empty())
{ lemma_pst_nil(l); assert forall|id: u8| (#[trigger] lk(l, id)) is None by { lemma_pst_nil2(l, id); } }
pub proof fn lemma_unsubscribe_acc(s: Seq<(u8, PropType)>, t: Seq<(u8, PropType)>, v: UnsubscribeV, ii: Set<u8>, id0: u8)
    requires
        unsubscribe_acc(s, v, ii), !ii.contains(id0), ext1(s, t, id0), unsubscribe_has(id0) || id0 == 0x26,
        id0 != 0x26 ==> unsubscribe_fld(v, ext_pv(s, t), id0),
        id0 != 0x0B,
        id0 == 0x26 ==> (match ext_pv(s, t) { Some(PV::UMap(u)) => u, _ => UV::empty() }) == v.user,
        unsubscribe_fits(v) ==> (ext_pv(s, t) matches Some(x) ==> wval_ok(x)),
    ensures unsubscribe_acc(t, v, ii.insert(id0))
{ lemma_acc0(s, t, ii, id0); }
pub broadcast proof fn lemma_unsubscribe_all(l: Seq<(u8, PropType)>, v: UnsubscribeV, ii: Set<u8>)
    requires unsubscribe_acc(l, v, ii), ii.contains(0x26),
    ensures #![trigger pvs(l), unsubscribe_acc(l, v, ii)] wlist(pvs(l)), unsubscribe_of(bagof(pvs(l))) == v, unsubscribe_known(bagof(pvs(l))), unsubscribe_fits(v) ==> wlist_ok(pvs(l))
{ assert forall|id: u8| bv(bagof(pvs(l)), id) is Some implies unsubscribe_has(id) by { assert(lk(l, id) is Some); } }

pub open spec fn unsubscribe_fits(v: UnsubscribeV) -> bool {
    um_fits(v.user)
}
pub broadcast proof fn lemma_unsubscribe_of(b: Bag)
    ensures
        #[trigger] unsubscribe_of(nbag(b)) == (UnsubscribeV { user: nuv(b.user), ..unsubscribe_of(b) }),
        bag_ok(nbag(b)) ==> unsubscribe_fits(unsubscribe_of(b)),
{
    hide(um_ok);
    hide(str_ok);
    lemma_um_fits(b.user);
    if bag_ok(nbag(b)) { }
}

pub struct WillV { pub payload_format_indicator: bool, pub message_expiry_interval: Option<u32>, pub content_type: Option<Seq<u8>>, pub response_topic: Option<Seq<u8>>, pub correlation_data: Seq<u8>, pub will_delay_interval: u32, pub user: UV }
/// what a bag of properties means
pub open spec fn will_of(b: Bag) -> WillV {
    WillV { payload_format_indicator: g_bool(b, 0x01u8, false), message_expiry_interval: g_ou32(b, 0x02u8), content_type: g_ostr(b, 0x03u8), response_topic: g_ostr(b, 0x08u8), correlation_data: g_bin(b, 0x09u8), will_delay_interval: g_u32(b, 0x18u8, 0u32), user: b.user }
}
pub open spec fn will_has(id: u8) -> bool { id == 0x01u8 || id == 0x02u8 || id == 0x03u8 || id == 0x08u8 || id == 0x09u8 || id == 0x18u8 }
/// only identifiers that the packet may have
pub open spec fn will_known(b: Bag) -> bool { forall|id: u8| #![trigger bv(b, id)] #![trigger b.vals.contains_key(id)] bv(b, id) is Some ==> will_has(id) }
pub open spec fn will_norm(v: WillV) -> WillV { WillV { user: nuv(v.user), ..v } }
/// no properties mean the same as the default value of each
pub open spec fn will_val(o: Option<WillV>) -> WillV { match o { Some(v) => v, None => will_of(bag0()) } }
/// reading the property block; there is none before version 5
pub open spec fn p_will(w: Seq<u8>, ver: u8) -> Option<(Option<WillV>, Seq<u8>)> {
    if ver == 5 {
        match p_block(w) {
            Some((ps, r)) => if will_known(bagof(ps)) { Some((if ps.len() == 0 { None } else { Some(will_of(bagof(ps))) }, r)) } else { None },
            None => None,
        }
    } else { Some((None, w)) }
}
/// b is a property block that says what o says
pub open spec fn will_blk(o: Option<WillV>, ver: u8, b: Seq<u8>) -> bool {
    if ver == 5 { exists|ps: Seq<(u8, PV)>| b == #[trigger] e_block(ps) && pwritten(ps) && will_known(bagof(ps)) && will_of(bagof(ps)) == will_norm(will_val(o)) }
    else { b.len() == 0 }
}
pub open spec fn will_can(o: Option<WillV>, ver: u8) -> bool { ver == 5 ==> (o matches Some(v) ==> will_fits(v)) }
pub proof fn lemma_will_read(o: Option<WillV>, ver: u8, b: Seq<u8>, w: Seq<u8>)
    requires will_blk(o, ver, b), b.len() <= MAXVAR,
    ensures
        p_will(b + w, ver) matches Some(x) && x.1 == w && (if ver == 5 { will_val(x.0) == will_norm(will_val(o)) && b.len() > 0 } else { x.0 is None }),
        ver == 5 && b.len() == 1 ==> will_norm(will_val(o)) == will_val(None),
{
    hide(will_of);
    if ver == 5 {
        let ps = choose|ps: Seq<(u8, PV)>| b == #[trigger] e_block(ps) && pwritten(ps) && will_known(bagof(ps)) && will_of(bagof(ps)) == will_norm(will_val(o));
        lemma_pblock(ps, w);
        lemma_eblock_len(ps);
    } else {
        assert(b + w =~= w);
    }
}

/// one more property
pub open spec fn will_upd(v: WillV, id: u8, p: PV) -> WillV {
    match id {
        0x01 => match p { PV::Bool(x) => WillV { payload_format_indicator: x, ..v }, _ => v },
        0x02 => match p { PV::U32(x) => WillV { message_expiry_interval: Some(x), ..v }, _ => v },
        0x03 => match p { PV::Str(x) => WillV { content_type: Some(x), ..v }, _ => v },
        0x08 => match p { PV::Str(x) => WillV { response_topic: Some(x), ..v }, _ => v },
        0x09 => match p { PV::Bin(x) => WillV { correlation_data: x, ..v }, _ => v },
        0x18 => match p { PV::U32(x) => WillV { will_delay_interval: x, ..v }, _ => v },
        0x26 => match p { PV::UMap(x) => WillV { user: x, ..v }, _ => v },
        _ => v,
    }
}
pub proof fn lemma_will_step(b: Bag, x: (u8, PV))
    requires !(x.1 is Pair), kind_of(x.1) == kind(x.0),
    ensures
        will_has(x.0) || x.0 == 0x26 ==> will_of(bag_push(b, x)) == will_upd(will_of(b), x.0, x.1),
        (will_has(x.0) || x.0 == 0x26) && will_known(b) ==> will_known(bag_push(b, x)),
{
    let c = bag_push(b, x);
    assert(x.1 is UMap <==> x.0 == 0x26);
    assert forall|id: u8| #[trigger] bv(c, id) == if id == x.0 && x.0 != 0x26 { Some(x.1) } else { bv(b, id) } by {}
    assert((will_of(c)) == will_of(c));
}

/// o is a value of the property id that says what v says
pub open spec fn will_fld(v: WillV, o: Option<PV>, id: u8) -> bool {
    match id {
        0x01 => v.payload_format_indicator == (match o { Some(PV::Bool(x)) => x, _ => false }),
        0x02 => v.message_expiry_interval == (match o { Some(PV::U32(x)) => Some(x), _ => None }),
        0x03 => v.content_type == (match o { Some(PV::Str(x)) => Some(x), _ => None }),
        0x08 => v.response_topic == (match o { Some(PV::Str(x)) => Some(x), _ => None }),
        0x09 => v.correlation_data == (match o { Some(PV::Bin(x)) => x, _ => Seq::empty() }),
        0x18 => v.will_delay_interval == (match o { Some(PV::U32(x)) => x, _ => 0u32 }),
        _ => true,
    }
}
/// the list l says what v says about the properties ii
pub open spec fn will_acc(l: Seq<(u8, PropType)>, v: WillV, ii: Set<u8>) -> bool {
    &&& acc0(l, ii)
    &&& forall|id: u8| #[trigger] ii.contains(id) ==> (will_has(id) || id == 0x26) && will_fld(v, lk(l, id), id)
    &&& ii.contains(0x26) ==> pus(l) == v.user
    &&& ii.contains(0x0B) ==> psub(l) == Seq::<u32>::empty()
    &&& will_fits(v) ==> pok(l)
}
pub broadcast proof fn lemma_will_nil(l: Seq<(u8, PropType)>, v: WillV)
    requires l.len() == 0,
    ensures #[trigger] will_acc(l, v, Set::empty())
{ lemma_pst_nil(l); assert forall|id: u8| (#[trigger] lk(l, id)) is None by { lemma_pst_nil2(l, id); } }
pub proof fn lemma_will_acc(s: Seq<(u8, PropType)>, t: Seq<(u8, PropType)>, v: WillV, ii: Set<u8>, id0: u8)
    requires
        will_acc(s, v, ii), !ii.contains(id0), ext1(s, t, id0), will_has(id0) || id0 == 0x26,
        id0 != 0x26 ==> will_fld(v, ext_pv(s, t), id0),
        id0 != 0x0B,
        id0 == 0x26 ==> (match ext_pv(s, t) { Some(PV::UMap(u)) => u, _ => UV::empty() }) == v.user,
        will_fits(v) ==> (ext_pv(s, t) matches Some(x) ==> wval_ok(x)),
    ensures will_acc(t, v, ii.insert(id0))
{ lemma_acc0(s, t, ii, id0); }
pub broadcast proof fn lemma_will_all(l: Seq<(u8, PropType)>, v: WillV, ii: Set<u8>)
    requires will_acc(l, v, ii), ii.contains(0x01u8), ii.contains(0x02u8), ii.contains(0x03u8), ii.contains(0x08u8), ii.contains(0x09u8), ii.contains(0x18u8), ii.contains(0x26),
    ensures #![trigger pvs(l), will_acc(l, v, ii)] wlist(pvs(l)), will_of(bagof(pvs(l))) == v, will_known(bagof(pvs(l))), will_fits(v) ==> wlist_ok(pvs(l))
{ assert(lk(l, 0x01u8) == bv(bagof(pvs(l)), 0x01u8)); assert(lk(l, 0x02u8) == bv(bagof(pvs(l)), 0x02u8)); assert(lk(l, 0x03u8) == bv(bagof(pvs(l)), 0x03u8)); assert(lk(l, 0x08u8) == bv(bagof(pvs(l)), 0x08u8)); assert(lk(l, 0x09u8) == bv(bagof(pvs(l)), 0x09u8)); assert(lk(l, 0x18u8) == bv(bagof(pvs(l)), 0x18u8)); assert forall|id: u8| bv(bagof(pvs(l)), id) is Some implies will_has(id) by { assert(lk(l, id) is Some); } }

pub open spec fn will_fits(v: WillV) -> bool {
    (v.content_type matches Some(s) ==> s.len() <= 65535) && (v.response_topic matches Some(s) ==> s.len() <= 65535) && v.correlation_data.len() <= 65535 && um_fits(v.user)
}
pub broadcast proof fn lemma_will_of(b: Bag)
    ensures
        #[trigger] will_of(nbag(b)) == (WillV { user: nuv(b.user), ..will_of(b) }),
        bag_ok(nbag(b)) ==> will_fits(will_of(b)),
{
    hide(um_ok);
    hide(str_ok);
    lemma_um_fits(b.user);
    if bag_ok(nbag(b)) { assert(b.vals.contains_key(0x03u8) ==> val_ok(b.vals[0x03u8])); assert(b.vals.contains_key(0x08u8) ==> val_ok(b.vals[0x08u8])); assert(b.vals.contains_key(0x09u8) ==> val_ok(b.vals[0x09u8])); reveal(str_ok); reveal(str_ok); }
}

pub struct ConnackV { pub session_expiry_interval: u32, pub assigned_client_identifier: Option<Seq<u8>>, pub server_keep_alive: Option<u16>, pub authentication_method: Option<Seq<u8>>, pub authentication_data: Option<Seq<u8>>, pub response_information: Option<Seq<u8>>, pub server_reference: Option<Seq<u8>>, pub reason_string: Option<Seq<u8>>, pub receive_maximum: u16, pub topic_alias_maximum: u16, pub maximum_qos: u8, pub retain_available: bool, pub maximum_packet_size: Option<u32>, pub wildcard_subscription_available: bool, pub subscription_identifiers_available: bool, pub shared_subscription_available: bool, pub user: UV }
/// what a bag of properties means
pub open spec fn connack_of(b: Bag) -> ConnackV {
    ConnackV { session_expiry_interval: g_u32(b, 0x11u8, 0u32), assigned_client_identifier: g_ostr(b, 0x12u8), server_keep_alive: g_ou16(b, 0x13u8), authentication_method: g_ostr(b, 0x15u8), authentication_data: g_ostr(b, 0x16u8), response_information: g_ostr(b, 0x1Au8), server_reference: g_ostr(b, 0x1Cu8), reason_string: g_ostr(b, 0x1Fu8), receive_maximum: g_u16(b, 0x21u8, 65535u16), topic_alias_maximum: g_u16(b, 0x22u8, 0u16), maximum_qos: g_u8(b, 0x24u8, 2u8), retain_available: g_bool(b, 0x25u8, true), maximum_packet_size: g_ou32(b, 0x27u8), wildcard_subscription_available: g_bool(b, 0x28u8, false), subscription_identifiers_available: g_bool(b, 0x29u8, false), shared_subscription_available: g_bool(b, 0x2Au8, false), user: b.user }
}
pub open spec fn connack_has(id: u8) -> bool { id == 0x11u8 || id == 0x12u8 || id == 0x13u8 || id == 0x15u8 || id == 0x16u8 || id == 0x1Au8 || id == 0x1Cu8 || id == 0x1Fu8 || id == 0x21u8 || id == 0x22u8 || id == 0x24u8 || id == 0x25u8 || id == 0x27u8 || id == 0x28u8 || id == 0x29u8 || id == 0x2Au8 }
/// only identifiers that the packet may have
pub open spec fn connack_known(b: Bag) -> bool { forall|id: u8| #![trigger bv(b, id)] #![trigger b.vals.contains_key(id)] bv(b, id) is Some ==> connack_has(id) }
pub open spec fn connack_norm(v: ConnackV) -> ConnackV { ConnackV { user: nuv(v.user), ..v } }
/// no properties mean the same as the default value of each
pub open spec fn connack_val(o: Option<ConnackV>) -> ConnackV { match o { Some(v) => v, None => connack_of(bag0()) } }
/// reading the property block; there is none before version 5
pub open spec fn p_connack(w: Seq<u8>, ver: u8) -> Option<(Option<ConnackV>, Seq<u8>)> {
    if ver == 5 {
        match p_block(w) {
            Some((ps, r)) => if connack_known(bagof(ps)) { Some((if ps.len() == 0 { None } else { Some(connack_of(bagof(ps))) }, r)) } else { None },
            None => None,
        }
    } else { Some((None, w)) }
}
/// b is a property block that says what o says
pub open spec fn connack_blk(o: Option<ConnackV>, ver: u8, b: Seq<u8>) -> bool {
    if ver == 5 { exists|ps: Seq<(u8, PV)>| b == #[trigger] e_block(ps) && pwritten(ps) && connack_known(bagof(ps)) && connack_of(bagof(ps)) == connack_norm(connack_val(o)) }
    else { b.len() == 0 }
}
pub open spec fn connack_can(o: Option<ConnackV>, ver: u8) -> bool { ver == 5 ==> (o matches Some(v) ==> connack_fits(v)) }
pub proof fn lemma_connack_read(o: Option<ConnackV>, ver: u8, b: Seq<u8>, w: Seq<u8>)
    requires connack_blk(o, ver, b), b.len() <= MAXVAR,
    ensures
        p_connack(b + w, ver) matches Some(x) && x.1 == w && (if ver == 5 { connack_val(x.0) == connack_norm(connack_val(o)) && b.len() > 0 } else { x.0 is None }),
        ver == 5 && b.len() == 1 ==> connack_norm(connack_val(o)) == connack_val(None),
{
    hide(connack_of);
    if ver == 5 {
        let ps = choose|ps: Seq<(u8, PV)>| b == #[trigger] e_block(ps) && pwritten(ps) && connack_known(bagof(ps)) && connack_of(bagof(ps)) == connack_norm(connack_val(o));
        lemma_pblock(ps, w);
        lemma_eblock_len(ps);
    } else {
        assert(b + w =~= w);
    }
}

/// one more property
pub open spec fn connack_upd(v: ConnackV, id: u8, p: PV) -> ConnackV {
    match id {
        0x11 => match p { PV::U32(x) => ConnackV { session_expiry_interval: x, ..v }, _ => v },
        0x12 => match p { PV::Str(x) => ConnackV { assigned_client_identifier: Some(x), ..v }, _ => v },
        0x13 => match p { PV::U16(x) => ConnackV { server_keep_alive: Some(x), ..v }, _ => v },
        0x15 => match p { PV::Str(x) => ConnackV { authentication_method: Some(x), ..v }, _ => v },
        0x16 => match p { PV::Str(x) => ConnackV { authentication_data: Some(x), ..v }, _ => v },
        0x1A => match p { PV::Str(x) => ConnackV { response_information: Some(x), ..v }, _ => v },
        0x1C => match p { PV::Str(x) => ConnackV { server_reference: Some(x), ..v }, _ => v },
        0x1F => match p { PV::Str(x) => ConnackV { reason_string: Some(x), ..v }, _ => v },
        0x21 => match p { PV::U16(x) => ConnackV { receive_maximum: x, ..v }, _ => v },
        0x22 => match p { PV::U16(x) => ConnackV { topic_alias_maximum: x, ..v }, _ => v },
        0x24 => match p { PV::U8(x) => ConnackV { maximum_qos: x, ..v }, _ => v },
        0x25 => match p { PV::Bool(x) => ConnackV { retain_available: x, ..v }, _ => v },
        0x27 => match p { PV::U32(x) => ConnackV { maximum_packet_size: Some(x), ..v }, _ => v },
        0x28 => match p { PV::Bool(x) => ConnackV { wildcard_subscription_available: x, ..v }, _ => v },
        0x29 => match p { PV::Bool(x) => ConnackV { subscription_identifiers_available: x, ..v }, _ => v },
        0x2A => match p { PV::Bool(x) => ConnackV { shared_subscription_available: x, ..v }, _ => v },
        0x26 => match p { PV::UMap(x) => ConnackV { user: x, ..v }, _ => v },
        _ => v,
    }
}
pub proof fn lemma_connack_step(b: Bag, x: (u8, PV))
    requires !(x.1 is Pair), kind_of(x.1) == kind(x.0),
    ensures
        connack_has(x.0) || x.0 == 0x26 ==> connack_of(bag_push(b, x)) == connack_upd(connack_of(b), x.0, x.1),
        (connack_has(x.0) || x.0 == 0x26) && connack_known(b) ==> connack_known(bag_push(b, x)),
{
    let c = bag_push(b, x);
    assert(x.1 is UMap <==> x.0 == 0x26);
    assert forall|id: u8| #[trigger] bv(c, id) == if id == x.0 && x.0 != 0x26 { Some(x.1) } else { bv(b, id) } by {}
    assert((connack_of(c)) == connack_of(c));
}

/// o is a value of the property id that says what v says
pub open spec fn connack_fld(v: ConnackV, o: Option<PV>, id: u8) -> bool {
    match id {
        0x11 => v.session_expiry_interval == (match o { Some(PV::U32(x)) => x, _ => 0u32 }),
        0x12 => v.assigned_client_identifier == (match o { Some(PV::Str(x)) => Some(x), _ => None }),
        0x13 => v.server_keep_alive == (match o { Some(PV::U16(x)) => Some(x), _ => None }),
        0x15 => v.authentication_method == (match o { Some(PV::Str(x)) => Some(x), _ => None }),
        0x16 => v.authentication_data == (match o { Some(PV::Str(x)) => Some(x), _ => None }),
        0x1A => v.response_information == (match o { Some(PV::Str(x)) => Some(x), _ => None }),
        0x1C => v.server_reference == (match o { Some(PV::Str(x)) => Some(x), _ => None }),
        0x1F => v.reason_string == (match o { Some(PV::Str(x)) => Some(x), _ => None }),
        0x21 => v.receive_maximum == (match o { Some(PV::U16(x)) => x, _ => 65535u16 }),
        0x22 => v.topic_alias_maximum == (match o { Some(PV::U16(x)) => x, _ => 0u16 }),
        0x24 => v.maximum_qos == (match o { Some(PV::U8(x)) => x, _ => 2u8 }),
        0x25 => v.retain_available == (match o { Some(PV::Bool(x)) => x, _ => true }),
        0x27 => v.maximum_packet_size == (match o { Some(PV::U32(x)) => Some(x), _ => None }),
        0x28 => v.wildcard_subscription_available == (match o { Some(PV::Bool(x)) => x, _ => false }),
        0x29 => v.subscription_identifiers_available == (match o { Some(PV::Bool(x)) => x, _ => false }),
        0x2A => v.shared_subscription_available == (match o { Some(PV::Bool(x)) => x, _ => false }),
        _ => true,
    }
}
/// the list l says what v says about the properties ii
pub open spec fn connack_acc(l: Seq<(u8, PropType)>, v: ConnackV, ii: Set<u8>) -> bool {
    &&& acc0(l, ii)
    &&& forall|id: u8| #[trigger] ii.contains(id) ==> (connack_has(id) || id == 0x26) && connack_fld(v, lk(l, id), id)
    &&& ii.contains(0x26) ==> pus(l) == v.user
    &&& ii.contains(0x0B) ==> psub(l) == Seq::<u32>::empty()
    &&& connack_fits(v) ==> pok(l)
}
pub broadcast proof fn lemma_connack_nil(l: Seq<(u8, PropType)>, v: ConnackV)
    requires l.len() == 0,
    ensures #[trigger] connack_acc(l, v, Set::empty())
{ lemma_pst_nil(l); assert forall|id: u8| (#[trigger] lk(l, id)) is None by { lemma_pst_nil2(l, id); } }
pub proof fn lemma_connack_acc(s: Seq<(u8, PropType)>, t: Seq<(u8, PropType)>, v: ConnackV, ii: Set<u8>, id0: u8)
    requires
        connack_acc(s, v, ii), !ii.contains(id0), ext1(s, t, id0), connack_has(id0) || id0 == 0x26,
        id0 != 0x26 ==> connack_fld(v, ext_pv(s, t), id0),
        id0 != 0x0B,
        id0 == 0x26 ==> (match ext_pv(s, t) { Some(PV::UMap(u)) => u, _ => UV::empty() }) == v.user,
        connack_fits(v) ==> (ext_pv(s, t) matches Some(x) ==> wval_ok(x)),
    ensures connack_acc(t, v, ii.insert(id0))
{ lemma_acc0(s, t, ii, id0); }
pub broadcast proof fn lemma_connack_all(l: Seq<(u8, PropType)>, v: ConnackV, ii: Set<u8>)
    requires connack_acc(l, v, ii), ii.contains(0x11u8), ii.contains(0x12u8), ii.contains(0x13u8), ii.contains(0x15u8), ii.contains(0x16u8), ii.contains(0x1Au8), ii.contains(0x1Cu8), ii.contains(0x1Fu8), ii.contains(0x21u8), ii.contains(0x22u8), ii.contains(0x24u8), ii.contains(0x25u8), ii.contains(0x27u8), ii.contains(0x28u8), ii.contains(0x29u8), ii.contains(0x2Au8), ii.contains(0x26),
    ensures #![trigger pvs(l), connack_acc(l, v, ii)] wlist(pvs(l)), connack_of(bagof(pvs(l))) == v, connack_known(bagof(pvs(l))), connack_fits(v) ==> wlist_ok(pvs(l))
{ assert(lk(l, 0x11u8) == bv(bagof(pvs(l)), 0x11u8)); assert(lk(l, 0x12u8) == bv(bagof(pvs(l)), 0x12u8)); assert(lk(l, 0x13u8) == bv(bagof(pvs(l)), 0x13u8)); assert(lk(l, 0x15u8) == bv(bagof(pvs(l)), 0x15u8)); assert(lk(l, 0x16u8) == bv(bagof(pvs(l)), 0x16u8)); assert(lk(l, 0x1Au8) == bv(bagof(pvs(l)), 0x1Au8)); assert(lk(l, 0x1Cu8) == bv(bagof(pvs(l)), 0x1Cu8)); assert(lk(l, 0x1Fu8) == bv(bagof(pvs(l)), 0x1Fu8)); assert(lk(l, 0x21u8) == bv(bagof(pvs(l)), 0x21u8)); assert(lk(l, 0x22u8) == bv(bagof(pvs(l)), 0x22u8)); assert(lk(l, 0x24u8) == bv(bagof(pvs(l)), 0x24u8)); assert(lk(l, 0x25u8) == bv(bagof(pvs(l)), 0x25u8)); assert(lk(l, 0x27u8) == bv(bagof(pvs(l)), 0x27u8)); assert(lk(l, 0x28u8) == bv(bagof(pvs(l)), 0x28u8)); assert(lk(l, 0x29u8) == bv(bagof(pvs(l)), 0x29u8)); assert(lk(l, 0x2Au8) == bv(bagof(pvs(l)), 0x2Au8)); assert forall|id: u8| bv(bagof(pvs(l)), id) is Some implies connack_has(id) by { assert(lk(l, id) is Some); } }

pub open spec fn connack_fits(v: ConnackV) -> bool {
    (v.assigned_client_identifier matches Some(s) ==> s.len() <= 65535) && (v.authentication_method matches Some(s) ==> s.len() <= 65535) && (v.authentication_data matches Some(s) ==> s.len() <= 65535) && (v.response_information matches Some(s) ==> s.len() <= 65535) && (v.server_reference matches Some(s) ==> s.len() <= 65535) && (v.reason_string matches Some(s) ==> s.len() <= 65535) && um_fits(v.user)
}
pub broadcast proof fn lemma_connack_of(b: Bag)
    ensures
        #[trigger] connack_of(nbag(b)) == (ConnackV { user: nuv(b.user), ..connack_of(b) }),
        bag_ok(nbag(b)) ==> connack_fits(connack_of(b)),
{
    hide(um_ok);
    hide(str_ok);
    lemma_um_fits(b.user);
    if bag_ok(nbag(b)) { assert(b.vals.contains_key(0x12u8) ==> val_ok(b.vals[0x12u8])); assert(b.vals.contains_key(0x15u8) ==> val_ok(b.vals[0x15u8])); assert(b.vals.contains_key(0x16u8) ==> val_ok(b.vals[0x16u8])); assert(b.vals.contains_key(0x1Au8) ==> val_ok(b.vals[0x1Au8])); assert(b.vals.contains_key(0x1Cu8) ==> val_ok(b.vals[0x1Cu8])); assert(b.vals.contains_key(0x1Fu8) ==> val_ok(b.vals[0x1Fu8])); reveal(str_ok); reveal(str_ok); reveal(str_ok); reveal(str_ok); reveal(str_ok); reveal(str_ok); }
}

pub struct ConfirmationV { pub reason_string: Option<Seq<u8>>, pub user: UV }
/// what a bag of properties means
pub open spec fn confirmation_of(b: Bag) -> ConfirmationV {
    ConfirmationV { reason_string: g_ostr(b, 0x1Fu8), user: b.user }
}
pub open spec fn confirmation_has(id: u8) -> bool { id == 0x1Fu8 }
/// only identifiers that the packet may have
pub open spec fn confirmation_known(b: Bag) -> bool { forall|id: u8| #![trigger bv(b, id)] #![trigger b.vals.contains_key(id)] bv(b, id) is Some ==> confirmation_has(id) }
pub open spec fn confirmation_norm(v: ConfirmationV) -> ConfirmationV { ConfirmationV { user: nuv(v.user), ..v } }
/// no properties mean the same as the default value of each
pub open spec fn confirmation_val(o: Option<ConfirmationV>) -> ConfirmationV { match o { Some(v) => v, None => confirmation_of(bag0()) } }
/// reading the property block; there is none before version 5
pub open spec fn p_confirmation(w: Seq<u8>, ver: u8) -> Option<(Option<ConfirmationV>, Seq<u8>)> {
    if ver == 5 {
        match p_block(w) {
            Some((ps, r)) => if confirmation_known(bagof(ps)) { Some((if ps.len() == 0 { None } else { Some(confirmation_of(bagof(ps))) }, r)) } else { None },
            None => None,
        }
    } else { Some((None, w)) }
}
/// b is a property block that says what o says
pub open spec fn confirmation_blk(o: Option<ConfirmationV>, ver: u8, b: Seq<u8>) -> bool {
    if ver == 5 { exists|ps: Seq<(u8, PV)>| b == #[trigger] e_block(ps) && pwritten(ps) && confirmation_known(bagof(ps)) && confirmation_of(bagof(ps)) == confirmation_norm(confirmation_val(o)) }
    else { b.len() == 0 }
}
pub open spec fn confirmation_can(o: Option<ConfirmationV>, ver: u8) -> bool { ver == 5 ==> (o matches Some(v) ==> confirmation_fits(v)) }
pub proof fn lemma_confirmation_read(o: Option<ConfirmationV>, ver: u8, b: Seq<u8>, w: Seq<u8>)
    requires confirmation_blk(o, ver, b), b.len() <= MAXVAR,
    ensures
        p_confirmation(b + w, ver) matches Some(x) && x.1 == w && (if ver == 5 { confirmation_val(x.0) == confirmation_norm(confirmation_val(o)) && b.len() > 0 } else { x.0 is None }),
        ver == 5 && b.len() == 1 ==> confirmation_norm(confirmation_val(o)) == confirmation_val(None),
{
    hide(confirmation_of);
    if ver == 5 {
        let ps = choose|ps: Seq<(u8, PV)>| b == #[trigger] e_block(ps) && pwritten(ps) && confirmation_known(bagof(ps)) && confirmation_of(bagof(ps)) == confirmation_norm(confirmation_val(o));
        lemma_pblock(ps, w);
        lemma_eblock_len(ps);
    } else {
        assert(b + w =~= w);
    }
}

/// one more property
pub open spec fn confirmation_upd(v: ConfirmationV, id: u8, p: PV) -> ConfirmationV {
    match id {
        0x1F => match p { PV::Str(x) => ConfirmationV { reason_string: Some(x), ..v }, _ => v },
        0x26 => match p { PV::UMap(x) => ConfirmationV { user: x, ..v }, _ => v },
        _ => v,
    }
}
pub proof fn lemma_confirmation_step(b: Bag, x: (u8, PV))
    requires !(x.1 is Pair), kind_of(x.1) == kind(x.0),
    ensures
        confirmation_has(x.0) || x.0 == 0x26 ==> confirmation_of(bag_push(b, x)) == confirmation_upd(confirmation_of(b), x.0, x.1),
        (confirmation_has(x.0) || x.0 == 0x26) && confirmation_known(b) ==> confirmation_known(bag_push(b, x)),
{
    let c = bag_push(b, x);
    assert(x.1 is UMap <==> x.0 == 0x26);
    assert forall|id: u8| #[trigger] bv(c, id) == if id == x.0 && x.0 != 0x26 { Some(x.1) } else { bv(b, id) } by {}
    assert((confirmation_of(c)) == confirmation_of(c));
}

/// o is a value of the property id that says what v says
pub open spec fn confirmation_fld(v: ConfirmationV, o: Option<PV>, id: u8) -> bool {
    match id {
        0x1F => v.reason_string == (match o { Some(PV::Str(x)) => Some(x), _ => None }),
        _ => true,
    }
}
/// the list l says what v says about the properties ii
pub open spec fn confirmation_acc(l: Seq<(u8, PropType)>, v: ConfirmationV, ii: Set<u8>) -> bool {
    &&& acc0(l, ii)
    &&& forall|id: u8| #[trigger] ii.contains(id) ==> (confirmation_has(id) || id == 0x26) && confirmation_fld(v, lk(l, id), id)
    &&& ii.contains(0x26) ==> pus(l) == v.user
    &&& ii.contains(0x0B) ==> psub(l) == Seq::<u32>::empty()
    &&& confirmation_fits(v) ==> pok(l)
}
pub broadcast proof fn lemma_confirmation_nil(l: Seq<(u8, PropType)>, v: ConfirmationV)
    requires l.len() == 0,
    ensures #[trigger] confirmation_acc(l, v, Set::empty())
{ lemma_pst_nil(l); assert forall|id: u8| (#[trigger] lk(l, id)) is None by { lemma_pst_nil2(l, id); } }
pub proof fn lemma_confirmation_acc(s: Seq<(u8, PropType)>, t: Seq<(u8, PropType)>, v: ConfirmationV, ii: Set<u8>, id0: u8)
    requires
        confirmation_acc(s, v, ii), !ii.contains(id0), ext1(s, t, id0), confirmation_has(id0) || id0 == 0x26,
        id0 != 0x26 ==> confirmation_fld(v, ext_pv(s, t), id0),
        id0 != 0x0B,
        id0 == 0x26 ==> (match ext_pv(s, t) { Some(PV::UMap(u)) => u, _ => UV::empty() }) == v.user,
        confirmation_fits(v) ==> (ext_pv(s, t) matches Some(x) ==> wval_ok(x)),
    ensures confirmation_acc(t, v, ii.insert(id0))
{ lemma_acc0(s, t, ii, id0); }
pub broadcast proof fn lemma_confirmation_all(l: Seq<(u8, PropType)>, v: ConfirmationV, ii: Set<u8>)
    requires confirmation_acc(l, v, ii), ii.contains(0x1Fu8), ii.contains(0x26),
    ensures #![trigger pvs(l), confirmation_acc(l, v, ii)] wlist(pvs(l)), confirmation_of(bagof(pvs(l))) == v, confirmation_known(bagof(pvs(l))), confirmation_fits(v) ==> wlist_ok(pvs(l))
{ assert(lk(l, 0x1Fu8) == bv(bagof(pvs(l)), 0x1Fu8)); assert forall|id: u8| bv(bagof(pvs(l)), id) is Some implies confirmation_has(id) by { assert(lk(l, id) is Some); } }

pub open spec fn confirmation_fits(v: ConfirmationV) -> bool {
    (v.reason_string matches Some(s) ==> s.len() <= 65535) && um_fits(v.user)
}
pub broadcast proof fn lemma_confirmation_of(b: Bag)
    ensures
        #[trigger] confirmation_of(nbag(b)) == (ConfirmationV { user: nuv(b.user), ..confirmation_of(b) }),
        bag_ok(nbag(b)) ==> confirmation_fits(confirmation_of(b)),
{
    hide(um_ok);
    hide(str_ok);
    lemma_um_fits(b.user);
    if bag_ok(nbag(b)) { assert(b.vals.contains_key(0x1Fu8) ==> val_ok(b.vals[0x1Fu8])); reveal(str_ok); }
}

pub struct ConnectV { pub session_expiry_interval: u32, pub authentication_method: Option<Seq<u8>>, pub authentication_data: Option<Seq<u8>>, pub request_problem_information: bool, pub request_response_information: bool, pub receive_maximum: u16, pub topic_alias_maximum: u16, pub maximum_packet_size: Option<u32>, pub user: UV }
/// what a bag of properties means
pub open spec fn connect_of(b: Bag) -> ConnectV {
    ConnectV { session_expiry_interval: g_u32(b, 0x11u8, 0u32), authentication_method: g_ostr(b, 0x15u8), authentication_data: g_ostr(b, 0x16u8), request_problem_information: g_bool(b, 0x17u8, true), request_response_information: g_bool(b, 0x19u8, false), receive_maximum: g_u16(b, 0x21u8, 65535u16), topic_alias_maximum: g_u16(b, 0x22u8, 0u16), maximum_packet_size: g_ou32(b, 0x27u8), user: b.user }
}
pub open spec fn connect_has(id: u8) -> bool { id == 0x11u8 || id == 0x15u8 || id == 0x16u8 || id == 0x17u8 || id == 0x19u8 || id == 0x21u8 || id == 0x22u8 || id == 0x27u8 }
/// only identifiers that the packet may have
pub open spec fn connect_known(b: Bag) -> bool { forall|id: u8| #![trigger bv(b, id)] #![trigger b.vals.contains_key(id)] bv(b, id) is Some ==> connect_has(id) }
pub open spec fn connect_norm(v: ConnectV) -> ConnectV { ConnectV { user: nuv(v.user), ..v } }
/// no properties mean the same as the default value of each
pub open spec fn connect_val(o: Option<ConnectV>) -> ConnectV { match o { Some(v) => v, None => connect_of(bag0()) } }
/// reading the property block; there is none before version 5
pub open spec fn p_connect(w: Seq<u8>, ver: u8) -> Option<(Option<ConnectV>, Seq<u8>)> {
    if ver == 5 {
        match p_block(w) {
            Some((ps, r)) => if connect_known(bagof(ps)) { Some((if ps.len() == 0 { None } else { Some(connect_of(bagof(ps))) }, r)) } else { None },
            None => None,
        }
    } else { Some((None, w)) }
}
/// b is a property block that says what o says
pub open spec fn connect_blk(o: Option<ConnectV>, ver: u8, b: Seq<u8>) -> bool {
    if ver == 5 { exists|ps: Seq<(u8, PV)>| b == #[trigger] e_block(ps) && pwritten(ps) && connect_known(bagof(ps)) && connect_of(bagof(ps)) == connect_norm(connect_val(o)) }
    else { b.len() == 0 }
}
pub open spec fn connect_can(o: Option<ConnectV>, ver: u8) -> bool { ver == 5 ==> (o matches Some(v) ==> connect_fits(v)) }
pub proof fn lemma_connect_read(o: Option<ConnectV>, ver: u8, b: Seq<u8>, w: Seq<u8>)
    requires connect_blk(o, ver, b), b.len() <= MAXVAR,
    ensures
        p_connect(b + w, ver) matches Some(x) && x.1 == w && (if ver == 5 { connect_val(x.0) == connect_norm(connect_val(o)) && b.len() > 0 } else { x.0 is None }),
        ver == 5 && b.len() == 1 ==> connect_norm(connect_val(o)) == connect_val(None),
{
    hide(connect_of);
    if ver == 5 {
        let ps = choose|ps: Seq<(u8, PV)>| b == #[trigger] e_block(ps) && pwritten(ps) && connect_known(bagof(ps)) && connect_of(bagof(ps)) == connect_norm(connect_val(o));
        lemma_pblock(ps, w);
        lemma_eblock_len(ps);
    } else {
        assert(b + w =~= w);
    }
}

/// one more property
pub open spec fn connect_upd(v: ConnectV, id: u8, p: PV) -> ConnectV {
    match id {
        0x11 => match p { PV::U32(x) => ConnectV { session_expiry_interval: x, ..v }, _ => v },
        0x15 => match p { PV::Str(x) => ConnectV { authentication_method: Some(x), ..v }, _ => v },
        0x16 => match p { PV::Str(x) => ConnectV { authentication_data: Some(x), ..v }, _ => v },
        0x17 => match p { PV::Bool(x) => ConnectV { request_problem_information: x, ..v }, _ => v },
        0x19 => match p { PV::Bool(x) => ConnectV { request_response_information: x, ..v }, _ => v },
        0x21 => match p { PV::U16(x) => ConnectV { receive_maximum: x, ..v }, _ => v },
        0x22 => match p { PV::U16(x) => ConnectV { topic_alias_maximum: x, ..v }, _ => v },
        0x27 => match p { PV::U32(x) => ConnectV { maximum_packet_size: Some(x), ..v }, _ => v },
        0x26 => match p { PV::UMap(x) => ConnectV { user: x, ..v }, _ => v },
        _ => v,
    }
}
pub proof fn lemma_connect_step(b: Bag, x: (u8, PV))
    requires !(x.1 is Pair), kind_of(x.1) == kind(x.0),
    ensures
        connect_has(x.0) || x.0 == 0x26 ==> connect_of(bag_push(b, x)) == connect_upd(connect_of(b), x.0, x.1),
        (connect_has(x.0) || x.0 == 0x26) && connect_known(b) ==> connect_known(bag_push(b, x)),
{
    let c = bag_push(b, x);
    assert(x.1 is UMap <==> x.0 == 0x26);
    assert forall|id: u8| #[trigger] bv(c, id) == if id == x.0 && x.0 != 0x26 { Some(x.1) } else { bv(b, id) } by {}
    assert((connect_of(c)) == connect_of(c));
}

/// o is a value of the property id that says what v says
pub open spec fn connect_fld(v: ConnectV, o: Option<PV>, id: u8) -> bool {
    match id {
        0x11 => v.session_expiry_interval == (match o { Some(PV::U32(x)) => x, _ => 0u32 }),
        0x15 => v.authentication_method == (match o { Some(PV::Str(x)) => Some(x), _ => None }),
        0x16 => v.authentication_data == (match o { Some(PV::Str(x)) => Some(x), _ => None }),
        0x17 => v.request_problem_information == (match o { Some(PV::Bool(x)) => x, _ => true }),
        0x19 => v.request_response_information == (match o { Some(PV::Bool(x)) => x, _ => false }),
        0x21 => v.receive_maximum == (match o { Some(PV::U16(x)) => x, _ => 65535u16 }),
        0x22 => v.topic_alias_maximum == (match o { Some(PV::U16(x)) => x, _ => 0u16 }),
        0x27 => v.maximum_packet_size == (match o { Some(PV::U32(x)) => Some(x), _ => None }),
        _ => true,
    }
}
/// the list l says what v says about the properties ii
pub open spec fn connect_acc(l: Seq<(u8, PropType)>, v: ConnectV, ii: Set<u8>) -> bool {
    &&& acc0(l, ii)
    &&& forall|id: u8| #[trigger] ii.contains(id) ==> (connect_has(id) || id == 0x26) && connect_fld(v, lk(l, id), id)
    &&& ii.contains(0x26) ==> pus(l) == v.user
    &&& ii.contains(0x0B) ==> psub(l) == Seq::<u32>::empty()
    &&& connect_fits(v) ==> pok(l)
}
pub broadcast proof fn lemma_connect_nil(l: Seq<(u8, PropType)>, v: ConnectV)
    requires l.len() == 0,
    ensures #[trigger] connect_acc(l, v, Set::empty())
{ lemma_pst_nil(l); assert forall|id: u8| (#[trigger] lk(l, id)) is None by { lemma_pst_nil2(l, id); } }
pub proof fn lemma_connect_acc(s: Seq<(u8, PropType)>, t: Seq<(u8, PropType)>, v: ConnectV, ii: Set<u8>, id0: u8)
    requires
        connect_acc(s, v, ii), !ii.contains(id0), ext1(s, t, id0), connect_has(id0) || id0 == 0x26,
        id0 != 0x26 ==> connect_fld(v, ext_pv(s, t), id0),
        id0 != 0x0B,
        id0 == 0x26 ==> (match ext_pv(s, t) { Some(PV::UMap(u)) => u, _ => UV::empty() }) == v.user,
        connect_fits(v) ==> (ext_pv(s, t) matches Some(x) ==> wval_ok(x)),
    ensures connect_acc(t, v, ii.insert(id0))
{ lemma_acc0(s, t, ii, id0); }
pub broadcast proof fn lemma_connect_all(l: Seq<(u8, PropType)>, v: ConnectV, ii: Set<u8>)
    requires connect_acc(l, v, ii), ii.contains(0x11u8), ii.contains(0x15u8), ii.contains(0x16u8), ii.contains(0x17u8), ii.contains(0x19u8), ii.contains(0x21u8), ii.contains(0x22u8), ii.contains(0x27u8), ii.contains(0x26),
    ensures #![trigger pvs(l), connect_acc(l, v, ii)] wlist(pvs(l)), connect_of(bagof(pvs(l))) == v, connect_known(bagof(pvs(l))), connect_fits(v) ==> wlist_ok(pvs(l))
{ assert(lk(l, 0x11u8) == bv(bagof(pvs(l)), 0x11u8)); assert(lk(l, 0x15u8) == bv(bagof(pvs(l)), 0x15u8)); assert(lk(l, 0x16u8) == bv(bagof(pvs(l)), 0x16u8)); assert(lk(l, 0x17u8) == bv(bagof(pvs(l)), 0x17u8)); assert(lk(l, 0x19u8) == bv(bagof(pvs(l)), 0x19u8)); assert(lk(l, 0x21u8) == bv(bagof(pvs(l)), 0x21u8)); assert(lk(l, 0x22u8) == bv(bagof(pvs(l)), 0x22u8)); assert(lk(l, 0x27u8) == bv(bagof(pvs(l)), 0x27u8)); assert forall|id: u8| bv(bagof(pvs(l)), id) is Some implies connect_has(id) by { assert(lk(l, id) is Some); } }

pub open spec fn connect_fits(v: ConnectV) -> bool {
    (v.authentication_method matches Some(s) ==> s.len() <= 65535) && (v.authentication_data matches Some(s) ==> s.len() <= 65535) && um_fits(v.user)
}
pub broadcast proof fn lemma_connect_of(b: Bag)
    ensures
        #[trigger] connect_of(nbag(b)) == (ConnectV { user: nuv(b.user), ..connect_of(b) }),
        bag_ok(nbag(b)) ==> connect_fits(connect_of(b)),
{
    hide(um_ok);
    hide(str_ok);
    lemma_um_fits(b.user);
    if bag_ok(nbag(b)) { assert(b.vals.contains_key(0x15u8) ==> val_ok(b.vals[0x15u8])); assert(b.vals.contains_key(0x16u8) ==> val_ok(b.vals[0x16u8])); reveal(str_ok); reveal(str_ok); }
}

