#!/usr/bin/env python3
"""writes spec/61_propviews.rs and contracts/properties.vc from the table of MQTT 5 properties per packet type"""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# (identifier, field, type, default)
T = {
 'AuthProperties': ('locals', [
    (0x15, 'authentication_method', 'str', None), (0x16, 'authentication_data', 'ostr', None), (0x1F, 'reason_string', 'ostr', None)]),
 'PublishProperties': ('locals', [
    (0x01, 'payload_format_indicator', 'bool', 'false'), (0x02, 'message_expiry_interval', 'ou32', None), (0x03, 'content_type', 'ostr', None),
    (0x08, 'response_topic', 'ostr', None), (0x09, 'correlation_data', 'bin', None), (0x0B, 'subscription_identifiers', 'subs', None),
    (0x23, 'topic_alias', 'ou16', None)]),
 'SubscribeProperties': ('locals', [(0x0B, 'subscription_identifier', 'sub1', None)]),
 'DisconnectProperties': ('props', [
    (0x11, 'session_expiry_interval', 'ou32', None), (0x1C, 'server_reference', 'ostr', None), (0x1F, 'reason_string', 'ostr', None)]),
 'UnsubscribeProperties': ('locals', []),
 'WillProperties': ('out', [
    (0x01, 'payload_format_indicator', 'bool', 'false'), (0x02, 'message_expiry_interval', 'ou32', None), (0x03, 'content_type', 'ostr', None),
    (0x08, 'response_topic', 'ostr', None), (0x09, 'correlation_data', 'bin', None), (0x18, 'will_delay_interval', 'u32', '0')]),
 'ConnackProperties': ('out', [
    (0x11, 'session_expiry_interval', 'u32', '0'), (0x12, 'assigned_client_identifier', 'ostr', None), (0x13, 'server_keep_alive', 'ou16', None),
    (0x15, 'authentication_method', 'ostr', None), (0x16, 'authentication_data', 'ostr', None), (0x1A, 'response_information', 'ostr', None),
    (0x1C, 'server_reference', 'ostr', None), (0x1F, 'reason_string', 'ostr', None), (0x21, 'receive_maximum', 'u16', '65535'),
    (0x22, 'topic_alias_maximum', 'u16', '0'), (0x24, 'maximum_qos', 'u8', '2'), (0x25, 'retain_available', 'bool', 'true'),
    (0x27, 'maximum_packet_size', 'ou32', None), (0x28, 'wildcard_subscription_available', 'bool', 'false'),
    (0x29, 'subscription_identifiers_available', 'bool', 'false'), (0x2A, 'shared_subscription_available', 'bool', 'false')]),
 'ConfirmationProperties': ('locals', [(0x1F, 'reason_string', 'ostr', None)]),
 'ConnectProperties': ('out', [
    (0x11, 'session_expiry_interval', 'u32', '0'), (0x15, 'authentication_method', 'ostr', None), (0x16, 'authentication_data', 'ostr', None),
    (0x17, 'request_problem_information', 'bool', 'true'), (0x19, 'request_response_information', 'bool', 'false'),
    (0x21, 'receive_maximum', 'u16', '65535'), (0x22, 'topic_alias_maximum', 'u16', '0'), (0x27, 'maximum_packet_size', 'ou32', None)]),
}
EXTRA = {'PublishProperties': '''@before_loop 0
let ghost l1 = out@;
let ghost sids = self.subscription_identifiers@;
@loop 0 it
invariant
    it.seq().len() == sids.len(),
    forall|i: int| 0 <= i < sids.len() ==> *(#[trigger] it.seq()[i]) == sids[i],
    sids == self.subscription_identifiers@,
    out@ == l1 + svp(sids.take(it.index@ as int)),
    forall|i: int| 0 <= i < it.index@ ==> #[trigger] sids[i] <= MAXVAR,
@loop_start 0
broadcast use {lemma_kinds};
proof { assert(sids.take(it.index@ as int + 1) =~= sids.take(it.index@ as int).push(sids[it.index@ as int])); lemma_svp(sids, it.index@ as int); assert(self.v().subscription_identifiers[it.index@ as int] > MAXVAR ==> !Self::fits(self.v())); }
@after_loop 0
proof { assert(sids.take(sids.len() as int) =~= sids); }
'''}
VT = {'str': 'Seq<u8>', 'ostr': 'Option<Seq<u8>>', 'bool': 'bool', 'u32': 'u32', 'u16': 'u16', 'u8': 'u8', 'ou32': 'Option<u32>',
      'ou16': 'Option<u16>', 'bin': 'Seq<u8>', 'subs': 'Seq<u32>', 'sub1': 'u32'}


def view(e, k):
    return {'str': 'sb(%s@)', 'ostr': 'osb(%s)', 'bin': '%s@', 'subs': '%s@'}.get(k, '%s') % e


def getter(i, k, d):
    if k == 'subs':
        return 'b.subs'
    if k == 'sub1':
        return 'g_sub1(b)'
    if d is not None:
        return 'g_%s(b, 0x%02Xu8, %s)' % (k, i, d + ('' if k == 'bool' else k))
    return 'g_%s(b, 0x%02Xu8)' % (k, i)


def fits(f, k):
    if k == 'str':
        return 'v.%s.len() <= 65535' % f
    if k == 'bin':
        return 'v.%s.len() <= 65535' % f
    if k == 'ostr':
        return '(v.%s matches Some(s) ==> s.len() <= 65535)' % f
    if k == 'subs':
        return '(forall|i: int| 0 <= i < v.%s.len() ==> #[trigger] v.%s[i] <= MAXVAR)' % (f, f)
    if k == 'sub1':
        return 'v.%s <= MAXVAR' % f
    return None



PVN = {'str': 'Str', 'ostr': 'Str', 'bool': 'Bool', 'u32': 'U32', 'u16': 'U16', 'u8': 'U8', 'ou32': 'U32', 'ou16': 'U16', 'bin': 'Bin'}


def meaning(k, d):
    """what a value o: Option<PV> stands for"""
    n = PVN[k]
    if k[0] == 'o':
        return 'match o { Some(PV::%s(x)) => Some(x), _ => None }' % n
    if d is not None:
        return 'match o { Some(PV::%s(x)) => x, _ => %s }' % (n, d + ('' if k == 'bool' else k))
    return 'match o { Some(PV::%s(x)) => x, _ => Seq::empty() }' % n


def HINT(fs):
    return ''.join(' assert(b.vals.contains_key(0x%02Xu8) ==> val_ok(b.vals[0x%02Xu8]));' % (i, i) for i, f, k, d in fs if k in ('str', 'ostr', 'bin')) + \
        ''.join(' reveal(str_ok);' for i, f, k, d in fs if k in ('str', 'ostr')) + (' assert(nbag(b).subs == b.subs);' if any(k in ('subs', 'sub1') for i, f, k, d in fs) else '') + \
        ''.join(' assert(b.subs.len() > 0 ==> b.subs[b.subs.len() - 1] <= MAXVAR);' for i, f, k, d in fs if k == 'sub1')


spec = ['// generated by tools/genprops.py: the properties of every packet type\n']
vc = ['#! generated by tools/genprops.py\n' + open(V + '/contracts/properties_trait.txt').read()]
for t, (style, fs) in T.items():
    s = t.replace('Properties', '')
    l = s.lower()
    spec.append('pub struct %sV {%s pub user: UV }' % (s, ''.join(' pub %s: %s,' % (f, VT[k]) for i, f, k, d in fs)))
    spec.append('/// what a bag of properties means\npub open spec fn %s_of(b: Bag) -> %sV {\n    %sV {%s user: b.user }\n}' % (
        l, s, s, ''.join(' %s: %s,' % (f, getter(i, k, d)) for i, f, k, d in fs)))
    spec.append('pub open spec fn %s_has(id: u8) -> bool { %s }' % (l, ' || '.join('id == 0x%02Xu8' % i for i, f, k, d in fs) or 'false'))
    spec.append('''/// only identifiers that the packet may have
pub open spec fn %s_known(b: Bag) -> bool { forall|id: u8| #![trigger bv(b, id)] #![trigger b.vals.contains_key(id)] bv(b, id) is Some ==> %s_has(id) }
pub open spec fn %s_norm(v: %sV) -> %sV { %sV { user: nuv(v.user), ..v } }
/// no properties mean the same as the default value of each
pub open spec fn %s_val(o: Option<%sV>) -> %sV { match o { Some(v) => v, None => %s_of(bag0()) } }
/// reading the property block; there is none before version 5
pub open spec fn p_%s(w: Seq<u8>, ver: u8) -> Option<(Option<%sV>, Seq<u8>)> {
    if ver == 5 {
        match p_block(w) {
            Some((ps, r)) => if %s_known(bagof(ps)) { Some((if ps.len() == 0 { None } else { Some(%s_of(bagof(ps))) }, r)) } else { None },
            None => None,
        }
    } else { Some((None, w)) }
}
/// b is a property block that says what o says
pub open spec fn %s_blk(o: Option<%sV>, ver: u8, b: Seq<u8>) -> bool {
    if ver == 5 { exists|ps: Seq<(u8, PV)>| b == #[trigger] e_block(ps) && pwritten(ps) && %s_known(bagof(ps)) && %s_of(bagof(ps)) == %s_norm(%s_val(o)) }
    else { b.len() == 0 }
}
pub open spec fn %s_can(o: Option<%sV>, ver: u8) -> bool { ver == 5 ==> (o matches Some(v) ==> %s_fits(v)) }
pub proof fn lemma_%s_read(o: Option<%sV>, ver: u8, b: Seq<u8>, w: Seq<u8>)
    requires %s_blk(o, ver, b), b.len() <= MAXVAR,
    ensures
        p_%s(b + w, ver) matches Some(x) && x.1 == w && (if ver == 5 { %s_val(x.0) == %s_norm(%s_val(o)) && b.len() > 0 } else { x.0 is None }),
        ver == 5 && b.len() == 1 ==> %s_norm(%s_val(o)) == %s_val(None),
{
    hide(%s_of);
    if ver == 5 {
        let ps = choose|ps: Seq<(u8, PV)>| b == #[trigger] e_block(ps) && pwritten(ps) && %s_known(bagof(ps)) && %s_of(bagof(ps)) == %s_norm(%s_val(o));
        lemma_pblock(ps, w);
        lemma_eblock_len(ps);
    } else {
        assert(b + w =~= w);
    }
}
''' .replace('%sV', s + 'V').replace('%s', l))
    def upd(f, k):
        if k == 'subs':
            return 'match p { PV::VarInt(x) => %sV { %s: v.%s.push(x), ..v }, _ => v }' % (s, f, f)
        if k == 'sub1':
            return 'match p { PV::VarInt(x) => %sV { %s: x, ..v }, _ => v }' % (s, f)
        return 'match p { PV::%s(x) => %sV { %s: %s, ..v }, _ => v }' % (PVN[k], s, f, 'Some(x)' if k[0] == 'o' else 'x')
    spec.append('''/// one more property
pub open spec fn %s_upd(v: %sV, id: u8, p: PV) -> %sV {
    match id {
%s        0x26 => match p { PV::UMap(x) => %sV { user: x, ..v }, _ => v },
        _ => v,
    }
}
pub proof fn lemma_%s_step(b: Bag, x: (u8, PV))
    requires !(x.1 is Pair), kind_of(x.1) == kind(x.0),
    ensures
        %s_has(x.0) || x.0 == 0x26 ==> %s_of(bag_push(b, x)) == %s_upd(%s_of(b), x.0, x.1),
        (%s_has(x.0) || x.0 == 0x26) && %s_known(b) ==> %s_known(bag_push(b, x)),
{
    let c = bag_push(b, x);
    assert(x.1 is UMap <==> x.0 == 0x26);
    assert forall|id: u8| #[trigger] bv(c, id) == if id == x.0 && x.0 != 0x26 { Some(x.1) } else { bv(b, id) } by {}
    assert((%s_of(c)) == %s_of(c));
}
''' % (l, s, s, ''.join('        0x%02X => %s,\n' % (i, upd(f, k)) for i, f, k, d in fs), s, l, l, l, l, l, l, l, l, l, l))
    spec.append('/// o is a value of the property id that says what v says\npub open spec fn %s_fld(v: %sV, o: Option<PV>, id: u8) -> bool {\n    match id {\n%s        _ => true,\n    }\n}' % (
        l, s, ''.join('        0x%02X => v.%s == (%s),\n' % (i, f, meaning(k, d)) for i, f, k, d in fs if k in PVN)))
    sub = [(f, k) for i, f, k, d in fs if k in ('subs', 'sub1')]
    subv = {'subs': 'psub(l) == v.%s', 'sub1': '(if psub(l).len() == 0 { 0 } else { psub(l).last() }) == v.%s'}[sub[0][1]] % sub[0][0] if sub else 'psub(l) == Seq::<u32>::empty()'
    spec.append('''/// the list l says what v says about the properties ii
pub open spec fn %s_acc(l: Seq<(u8, PropType)>, v: %sV, ii: Set<u8>) -> bool {
    &&& acc0(l, ii)
    &&& forall|id: u8| #[trigger] ii.contains(id) ==> (%s_has(id) || id == 0x26) && %s_fld(v, lk(l, id), id)
    &&& ii.contains(0x26) ==> pus(l) == v.user
    &&& ii.contains(0x0B) ==> %s
    &&& %s_fits(v) ==> pok(l)
}
pub broadcast proof fn lemma_%s_nil(l: Seq<(u8, PropType)>, v: %sV)
    requires l.len() == 0,
    ensures #[trigger] %s_acc(l, v, Set::empty())
{ lemma_pst_nil(l); assert forall|id: u8| (#[trigger] lk(l, id)) is None by { lemma_pst_nil2(l, id); } }
pub proof fn lemma_%s_acc(s: Seq<(u8, PropType)>, t: Seq<(u8, PropType)>, v: %sV, ii: Set<u8>, id0: u8)
    requires
        %s_acc(s, v, ii), !ii.contains(id0), ext1(s, t, id0), %s_has(id0) || id0 == 0x26,
        id0 != 0x26 ==> %s_fld(v, ext_pv(s, t), id0),
        %s
        id0 == 0x26 ==> (match ext_pv(s, t) { Some(PV::UMap(u)) => u, _ => UV::empty() }) == v.user,
        %s_fits(v) ==> (ext_pv(s, t) matches Some(x) ==> wval_ok(x)),
    ensures %s_acc(t, v, ii.insert(id0))
{ lemma_acc0(s, t, ii, id0);%s }
pub broadcast proof fn lemma_%s_all(l: Seq<(u8, PropType)>, v: %sV, ii: Set<u8>)
    requires %s_acc(l, v, ii)%s, ii.contains(0x26),
    ensures #![trigger pvs(l), %s_acc(l, v, ii)] wlist(pvs(l)), %s_of(bagof(pvs(l))) == v, %s_known(bagof(pvs(l))), %s_fits(v) ==> wlist_ok(pvs(l))
{%s assert forall|id: u8| bv(bagof(pvs(l)), id) is Some implies %s_has(id) by { assert(lk(l, id) is Some); } }
''' % (l, s, l, l, subv, l, l, s, l, l, s, l, l, l,
        'id0 == 0x0B ==> (match ext_pv(s, t) { Some(PV::VarInt(n)) => n, _ => 0 }) == v.%s,' % sub[0][0] if sub and sub[0][1] == 'sub1' else 'id0 != 0x0B,',
        l, l, '', l, s, l, ''.join(', ii.contains(0x%02Xu8)' % i for i, f, k, d in fs), l, l, l, l,
        ''.join(' assert(lk(l, 0x%02Xu8) == bv(bagof(pvs(l)), 0x%02Xu8));' % (i, i) for i, f, k, d in fs), l))
    if sub and sub[0][1] == 'subs':
        spec.append('''pub proof fn lemma_%s_subs(s: Seq<(u8, PropType)>, t: Seq<(u8, PropType)>, v: %sV, ii: Set<u8>)
    requires %s_acc(s, v, ii), !ii.contains(0x0B), t == s + svp(v.%s),
    ensures %s_acc(t, v, ii.insert(0x0B))
{ lemma_subs(s, t, v.%s, ii); }
''' % (l, s, l, sub[0][0], l, sub[0][0]))
    ft = [x for x in (fits(f, k) for i, f, k, d in fs) if x]
    spec.append('pub open spec fn %s_fits(v: %sV) -> bool {\n    %s\n}' % (l, s, ' && '.join(ft + ['um_fits(v.user)'])))
    subs = any(k in ('subs', 'sub1') for i, f, k, d in fs)
    spec.append('''pub broadcast proof fn lemma_%s_of(b: Bag)
    ensures
        #[trigger] %s_of(nbag(b)) == (%sV { user: nuv(b.user), ..%s_of(b) }),
        bag_ok(nbag(b)) ==> %s_fits(%s_of(b)),
{
    hide(um_ok);
    hide(str_ok);
    lemma_um_fits(b.user);
    if bag_ok(nbag(b)) {%s }
}
''' % (l, l, s, l, l, l, HINT(fs)))
    if style == 'out':
        vc.append('@fn structure::properties::%s::Default::default\nensures r.v() == %s_of(bag0())\n@body_start\nproof { lemma_bb_start(Seq::empty()); }\n' % (t, l))
    P = 'structure::properties::%s::Properties' % t
    vc.append('@item %s\n@members\ntype V = %sV;\nopen spec fn v(&self) -> %sV { %sV {%s user: umv(self.user_properties@) } }\nopen spec fn of(b: Bag) -> %sV { %s_of(b) }\nopen spec fn norm(v: %sV) -> %sV { %s_norm(v) }\nopen spec fn fits(v: %sV) -> bool { %s_fits(v) }\nproof fn law(b: Bag) { lemma_%s_of(b); }\nopen spec fn known(b: Bag) -> bool { %s_known(b) }\nopen spec fn ov(o: Option<&Self>) -> Option<%sV> { match o { Some(p) => Some(p.v()), None => None } }\nproof fn law_ov(o: Option<&Self>) {}\nopen spec fn blk(o: Option<%sV>, ver: u8, b: Seq<u8>) -> bool { %s_blk(o, ver, b) }\nproof fn law_blk(o: Option<%sV>, ver: u8, ps: Seq<(u8, PV)>) {}\n' % (
        P, s, s, s, ''.join(' %s: %s,' % (f, view('self.' + f, k)) for i, f, k, d in fs), s, l, s, s, l, s, l, l, l, s, s, l, s))
    if style == 'locals':
        cur = '%sV {%s user: umv(user_properties@) }' % (s, ''.join(' %s: %s,' % (f, view(f, k)) for i, f, k, d in fs))
    else:
        cur = '%s.v()' % style
    vc.append('''@fn %s::from_properties
@body_start
hide(kind);
hide(%s_of);
hide(bb);
hide(%s_known);
let ghost l0 = $1@;
proof { lemma_bb_start(l0); reveal(%s_of); reveal(%s_known); }
@before_loop 0
@loop 0 it
invariant
    it.seq() == l0, dlist(l0, false),
    (%s) == %s_of(bb(l0, it.index@ as int)),
    %s_known(bb(l0, it.index@ as int)),
@loop_start 0
proof { lemma_bb_step(l0, it.index@ as int); lemma_%s_step(bb(l0, it.index@ as int), (l0[it.index@ as int].0, pv(l0[it.index@ as int].1))); reveal(kind); if !(l0[it.index@ as int].1 is Map) && !%s_has(l0[it.index@ as int].0) { reveal(%s_known); } }
@after_loop 0
proof { lemma_bb_end(l0); }
''' % (P, l, l, l, l, cur, l, l, l, l, l))
    step = 'lemma_%s_acc(__s, $X@, self.v(), __ii, $ID);' % l
    if any(x[2] == 'subs' for x in fs):
        step = 'if $ID == 0x0B { lemma_%s_subs(__s, $X@, self.v(), __ii); } else { %s }' % (l, step)
    bu = 'broadcast use {lemma_ext_same, lemma_ext_push, lemma_epv_same, lemma_epv_push, lemma_kinds, lemma_um_fits_ok, lemma_umv_empty, lemma_umv_clone, lemma_sb_valid, vstd::std_specs::hash::group_hash_axioms, axiom_string_key, lemma_%s_nil, lemma_%s_all};' % (l, l)
    # each statement is a query of its own: wrapped in a loop that runs once
    if len(fs) > 12:
        around = '''@before_push_stmt
loop
    invariant_except_break %s_acc($X@, self.v(), __ii), !__ii.contains($ID),
    ensures %s_acc($X@, self.v(), __ii.insert($ID)),
    decreases 0int
{
%s
let ghost __s = $X@;
@after_push_stmt
proof { %s } break; }
proof { __ii = __ii.insert($ID); }
''' % (l, l, bu, step)
    else:
        around = '''@before_push_stmt
let ghost __s = $X@;
@after_push_stmt
proof { %s __ii = __ii.insert($ID); }
''' % step
    vc.append('''@fn %s::to_pairs
@attr
#[verifier::spinoff_prover]
@body_start
%s%s
let ghost mut __ii = Set::<u8>::empty();
%s%s%s''' % (P, ''.join('hide(%s);\n' % h for h in [l + '_acc', 'kind', 'bagof', 'ids', 'wlist', 'wlist_ok', 'um_ok', 'um_fits', 'umv', 'str_of', 'pvs', 'bv', 'ext1', 'ext_pv', l + '_of']), bu,
        ''.join('proof { assert(self.%s@.len() == 0 ==> self.%s@ =~= Seq::empty()); }\n' % (f, f) for i, f, k, d in fs if k in ('bin', 'subs')), around, EXTRA.get(t, '')))
open(V + '/spec/61_propviews.rs', 'w').write('\n'.join(spec) + '\n')
open(V + '/contracts/properties.vc', 'w').write('\n'.join(vc) + '\n')
