// ======================================================================
// Properties: what the values of the code mean
// ======================================================================
pub use crate::structure::*;

/// two strings with the same characters are the same string
#[verifier::external_body]
pub proof fn axiom_string_ext(a: String, b: String)
    requires a@ == b@,
    ensures a == b
{}

#[verifier::external_body]
pub broadcast proof fn axiom_string_key()
    ensures #[trigger] obeys_key_model::<String>()
{}

pub open spec fn svals(v: Seq<String>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| sb(v[i]@)) }

pub open spec fn str_of(b: Seq<u8>) -> String { choose|s: String| sb(s@) == b }

/// the user properties a map stands for
pub open spec fn umv(m: Map<String, Vec<String>>) -> UV {
    Map::new(m.dom().map(|s: String| sb(s@)), |b: Seq<u8>| svals(m[str_of(b)]@))
}

pub proof fn lemma_sb_inj(a: String, b: String)
    requires sb(a@) == sb(b@),
    ensures a == b
{
    encode_utf8_decode_utf8(a@);
    encode_utf8_decode_utf8(b@);
    axiom_string_ext(a, b);
}

pub proof fn lemma_str_of(s: String)
    ensures str_of(sb(s@)) == s
{
    lemma_sb_inj(str_of(sb(s@)), s);
}

pub proof fn lemma_umv_get(m: Map<String, Vec<String>>, s: String)
    ensures
        umv(m).contains_key(sb(s@)) == m.contains_key(s),
        m.contains_key(s) ==> umv(m)[sb(s@)] == svals(m[s]@),
{
    lemma_str_of(s);
    if umv(m).contains_key(sb(s@)) {
        let t = choose|t: String| m.contains_key(t) && sb(t@) == sb(s@);
        lemma_sb_inj(s, t);
    }
}

pub proof fn lemma_umv_insert(m: Map<String, Vec<String>>, s: String, v: Vec<String>)
    ensures umv(m.insert(s, v)) == umv(m).insert(sb(s@), svals(v@))
{
    let a = umv(m.insert(s, v));
    let b = umv(m).insert(sb(s@), svals(v@));
    assert forall|k: Seq<u8>| #[trigger] a.contains_key(k) == b.contains_key(k) by {
        if a.contains_key(k) {
            let t = choose|t: String| m.insert(s, v).contains_key(t) && sb(t@) == k;
            lemma_umv_get(m, t);
        }
        if b.contains_key(k) && k != sb(s@) {
            let t = choose|t: String| m.contains_key(t) && sb(t@) == k;
            lemma_umv_get(m.insert(s, v), t);
        }
        if k == sb(s@) {
            lemma_umv_get(m.insert(s, v), s);
        }
    }
    assert forall|k: Seq<u8>| a.contains_key(k) implies #[trigger] a[k] == b[k] by {
        let t = choose|t: String| m.insert(s, v).contains_key(t) && sb(t@) == k;
        lemma_umv_get(m.insert(s, v), t);
        lemma_umv_get(m, t);
        if k == sb(s@) { lemma_sb_inj(t, s); }
    }
    assert(a =~= b);
}

pub broadcast proof fn lemma_umv(m: Map<String, Vec<String>>, s: String, v: Vec<String>)
    ensures #[trigger] umv(m.insert(s, v)) == umv(m).insert(sb(s@), svals(v@)),
        umv(m).contains_key(sb(s@)) == m.contains_key(s),
        m.contains_key(s) ==> umv(m)[sb(s@)] == svals(m[s]@),
{
    lemma_umv_insert(m, s, v);
    lemma_umv_get(m, s);
}

pub broadcast proof fn lemma_umv_empty(m: Map<String, Vec<String>>)
    ensures m.len() == 0 ==> #[trigger] umv(m) == UV::empty()
{
    if m.len() == 0 {
        assert(m =~= Map::<String, Vec<String>>::empty());
        assert(umv(m) =~= UV::empty());
    }
}

pub broadcast proof fn lemma_svals_push(v: Seq<String>, s: String)
    ensures #[trigger] svals(v.push(s)) == svals(v).push(sb(s@))
{
    assert(svals(v.push(s)) =~= svals(v).push(sb(s@)));
}
pub broadcast proof fn lemma_svals_empty(v: Seq<String>)
    requires v.len() == 0,
    ensures #[trigger] svals(v) == Seq::<Seq<u8>>::empty()
{
    assert(svals(v) =~= Seq::<Seq<u8>>::empty());
}

// ------------------------------------------------------------ PropType

pub open spec fn pv(p: PropType) -> PV {
    match p {
        PropType::U32(n) => PV::U32(n),
        PropType::U16(n) => PV::U16(n),
        PropType::U8(n) => PV::U8(n),
        PropType::Bool(b) => PV::Bool(b),
        PropType::VarInt(n) => PV::VarInt(n),
        PropType::Str(s) => PV::Str(sb(s@)),
        PropType::String(s) => PV::Str(sb(s@)),
        PropType::Binary(b) => PV::Bin(b@),
        PropType::BinaryRef(b) => PV::Bin(b@),
        PropType::Pair(a, b) => PV::Pair(sb(a@), sb(b@)),
        PropType::Map(m) => PV::UMap(umv(m@)),
        PropType::MapRef(m) => PV::UMap(umv(m@)),
        PropType::U32Vec(_) => PV::Other,
    }
}

/// the forms the decoder produces
pub open spec fn owned(p: PropType) -> bool {
    !(p is Str) && !(p is BinaryRef) && !(p is MapRef) && !(p is U32Vec)
}

pub open spec fn pvs(l: Seq<(u8, PropType)>) -> Seq<(u8, PV)> { Seq::new(l.len(), |i: int| (l[i].0, pv(l[i].1))) }

/// a list of decoded properties; open: user properties have not been added yet
pub open spec fn dlist(l: Seq<(u8, PropType)>, open_: bool) -> bool {
    forall|i: int| 0 <= i < l.len() ==> owned((#[trigger] l[i]).1) && !(l[i].1 is Pair) && kind_of(pv(l[i].1)) == kind(l[i].0)
        && (open_ ==> !(l[i].1 is Map))
}

pub open spec fn plist(o: Option<Vec<(u8, PropType)>>, ps: Seq<(u8, PV)>) -> bool {
    match o {
        None => ps.len() == 0,
        Some(l) => ps.len() > 0 && dlist(l@, false) && bagof(pvs(l@)) == bagof(ps),
    }
}

pub proof fn lemma_pvs_push(a: Seq<(u8, PropType)>, b: Seq<(u8, PropType)>)
    ensures b.len() == a.len() + 1 && b == a.push(b.last()) ==> bagof(pvs(b)) == bag_push(bagof(pvs(a)), (b.last().0, pv(b.last().1)))
{
    if b.len() == a.len() + 1 && b == a.push(b.last()) {
        let x = (b.last().0, pv(b.last().1));
        assert(pvs(b) =~= pvs(a).push(x));
        lemma_bagof_push(pvs(a), x);
    }
}

pub broadcast proof fn lemma_pvs_push_b(a: Seq<(u8, PropType)>, x: (u8, PropType))
    ensures
        #[trigger] bagof(pvs(a.push(x))) == bag_push(bagof(pvs(a)), (x.0, pv(x.1))),
        x.0 == 0x26 && x.1 is Map && dlist(a, false) ==> dlist(a.push(x), false),
{
    lemma_pvs_push(a, a.push(x));
}

pub broadcast proof fn lemma_dlist_push(a: Seq<(u8, PropType)>, x: (u8, PropType))
    requires x.0 == 0x26, x.1 is Map, dlist(a, false),
    ensures #[trigger] dlist(a.push(x), false)
{
    lemma_pvs_push(a, a.push(x));
}

pub open spec fn cat(done: Seq<(u8, PV)>, x: Option<Seq<(u8, PV)>>) -> Option<Seq<(u8, PV)>> {
    match x { Some(ps) => Some(done + ps), None => None }
}
pub proof fn lemma_cat0(x: Option<Seq<(u8, PV)>>)
    ensures cat(Seq::empty(), x) == x
{
    match x { Some(ps) => { assert(Seq::<(u8, PV)>::empty() + ps =~= ps); } None => {} }
}
pub proof fn lemma_cat_step(w: Seq<u8>, done: Seq<(u8, PV)>)
    requires p_prop(w) is Some, (p_prop(w)->0).1.len() < w.len(),
    ensures cat(done, p_props(w)) == cat(done.push((p_prop(w)->0).0), p_props((p_prop(w)->0).1))
{
    let p = (p_prop(w)->0).0;
    match p_props((p_prop(w)->0).1) {
        Some(ps) => { assert(done + (seq![p] + ps) =~= done.push(p) + ps); }
        None => {}
    }
}
/// every property takes at least one byte and has the type of its identifier
pub proof fn lemma_pprop_shrinks(w: Seq<u8>)
    ensures p_prop(w) matches Some(x) ==> x.1.len() < w.len() && kind_of(x.0.1) == kind(x.0.0)
{
    hide(kind);
    if w.len() > 0 { lemma_pvar_range(rest(w, 1)); }
}

/// the loop of read_properties: done has been read and went into l and u
pub closed spec fn inv_bag(done: Seq<(u8, PV)>, l: Seq<(u8, PropType)>, u: UV) -> bool {
    &&& dlist(l, true)
    &&& bagof(done).vals == bagof(pvs(l)).vals
    &&& bagof(done).subs == bagof(pvs(l)).subs
    &&& bagof(pvs(l)).user == UV::empty()
    &&& bagof(done).user == u
    &&& l.len() > 0 ==> done.len() > 0
    &&& u != UV::empty() ==> done.len() > 0
}
pub proof fn lemma_bag_start(l: Seq<(u8, PropType)>, u: UV)
    requires l.len() == 0, u == UV::empty(),
    ensures inv_bag(Seq::empty(), l, u)
{
    assert(pvs(l) =~= Seq::empty());
}
pub proof fn lemma_bag_step(done: Seq<(u8, PV)>, p: (u8, PV), l0: Seq<(u8, PropType)>, l: Seq<(u8, PropType)>, u0: UV, u: UV)
    requires
        inv_bag(done, l0, u0),
        (p.1 matches PV::Pair(k, v) && l == l0 && u == um_push(u0, k, v))
        || (!(p.1 is Pair) && !(p.1 is UMap) && l.len() == l0.len() + 1 && l == l0.push(l.last()) && u == u0
            && p == (l.last().0, pv(l.last().1)) && owned(l.last().1) && kind_of(p.1) == kind(p.0)),
    ensures inv_bag(done.push(p), l, u)
{
    hide(kind);
    lemma_bagof_push(done, p);
    if !(p.1 is Pair) { lemma_pvs_push(l0, l); }
}
pub broadcast proof fn lemma_bag_end(done: Seq<(u8, PV)>, l: Seq<(u8, PropType)>, u: UV)
    requires #[trigger] inv_bag(done, l, u),
    ensures
        dlist(l, true), dlist(l, false),
        bagof(done).vals == bagof(pvs(l)).vals,
        bagof(done).subs == bagof(pvs(l)).subs,
        bagof(pvs(l)).user == UV::empty(),
        bagof(done).user == u,
        l.len() > 0 ==> done.len() > 0,
        u != UV::empty() ==> done.len() > 0,
{}

pub proof fn lemma_cat_end(done: Seq<(u8, PV)>, w: Seq<u8>)
    requires w.len() == 0,
    ensures cat(done, p_props(w)) == Some(done)
{
    assert(done + Seq::empty() =~= done);
}
