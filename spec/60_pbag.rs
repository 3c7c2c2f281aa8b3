// ======================================================================
// What bags of properties mean
// ======================================================================

pub open spec fn osb(o: Option<String>) -> Option<Seq<u8>> { match o { Some(s) => Some(sb(s@)), None => None } }

/// the value of an identifier
pub open spec fn bv(b: Bag, id: u8) -> Option<PV> { if b.vals.contains_key(id) { Some(b.vals[id]) } else { None } }

pub open spec fn g_ostr(b: Bag, id: u8) -> Option<Seq<u8>> {
    match bv(b, id) { Some(PV::Str(s)) => Some(s), _ => None }
}
pub open spec fn g_str(b: Bag, id: u8) -> Seq<u8> {
    match bv(b, id) { Some(PV::Str(s)) => s, _ => Seq::empty() }
}
pub open spec fn g_bin(b: Bag, id: u8) -> Seq<u8> {
    match bv(b, id) { Some(PV::Bin(s)) => s, _ => Seq::empty() }
}
pub open spec fn g_ou32(b: Bag, id: u8) -> Option<u32> {
    match bv(b, id) { Some(PV::U32(n)) => Some(n), _ => None }
}
pub open spec fn g_ou16(b: Bag, id: u8) -> Option<u16> {
    match bv(b, id) { Some(PV::U16(n)) => Some(n), _ => None }
}
pub open spec fn g_u32(b: Bag, id: u8, d: u32) -> u32 {
    match bv(b, id) { Some(PV::U32(n)) => n, _ => d }
}
pub open spec fn g_u16(b: Bag, id: u8, d: u16) -> u16 {
    match bv(b, id) { Some(PV::U16(n)) => n, _ => d }
}
pub open spec fn g_u8(b: Bag, id: u8, d: u8) -> u8 {
    match bv(b, id) { Some(PV::U8(n)) => n, _ => d }
}
pub open spec fn g_bool(b: Bag, id: u8, d: bool) -> bool {
    match bv(b, id) { Some(PV::Bool(n)) => n, _ => d }
}
pub open spec fn g_sub1(b: Bag) -> u32 { if b.subs.len() == 0 { 0 } else { b.subs.last() } }

pub open spec fn vs_fits(k: Seq<u8>, s: Seq<Seq<u8>>) -> bool { (s.len() > 0 ==> k.len() <= 65535) && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() <= 65535 }
pub open spec fn um_fits(u: UV) -> bool { forall|k: Seq<u8>| #[trigger] u.contains_key(k) ==> vs_fits(k, u[k]) }
/// everything in the bag can be put on the wire
pub open spec fn bag_ok(b: Bag) -> bool {
    &&& forall|id: u8| #![trigger b.vals[id]] b.vals.contains_key(id) ==> val_ok(b.vals[id])
    &&& forall|i: int| 0 <= i < b.subs.len() ==> #[trigger] b.subs[i] <= MAXVAR
    &&& um_ok(b.user)
}
pub proof fn lemma_vs_fits(k: Seq<u8>, s: Seq<Seq<u8>>)
    requires vs_ok(k, s),
    ensures vs_fits(k, s)
{
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).len() <= 65535 by { assert(str_ok(s[i])); }
}
pub proof fn lemma_um_fits(u: UV)
    ensures um_ok(nuv(u)) ==> um_fits(u)
{
    if um_ok(nuv(u)) {
        assert forall|k: Seq<u8>| #[trigger] u.contains_key(k) implies vs_fits(k, u[k]) by {
            if u[k].len() > 0 {
                assert(nuv(u).contains_key(k));
                assert(vs_ok(k, nuv(u)[k]));
                lemma_vs_fits(k, u[k]);
            }
        }
    }
}

pub proof fn lemma_um_push_ok(u: UV, k0: Seq<u8>, v: Seq<u8>)
    requires um_ok(u), str_ok(k0), str_ok(v),
    ensures um_ok(um_push(u, k0, v))
{
    hide(str_ok);
    let w = um_push(u, k0, v);
    assert forall|k: Seq<u8>| #[trigger] w.contains_key(k) implies vs_ok(k, w[k]) by {
        if u.contains_key(k) { assert(vs_ok(k, u[k])); }
        let s = w[k];
        assert forall|i: int| 0 <= i < s.len() implies str_ok(#[trigger] s[i]) by {
            if u.contains_key(k) && i < u[k].len() { assert(str_ok(u[k][i])); }
        }
    }
}

pub proof fn lemma_vs_fits_ok(k: String, v: Seq<String>)
    requires vs_fits(sb(k@), svals(v)),
    ensures vs_ok(sb(k@), svals(v))
{
    let s = svals(v);
    encode_utf8_valid_utf8(k@);
    assert forall|i: int| 0 <= i < s.len() implies str_ok(#[trigger] s[i]) by { encode_utf8_valid_utf8(v[i]@); assert(s[i].len() <= 65535); }
}
/// a map from strings to strings can be written if the strings are short enough
pub broadcast proof fn lemma_um_fits_ok(m: Map<String, Vec<String>>)
    ensures #[trigger] um_fits(umv(m)) ==> um_ok(umv(m))
{
    if um_fits(umv(m)) {
        let u = umv(m);
        assert forall|k: Seq<u8>| #[trigger] u.contains_key(k) implies vs_ok(k, u[k]) by {
            let t = choose|t: String| m.contains_key(t) && sb(t@) == k;
            lemma_umv_get(m, t);
            assert(vs_fits(k, u[k]));
            lemma_vs_fits_ok(t, m[t]@);
        }
    }
}

pub proof fn lemma_bag_ok(ps: Seq<(u8, PV)>)
    requires props_ok(ps),
    ensures bag_ok(bagof(ps))
    decreases ps.len()
{
    hide(kind);
    hide(str_ok);
    hide(um_ok);
    if ps.len() > 0 {
        let q = ps.drop_last();
        assert forall|i: int| 0 <= i < q.len() implies prop_ok(#[trigger] q[i]) by { assert(prop_ok(ps[i])); }
        lemma_bag_ok(q);
        assert(prop_ok(ps[ps.len() - 1]));
        match ps.last().1 { PV::Pair(k, v) => { lemma_um_push_ok(bagof(q).user, k, v); } _ => {} }
        let b = bagof(ps);
        let c = bagof(q);
        assert forall|id: u8| #![trigger b.vals[id]] b.vals.contains_key(id) implies val_ok(b.vals[id]) by {
            if c.vals.contains_key(id) { assert(val_ok(c.vals[id])); }
        }
        assert forall|i: int| 0 <= i < b.subs.len() implies #[trigger] b.subs[i] <= MAXVAR by {
            if i < c.subs.len() { assert(c.subs[i] <= MAXVAR); }
        }
    } else {
        reveal(um_ok);
    }
}

// ------------------------------------------------------------ from_properties

/// what the first i properties say
pub open spec fn bb(l: Seq<(u8, PropType)>, i: int) -> Bag { bagof(pvs(l).take(i)) }

pub proof fn lemma_bb_start(l: Seq<(u8, PropType)>)
    ensures bb(l, 0) == bag0(), umv(Map::empty()) == UV::empty()
{
    assert(pvs(l).take(0) =~= Seq::empty());
    lemma_umv_empty(Map::empty());
}
pub proof fn lemma_bb_has(l: Seq<(u8, PV)>, n: int, i: int)
    requires 0 <= i < n <= l.len(), !(l[i].1 is Pair), !(l[i].1 is UMap),
    ensures bagof(l.take(n)).vals.contains_key(l[i].0)
    decreases n
{
    assert(l.take(n).drop_last() =~= l.take(n - 1));
    if i < n - 1 { lemma_bb_has(l, n - 1, i); }
}
pub proof fn lemma_bb_step(l: Seq<(u8, PropType)>, i: int)
    requires 0 <= i < l.len(), dlist(l, false),
    ensures
        bb(l, i + 1) == bag_push(bb(l, i), (l[i].0, pv(l[i].1))),
        !(l[i].1 is Map) ==> bv(bagof(pvs(l)), l[i].0) is Some,
        owned(l[i].1), !(l[i].1 is Pair), kind_of(pv(l[i].1)) == kind(l[i].0),
{
    let s = pvs(l);
    assert(s.take(i + 1) =~= s.take(i).push(s[i]));
    lemma_bagof_push(s.take(i), s[i]);
    assert(s.take(s.len() as int) =~= s);
    if !(l[i].1 is Map) { lemma_bb_has(s, s.len() as int, i); }
}
pub proof fn lemma_bb_end(l: Seq<(u8, PropType)>)
    ensures bb(l, l.len() as int) == bagof(pvs(l))
{
    assert(pvs(l).take(l.len() as int) =~= pvs(l));
}

// ------------------------------------------------------------ to_pairs

/// identifiers that occur
pub open spec fn ids(l: Seq<(u8, PV)>) -> Set<u8>
    decreases l.len()
{ if l.len() == 0 { Set::empty() } else { ids(l.drop_last()).insert(l.last().0) } }

pub proof fn lemma_ids(l: Seq<(u8, PV)>, i: int)
    requires 0 <= i < l.len(),
    ensures ids(l).contains(l[i].0)
    decreases l.len()
{ if i < l.len() - 1 { lemma_ids(l.drop_last(), i); } }

pub broadcast proof fn lemma_wnil(l: Seq<(u8, PropType)>)
    ensures l.len() == 0 ==> bagof(#[trigger] pvs(l)) == bag0() && wlist(pvs(l)) && wlist_ok(pvs(l)) && ids(pvs(l)) == Set::<u8>::empty()
{}

/// one more pair
pub broadcast proof fn lemma_wpush(l: Seq<(u8, PropType)>, x: (u8, PropType))
    ensures
        #[trigger] pvs(l.push(x)) == pvs(l).push((x.0, pv(x.1))),
        bagof(pvs(l.push(x))) == bag_push(bagof(pvs(l)), (x.0, pv(x.1))),
        ids(pvs(l.push(x))) == ids(pvs(l)).insert(x.0),
        wlist(pvs(l)) && kind_of(pv(x.1)) == kind(x.0) && !(x.1 is Pair) && !(x.1 is U32Vec) && (!ids(pvs(l)).contains(x.0) || x.0 == 0x0B) ==> wlist(pvs(l.push(x))),
        wlist_ok(pvs(l)) && wval_ok(pv(x.1)) ==> wlist_ok(pvs(l.push(x))),
{
    hide(kind);
    let p = (x.0, pv(x.1));
    let a = pvs(l);
    let b = pvs(l.push(x));
    assert(b =~= a.push(p));
    lemma_bagof_push(a, p);
    assert(b.drop_last() =~= a);
    if wlist(a) && kind_of(pv(x.1)) == kind(x.0) && !(x.1 is Pair) && !(x.1 is U32Vec) && (!ids(a).contains(x.0) || x.0 == 0x0B) {
        assert forall|i: int, j: int| 0 <= i < j < b.len() && #[trigger] b[i].0 == #[trigger] b[j].0 implies b[i].0 == 0x0B by {
            if j < a.len() { assert(a[i].0 == a[j].0); } else { lemma_ids(a, i); }
        }
        assert forall|i: int| 0 <= i < b.len() implies kind_of((#[trigger] b[i]).1) == kind(b[i].0) && !(b[i].1 is Pair) && !(b[i].1 is Other) by {
            if i < a.len() { assert(kind_of(a[i].1) == kind(a[i].0)); }
        }
    }
    if wlist_ok(a) && wval_ok(pv(x.1)) {
        assert forall|i: int| 0 <= i < b.len() implies wval_ok(#[trigger] b[i].1) by { if i < a.len() { assert(wval_ok(a[i].1)); } }
    }
}

// ------------------------------------------------------------ encode, encode_option

/// properties that can be written
pub open spec fn pwritten(ps: Seq<(u8, PV)>) -> bool { props_ok(ps) && uniq(ps) }

/// a block of properties b as its length and the rest of it
pub open spec fn psplit(b: Seq<u8>, len: Seq<u8>, data: Seq<u8>) -> bool {
    &&& data.len() == 0 ==> len.len() == 0 || len =~= seq![0u8]
    &&& data.len() <= MAXVAR ==> b == len + data
    &&& data.len() > MAXVAR ==> b.len() > MAXVAR
    &&& data.len() > 0 ==> b.len() > data.len()
}
pub broadcast proof fn lemma_psplit(ps: Seq<(u8, PV)>, len: Seq<u8>, data: Seq<u8>)
    requires data == #[trigger] e_props(ps), data.len() > 0, data.len() <= MAXVAR ==> len == e_var(data.len() as int),
    ensures #[trigger] psplit(e_block(ps), len, data)
{ assert(e_var(data.len() as int).len() > 0); }
pub broadcast proof fn lemma_psplit0(b: Seq<u8>, len: Seq<u8>, data: Seq<u8>)
    requires b.len() == 0, len.len() == 0, data.len() == 0,
    ensures #[trigger] psplit(b, len, data)
{ assert(len + data =~= b); }
pub broadcast proof fn lemma_psplit1(ps: Seq<(u8, PV)>, len: Seq<u8>, data: Seq<u8>)
    requires ps.len() == 0, data.len() == 0, len.len() == 1, len[0] == 0,
    ensures #[trigger] psplit(e_block(ps), len, data)
{ lemma_eprops_empty(); assert(e_var(0) =~= seq![0u8]); assert(e_props(ps).len() == 0); assert(e_block(ps) =~= len + data); }
pub proof fn lemma_eblock_len(ps: Seq<(u8, PV)>)
    ensures e_block(ps).len() > 0, e_block(ps).len() == 1 ==> ps.len() == 0, e_props(ps).len() < e_block(ps).len(), ps.len() == 0 ==> e_block(ps) == seq![0u8]
{
    lemma_eprops_empty();
    assert(e_var(e_props(ps).len() as int).len() > 0);
    if ps.len() > 0 { assert(e_props(ps).len() > 0); } else { assert(e_var(0) =~= seq![0u8]); assert(e_block(ps) =~= seq![0u8]); }
}

pub broadcast proof fn lemma_written(l: Seq<(u8, PV)>, ps: Seq<(u8, PV)>)
    requires #[trigger] written(l, ps),
    ensures
        props_ok(ps), uniq(ps), bagof(ps) == nbag(bagof(l)), bag_ok(bagof(ps)), bagof(ps).vals == bagof(l).vals,
{
    lemma_bag_ok(ps);
}
pub broadcast proof fn lemma_eprops_nil(ps: Seq<(u8, PV)>)
    ensures (#[trigger] e_props(ps)).len() == 0 ==> e_props(ps) == Seq::<u8>::empty() && ps.len() == 0
{
    if ps.len() > 0 { assert(e_prop(ps.last()).len() > 0); }
    if e_props(ps).len() == 0 { assert(e_props(ps) =~= Seq::empty()); }
}
pub proof fn lemma_eprops_empty()
    ensures
        e_props(Seq::empty()) == Seq::<u8>::empty(), props_ok(Seq::empty()), uniq(Seq::empty()),
        bagof(Seq::empty()) == bag0(), bag_ok(bag0()), nbag(bag0()) == bag0(),
{
    lemma_nuv_empty();
}

/// the same strings in the same places
pub open spec fn vclone(a: Vec<String>, b: Vec<String>) -> bool { a@.len() == b@.len() && forall|i: int| 0 <= i < a@.len() ==> (#[trigger] a@[i])@ == b@[i]@ }

/// a clone of a map says the same
pub broadcast proof fn lemma_umv_clone(m: Map<String, Vec<String>>, r: Map<String, Vec<String>>)
    requires r.dom() == m.dom(), forall|k: String| #[trigger] m.contains_key(k) ==> vstd::pervasive::cloned::<Vec<String>>(m[k], r[k]),
    ensures #![trigger umv(m), umv(r)] umv(m) == umv(r)
{
    let a = umv(m);
    let b = umv(r);
    assert forall|k: Seq<u8>| #[trigger] a.contains_key(k) == b.contains_key(k) by {
        if a.contains_key(k) { let t = choose|t: String| m.contains_key(t) && sb(t@) == k; assert(r.contains_key(t)); lemma_umv_get(r, t); }
        if b.contains_key(k) { let t = choose|t: String| r.contains_key(t) && sb(t@) == k; assert(m.contains_key(t)); lemma_umv_get(m, t); }
    }
    assert forall|k: Seq<u8>| a.contains_key(k) implies #[trigger] a[k] == b[k] by {
        let t = choose|t: String| m.contains_key(t) && sb(t@) == k;
        lemma_umv_get(r, t);
        lemma_umv_get(m, t);
        assert(svals(m[t]@) =~= svals(r[t]@));
    }
    assert(a =~= b);
}

/// what the identifiers stand for
pub broadcast proof fn lemma_kinds(id: u8)
    ensures
        id == 0x01 || id == 0x17 || id == 0x19 || id == 0x25 || id == 0x28 || id == 0x29 || id == 0x2A ==> #[trigger] kind(id) == Kind::Bool,
        id == 0x02 || id == 0x11 || id == 0x18 || id == 0x27 ==> kind(id) == Kind::U32,
        id == 0x03 || id == 0x08 || id == 0x12 || id == 0x15 || id == 0x16 || id == 0x1A || id == 0x1C || id == 0x1F ==> kind(id) == Kind::Str,
        id == 0x13 || id == 0x21 || id == 0x22 || id == 0x23 ==> kind(id) == Kind::U16,
        id == 0x09 ==> kind(id) == Kind::Bin,
        id == 0x0B <==> kind(id) == Kind::VarInt,
        id == 0x24 ==> kind(id) == Kind::U8,
        id == 0x26 <==> kind(id) == Kind::Pair,
{}

// what is known about a list under construction
pub open spec fn pw(l: Seq<(u8, PropType)>) -> bool { wlist(pvs(l)) }
pub open spec fn pok(l: Seq<(u8, PropType)>) -> bool { wlist_ok(pvs(l)) }
pub open spec fn pum(l: Seq<(u8, PropType)>) -> bool { ids(pvs(l)).contains(0x26) }
pub open spec fn pus(l: Seq<(u8, PropType)>) -> UV { bagof(pvs(l)).user }
pub open spec fn psub(l: Seq<(u8, PropType)>) -> Seq<u32> { bagof(pvs(l)).subs }
pub open spec fn lk(l: Seq<(u8, PropType)>, id: u8) -> Option<PV> { bv(bagof(pvs(l)), id) }
pub broadcast proof fn lemma_pst(l: Seq<(u8, PropType)>)
    ensures #![trigger pvs(l)] wlist(pvs(l)) == pw(l), wlist_ok(pvs(l)) == pok(l), bagof(pvs(l)).user == pus(l), bagof(pvs(l)).subs == psub(l)
{}
pub broadcast proof fn lemma_pst_lk(l: Seq<(u8, PropType)>, id: u8)
    ensures #[trigger] bv(bagof(pvs(l)), id) == lk(l, id)
{}
pub broadcast proof fn lemma_pst_nil(l: Seq<(u8, PropType)>)
    ensures #![trigger pw(l)] #![trigger pok(l)] #![trigger pum(l)] #![trigger pus(l)] #![trigger psub(l)] l.len() == 0 ==> pw(l) && pok(l) && !pum(l) && pus(l) == UV::empty() && psub(l) == Seq::<u32>::empty()
{}
pub broadcast proof fn lemma_pst_nil2(l: Seq<(u8, PropType)>, id: u8)
    ensures #![trigger lk(l, id)] l.len() == 0 ==> lk(l, id) is None
{}
pub proof fn lemma_ids_vals(l: Seq<(u8, PV)>, id: u8)
    requires wlist(l), ids(l).contains(id), id != 0x26,
    ensures bagof(l).vals.contains_key(id)
    decreases l.len()
{
    if l.len() > 0 {
        let q = l.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < q.len() && #[trigger] q[i].0 == #[trigger] q[j].0 implies q[i].0 == 0x0B by { assert(l[i].0 == l[j].0); }
        assert forall|i: int| 0 <= i < q.len() implies kind_of((#[trigger] q[i]).1) == kind(q[i].0) && !(q[i].1 is Pair) && !(q[i].1 is Other) by { assert(kind_of(l[i].1) == kind(l[i].0)); }
        assert(kind_of(l[l.len() - 1].1) == kind(l[l.len() - 1].0));
        if l.last().0 != id { lemma_ids_vals(q, id); }
    }
}
pub broadcast proof fn lemma_pst_push(l: Seq<(u8, PropType)>, x: (u8, PropType))
    ensures #![trigger pw(l.push(x))] #![trigger pok(l.push(x))] #![trigger pum(l.push(x))] #![trigger pus(l.push(x))] #![trigger psub(l.push(x))]
        pum(l.push(x)) == (pum(l) || x.0 == 0x26),
        pw(l) && kind_of(pv(x.1)) == kind(x.0) && !(x.1 is Pair) && !(x.1 is U32Vec)
            && (if x.0 == 0x26 { !pum(l) } else { x.0 == 0x0B || lk(l, x.0) is None }) ==> pw(l.push(x)),
        pok(l) && wval_ok(pv(x.1)) ==> pok(l.push(x)),
        !(x.1 is Pair) ==> pus(l.push(x)) == (match pv(x.1) { PV::UMap(u) => u, _ => pus(l) }),
        psub(l.push(x)) == (match pv(x.1) { PV::VarInt(u) => psub(l).push(u), _ => psub(l) }),
{
    lemma_wpush(l, x);
    if pw(l) && x.0 != 0x26 && ids(pvs(l)).contains(x.0) { lemma_ids_vals(pvs(l), x.0); }
}
pub broadcast proof fn lemma_pst_push2(l: Seq<(u8, PropType)>, x: (u8, PropType), id: u8)
    ensures #[trigger] lk(l.push(x), id) == if x.0 == id && !(x.1 is Map) && !(x.1 is MapRef) && !(x.1 is Pair) { Some(pv(x.1)) } else { lk(l, id) }
{
    lemma_wpush(l, x);
}

/// t is s with at most one pair more, for the property id
pub open spec fn ext1(s: Seq<(u8, PropType)>, t: Seq<(u8, PropType)>, id: u8) -> bool {
    t == s || (t.len() == s.len() + 1 && t == s.push(t[t.len() - 1]) && t[t.len() - 1].0 == id
        && kind_of(pv(t[t.len() - 1].1)) == kind(id) && !(t[t.len() - 1].1 is Pair) && !(t[t.len() - 1].1 is U32Vec))
}
pub open spec fn ext_pv(s: Seq<(u8, PropType)>, t: Seq<(u8, PropType)>) -> Option<PV> {
    if t.len() == s.len() { None } else { Some(pv(t[t.len() - 1].1)) }
}
pub broadcast proof fn lemma_ext_same(s: Seq<(u8, PropType)>, t: Seq<(u8, PropType)>, id: u8)
    requires s == t,
    ensures #[trigger] ext1(s, t, id)
{}
pub broadcast proof fn lemma_ext_push(s: Seq<(u8, PropType)>, x: (u8, PropType), id: u8)
    requires x.0 == id, kind_of(pv(x.1)) == kind(id), !(x.1 is Pair), !(x.1 is U32Vec),
    ensures #[trigger] ext1(s, s.push(x), id)
{ assert(s.push(x)[s.push(x).len() - 1] == x); }
pub broadcast proof fn lemma_epv_same(s: Seq<(u8, PropType)>, t: Seq<(u8, PropType)>)
    requires s == t,
    ensures #[trigger] ext_pv(s, t) is None
{}
pub broadcast proof fn lemma_epv_push(s: Seq<(u8, PropType)>, x: (u8, PropType))
    ensures #[trigger] ext_pv(s, s.push(x)) == Some(pv(x.1))
{ assert(s.push(x)[s.push(x).len() - 1] == x); }
/// only the properties in ii occur in l
pub open spec fn acc0(l: Seq<(u8, PropType)>, ii: Set<u8>) -> bool {
    &&& pw(l)
    &&& forall|id: u8| (#[trigger] lk(l, id)) is Some ==> ii.contains(id)
    &&& lk(l, 0x26) is None
    &&& pum(l) ==> ii.contains(0x26)
    &&& !ii.contains(0x26) ==> pus(l) == UV::empty()
    &&& !ii.contains(0x0B) ==> psub(l) == Seq::<u32>::empty()
}
pub proof fn lemma_acc0(s: Seq<(u8, PropType)>, t: Seq<(u8, PropType)>, ii: Set<u8>, id0: u8)
    requires acc0(s, ii), !ii.contains(id0), ext1(s, t, id0),
    ensures
        acc0(t, ii.insert(id0)),
        forall|id: u8| #![trigger lk(t, id)] lk(t, id) == if id == id0 && id0 != 0x26 { ext_pv(s, t) } else { lk(s, id) },
        pus(t) == (match ext_pv(s, t) { Some(PV::UMap(u)) => u, _ => pus(s) }),
        psub(t) == (match ext_pv(s, t) { Some(PV::VarInt(u)) => psub(s).push(u), _ => psub(s) }),
        pok(s) && (ext_pv(s, t) matches Some(x) ==> wval_ok(x)) ==> pok(t),
{
    hide(kind);
    lemma_kinds(id0);
    if t != s {
        let x = t[t.len() - 1];
        lemma_pst_push(s, x);
        assert(kind_of(pv(x.1)) == Kind::Pair <==> x.1 is Map || x.1 is MapRef || x.1 is Pair);
        assert forall|id: u8| #[trigger] lk(t, id) == if id == id0 && id0 != 0x26 { ext_pv(s, t) } else { lk(s, id) } by { lemma_pst_push2(s, x, id); }
        lemma_pst_push2(s, x, id0);
        assert(lk(s, id0) is None);
    }
}

/// subscription identifiers
pub open spec fn svp<'a>(ids: Seq<u32>) -> Seq<(u8, PropType<'a>)> { Seq::new(ids.len(), |i: int| (0x0Bu8, PropType::VarInt(ids[i]))) }
pub proof fn lemma_svp<'a>(ids: Seq<u32>, i: int)
    requires 0 <= i < ids.len(),
    ensures svp::<'a>(ids.take(i + 1)) == svp::<'a>(ids.take(i)).push((0x0Bu8, PropType::VarInt(ids[i])))
{ assert(svp::<'a>(ids.take(i + 1)) =~= svp::<'a>(ids.take(i)).push((0x0Bu8, PropType::VarInt(ids[i])))); }
pub proof fn lemma_subs(s: Seq<(u8, PropType)>, t: Seq<(u8, PropType)>, n: Seq<u32>, ii: Set<u8>)
    requires acc0(s, ii), !ii.contains(0x0B), t == s + svp(n),
    ensures
        acc0(t, ii.insert(0x0B)), pus(t) == pus(s), psub(t) == n,
        forall|id: u8| #![trigger lk(t, id)] id != 0x0B ==> lk(t, id) == lk(s, id),
        pok(s) && (forall|i: int| 0 <= i < n.len() ==> #[trigger] n[i] <= MAXVAR) ==> pok(t),
    decreases n.len()
{
    if n.len() == 0 {
        assert(t =~= s);
        assert(n =~= Seq::empty());
    } else {
        let m = n.drop_last();
        let r = s + svp(m);
        lemma_subs(s, r, m, ii);
        lemma_svp(n, n.len() - 1);
        assert(n.take(n.len() as int) =~= n);
        assert(n.take(n.len() - 1) =~= m);
        let x = (0x0Bu8, PropType::VarInt(n.last()));
        assert(t =~= r.push(x));
        lemma_pst_push(r, x);
        assert forall|id: u8| #[trigger] lk(t, id) == if x.0 == id { Some(pv(x.1)) } else { lk(r, id) } by { lemma_pst_push2(r, x, id); }
        assert(n =~= m.push(n.last()));
        if forall|i: int| 0 <= i < n.len() ==> #[trigger] n[i] <= MAXVAR {
            assert(n[n.len() - 1] <= MAXVAR);
            assert forall|i: int| 0 <= i < m.len() implies #[trigger] m[i] <= MAXVAR by { assert(n[i] <= MAXVAR); }
        }
    }
}
