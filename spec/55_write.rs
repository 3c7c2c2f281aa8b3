// ======================================================================
// Writing properties
// ======================================================================

/// user properties without the keys that have no value: what is left of them on the wire
pub open spec fn nuv(u: UV) -> UV { Map::new(u.dom().filter(|k: Seq<u8>| u[k].len() > 0), |k: Seq<u8>| u[k]) }
pub open spec fn nbag(b: Bag) -> Bag { Bag { user: nuv(b.user), ..b } }

pub open spec fn hasid(ps: Seq<(u8, PV)>, id: u8) -> bool { exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).0 == id }

/// only subscription identifiers and user properties may occur more than once
pub open spec fn uniq(ps: Seq<(u8, PV)>) -> bool {
    forall|i: int, j: int| 0 <= i < j < ps.len() && #[trigger] ps[i].0 == #[trigger] ps[j].0 ==> ps[i].0 == 0x0B || ps[i].0 == 0x26
}

/// a list of properties to be written
pub open spec fn wlist(l: Seq<(u8, PV)>) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> kind_of((#[trigger] l[i]).1) == kind(l[i].0) && !(l[i].1 is Pair) && !(l[i].1 is Other)
    &&& forall|i: int, j: int| 0 <= i < j < l.len() && #[trigger] l[i].0 == #[trigger] l[j].0 ==> l[i].0 == 0x0B
}

/// the values of one key
pub open spec fn vs_ok(k: Seq<u8>, s: Seq<Seq<u8>>) -> bool { (s.len() > 0 ==> str_ok(k)) && forall|i: int| 0 <= i < s.len() ==> str_ok(#[trigger] s[i]) }
pub open spec fn um_ok(u: UV) -> bool { forall|k: Seq<u8>| #[trigger] u.contains_key(k) ==> vs_ok(k, u[k]) }
/// can be written
pub open spec fn wval_ok(v: PV) -> bool {
    match v { PV::UMap(u) => um_ok(u), _ => val_ok(v) }
}
pub open spec fn wlist_ok(l: Seq<(u8, PV)>) -> bool { forall|i: int| 0 <= i < l.len() ==> wval_ok(#[trigger] l[i].1) }

/// the properties ps say what the list l says
pub open spec fn written(l: Seq<(u8, PV)>, ps: Seq<(u8, PV)>) -> bool {
    &&& props_ok(ps)
    &&& uniq(ps)
    &&& bagof(ps) == nbag(bagof(l))
    &&& ps.len() == 0 ==> nuv(bagof(l).user) == UV::empty() && bagof(l).vals == Map::<u8, PV>::empty()
}

// ------------------------------------------------------------ entries of a map

pub open spec fn ents(m: Map<String, Vec<String>>, es: Seq<(String, Vec<String>)>) -> bool {
    &&& forall|i: int| 0 <= i < es.len() ==> m.contains_key((#[trigger] es[i]).0) && m[es[i].0] == es[i].1
    &&& forall|i: int, j: int| 0 <= i < j < es.len() ==> (#[trigger] es[i]).0 != (#[trigger] es[j]).0
    &&& forall|k: String| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == k
}

/// what the first i entries and the first j values of the next one say
pub open spec fn upto(es: Seq<(String, Vec<String>)>, i: int, j: int) -> UV
    decreases i
{
    let u = if i <= 0 { UV::empty() } else { upto(es, i - 1, es[i - 1].1@.len() as int) };
    if j <= 0 { u } else { u.insert(sb(es[i].0@), svals(es[i].1@.take(j))) }
}

pub proof fn lemma_upto_keys(es: Seq<(String, Vec<String>)>, i: int, j: int, k: Seq<u8>)
    requires 0 <= i <= es.len(), j > 0 ==> i < es.len(), upto(es, i, j).contains_key(k),
    ensures exists|x: int| 0 <= x < es.len() && (x < i || x == i && j > 0) && sb((#[trigger] es[x]).0@) == k
    decreases i
{
    if j > 0 && sb(es[i].0@) == k { assert(sb(es[i].0@) == k); }
    else if i > 0 {
        lemma_upto_keys(es, i - 1, es[i - 1].1@.len() as int, k);
        let x = choose|x: int| 0 <= x < es.len() && (x < i - 1 || x == i - 1 && es[i - 1].1@.len() > 0) && sb((#[trigger] es[x]).0@) == k;
        assert(sb(es[x].0@) == k);
    }
}

/// one more value
pub proof fn lemma_upto_step(m: Map<String, Vec<String>>, es: Seq<(String, Vec<String>)>, i: int, j: int)
    requires ents(m, es), 0 <= i < es.len(), 0 <= j < es[i].1@.len(),
    ensures upto(es, i, j + 1) == um_push(upto(es, i, j), sb(es[i].0@), sb(es[i].1@[j]@)),
{
    let k = sb(es[i].0@);
    let v = es[i].1@;
    assert(v.take(j + 1) =~= v.take(j).push(v[j]));
    lemma_svals_push(v.take(j), v[j]);
    if j == 0 {
        if upto(es, i, 0).contains_key(k) {
            lemma_upto_keys(es, i, 0, k);
            let x = choose|x: int| 0 <= x < es.len() && x < i && sb((#[trigger] es[x]).0@) == k;
            lemma_sb_inj(es[x].0, es[i].0);
            assert(es[x].0 != es[i].0);
        }
        assert(svals(v.take(1)) =~= seq![sb(v[0]@)]);
    } else {
        assert(upto(es, i, j + 1) =~= um_push(upto(es, i, j), k, sb(v[j]@)));
    }
}

pub proof fn lemma_upto_get(m: Map<String, Vec<String>>, es: Seq<(String, Vec<String>)>, n: int, i: int)
    requires ents(m, es), 0 <= i < n <= es.len(), es[i].1@.len() > 0,
    ensures upto(es, n, 0).contains_key(sb(es[i].0@)) && upto(es, n, 0)[sb(es[i].0@)] == svals(es[i].1@)
    decreases n
{
    reveal_with_fuel(upto, 3);
    let l = es[n - 1].1@;
    assert(l.take(l.len() as int) =~= l);
    if i < n - 1 {
        lemma_upto_get(m, es, n - 1, i);
        if sb(es[i].0@) == sb(es[n - 1].0@) { lemma_sb_inj(es[i].0, es[n - 1].0); assert(es[i].0 != es[n - 1].0); }
        assert(upto(es, n - 1, 0).contains_key(sb(es[i].0@)));
    }
}

pub proof fn lemma_upto_val(m: Map<String, Vec<String>>, es: Seq<(String, Vec<String>)>, n: int, k: Seq<u8>)
    requires ents(m, es), 0 <= n <= es.len(), upto(es, n, 0).contains_key(k),
    ensures exists|i: int| 0 <= i < n && (#[trigger] es[i]).1@.len() > 0 && sb(es[i].0@) == k
    decreases n
{
    reveal_with_fuel(upto, 3);
    if n > 0 {
        let l = es[n - 1].1@;
        if l.len() > 0 && sb(es[n - 1].0@) == k { assert(es[n - 1].1@.len() > 0); }
        else {
            assert(upto(es, n - 1, 0).contains_key(k));
            lemma_upto_val(m, es, n - 1, k);
            let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] es[i]).1@.len() > 0 && sb(es[i].0@) == k;
            assert(es[i].1@.len() > 0);
        }
    }
}

/// all entries
pub proof fn lemma_upto_all(m: Map<String, Vec<String>>, es: Seq<(String, Vec<String>)>)
    requires ents(m, es),
    ensures upto(es, es.len() as int, 0) == nuv(umv(m))
{
    let n = es.len() as int;
    let a = upto(es, n, 0);
    let b = nuv(umv(m));
    assert forall|k: Seq<u8>| #[trigger] a.contains_key(k) == b.contains_key(k) by {
        if a.contains_key(k) {
            lemma_upto_val(m, es, n, k);
            let i = choose|i: int| 0 <= i < n && (#[trigger] es[i]).1@.len() > 0 && sb(es[i].0@) == k;
            lemma_umv_get(m, es[i].0);
        }
        if b.contains_key(k) {
            let s = choose|s: String| m.contains_key(s) && sb(s@) == k;
            lemma_umv_get(m, s);
            let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == s;
            lemma_upto_get(m, es, n, i);
        }
    }
    assert forall|k: Seq<u8>| a.contains_key(k) implies #[trigger] a[k] == b[k] by {
        lemma_upto_val(m, es, n, k);
        let i = choose|i: int| 0 <= i < n && (#[trigger] es[i]).1@.len() > 0 && sb(es[i].0@) == k;
        lemma_umv_get(m, es[i].0);
        lemma_upto_get(m, es, n, i);
    }
    assert(a =~= b);
}

/// a value of a map that is too long
pub proof fn lemma_um_bad(m: Map<String, Vec<String>>, es: Seq<(String, Vec<String>)>, i: int, j: int)
    requires ents(m, es), 0 <= i < es.len(), 0 <= j < es[i].1@.len(), sb(es[i].0@).len() > 65535 || sb(es[i].1@[j]@).len() > 65535,
    ensures !um_ok(umv(m))
{
    lemma_umv_get(m, es[i].0);
    let k = sb(es[i].0@);
    assert(m.contains_key(es[i].0));
    let s = umv(m)[k];
    assert(s[j] == svals(es[i].1@)[j]);
    if um_ok(umv(m)) { assert(umv(m).contains_key(k)); assert(vs_ok(k, s)); assert(str_ok(s[j])); }
}

// ------------------------------------------------------------ the invariant of write_properties

/// the first i properties of l have been written as ps
pub open spec fn wr_inv(l: Seq<(u8, PV)>, i: int, ps: Seq<(u8, PV)>) -> bool {
    &&& 0 <= i <= l.len()
    &&& wlist(l)
    &&& props_ok(ps)
    &&& uniq(ps)
    &&& bagof(ps) == nbag(bagof(l.take(i)))
    &&& forall|x: int| 0 <= x < ps.len() ==> hasid(l.take(i), (#[trigger] ps[x]).0)
    &&& !hasid(l.take(i), 0x26) ==> bagof(ps).user == UV::empty()
    &&& ps.len() == 0 ==> bagof(l.take(i)).vals == Map::<u8, PV>::empty()
}

pub proof fn lemma_nuv_empty()
    ensures nuv(UV::empty()) == UV::empty()
{ assert(nuv(UV::empty()) =~= UV::empty()); }

pub proof fn lemma_wr_start(l: Seq<(u8, PV)>)
    requires wlist(l),
    ensures wr_inv(l, 0, Seq::empty()), e_props(Seq::empty()) == Seq::<u8>::empty()
{
    lemma_nuv_empty();
    assert(l.take(0) =~= Seq::empty());
}

pub proof fn lemma_hasid_take(l: Seq<(u8, PV)>, i: int, id: u8)
    requires 0 <= i < l.len(),
    ensures hasid(l.take(i + 1), id) == (hasid(l.take(i), id) || l[i].0 == id)
{
    if hasid(l.take(i), id) { let x = choose|x: int| 0 <= x < l.take(i).len() && (#[trigger] l.take(i)[x]).0 == id; assert(l.take(i + 1)[x].0 == id); }
    if l[i].0 == id { assert(l.take(i + 1)[i].0 == id); }
    if hasid(l.take(i + 1), id) { let x = choose|x: int| 0 <= x < l.take(i + 1).len() && (#[trigger] l.take(i + 1)[x]).0 == id; if x < i { assert(l.take(i)[x].0 == id); } }
}

/// an identifier that was not written before, unless it may be repeated
pub proof fn lemma_fresh(l: Seq<(u8, PV)>, i: int)
    requires wlist(l), 0 <= i < l.len(),
    ensures hasid(l.take(i), l[i].0) ==> l[i].0 == 0x0B
{
    if hasid(l.take(i), l[i].0) {
        let x = choose|x: int| 0 <= x < l.take(i).len() && (#[trigger] l.take(i)[x]).0 == l[i].0;
        assert(l[x].0 == l[i].0);
    }
}

pub proof fn lemma_push_uniq(ps: Seq<(u8, PV)>, p: (u8, PV))
    requires props_ok(ps), prop_ok(p), uniq(ps), hasid(ps, p.0) ==> p.0 == 0x0B || p.0 == 0x26,
    ensures props_ok(ps.push(p)), uniq(ps.push(p)), e_props(ps.push(p)) == e_props(ps) + e_prop(p), bagof(ps.push(p)) == bag_push(bagof(ps), p)
{
    let q = ps.push(p);
    assert(q.drop_last() =~= ps);
    assert forall|i: int| 0 <= i < q.len() implies prop_ok(#[trigger] q[i]) by { if i < ps.len() { assert(prop_ok(ps[i])); } }
    assert forall|i: int, j: int| 0 <= i < j < q.len() && #[trigger] q[i].0 == #[trigger] q[j].0 implies q[i].0 == 0x0B || q[i].0 == 0x26 by {
        if j < ps.len() { assert(ps[i].0 == ps[j].0); } else { assert(ps[i].0 == p.0); assert(hasid(ps, p.0)); }
    }
}

/// one property that is no user property
pub proof fn lemma_wr_step(l: Seq<(u8, PV)>, i: int, ps: Seq<(u8, PV)>)
    requires wr_inv(l, i, ps), i < l.len(), !(l[i].1 is UMap), val_ok(l[i].1),
    ensures wr_inv(l, i + 1, ps.push(l[i])), e_props(ps.push(l[i])) == e_props(ps) + e_prop(l[i])
{
    hide(kind);
    let p = l[i];
    assert(prop_ok(p));
    lemma_fresh(l, i);
    if hasid(ps, p.0) { let x = choose|x: int| 0 <= x < ps.len() && (#[trigger] ps[x]).0 == p.0; assert(hasid(l.take(i), ps[x].0)); }
    lemma_push_uniq(ps, p);
    assert(l.take(i + 1) =~= l.take(i).push(p));
    lemma_bagof_push(l.take(i), p);
    let q = ps.push(p);
    assert forall|x: int| 0 <= x < q.len() implies hasid(l.take(i + 1), (#[trigger] q[x]).0) by {
        if x < ps.len() { assert(hasid(l.take(i), ps[x].0)); }
        lemma_hasid_take(l, i, q[x].0);
    }
    lemma_hasid_take(l, i, 0x26);
}

/// inside of a map: ps has been written before it, q since then
pub open spec fn wrm_inv(l: Seq<(u8, PV)>, i: int, m: Map<String, Vec<String>>, es: Seq<(String, Vec<String>)>, ps: Seq<(u8, PV)>, q: Seq<(u8, PV)>, x: int, y: int) -> bool {
    &&& wr_inv(l, i, ps) && i < l.len() && l[i] == (0x26u8, PV::UMap(umv(m)))
    &&& ents(m, es)
    &&& 0 <= x <= es.len() && 0 <= y && (y > 0 ==> x < es.len() && y <= es[x].1@.len())
    &&& props_ok(q) && uniq(q)
    &&& bagof(q) == (Bag { user: upto(es, x, y), ..bagof(ps) })
    &&& forall|z: int| 0 <= z < q.len() ==> (#[trigger] q[z]).0 == 0x26 || hasid(l.take(i), q[z].0)
    &&& q.len() == 0 ==> bagof(l.take(i)).vals == Map::<u8, PV>::empty()
}

pub proof fn lemma_wr_cur(l: Seq<(u8, PV)>, i: int, ps: Seq<(u8, PV)>)
    requires wr_inv(l, i, ps), 0 <= i < l.len(),
    ensures l[i].1 is UMap ==> l[i].0 == 0x26, !(l[i].1 is Pair), !(l[i].1 is Other), !(l[i].1 is UMap) && !val_ok(l[i].1) ==> !wlist_ok(l)
{
    assert(kind_of(l[i].1) == kind(l[i].0));
}

pub proof fn lemma_wrm_end(l: Seq<(u8, PV)>, i: int, m: Map<String, Vec<String>>, es: Seq<(String, Vec<String>)>, ps: Seq<(u8, PV)>, q: Seq<(u8, PV)>)
    requires wrm_inv(l, i, m, es, ps, q, es.len() as int, 0),
    ensures wr_inv(l, i + 1, q)
{
    lemma_upto_all(m, es);
    assert(l.take(i + 1) =~= l.take(i).push(l[i]));
    lemma_bagof_push(l.take(i), l[i]);
    assert forall|x: int| 0 <= x < q.len() implies hasid(l.take(i + 1), (#[trigger] q[x]).0) by {
        assert(q[x].0 == 0x26 || hasid(l.take(i), q[x].0));
        lemma_hasid_take(l, i, q[x].0);
    }
    lemma_hasid_take(l, i, 0x26);
}

/// between two entries of a map
pub open spec fn wrm_at(l: Seq<(u8, PV)>, i: int, m: Map<String, Vec<String>>, es: Seq<(String, Vec<String>)>, ps: Seq<(u8, PV)>, q: Seq<(u8, PV)>, x: int) -> bool {
    wrm_inv(l, i, m, es, ps, q, x, 0)
}

pub broadcast proof fn lemma_wrm_start(l: Seq<(u8, PV)>, i: int, m: Map<String, Vec<String>>, es: Seq<(String, Vec<String>)>, ps: Seq<(u8, PV)>, q: Seq<(u8, PV)>, x: int)
    requires wr_inv(l, i, ps), 0 <= i < l.len(), l[i].1 == PV::UMap(umv(m)), ents(m, es), q == ps, x == 0,
    ensures #[trigger] wrm_at(l, i, m, es, ps, q, x)
{
    assert(kind_of(l[i].1) == kind(l[i].0));
    lemma_fresh(l, i);
}

pub broadcast proof fn lemma_wrm_fin(l: Seq<(u8, PV)>, i: int, m: Map<String, Vec<String>>, es: Seq<(String, Vec<String>)>, ps: Seq<(u8, PV)>, q: Seq<(u8, PV)>, x: int)
    requires #[trigger] wrm_at(l, i, m, es, ps, q, x), x == es.len(),
    ensures wr_inv(l, i + 1, q)
{
    lemma_wrm_end(l, i, m, es, ps, q);
}

pub proof fn lemma_wrm_step(l: Seq<(u8, PV)>, i: int, m: Map<String, Vec<String>>, es: Seq<(String, Vec<String>)>, ps: Seq<(u8, PV)>, q: Seq<(u8, PV)>, x: int, y: int)
    requires wrm_inv(l, i, m, es, ps, q, x, y), x < es.len(), y < es[x].1@.len(), sb(es[x].0@).len() <= 65535, sb(es[x].1@[y]@).len() <= 65535,
    ensures
        wrm_inv(l, i, m, es, ps, q.push((0x26u8, PV::Pair(sb(es[x].0@), sb(es[x].1@[y]@)))), x, y + 1),
        e_props(q.push((0x26u8, PV::Pair(sb(es[x].0@), sb(es[x].1@[y]@))))) == e_props(q) + (seq![0x26u8] + (e_str(sb(es[x].0@)) + e_str(sb(es[x].1@[y]@)))),
{
    let p = (0x26u8, PV::Pair(sb(es[x].0@), sb(es[x].1@[y]@)));
    encode_utf8_valid_utf8(es[x].0@);
    encode_utf8_valid_utf8(es[x].1@[y]@);
    assert(prop_ok(p));
    lemma_push_uniq(q, p);
    lemma_upto_step(m, es, x, y);
    let q2 = q.push(p);
    assert forall|z: int| 0 <= z < q2.len() implies (#[trigger] q2[z]).0 == 0x26 || hasid(l.take(i), q2[z].0) by {
        if z < q.len() { assert(q[z].0 == 0x26 || hasid(l.take(i), q[z].0)); }
    }
}

pub proof fn lemma_wr_bad(l: Seq<(u8, PV)>, i: int, m: Map<String, Vec<String>>, es: Seq<(String, Vec<String>)>, ps: Seq<(u8, PV)>, q: Seq<(u8, PV)>, x: int, y: int)
    requires wrm_inv(l, i, m, es, ps, q, x, y), x < es.len(), y < es[x].1@.len(),
    ensures sb(es[x].0@).len() > 65535 || sb(es[x].1@[y]@).len() > 65535 ==> !wlist_ok(l)
{
    if sb(es[x].0@).len() > 65535 || sb(es[x].1@[y]@).len() > 65535 { lemma_um_bad(m, es, x, y); assert(!wval_ok(l[i].1)); }
}

pub proof fn lemma_wrm_next(l: Seq<(u8, PV)>, i: int, m: Map<String, Vec<String>>, es: Seq<(String, Vec<String>)>, ps: Seq<(u8, PV)>, q: Seq<(u8, PV)>, x: int, y: int)
    requires wrm_inv(l, i, m, es, ps, q, x, y), x < es.len(), y == es[x].1@.len(),
    ensures wrm_at(l, i, m, es, ps, q, x + 1)
{}

pub proof fn lemma_wr_end(l: Seq<(u8, PV)>, ps: Seq<(u8, PV)>)
    requires wr_inv(l, l.len() as int, ps),
    ensures written(l, ps)
{
    assert(l.take(l.len() as int) =~= l);
}

pub open spec fn esof(s: Seq<(&String, &Vec<String>)>) -> Seq<(String, Vec<String>)> { Seq::new(s.len(), |i: int| (*s[i].0, *s[i].1)) }

pub broadcast proof fn lemma_ents_iter(m: Map<String, Vec<String>>, s: Seq<(&String, &Vec<String>)>)
    requires
        s.no_duplicates(),
        forall|i: int| 0 <= i < s.len() ==> m.contains_pair(*(#[trigger] s[i]).0, *s[i].1),
        forall|k: String| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == &k,
    ensures #[trigger] ents(m, esof(s))
{
    let es = esof(s);
    assert forall|i: int, j: int| 0 <= i < j < es.len() implies (#[trigger] es[i]).0 != (#[trigger] es[j]).0 by {
        assert(m.contains_pair(*s[i].0, *s[i].1));
        assert(m.contains_pair(*s[j].0, *s[j].1));
        assert(s[i] != s[j]);
    }
    assert forall|k: String| #[trigger] m.contains_key(k) implies exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == k by {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == &k;
        assert(es[i].0 == k);
    }
}

pub broadcast proof fn lemma_sb_valid(s: Seq<char>)
    ensures valid_utf8(#[trigger] sb(s))
{ encode_utf8_valid_utf8(s); }
