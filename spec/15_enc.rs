// ======================================================================
// MQTT wire format as mathematics: encoders, and that the parsers invert them
// ======================================================================

pub open spec fn e8(n: u8) -> Seq<u8> { seq![n] }
pub open spec fn e16(n: int) -> Seq<u8> { seq![(n / 256) as u8, (n % 256) as u8] }
pub open spec fn e32(n: int) -> Seq<u8> {
    seq![(n / 16777216) as u8, ((n / 65536) % 256) as u8, ((n / 256) % 256) as u8, (n % 256) as u8]
}
pub open spec fn e_str(b: Seq<u8>) -> Seq<u8> { e16(b.len() as int) + b }
/// shortest variable byte integer
pub open spec fn e_var(n: int) -> Seq<u8>
    decreases n when n >= 0
{
    if n < 128 { seq![n as u8] } else { seq![(n % 128 + 128) as u8] + e_var(n / 128) }
}
pub open spec fn e_bool(b: bool) -> Seq<u8> { seq![if b { 1u8 } else { 0u8 }] }

pub open spec fn e_val(v: PV) -> Seq<u8> {
    match v {
        PV::U32(n) => e32(n as int),
        PV::U16(n) => e16(n as int),
        PV::U8(n) => e8(n),
        PV::Bool(b) => e_bool(b),
        PV::VarInt(n) => e_var(n as int),
        PV::Str(s) => e_str(s),
        PV::Bin(s) => e_str(s),
        PV::Pair(a, b) => e_str(a) + e_str(b),
        PV::UMap(_) => Seq::empty(),
        PV::Other => Seq::empty(),
    }
}
pub open spec fn e_prop(p: (u8, PV)) -> Seq<u8> { seq![p.0] + e_val(p.1) }
pub open spec fn e_props(ps: Seq<(u8, PV)>) -> Seq<u8>
    decreases ps.len()
{
    if ps.len() == 0 { Seq::empty() } else { e_props(ps.drop_last()) + e_prop(ps.last()) }
}

pub open spec fn str_ok(s: Seq<u8>) -> bool { s.len() <= 65535 && valid_utf8(s) }

/// can be put on the wire
pub open spec fn val_ok(v: PV) -> bool {
    match v {
        PV::VarInt(n) => n <= MAXVAR,
        PV::Str(s) => str_ok(s),
        PV::Bin(s) => s.len() <= 65535,
        PV::Pair(a, b) => str_ok(a) && str_ok(b),
        PV::UMap(_) => false,
        PV::Other => false,
        _ => true,
    }
}
pub open spec fn prop_ok(p: (u8, PV)) -> bool { val_ok(p.1) && kind_of(p.1) == kind(p.0) }
pub open spec fn props_ok(ps: Seq<(u8, PV)>) -> bool { forall|i: int| 0 <= i < ps.len() ==> prop_ok(#[trigger] ps[i]) }

// ------------------------------------------------------------ lemmas

pub proof fn lemma_p16(n: int, w: Seq<u8>)
    requires 0 <= n < 65536,
    ensures p_u16(e16(n) + w) == Some((n as u16, w)),
{
    let x = e16(n) + w;
    assert(x[0] == (n / 256) as u8 && x[1] == (n % 256) as u8);
    assert(n16(x[0], x[1]) == n);
    assert(rest(x, 2) =~= w);
}

pub proof fn lemma_p32(n: int, w: Seq<u8>)
    requires 0 <= n < 4294967296,
    ensures p_u32(e32(n) + w) == Some((n as u32, w)),
{
    let x = e32(n) + w;
    assert(n32(x[0], x[1], x[2], x[3]) == n);
    assert(rest(x, 4) =~= w);
}

pub proof fn lemma_p8(n: u8, w: Seq<u8>)
    ensures p_u8(seq![n] + w) == Some((n, w)),
{
    assert(rest(seq![n] + w, 1) =~= w);
}

pub proof fn lemma_plen(b: Seq<u8>, w: Seq<u8>)
    ensures p_len(b + w, b.len() as int) == Some((b, w)),
{
    assert((b + w).subrange(0, b.len() as int) =~= b);
    assert((b + w).subrange(b.len() as int, (b + w).len() as int) =~= w);
}

pub proof fn lemma_pbin(b: Seq<u8>, w: Seq<u8>)
    requires b.len() <= 65535,
    ensures p_bin(e_str(b) + w) == Some((b, w)),
{
    assert(e_str(b) + w =~= e16(b.len() as int) + (b + w));
    lemma_p16(b.len() as int, b + w);
    lemma_plen(b, w);
}

pub proof fn lemma_pstr(b: Seq<u8>, w: Seq<u8>)
    requires str_ok(b),
    ensures p_str(e_str(b) + w) == Some((b, w)),
{
    lemma_pbin(b, w);
}

pub open spec fn pow128(k: nat) -> int
    decreases k
{ if k == 0 { 1 } else { 128 * pow128((k - 1) as nat) } }

pub proof fn lemma_vb(n: int, k: nat, w: Seq<u8>)
    requires 0 <= n < pow128(k), k > 0,
    ensures
        vb(e_var(n) + w, k) == Some((n, e_var(n).len() as int)),
        1 <= e_var(n).len() <= k,
    decreases k,
{
    let x = e_var(n) + w;
    if n < 128 {
        assert(x[0] == n as u8);
    } else {
        if k == 1 { reveal_with_fuel(pow128, 3); assert(false); }
        lemma_vb(n / 128, (k - 1) as nat, w);
        assert(x[0] == (n % 128 + 128) as u8);
        assert(rest(x, 1) =~= e_var(n / 128) + w);
    }
}

pub proof fn lemma_pow128_4()
    ensures pow128(4) == MAXVAR + 1, pow128(1) == 128, pow128(2) == 16384, pow128(3) == 2097152
{
    reveal_with_fuel(pow128, 6);
}

pub proof fn lemma_pvar(n: int, w: Seq<u8>)
    requires 0 <= n <= MAXVAR,
    ensures
        p_var(e_var(n) + w) == Some((n as u32, w)),
        1 <= e_var(n).len() <= 4,
{
    lemma_pow128_4();
    lemma_vb(n, 4, w);
    assert(rest(e_var(n) + w, e_var(n).len() as int) =~= w);
}

/// a decoded variable byte integer is in range
pub proof fn lemma_vb_range(w: Seq<u8>, k: nat)
    ensures vb(w, k) matches Some(x) ==> 0 <= x.0 < pow128(k) && 1 <= x.1 <= k && x.1 <= w.len()
    decreases k
{
    if k > 0 && w.len() > 0 && w[0] >= 128 {
        lemma_vb_range(rest(w, 1), (k - 1) as nat);
    }
    if k > 0 { lemma_pow_pos((k - 1) as nat); }
}
pub proof fn lemma_pow_pos(k: nat)
    ensures pow128(k) >= 1
    decreases k
{ if k > 0 { lemma_pow_pos((k - 1) as nat); } }

pub proof fn lemma_pvar_range(w: Seq<u8>)
    ensures p_var(w) matches Some(x) ==> x.0 <= MAXVAR && x.1.len() < w.len()
{
    lemma_pow128_4();
    lemma_vb_range(w, 4);
}

pub proof fn lemma_pval(v: PV, w: Seq<u8>)
    requires val_ok(v),
    ensures p_val(kind_of(v), e_val(v) + w) == Some((v, w)),
{
    let x = e_val(v) + w;
    match v {
        PV::U32(n) => lemma_p32(n as int, w),
        PV::U16(n) => lemma_p16(n as int, w),
        PV::U8(n) => lemma_p8(n, w),
        PV::Bool(b) => lemma_p8(if b { 1u8 } else { 0u8 }, w),
        PV::VarInt(n) => lemma_pvar(n as int, w),
        PV::Str(s) => lemma_pstr(s, w),
        PV::Bin(s) => lemma_pbin(s, w),
        PV::Pair(a, b) => {
            assert(x =~= e_str(a) + (e_str(b) + w));
            lemma_pstr(a, e_str(b) + w);
            lemma_pstr(b, w);
        }
        _ => {}
    }
}

pub proof fn lemma_pprop(p: (u8, PV), w: Seq<u8>)
    requires prop_ok(p),
    ensures p_prop(e_prop(p) + w) == Some((p, w)),
{
    hide(kind);
    hide(p_val);
    let (id, v) = p;
    let x = e_val(v) + w;
    assert(e_prop(p) + w =~= seq![id] + x);
    lemma_p8(id, x);
    lemma_pval(v, w);
}

pub proof fn lemma_eprops_cons(p: (u8, PV), ps: Seq<(u8, PV)>)
    ensures e_props(seq![p] + ps) == e_prop(p) + e_props(ps),
    decreases ps.len(),
{
    let s = seq![p] + ps;
    if ps.len() == 0 {
        assert(s.drop_last() =~= Seq::empty());
        assert(e_props(s.drop_last()) =~= Seq::empty());
        assert(e_props(s) =~= e_prop(p) + e_props(ps));
    } else {
        assert(s.drop_last() =~= seq![p] + ps.drop_last());
        lemma_eprops_cons(p, ps.drop_last());
        assert(e_props(s) =~= e_prop(p) + e_props(ps));
    }
}

pub proof fn lemma_pprops(ps: Seq<(u8, PV)>)
    requires props_ok(ps),
    ensures p_props(e_props(ps)) == Some(ps),
    decreases ps.len(),
{
    if ps.len() > 0 {
        let p = ps[0];
        let t = ps.drop_first();
        assert(ps =~= seq![p] + t);
        lemma_eprops_cons(p, t);
        lemma_pprop(p, e_props(t));
        assert forall|i: int| 0 <= i < t.len() implies prop_ok(#[trigger] t[i]) by { assert(prop_ok(ps[i + 1])); }
        lemma_pprops(t);
        assert(e_prop(p).len() >= 1);
    }
}

pub open spec fn e_block(ps: Seq<(u8, PV)>) -> Seq<u8> { e_var(e_props(ps).len() as int) + e_props(ps) }

pub proof fn lemma_pblock(ps: Seq<(u8, PV)>, w: Seq<u8>)
    requires props_ok(ps), e_props(ps).len() <= MAXVAR,
    ensures p_block(e_block(ps) + w) == Some((ps, w)),
{
    let n = e_props(ps).len() as int;
    assert(e_block(ps) + w =~= e_var(n) + (e_props(ps) + w));
    lemma_pvar(n, e_props(ps) + w);
    lemma_plen(e_props(ps), w);
    lemma_pprops(ps);
}

// ---------------------------------------------------- reading from the end of a sequence of properties

pub proof fn lemma_bagof_push(s: Seq<(u8, PV)>, p: (u8, PV))
    ensures bagof(s.push(p)) == bag_push(bagof(s), p)
{
    assert(s.push(p).drop_last() =~= s);
}

// ---------------------------------------------------- variable byte integers, step by step

/// w0 starts with i continuation bytes, which add up to num; cur is what follows them
pub open spec fn vb_split(w0: Seq<u8>, cur: Seq<u8>, num: int, mult: int, i: int) -> bool {
    &&& 0 <= i <= w0.len()
    &&& cur == rest(w0, i)
    &&& i <= 4 && vb(w0, 4) == (match vb(cur, (4 - i) as nat) {
        Some((v, n)) => Some((num + mult * v, i + n)),
        None => None::<(int, int)>,
    })
}

pub proof fn lemma_rest0(w: Seq<u8>)
    ensures vb_split(w, w, 0, 1, 0), rest(w, 0) == w
{
    assert(rest(w, 0) =~= w);
    match vb(w, 4) { Some((v, n)) => { assert(0 + 1 * v == v) by (nonlinear_arith); } None => {} }
}

pub proof fn lemma_vb_step(w0: Seq<u8>, cur: Seq<u8>, num: int, mult: int, i: int)
    requires vb_split(w0, cur, num, mult, i), i < 4,
    ensures
        cur.len() == 0 ==> vb(w0, 4) is None,
        cur.len() > 0 && cur[0] < 128 ==> vb(w0, 4) == Some((num + mult * cur[0], i + 1)) && rest(cur, 1) == rest(w0, i + 1),
        cur.len() > 0 && cur[0] >= 128 ==> vb_split(w0, rest(cur, 1), num + mult * (cur[0] - 128), mult * 128, i + 1),
        i == 3 && cur.len() > 0 && cur[0] >= 128 ==> vb(w0, 4) is None,
{
    if cur.len() > 0 {
        assert(rest(cur, 1) =~= rest(w0, i + 1));
        if cur[0] >= 128 {
            match vb(rest(cur, 1), (3 - i) as nat) {
                Some((v, n)) => {
                    assert(num + mult * (cur[0] - 128 + 128 * v) == num + mult * (cur[0] - 128) + mult * 128 * v) by (nonlinear_arith);
                }
                None => {}
            }
        }
    }
}

pub proof fn lemma_mul_le(m: int, cur: Seq<u8>)
    requires m >= 1,
    ensures cur.len() > 0 ==> 0 <= m * (cur[0] % 128) <= m * 127 && (cur[0] >= 128 ==> m * (cur[0] % 128) == m * (cur[0] - 128))
{
    if cur.len() > 0 {
        let x = (cur[0] % 128) as int;
        assert(0 <= m * x <= m * 127) by (nonlinear_arith) requires 0 <= x <= 127, m >= 1;
    }
}
