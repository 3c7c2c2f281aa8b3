// ======================================================================
// MQTT wire format as mathematics: parsers over byte sequences
// ======================================================================

pub spec const MAXVAR: int = 268435455;

/// n bytes from the front
pub open spec fn p_len(w: Seq<u8>, n: int) -> Option<(Seq<u8>, Seq<u8>)> {
    if 0 <= n <= w.len() { Some((w.subrange(0, n), w.subrange(n, w.len() as int))) } else { None }
}

pub open spec fn rest(w: Seq<u8>, n: int) -> Seq<u8> { w.subrange(n, w.len() as int) }

pub open spec fn n16(a: u8, b: u8) -> int { a * 256 + b }

pub open spec fn n32(a: u8, b: u8, c: u8, d: u8) -> int { a * 16777216 + b * 65536 + c * 256 + d }

pub open spec fn p_u8(w: Seq<u8>) -> Option<(u8, Seq<u8>)> {
    if w.len() >= 1 { Some((w[0], rest(w, 1))) } else { None }
}

pub open spec fn p_u16(w: Seq<u8>) -> Option<(u16, Seq<u8>)> {
    if w.len() >= 2 { Some((n16(w[0], w[1]) as u16, rest(w, 2))) } else { None }
}

pub open spec fn p_u32(w: Seq<u8>) -> Option<(u32, Seq<u8>)> {
    if w.len() >= 4 { Some((n32(w[0], w[1], w[2], w[3]) as u32, rest(w, 4))) } else { None }
}

pub open spec fn p_bin(w: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
    match p_u16(w) {
        Some((n, w1)) => p_len(w1, n as int),
        None => None,
    }
}

pub open spec fn p_str(w: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
    match p_bin(w) {
        Some((s, w1)) => if valid_utf8(s) { Some((s, w1)) } else { None },
        None => None,
    }
}

pub open spec fn p_bool(w: Seq<u8>) -> Option<(bool, Seq<u8>)> {
    match p_u8(w) {
        Some((b, w1)) => Some((b != 0, w1)),
        None => None,
    }
}

/// variable byte integer of at most k bytes: value and length
pub open spec fn vb(w: Seq<u8>, k: nat) -> Option<(int, int)>
    decreases k
{
    if k == 0 || w.len() == 0 { None }
    else if w[0] < 128 { Some((w[0] as int, 1)) }
    else {
        match vb(rest(w, 1), (k - 1) as nat) {
            Some((v, n)) => Some((w[0] - 128 + 128 * v, n + 1)),
            None => None,
        }
    }
}

pub open spec fn p_var(w: Seq<u8>) -> Option<(u32, Seq<u8>)> {
    match vb(w, 4) {
        Some((v, n)) => Some((v as u32, rest(w, n))),
        None => None,
    }
}

// ------------------------------------------------------------ properties

pub type UV = Map<Seq<u8>, Seq<Seq<u8>>>;

/// the value of one property
pub enum PV {
    U32(u32),
    U16(u16),
    U8(u8),
    Bool(bool),
    VarInt(u32),
    Str(Seq<u8>),
    Bin(Seq<u8>),
    Pair(Seq<u8>, Seq<u8>),
    UMap(UV),
    Other,
}

pub enum Kind { U32, U16, U8, Bool, VarInt, Str, Bin, Pair, Invalid }

/// value type of every property identifier (MQTT 5, table 2-4)
pub open spec fn kind(id: u8) -> Kind {
    match id {
        0x01 => Kind::Bool,
        0x02 => Kind::U32,
        0x03 => Kind::Str,
        0x08 => Kind::Str,
        0x09 => Kind::Bin,
        0x0B => Kind::VarInt,
        0x11 => Kind::U32,
        0x12 => Kind::Str,
        0x13 => Kind::U16,
        0x15 => Kind::Str,
        0x16 => Kind::Str,
        0x17 => Kind::Bool,
        0x18 => Kind::U32,
        0x19 => Kind::Bool,
        0x1A => Kind::Str,
        0x1C => Kind::Str,
        0x1F => Kind::Str,
        0x21 => Kind::U16,
        0x22 => Kind::U16,
        0x23 => Kind::U16,
        0x24 => Kind::U8,
        0x25 => Kind::Bool,
        0x26 => Kind::Pair,
        0x27 => Kind::U32,
        0x28 => Kind::Bool,
        0x29 => Kind::Bool,
        0x2A => Kind::Bool,
        _ => Kind::Invalid,
    }
}

pub open spec fn kind_of(pv: PV) -> Kind {
    match pv {
        PV::U32(_) => Kind::U32,
        PV::U16(_) => Kind::U16,
        PV::U8(_) => Kind::U8,
        PV::Bool(_) => Kind::Bool,
        PV::VarInt(_) => Kind::VarInt,
        PV::Str(_) => Kind::Str,
        PV::Bin(_) => Kind::Bin,
        PV::Pair(_, _) => Kind::Pair,
        PV::UMap(_) => Kind::Pair,
        PV::Other => Kind::Invalid,
    }
}

pub open spec fn p_val(k: Kind, w: Seq<u8>) -> Option<(PV, Seq<u8>)> {
    match k {
        Kind::U32 => match p_u32(w) { Some((v, r)) => Some((PV::U32(v), r)), None => None },
        Kind::U16 => match p_u16(w) { Some((v, r)) => Some((PV::U16(v), r)), None => None },
        Kind::U8 => match p_u8(w) { Some((v, r)) => Some((PV::U8(v), r)), None => None },
        Kind::Bool => match p_bool(w) { Some((v, r)) => Some((PV::Bool(v), r)), None => None },
        Kind::VarInt => match p_var(w) { Some((v, r)) => Some((PV::VarInt(v), r)), None => None },
        Kind::Str => match p_str(w) { Some((v, r)) => Some((PV::Str(v), r)), None => None },
        Kind::Bin => match p_bin(w) { Some((v, r)) => Some((PV::Bin(v), r)), None => None },
        Kind::Pair => match p_str(w) {
            Some((k, r)) => match p_str(r) { Some((v, r2)) => Some((PV::Pair(k, v), r2)), None => None },
            None => None,
        },
        Kind::Invalid => None,
    }
}

pub open spec fn p_prop(w: Seq<u8>) -> Option<((u8, PV), Seq<u8>)> {
    match p_u8(w) {
        Some((id, r)) => match p_val(kind(id), r) {
            Some((v, r2)) => Some(((id, v), r2)),
            None => None,
        },
        None => None,
    }
}

/// all properties of a block, in order
pub open spec fn p_props(w: Seq<u8>) -> Option<Seq<(u8, PV)>>
    decreases w.len()
{
    if w.len() == 0 { Some(Seq::empty()) }
    else {
        match p_prop(w) {
            Some((p, r)) => if r.len() < w.len() {
                match p_props(r) {
                    Some(ps) => Some(seq![p] + ps),
                    None => None,
                }
            } else { None },
            None => None,
        }
    }
}

/// a property block with its length
pub open spec fn p_block(w: Seq<u8>) -> Option<(Seq<(u8, PV)>, Seq<u8>)> {
    match p_var(w) {
        Some((n, r)) => match p_len(r, n as int) {
            Some((b, r2)) => match p_props(b) {
                Some(ps) => Some((ps, r2)),
                None => None,
            },
            None => None,
        },
        None => None,
    }
}

// ------------------------------------------------------------ property bags

/// What a list of properties says: the last value of every identifier, all
/// variable byte integers and the user properties
pub struct Bag {
    pub vals: Map<u8, PV>,
    pub subs: Seq<u32>,
    pub user: UV,
}

pub open spec fn bag0() -> Bag { Bag { vals: Map::empty(), subs: Seq::empty(), user: Map::empty() } }

pub open spec fn um_push(u: UV, k: Seq<u8>, v: Seq<u8>) -> UV {
    u.insert(k, if u.contains_key(k) { u[k].push(v) } else { seq![v] })
}

pub open spec fn bag_push(b: Bag, p: (u8, PV)) -> Bag {
    match p.1 {
        PV::Pair(k, v) => Bag { user: um_push(b.user, k, v), ..b },
        PV::UMap(m) => Bag { user: m, ..b },
        PV::VarInt(n) => Bag { vals: b.vals.insert(p.0, p.1), subs: b.subs.push(n), ..b },
        _ => Bag { vals: b.vals.insert(p.0, p.1), ..b },
    }
}

pub open spec fn bagof(s: Seq<(u8, PV)>) -> Bag
    decreases s.len()
{
    if s.len() == 0 { bag0() } else { bag_push(bagof(s.drop_last()), s.last()) }
}
