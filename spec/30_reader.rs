// ======================================================================
// Abstract state of a ByteReader
// ======================================================================
use std::io::Read;
pub use crate::byte_reader::ByteReader;

impl<R: Read> ByteReader<R> {
    pub open spec fn stream(self) -> Seq<u8> { stream(&self.reader) }
    /// bytes that may be read before some limit is reached or the stream ends
    pub open spec fn win(self) -> Seq<u8> {
        match self.curr_limit {
            Some(l) => if l <= self.stream().len() { self.stream().subrange(0, l as int) } else { self.stream() },
            None => self.stream(),
        }
    }
    pub open spec fn total(self) -> int {
        (match self.curr_limit { Some(l) => l as int, None => 0 }) + sum(self.read_limits@)
    }
    pub open spec fn wf(self) -> bool {
        &&& self.curr_limit is None ==> self.read_limits@.len() == 0
        &&& self.total() <= u32::MAX
    }
    /// the whole frame is there
    pub open spec fn avail(self) -> bool {
        self.curr_limit is Some && self.stream().len() >= self.total()
    }
    pub open spec fn after(self) -> Seq<u8> { self.stream().subrange(self.total(), self.stream().len() as int) }
}

/// n is o after successfully reading the first k bytes
pub open spec fn adv<R: Read>(o: ByteReader<R>, n: ByteReader<R>, k: int) -> bool {
    &&& 0 <= k <= o.stream().len()
    &&& n.stream() == o.stream().subrange(k, o.stream().len() as int)
    &&& n.read_limits@ == o.read_limits@
    &&& match o.curr_limit {
        Some(l) => k <= l && n.curr_limit == Some((l - k) as u32),
        None => n.curr_limit is None,
    }
}

pub closed spec fn moved<R: Read>(o: ByteReader<R>, n: ByteReader<R>) -> bool {
    o.wf() && exists|k: int| adv(o, n, k)
}

/// n is what a failed operation may leave behind: still inside the same frame
pub open spec fn failed<R: Read>(o: ByteReader<R>, n: ByteReader<R>) -> bool {
    &&& o.wf() && n.wf()
    &&& n.curr_limit is None ==> o.curr_limit is None
    &&& o.avail() ==> n.avail() && n.after() == o.after()
}

pub broadcast proof fn lemma_sum_push(s: Seq<u32>, x: u32)
    ensures #[trigger] sum(s.push(x)) == sum(s) + x
{
    assert(s.push(x).drop_last() =~= s);
}

pub broadcast proof fn lemma_sum_nonneg(s: Seq<u32>)
    ensures #[trigger] sum(s) >= 0
    decreases s.len()
{
    if s.len() > 0 { lemma_sum_nonneg(s.drop_last()); }
}

pub broadcast proof fn lemma_moved<R: Read>(o: ByteReader<R>, n: ByteReader<R>)
    requires #[trigger] moved(o, n),
    ensures
        n.wf(),
        n.read_limits@ == o.read_limits@,
        n.curr_limit is Some == o.curr_limit is Some,
        n.avail() == o.avail(),
        o.avail() ==> n.after() == o.after(),
        o.win().len() >= n.win().len(),
        o.curr_limit is Some ==> o.curr_limit->0 - n.curr_limit->0 == o.win().len() - n.win().len(),
        failed(o, n),
{
    let k = choose|k: int| adv(o, n, k);
    lemma_sum_nonneg(o.read_limits@);
    assert(n.win() =~= o.win().subrange(k, o.win().len() as int));
    if o.avail() { assert(n.after() =~= o.after()); }
}

pub broadcast proof fn lemma_moved_refl<R: Read>(o: ByteReader<R>)
    requires o.wf(),
    ensures #[trigger] moved(o, o),
{
    assert(o.stream().subrange(0, o.stream().len() as int) =~= o.stream());
    assert(adv(o, o, 0));
}

pub broadcast proof fn lemma_moved_trans<R: Read>(a: ByteReader<R>, b: ByteReader<R>, c: ByteReader<R>)
    requires #[trigger] moved(a, b), #[trigger] moved(b, c),
    ensures moved(a, c),
{
    let k1 = choose|k: int| adv(a, b, k);
    let k2 = choose|k: int| adv(b, c, k);
    assert(c.stream() =~= a.stream().subrange(k1 + k2, a.stream().len() as int));
    assert(adv(a, c, k1 + k2));
}

pub broadcast proof fn lemma_failed<R: Read>(o: ByteReader<R>, n: ByteReader<R>)
    requires #[trigger] failed(o, n),
    ensures n.wf(), n.curr_limit is None ==> o.curr_limit is None,
{}

pub proof fn lemma_win_avail<R: Read>(o: ByteReader<R>)
    requires o.wf(), o.curr_limit is Some,
    ensures
        o.avail() ==> o.win().len() == o.curr_limit->0,
        o.win().len() <= o.curr_limit->0,
        o.win().len() <= o.stream().len(),
{
    lemma_sum_nonneg(o.read_limits@);
}

/// the step of a read operation: exactly k bytes are taken from the stream and from the limit
pub broadcast proof fn lemma_adv_moved<R: Read>(o: ByteReader<R>, n: ByteReader<R>, k: int)
    requires o.wf(), #[trigger] adv(o, n, k),
    ensures
        moved(o, n),
        p_len(o.win(), k) == Some((o.stream().subrange(0, k), n.win())),
{
    assert(n.win() =~= o.win().subrange(k, o.win().len() as int));
    assert(o.win().subrange(0, k) =~= o.stream().subrange(0, k));
}

/// n is o after take(len)
pub open spec fn took<R: Read>(o: ByteReader<R>, n: ByteReader<R>, len: int) -> bool {
    let m = match o.curr_limit { Some(l) => if len > l { l as int } else { len }, None => len };
    &&& n.wf()
    &&& n.stream() == o.stream()
    &&& n.curr_limit == Some(m as u32)
    &&& n.read_limits@ == (match o.curr_limit { Some(l) => o.read_limits@.push((l - m) as u32), None => o.read_limits@ })
    &&& o.curr_limit is Some ==> n.total() == o.total()
}

/// n is o after reset_limit()
pub open spec fn resetted<R: Read>(o: ByteReader<R>, n: ByteReader<R>) -> bool {
    &&& n.wf()
    &&& n.stream() == o.stream()
    &&& o.read_limits@.len() == 0 ==> n.curr_limit is None && n.read_limits@.len() == 0
    &&& o.read_limits@.len() > 0 ==> {
        &&& n.curr_limit == Some((o.curr_limit->0 + o.read_limits@.last()) as u32)
        &&& n.read_limits@ == o.read_limits@.drop_last()
        &&& n.total() == o.total()
    }
}

pub broadcast proof fn lemma_took_failed<R: Read>(o: ByteReader<R>, n: ByteReader<R>, len: int)
    requires o.wf(), #[trigger] took(o, n, len), 0 <= len <= u32::MAX, o.curr_limit is Some ==> len <= o.curr_limit->0,
    ensures
        failed(o, n),
        // nothing can be read past the end of the stream
        p_len(o.win(), len) matches Some(x) ==> x.0 == n.win() && n.win().len() == len,
{
    if len <= o.win().len() {
        assert(o.win().subrange(0, len) =~= n.win());
    }
}

/// an inner limit that was used up completely and removed again
pub broadcast proof fn lemma_inner<R: Read>(o: ByteReader<R>, s: ByteReader<R>, t: ByteReader<R>, n: ByteReader<R>, len: int)
    requires
        o.wf(), 0 <= len <= u32::MAX,
        #[trigger] took(o, s, len), #[trigger] moved(s, t), #[trigger] resetted(t, n),
        t.curr_limit == Some(0u32),
        o.curr_limit is Some ==> len <= o.curr_limit->0,
    ensures
        adv(o, n, len),
        s.win() == o.stream().subrange(0, len),
        p_len(o.win(), len) == Some((s.win(), n.win())),
        n.win() == rest(o.win(), len),
        t.win().len() == 0,
{
    lemma_moved(s, t);
    let k = choose|k: int| adv(s, t, k);
    assert(k == len);
    assert(s.win() =~= o.stream().subrange(0, len));
    if o.curr_limit is Some {
        assert(n.read_limits@ =~= o.read_limits@);
    } else {
        assert(n.read_limits@ =~= o.read_limits@);
    }
    lemma_adv_moved(o, n, len);
}

pub broadcast group rgroup { lemma_clear, lemma_took_failed, lemma_inner, lemma_adv_moved, lemma_moved, lemma_moved_refl, lemma_moved_trans, lemma_failed }

pub open spec fn sum(s: Seq<u32>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { sum(s.drop_last()) + s.last() }
}


impl<R: Read> ByteReader<R> {
    /// between two packets
    pub open spec fn clear(self) -> bool { self.curr_limit is None && self.read_limits@.len() == 0 }
}

pub broadcast proof fn lemma_clear<R: Read>(r: ByteReader<R>)
    requires #[trigger] r.clear(),
    ensures r.wf(), r.win() == r.stream()
{
}

/// first byte, remaining length and what follows
pub open spec fn p_hdr(w: Seq<u8>) -> Option<(u8, u32, Seq<u8>)> {
    match p_u8(w) {
        Some((b, w1)) => match p_var(w1) {
            Some((n, w2)) => Some((b, n, w2)),
            None => None,
        },
        None => None,
    }
}

pub struct Frame { pub first: u8, pub body: Seq<u8>, pub tail: Seq<u8> }

/// a whole packet at the front of the stream
pub open spec fn p_frame(w: Seq<u8>) -> Option<Frame> {
    match p_hdr(w) {
        Some((b, n, w2)) => match p_len(w2, n as int) {
            Some((body, tail)) => Some(Frame { first: b, body, tail }),
            None => None,
        },
        None => None,
    }
}
