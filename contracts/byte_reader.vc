@fn byte_reader::ByteReader::new
ensures r.wf(), r.curr_limit is None, r.reader == $1

@fn byte_reader::ByteReader::take
requires old(self).wf()
ensures took(*old(self), *final(self), $1 as int)
@body_start
broadcast use {lemma_sum_push, lemma_sum_nonneg};

@fn byte_reader::ByteReader::limit
requires match old(self).curr_limit { Some(zl) => $1 <= zl, None => true }
ensures
    final(self).reader == old(self).reader,
    final(self).read_limits == old(self).read_limits,
    final(self).curr_limit == (match old(self).curr_limit { Some(zl) => Some((zl - $1) as u32), None => None::<u32> })

@fn byte_reader::ByteReader::ensure_limit
ensures
    *final(self) == *old(self),
    r is Ok <==> (match old(self).curr_limit { Some(zl) => $1 <= zl, None => true })

@fn byte_reader::ByteReader::reset_limit
requires old(self).wf()
ensures resetted(*old(self), *final(self))
@body_start
proof {
    lemma_sum_nonneg(old(self).read_limits@);
    if old(self).read_limits@.len() > 0 { lemma_sum_nonneg(old(self).read_limits@.drop_last()); }
}

@fn byte_reader::ByteReader::read_len
requires old(self).wf()
ensures
    match r {
        Ok(v) => adv(*old(self), *final(self), $1 as int) && v@ == old(self).stream().subrange(0, $1 as int),
        Err(_) => p_len(old(self).win(), $1 as int) is None && failed(*old(self), *final(self))
            && final(self).curr_limit == old(self).curr_limit && final(self).read_limits == old(self).read_limits,
    }
@body_start
proof { lemma_sum_nonneg(old(self).read_limits@); }

@fn byte_reader::ByteReader::read_u8
requires old(self).wf()
ensures
    match r {
        Ok(v) => p_u8(old(self).win()) == Some((v, final(self).win())) && moved(*old(self), *final(self)),
        Err(_) => p_u8(old(self).win()) is None && failed(*old(self), *final(self))
            && (old(self).curr_limit is None ==> final(self).curr_limit is None),
    }

@fn byte_reader::ByteReader::read_u16
requires old(self).wf()
ensures
    match r {
        Ok(v) => p_u16(old(self).win()) == Some((v, final(self).win())) && moved(*old(self), *final(self)),
        Err(_) => p_u16(old(self).win()) is None && failed(*old(self), *final(self))
            && (old(self).curr_limit is None ==> final(self).curr_limit is None),
    }

@fn byte_reader::ByteReader::read_u32
requires old(self).wf()
ensures
    match r {
        Ok(v) => p_u32(old(self).win()) == Some((v, final(self).win())) && moved(*old(self), *final(self)),
        Err(_) => p_u32(old(self).win()) is None && failed(*old(self), *final(self))
            && (old(self).curr_limit is None ==> final(self).curr_limit is None),
    }

@fn byte_reader::ByteReader::read_utf8_string
requires old(self).wf()
ensures
    match r {
        Ok(v) => p_str(old(self).win()) == Some((sb(v@), final(self).win())) && moved(*old(self), *final(self)),
        Err(_) => p_str(old(self).win()) is None && failed(*old(self), *final(self))
            && (old(self).curr_limit is None ==> final(self).curr_limit is None),
    }

@fn byte_reader::ByteReader::read_binary
requires old(self).wf()
ensures
    match r {
        Ok(v) => p_bin(old(self).win()) == Some((v@, final(self).win())) && moved(*old(self), *final(self)),
        Err(_) => p_bin(old(self).win()) is None && failed(*old(self), *final(self))
            && (old(self).curr_limit is None ==> final(self).curr_limit is None),
    }

@fn byte_reader::ByteReader::read_bool_byte
requires old(self).wf()
ensures
    match r {
        Ok(v) => p_bool(old(self).win()) == Some((v, final(self).win())) && moved(*old(self), *final(self)),
        Err(_) => p_bool(old(self).win()) is None && failed(*old(self), *final(self))
            && (old(self).curr_limit is None ==> final(self).curr_limit is None),
    }

@fn byte_reader::ByteReader::read_variable_int
requires old(self).wf()
ensures
    match r {
        Ok(v) => p_var(old(self).win()) == Some((v, final(self).win())) && moved(*old(self), *final(self)),
        Err(_) => p_var(old(self).win()) is None && failed(*old(self), *final(self))
            && (old(self).curr_limit is None ==> final(self).curr_limit is None),
    }

@body_start
proof { lemma_pow128_4(); lemma_rest0(old(self).win()); lemma_vb_range(old(self).win(), 4); }
@loop 0 it
invariant
    old(self).wf(),
    moved(*old(self), *self),
    mult == pow128(it.index@ as nat),
    0 <= num < pow128(it.index@ as nat),
    0 <= it.index@ <= 4,
    vb_split(old(self).win(), self.win(), num as int, mult as int, it.index@ as int),
@loop_start 0
proof { lemma_pow128_4(); lemma_mul_le(mult as int, self.win()); lemma_vb_step(old(self).win(), self.win(), num as int, mult as int, it.index@ as int); }

@fn byte_reader::ByteReader::has_more
requires old(self).wf()
ensures
    old(self).curr_limit is Some ==> r == (old(self).curr_limit->0 > 0) && *final(self) == *old(self),
    old(self).curr_limit is None ==> r == (old(self).stream().len() > 0) || (!r && interrupts(&old(self).reader)),
    r ==> final(self).stream() == old(self).stream(),
    final(self).curr_limit == old(self).curr_limit,
    final(self).read_limits == old(self).read_limits

@fn byte_reader::ByteReader::consume
requires old(self).wf()
ensures
    old(self).curr_limit is Some ==> match r {
        Ok(v) => p_len(old(self).win(), old(self).curr_limit->0 as int) == Some((v@, final(self).win())) && moved(*old(self), *final(self))
            && v@ == old(self).win(),
        Err(_) => p_len(old(self).win(), old(self).curr_limit->0 as int) is None && failed(*old(self), *final(self))
            && final(self).curr_limit == old(self).curr_limit && final(self).read_limits == old(self).read_limits,
    },
    old(self).curr_limit is None ==> r is Err && *final(self) == *old(self)
@body_start
proof { if self.curr_limit is Some { lemma_win_avail(*self); assert(self.win().subrange(0, self.win().len() as int) =~= self.win()); } }

@fn byte_reader::ByteReader::start_properties_decode
requires old(self).wf()
ensures
    match r {
        Ok(n) => p_var(old(self).win()) matches Some(x) && x.0 == n && (
            if n == 0 { moved(*old(self), *final(self)) && final(self).win() == x.1 }
            else { exists|m: ByteReader<R>| moved(*old(self), m) && #[trigger] took(m, *final(self), n as int)
                && m.win() == x.1 && (m.curr_limit is Some ==> n <= m.curr_limit->0) }
        ),
        Err(_) => failed(*old(self), *final(self)) && (p_var(old(self).win()) matches Some(x) ==> p_len(x.1, x.0 as int) is None),
    }

@fn byte_reader::ByteReader::decode_property
requires old(self).wf()
ensures
    match r {
        Ok(v) => p_prop(old(self).win()) == Some(((v.0, pv(v.1)), final(self).win())) && moved(*old(self), *final(self))
            && kind_of(pv(v.1)) == kind(v.0) && owned(v.1) && !(v.1 is Map) && (v.1 is Pair) == (v.0 == 0x26),
        Err(_) => p_prop(old(self).win()) is None && failed(*old(self), *final(self)),
    }

@fn byte_reader::ByteReader::read_properties
requires old(self).wf()
ensures
    match r {
        Ok(v) => p_block(old(self).win()) matches Some(x) && plist(v, x.0) && x.1 == final(self).win() && moved(*old(self), *final(self)),
        Err(_) => p_block(old(self).win()) is None && failed(*old(self), *final(self)),
    }
@attr
#[verifier::loop_isolation(false)]
@body_start
hide(kind);
hide(p_val);
hide(p_prop);
hide(kind_of);
@before_loop 0
broadcast use {group_hash_axioms, axiom_string_key, lemma_umv, lemma_pvs_push_b, lemma_bag_end, lemma_dlist_push};
let ghost st0 = *self;
let ghost mut done = Seq::<(u8, PV)>::empty();
proof { lemma_cat0(p_props(st0.win())); lemma_bag_start(props@, umv(user_properties@)); }
@loop 0
invariant
    moved(st0, *self),
    failed(*old(self), *self),
    st0.curr_limit is Some,
    p_props(st0.win()) == cat(done, p_props(self.win())),
    inv_bag(done, props@, umv(user_properties@)),
    done.len() > 0 ==> props@.len() > 0 || user_properties@.len() > 0,
decreases self.curr_limit->0
@loop_start 0
broadcast use {group_hash_axioms, axiom_string_key, lemma_umv};
let ghost w0 = self.win();
let ghost p0 = props@;
let ghost u0 = umv(user_properties@);
@loop_end 0
proof {
    let p = p_prop(w0)->0;
    lemma_pprop_shrinks(w0);
    lemma_bag_step(done, p.0, p0, props@, u0, umv(user_properties@));
    lemma_cat_step(w0, done);
    done = done.push(p.0);
}
@after_loop 0
proof { lemma_cat_end(done, self.win()); }

@fn byte_reader::ByteReader::discard_packet
requires old(self).wf()
ensures
    final(self).clear(),
    old(self).curr_limit is Some ==> (r is Ok <==> old(self).avail()),
    old(self).curr_limit is Some && r is Ok ==> final(self).stream() == old(self).after(),
    old(self).curr_limit is None ==> r is Err && final(self).stream() == old(self).stream()
@loop 0
invariant
    self.wf(),
    self.stream() == old(self).stream(),
    old(self).curr_limit is Some ==> self.curr_limit is Some && self.total() == old(self).total(),
    old(self).curr_limit is None ==> self.curr_limit is None && self.read_limits@.len() == 0,
decreases self.read_limits@.len()

@fn byte_reader::ByteReader::read_header
requires old(self).clear()
ensures
    match r {
        Ok(v) => p_hdr(old(self).stream()) matches Some(x)
            && hdr(x.0 as int) == Some(v.1) && v.0 == x.1
            && final(self).wf() && final(self).stream() == x.2
            && final(self).curr_limit == Some(v.0) && final(self).read_limits@.len() == 0,
        Err(_) => final(self).clear() && (p_frame(old(self).stream()) matches Some(f) ==>
            hdr(f.first as int) is None && final(self).stream() == f.tail),
    }
