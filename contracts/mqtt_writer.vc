@fn mqtt_writer::MqttWriter::new
ensures r.buf@ == Seq::<u8>::empty()

@fn mqtt_writer::MqttWriter::into_vec
ensures r@ == self.buf@

@fn mqtt_writer::MqttWriter::encode_multibyte_num
ensures r@ == e16(($1 % 65536) as int)
@body_start
broadcast use bits;
proof { let m = $1; assert((m % 65536u32) / 256u32 == (m / 256u32) % 256u32 && (m % 65536u32) % 256u32 == m % 256u32) by (bit_vector); }

@fn mqtt_writer::MqttWriter::encode_variable_num
ensures
    $1 > 0 ==> r@ == e_var($1 as int),
    $1 == 0 ==> r@ == Seq::<u8>::empty()
@body_start
broadcast use bits;
let ghost n0 = $1;
@loop 0
invariant
    n0 > 0 ==> e_var(n0 as int) == v@ + (if length > 0 { e_var(length as int) } else { Seq::empty() }),
    n0 == 0 ==> length == 0 && v@ == Seq::<u8>::empty(),
decreases length
@loop_start 0
broadcast use bits;
let ghost v0 = v@;
let ghost l0 = length;
@loop_end 0
proof {
    if length > 0 {
        assert(v@ + e_var(length as int) =~= v0 + e_var(l0 as int));
    } else {
        assert(v@ + Seq::<u8>::empty() =~= v0 + e_var(l0 as int));
    }
}

@fn mqtt_writer::MqttWriter::write_variable_num
ensures
    r is Ok <==> $1 <= MAXVAR,
    r is Ok ==> final(self).buf@ == old(self).buf@ + e_var($1 as int)

@fn mqtt_writer::MqttWriter::write_remaining_length
ensures
    r is Ok <==> $1 <= MAXVAR,
    r is Ok ==> final(self).buf@ == old(self).buf@ + e_var($1 as int)
@body_start
broadcast use bits;

@fn mqtt_writer::MqttWriter::write_utf8_string
ensures
    r is Ok <==> sb($1@).len() <= 65535,
    r is Ok ==> final(self).buf@ == old(self).buf@ + e_str(sb($1@))
@body_start
let ghost b0 = self.buf@;
@loop 0 it
invariant
    it.seq() == sb($1@),
    self.buf@ == b0 + e16(sb($1@).len() as int) + sb($1@).take(it.index@ as int),
@after_loop 0
proof { assert(sb($1@).take(sb($1@).len() as int) =~= sb($1@)); assert(self.buf@ =~= b0 + e_str(sb($1@))); }

@fn mqtt_writer::MqttWriter::write_utf8_str
ensures
    r is Ok <==> sb($1@).len() <= 65535,
    r is Ok ==> final(self).buf@ == old(self).buf@ + e_str(sb($1@))
@body_start
let ghost b0 = self.buf@;
@loop 0 it
invariant
    it.seq() == sb($1@),
    self.buf@ == b0 + e16(sb($1@).len() as int) + sb($1@).take(it.index@ as int),
@after_loop 0
proof { assert(sb($1@).take(sb($1@).len() as int) =~= sb($1@)); assert(self.buf@ =~= b0 + e_str(sb($1@))); }

@fn mqtt_writer::MqttWriter::write_binary
ensures
    r is Ok <==> $1@.len() <= 65535,
    r is Ok ==> final(self).buf@ == old(self).buf@ + e_str($1@)
@before 0 Ok ( ( ) )
proof { assert(self.buf@ =~= old(self).buf@ + e_str($1@)); }

@fn mqtt_writer::MqttWriter::write_binary_ref
ensures
    r is Ok <==> $1@.len() <= 65535,
    r is Ok ==> final(self).buf@ == old(self).buf@ + e_str($1@)
@before 0 Ok ( ( ) )
proof { assert(self.buf@ =~= old(self).buf@ + e_str($1@)); }

@fn mqtt_writer::MqttWriter::write_u16_len
ensures
    r is Ok <==> $1 <= 65535,
    r is Ok ==> final(self).buf@ == old(self).buf@ + e16($1 as int)
@body_start
broadcast use bits;

@fn mqtt_writer::MqttWriter::write_u16
ensures final(self).buf@ == old(self).buf@ + e16($1 as int)
@body_start
broadcast use bits;

@fn mqtt_writer::MqttWriter::write_u32
ensures final(self).buf@ == old(self).buf@ + e32($1 as int)
@body_start
broadcast use bits;

@fn mqtt_writer::MqttWriter::write_header
requires $1.cmd != PacketType::Publish || $1.qos <= 2
ensures final(self).buf@ == old(self).buf@.push(first_byte($1.cmd, $1.dup, $1.qos, $1.retain) as u8)

@fn mqtt_writer::MqttWriter::write_u8
ensures final(self).buf@ == old(self).buf@.push($1)

@fn mqtt_writer::MqttWriter::write_vec
ensures final(self).buf@ == old(self).buf@ + $1@

@fn mqtt_writer::MqttWriter::write_slice
ensures final(self).buf@ == old(self).buf@ + $1@

@fn mqtt_writer::MqttWriter::write_sized
ensures
    r is Ok,
    // what goes in front of nothing is the length 0 or nothing
    $1@.len() > 0 || $2@.len() == 0 || $2@ =~= seq![0u8] ==> final(self).buf@ == old(self).buf@ + ($2@ + $1@)
@before 0 Ok ( ( ) )
proof { if $1@.len() > 0 || $2@.len() == 0 || $2@ =~= seq![0u8] { assert(self.buf@ =~= old(self).buf@ + ($2@ + $1@)); } }

@fn mqtt_writer::MqttWriter::write_properties
requires wlist(pvs($1@))
ensures
    match r {
        Ok(_) => exists|ps: Seq<(u8, PV)>| final(self).buf@ == old(self).buf@ + #[trigger] e_props(ps) && written(pvs($1@), ps),
        Err(_) => !wlist_ok(pvs($1@)),
    }
@attr
#[verifier::spinoff_prover]
@body_start
hide(kind);
hide(wr_inv);
hide(wrm_inv);
hide(wrm_at);
hide(upto);
hide(umv);
hide(bagof);
hide(wlist);
hide(e_var);
hide(e_str);
hide(e16);
hide(e32);
hide(e_props);
hide(written);
hide(wlist_ok);
let ghost b0 = self.buf@;
let ghost l0 = pvs($1@);
let ghost mut ps = Seq::<(u8, PV)>::empty();
let ghost mut q = Seq::<(u8, PV)>::empty();
proof { reveal(e_props); lemma_wr_start(l0); assert(b0 + e_props(ps) =~= b0); }
@loop 0 it
invariant
    it.seq() == $1@, l0 == pvs($1@), b0 == old(self).buf@,
    self.buf@ == b0 + e_props(ps),
    wr_inv(l0, it.index@ as int, ps),
@loop_start 0
broadcast use lemma_sb_valid;
let ghost i = it.index@ as int;
let ghost bi = self.buf@;
proof { q = ps; assert(l0[i] == (prop.0, pv(prop.1))); lemma_wr_cur(l0, i, ps); }
@loop_end 0
proof {
    if l0[i].1 is UMap { ps = q; }
    else {
        lemma_wr_step(l0, i, ps);
        ps = ps.push(l0[i]);
        assert(self.buf@ =~= b0 + e_props(ps));
    }
}
@after_loop 0
proof { lemma_wr_end(l0, ps); }
@before_loop 1
broadcast use {lemma_wrm_start, lemma_wrm_fin};
let ghost mm = map@;
proof { assert(l0[i].1 == PV::UMap(umv(mm))); }
@loop 1 ia
invariant
    self.buf@ == b0 + e_props(q),
    ents(mm, ia.seq()),
    l0 == pvs($1@), b0 == old(self).buf@, code == 0x26,
    wrm_at(l0, i, mm, ia.seq(), ps, q, ia.index@ as int),
@loop_start 1
proof { reveal(wrm_at); }
let ghost es = ia.seq();
let ghost x = ia.index@ as int;
let ghost k0 = k;
let ghost v0 = v;
@loop 2 ja
invariant
    self.buf@ == b0 + e_props(q),
    ja.seq() == v0@, k == k0, l0 == pvs($1@), b0 == old(self).buf@, code == 0x26, 0 <= x < es.len(), es[x].1 == v0, es[x].0 == k0,
    wrm_inv(l0, i, mm, es, ps, q, x, ja.index@ as int),
@loop_start 2
let ghost y = ja.index@ as int;
proof {
    assert(es[x].1@[y]@ == val@);
    assert(es[x].0@ == k0@);
    lemma_wr_bad(l0, i, mm, es, ps, q, x, y);
}
@loop_end 2
proof {
    lemma_wrm_step(l0, i, mm, es, ps, q, x, y);
    q = q.push((0x26u8, PV::Pair(sb(k0@), sb(val@))));
    assert(self.buf@ =~= b0 + e_props(q));
}
@loop_end 1
proof { lemma_wrm_next(l0, i, mm, es, ps, q, x, v0@.len() as int); }
@after_loop 1
@before_loop 3
broadcast use {lemma_wrm_start, lemma_wrm_fin, lemma_ents_iter, group_hash_axioms, axiom_string_key};
let ghost mm = map@;
proof { assert(l0[i].1 == PV::UMap(umv(mm))); }
@loop 3 ib
invariant
    self.buf@ == b0 + e_props(q),
    ib.seq().no_duplicates(),
    forall|z: int| 0 <= z < ib.seq().len() ==> mm.contains_pair(*(#[trigger] ib.seq()[z]).0, *ib.seq()[z].1),
    forall|k: String| #[trigger] mm.contains_key(k) ==> exists|z: int| 0 <= z < ib.seq().len() && (#[trigger] ib.seq()[z]).0 == &k,
    ents(mm, esof(ib.seq())),
    l0 == pvs($1@), b0 == old(self).buf@, code == 0x26,
    wrm_at(l0, i, mm, esof(ib.seq()), ps, q, ib.index@ as int),
@loop_start 3
proof { reveal(wrm_at); }
let ghost es = esof(ib.seq());
let ghost x = ib.index@ as int;
let ghost k0 = k;
let ghost v0 = v;
@loop 4 jb
invariant
    self.buf@ == b0 + e_props(q),
    jb.seq().len() == v0@.len(), forall|z: int| 0 <= z < v0@.len() ==> *(#[trigger] jb.seq()[z]) == v0@[z], k == k0, l0 == pvs($1@), b0 == old(self).buf@, code == 0x26, 0 <= x < es.len(), es[x].1 == *v0, es[x].0 == *k0,
    wrm_inv(l0, i, mm, es, ps, q, x, jb.index@ as int),
@loop_start 4
let ghost y = jb.index@ as int;
proof {
    assert(es[x].1@[y]@ == val@);
    assert(es[x].0@ == k0@);
    lemma_wr_bad(l0, i, mm, es, ps, q, x, y);
}
@loop_end 4
proof {
    lemma_wrm_step(l0, i, mm, es, ps, q, x, y);
    q = q.push((0x26u8, PV::Pair(sb(k0@), sb(val@))));
    assert(self.buf@ =~= b0 + e_props(q));
}
@loop_end 3
proof { lemma_wrm_next(l0, i, mm, es, ps, q, x, v0@.len() as int); }
@after_loop 3
@loop 5
