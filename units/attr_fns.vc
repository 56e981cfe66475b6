@@source llvm-mapper/src/map.rs
@@fn PartialMapCtx::attribute_groups
@@spec
    ensures *r == self.attribute_groups
@@source llvm-mapper/src/block/attributes.rs
@@fn EnumAttribute as TryFrom<AttributeId>::try_from
@@as from_id
@@params value
@@spec
    ensures r.is_ok() == enum_id(code_attribute_id(value)), r matches Ok(x) ==> code_enum_attribute(x) == code_attribute_id(value)
@@fn maybe_align
@@params value
@@spec
    ensures r.is_ok() == (value == 0 || bytes_align(value as int) is Some), r matches Ok(m) ==> m == align_of(value)
@@fn IntAttribute as TryFrom<(AttributeId,u64)>::try_from
@@params p
@@spec
    ensures r.is_ok() == int_ok(code_attribute_id(p.0), p.1), r matches Ok(x) ==> int_is(x, code_attribute_id(p.0), p.1)
@@start
    assert((p.1 >> 32) == p.1 / 0x1_0000_0000 && (p.1 >> 32) <= 0xffff_ffff && (p.1 as u32) == p.1 % 0x1_0000_0000) by { let v = p.1; assert((v >> 32) == v / 0x1_0000_0000 && (v >> 32) <= 0xffff_ffff && (v as u32) == v % 0x1_0000_0000) by (bit_vector); }
@@fn Attribute::from_record
@@params start record
@@attr #[verifier::spinoff_prover]
@@spec
    requires start < record.0.fields@.len()
    ensures
        r.is_ok() == (attr_at(record.0.fields@, start as int) is Some),
        r matches Ok(x) ==> attr_at(record.0.fields@, start as int) matches Some((j, a)) && start + x.0 == j && attr_is(x.1, a)
@@start
    proof {
        assert(record.0.fields@.len() == vstd::std_specs::vec::spec_vec_len(&record.0.fields));
        if record.0.fields@.len() > 0 {
            let f = record.0.fields@;
            lemma_str_scan(f, f.len() as int, 0);
            assert forall|p: int| 0 <= p <= f.len() implies all_bytes(#[trigger] f.subrange(p, p)) && bytes(f.subrange(p, p)) == Seq::<u8>::empty() by {
                assert(f.subrange(p, p) =~= Seq::<u64>::empty());
                assert(bytes(f.subrange(p, p)) =~= Seq::<u8>::empty());
            }
        }
    }
@@loop 0
    invariant
        vx_i0 <= vx_s0@.len(), start + fieldcount <= record.0.fields@.len(), vx_s0@ == record.0.fields@.subrange(start + fieldcount, record.0.fields@.len() as int),
        vx_o0@ == bytes(record.0.fields@.subrange(start + fieldcount, start + fieldcount + vx_i0)), all_bytes(record.0.fields@.subrange(start + fieldcount, start + fieldcount + vx_i0)),
        forall|j: int| start + fieldcount <= j < start + fieldcount + vx_i0 ==> #[trigger] record.0.fields@[j] != 0,
        vx_i0 == vx_s0@.len() ==> str_at(record.0.fields@, start + fieldcount) is None,
        str_at(record.0.fields@, start + fieldcount) is None ==> attr_at(record.0.fields@, start as int) is None,
    ensures
        vx_o0@.len() == vx_i0,
        str_at(record.0.fields@, start + fieldcount) == (if 0 < vx_i0 < vx_s0@.len() && valid_utf8(vx_o0@) { Some((start + fieldcount + vx_i0 + 1, vx_o0@)) } else { None }),
    decreases vx_s0@.len() - vx_i0
@@loopstart 0
    proof { lemma_str_scan(record.0.fields@, start + fieldcount, vx_i0 as int); }
@@loopend 0
    proof { lemma_str_scan(record.0.fields@, start + fieldcount, vx_i0 as int); }
@@loop 1
    invariant
        vx_i1 <= vx_s1@.len(), start + fieldcount <= record.0.fields@.len(), vx_s1@ == record.0.fields@.subrange(start + fieldcount, record.0.fields@.len() as int),
        vx_o1@ == bytes(record.0.fields@.subrange(start + fieldcount, start + fieldcount + vx_i1)), all_bytes(record.0.fields@.subrange(start + fieldcount, start + fieldcount + vx_i1)),
        forall|j: int| start + fieldcount <= j < start + fieldcount + vx_i1 ==> #[trigger] record.0.fields@[j] != 0,
        vx_i1 == vx_s1@.len() ==> str_at(record.0.fields@, start + fieldcount) is None,
        str_at(record.0.fields@, start + fieldcount) is None ==> attr_at(record.0.fields@, start as int) is None,
    ensures
        vx_o1@.len() == vx_i1,
        str_at(record.0.fields@, start + fieldcount) == (if 0 < vx_i1 < vx_s1@.len() && valid_utf8(vx_o1@) { Some((start + fieldcount + vx_i1 + 1, vx_o1@)) } else { None }),
    decreases vx_s1@.len() - vx_i1
@@loopstart 1
    proof { lemma_str_scan(record.0.fields@, start + fieldcount, vx_i1 as int); }
@@loopend 1
    proof { lemma_str_scan(record.0.fields@, start + fieldcount, vx_i1 as int); }
@@loop 2
    invariant
        vx_i2 <= vx_s2@.len(), start + fieldcount <= record.0.fields@.len(), vx_s2@ == record.0.fields@.subrange(start + fieldcount, record.0.fields@.len() as int),
        vx_o2@ == bytes(record.0.fields@.subrange(start + fieldcount, start + fieldcount + vx_i2)), all_bytes(record.0.fields@.subrange(start + fieldcount, start + fieldcount + vx_i2)),
        forall|j: int| start + fieldcount <= j < start + fieldcount + vx_i2 ==> #[trigger] record.0.fields@[j] != 0,
        vx_i2 == vx_s2@.len() ==> str_at(record.0.fields@, start + fieldcount) is None,
        str_at(record.0.fields@, start + fieldcount) is None ==> attr_at(record.0.fields@, start as int) is None,
    ensures
        vx_o2@.len() == vx_i2,
        str_at(record.0.fields@, start + fieldcount) == (if 0 < vx_i2 < vx_s2@.len() && valid_utf8(vx_o2@) { Some((start + fieldcount + vx_i2 + 1, vx_o2@)) } else { None }),
    decreases vx_s2@.len() - vx_i2
@@loopstart 2
    proof { lemma_str_scan(record.0.fields@, start + fieldcount, vx_i2 as int); }
@@loopend 2
    proof { lemma_str_scan(record.0.fields@, start + fieldcount, vx_i2 as int); }
@@fn Attributes::get
@@params self id
@@spec
    ensures r is Some == (id < self.0@.len()), r matches Some(x) ==> *x == self.0@[id as int]
@@fn Attributes as TryFrom<(&Block,&PartialMapCtx)>::try_from
@@attr #[verifier::loop_isolation(false)]
@@params p
@@spec
    ensures
        r.is_ok() == (forall|i: int| 0 <= i < p.0.records.0@.len() ==> entry_ok(#[trigger] p.0.records.0@[i], p.1.attribute_groups)),
        r matches Ok(x) ==> x.0@.len() == p.0.records.0@.len() && forall|i: int| 0 <= i < x.0@.len() ==> entry_is(#[trigger] x.0@[i], p.0.records.0@[i], p.1.attribute_groups)
@@loop 0
    invariant
        vx_i0 <= vx_s0@.len(), vx_s0@ == p.0.records.0@, vx_o0@.len() == vx_i0,
        forall|i: int| 0 <= i < vx_i0 ==> entry_ok(#[trigger] vx_s0@[i], p.1.attribute_groups),
        forall|i: int| 0 <= i < vx_i0 ==> entry_is(#[trigger] vx_o0@[i], vx_s0@[i], p.1.attribute_groups),
    decreases vx_s0@.len() - vx_i0
@@loop 1
    invariant
        0 < vx_i0 <= vx_s0@.len(), vx_s0@ == p.0.records.0@, vx_s0@[vx_i0 - 1].0.code == 2,
        vx_i1 <= vx_s1@.len(), vx_s1@ == vx_s0@[vx_i0 - 1].0.fields@, vx_o1@.len() == vx_i1,
        forall|i: int| 0 <= i < vx_i1 ==> (#[trigger] vx_s1@[i]) <= u32::MAX && p.1.attribute_groups.0@.dom().contains(vx_s1@[i] as u32),
        forall|i: int| 0 <= i < vx_i1 ==> same_group(#[trigger] vx_o1@[i], p.1.attribute_groups.0@[vx_s1@[i] as u32]),
    decreases vx_s1@.len() - vx_i1
@@fn AttributeGroupDisposition as From<u32>::from
@@params value
@@spec
    ensures r == disp_of(value as u64)
@@fn AttributeGroups::get
@@params self group_id
@@spec
    ensures r is Some == self.0@.dom().contains(group_id), r matches Some(x) ==> *x == self.0@[group_id]
@@fn AttributeGroups as TryFrom<&Block>::try_from
@@attr #[verifier::loop_isolation(false)] #[verifier::spinoff_prover]
@@params block
@@local groups HashMap::new
@@spec
    ensures
        r.is_ok() == (groups_of(block.records.0@) is Some),
        r matches Ok(x) ==> groups_are(x.0@, groups_of(block.records.0@)->Some_0)
@@loop 0
    invariant
        vx_i0 <= vx_s0@.len(), vx_s0@ == block.records.0@,
        groups_of(vx_s0@.take(vx_i0 as int)) matches Some(m) && groups_are(groups@, m),
    decreases vx_s0@.len() - vx_i0
@@loopstart 0
    proof { lemma_groups_take(vx_s0@, vx_i0 as int); lemma_groups_take(vx_s0@, vx_i0 + 1); }
@@loop 1
    invariant
        0 < vx_i0 <= vx_s0@.len(), at_attr(vx_s0@[vx_i0 - 1].0.fields@, vx_o1@, vx_i1 as int),
        vx_s0@ == block.records.0@, vx_s0@[vx_i0 - 1].0.fields@.len() >= 3,
        vx_s0@[vx_i0 - 1].0.fields@[0] <= u32::MAX && vx_s0@[vx_i0 - 1].0.fields@[1] <= u32::MAX && vx_s0@[vx_i0 - 1].0.code == 3,
        groups_of(vx_s0@.take(vx_i0 - 1)) matches Some(m) && groups_are(groups@, m),
        groups_of(vx_s0@.take(vx_i0 as int)) == (match (groups_of(vx_s0@.take(vx_i0 - 1)), group_of(vx_s0@[vx_i0 - 1])) { (Some(m), Some((id, g))) => Some(m.insert(id, g)), _ => None }),
        groups_of(vx_s0@.take(vx_i0 as int)) is None ==> groups_of(vx_s0@) is None,
        attrs_at(vx_s0@[vx_i0 - 1].0.fields@, 2) is None ==> group_of(vx_s0@[vx_i0 - 1]) is None,
        vx_i1 == vx_s0@[vx_i0 - 1].0.fields@.len() ==> (attrs_at(vx_s0@[vx_i0 - 1].0.fields@, 2) matches Some(s) && attrs_are(vx_o1@, s)),
    decreases vx_s0@[vx_i0 - 1].0.fields@.len() - vx_i1
@@loopstart 1
    proof { lemma_attr_step(vx_s0@[vx_i0 - 1].0.fields@, vx_o1@, vx_i1 as int); }
@@loopend 1
    proof { lemma_attr_step(vx_s0@[vx_i0 - 1].0.fields@, vx_o1@, vx_i1 as int); }
@@start
    assert(block.records.0@.take(0) =~= Seq::<Record>::empty());
    assert(block.records.0@.take(block.records.0@.len() as int) =~= block.records.0@);
    assert forall|f: Seq<u64>| 2 <= f.len() implies at_attr(f, #[trigger] no_attrs(f), 2) by { if let Some(s) = attrs_at(f, 2) { assert(Seq::<SAttr>::empty() + s =~= s); } }
