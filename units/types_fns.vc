@@source llvm-mapper/src/block/type_table.rs
@@fn TypeRef as From<usize>::from
@@params value
@@spec
    ensures r.0 == value
@@fn TypeRef as From<u64>::from
@@as from_u64
@@params value
@@spec
    ensures r.0 == value as usize
@@fn PartialTypeTable::new
@@params numentries
@@spec
    ensures r.numentries == numentries, r.inner@ == Seq::<PartialType>::empty()
@@fn PartialTypeTable::add
@@params self ty
@@spec
    ensures final(self).numentries == old(self).numentries, final(self).inner@ == old(self).inner@.push(ty)
@@fn PartialTypeTable::get
@@params self ty_ref
@@spec
    ensures r.is_ok() == (ty_ref.0 < self.inner@.len()), r matches Ok(x) ==> *x == self.inner@[ty_ref.0 as int]
@@fn PartialTypeTable::resolve
@@params self ty_ref depth
@@spec
    ensures r.is_ok() == ref_ok(tv(self.inner@), ty_ref.0 as int, depth as nat),
        r matches Ok(x) ==> ref_is(x, tv(self.inner@), ty_ref.0 as int, depth as nat)
    decreases depth, 0int
@@fn PartialType::resolve
@@params self partials depth
@@spec
    ensures r.is_ok() == ok(tv(partials.inner@), pst(*self), depth as nat),
        r matches Ok(x) ==> is_ty(x, tv(partials.inner@), pst(*self), depth as nat)
    decreases depth, 1int
@@start
    assert forall|x: Type, r: int| #[trigger] ref_is(x, tv(partials.inner@), r, depth as nat) implies kinds_agree(x, tv(partials.inner@)[r]) by { lemma_ref(x, tv(partials.inner@), r, depth as nat); }
    assert forall|x: Seq<Type>, rs: Seq<int>| #[trigger] refs_are(x, tv(partials.inner@), rs, depth as nat) implies t_struct_ok(x) == struct_els(tv(partials.inner@), rs) && t_params_ok(x) == arguments(tv(partials.inner@), rs) by { lemma_kinds(x, tv(partials.inner@), rs, depth as nat); }
@@loop 0
    invariant
        vx_i0 <= vx_s0@.len(), vx_o0@.len() == vx_i0, *self matches PartialType::Function(f) && vx_s0@ == f.param_types@ && pst(*self) == ST::Fun(f.return_type.0 as int, refs(f.param_types@), f.is_vararg),
        forall|i: int| 0 <= i < vx_i0 ==> ref_ok(tv(partials.inner@), #[trigger] refs(vx_s0@)[i], depth as nat),
        forall|i: int| 0 <= i < vx_i0 ==> ref_is(#[trigger] vx_o0@[i], tv(partials.inner@), refs(vx_s0@)[i], depth as nat),
        vx_i0 == vx_s0@.len() ==> refs_are(vx_o0@, tv(partials.inner@), refs(vx_s0@), depth as nat) && refs_ok(tv(partials.inner@), refs(vx_s0@), depth as nat),
    decreases vx_s0@.len() - vx_i0
@@loopstart 0
    assert(refs(vx_s0@)[vx_i0 as int] == vx_s0@[vx_i0 as int].0);
@@loop 1
    invariant
        vx_i1 <= vx_s1@.len(), vx_o1@.len() == vx_i1, *self matches PartialType::Struct(f) && vx_s1@ == f.field_types@ && pst(*self) == ST::Struct(name_of(f.name), refs(f.field_types@), f.is_packed),
        forall|i: int| 0 <= i < vx_i1 ==> ref_ok(tv(partials.inner@), #[trigger] refs(vx_s1@)[i], depth as nat),
        forall|i: int| 0 <= i < vx_i1 ==> ref_is(#[trigger] vx_o1@[i], tv(partials.inner@), refs(vx_s1@)[i], depth as nat),
        vx_i1 == vx_s1@.len() ==> refs_are(vx_o1@, tv(partials.inner@), refs(vx_s1@), depth as nat) && refs_ok(tv(partials.inner@), refs(vx_s1@), depth as nat),
    decreases vx_s1@.len() - vx_i1
@@loopstart 1
    assert(refs(vx_s1@)[vx_i1 as int] == vx_s1@[vx_i1 as int].0);
@@fn PartialTypeTable::reify
@@params self
@@spec
    ensures
        r.is_ok() == (self.inner@.len() == self.numentries && forall|i: int| 0 <= i < self.inner@.len() ==> ok(tv(self.inner@), #[trigger] tv(self.inner@)[i], max_depth())),
        r matches Ok(x) ==> table_is(x, tv(self.inner@))
@@loop 0
    invariant
        vx_i0 <= vx_s0@.len(), vx_s0@ == self.inner@, self.inner@.len() == self.numentries, vx_o0@.len() == vx_i0,
        forall|i: int| 0 <= i < vx_i0 ==> ok(tv(self.inner@), #[trigger] tv(self.inner@)[i], max_depth()),
        forall|i: int| 0 <= i < vx_i0 ==> is_ty(#[trigger] vx_o0@[i], tv(self.inner@), tv(self.inner@)[i], max_depth()),
    decreases vx_s0@.len() - vx_i0
@@loopstart 0
    assert(tv(self.inner@)[vx_i0 as int] == pst(vx_s0@[vx_i0 as int]));
@@fn TypeTable::get
@@params self ty_ref
@@spec
    ensures r is Some == (VxInto::<TypeRef>::vx_ispec(ty_ref).0 < self.0@.len()), r matches Some(x) ==> *x == self.0@[VxInto::<TypeRef>::vx_ispec(ty_ref).0 as int]
@@fn TypeTable as TryFrom<&Block>::try_from
@@params block
@@attr #[verifier::spinoff_prover]
@@spec
    ensures r.is_ok() == (type_block(*block) is Some), r matches Ok(x) ==> table_is(x, type_block(*block)->Some_0)
@@start
    assert(block.records.0@.take(0) =~= Seq::<Record>::empty());
    proof { lemma_tv(Seq::<PartialType>::empty()); }
    assert(block.records.0@.take(block.records.0@.len() as int) =~= block.records.0@);
@@loop 0
    invariant
        vx_i0 <= vx_s0@.len(), vx_s0@ == block.records.0@, partial_types.numentries == numentries,
        num_entries(*block) == Some(numentries as u64),
        table_of(vx_s0@.take(vx_i0 as int)) == Some(TState { ts: tv(partial_types.inner@), name: last_type_name@ }),
    decreases vx_s0@.len() - vx_i0
@@loopstart 0
    proof { lemma_table_take(vx_s0@, vx_i0 as int); lemma_table_take(vx_s0@, vx_i0 + 1); lemma_tv(partial_types.inner@); }
    let ghost vx_g0 = partial_types.inner@;
    let ghost vx_n0 = last_type_name@;
    assert(vx_s0@[vx_i0 as int].0.fields@.skip(0) =~= vx_s0@[vx_i0 as int].0.fields@);
    proof { lemma_skip(vx_s0@[vx_i0 as int].0.fields@); lemma_decode(vx_s0@[vx_i0 as int].0.fields@); }
@@loop 1
    invariant
        vx_i1 <= vx_s1@.len(), vx_s1@ == record.0.fields@.skip(1), refs(vx_o1@) == ints(vx_s1@.take(vx_i1 as int))
    decreases vx_s1@.len() - vx_i1
@@loopstart 1
    let ghost vx_h1 = vx_o1@;
    proof { lemma_ints(vx_s1@, vx_i1 as int, vx_o1@); }
@@loop 2
    invariant
        vx_i2 <= vx_s2@.len(), vx_s2@ == record.0.fields@.skip(1), refs(vx_o2@) == ints(vx_s2@.take(vx_i2 as int))
    decreases vx_s2@.len() - vx_i2
@@loopstart 2
    let ghost vx_h2 = vx_o2@;
    proof { lemma_ints(vx_s2@, vx_i2 as int, vx_o2@); }
@@loop 3
    invariant
        vx_i3 <= vx_s3@.len(), vx_s3@ == record.0.fields@.skip(2), refs(vx_o3@) == ints(vx_s3@.take(vx_i3 as int))
    decreases vx_s3@.len() - vx_i3
@@loopstart 3
    let ghost vx_h3 = vx_o3@;
    proof { lemma_ints(vx_s3@, vx_i3 as int, vx_o3@); }
