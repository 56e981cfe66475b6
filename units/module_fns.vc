@@source llvm-mapper/src/map.rs
@@fn PartialMapCtx::use_strtab
@@spec
    ensures r == (match self.version { Some(v) => Ok::<bool, MapCtxError>(v >= 2), None => Err(MapCtxError::NoVersion) })
@@fn MapCtx::use_strtab
@@spec
    ensures r == (self.version >= 2)
@@fn PartialMapCtx::reify
@@spec
    ensures
        r.is_ok() == (self.version is Some && self.type_table is Some),
        r matches Ok(m) ==> {
            &&& self.version == Some(m.version)
            &&& *m.datalayout == self.datalayout
            &&& m.section_table@ == self.section_table@
            &&& m.gc_table@ == self.gc_table@
            &&& *m.strtab == self.strtab
            &&& *m.attribute_groups == self.attribute_groups
            &&& *m.attributes == self.attributes
            &&& self.type_table == Some(*m.type_table)
            &&& m.comdats@ == self.comdats@
        }
@@source llvm-mapper/src/record/comdat.rs
@@fn Comdat as PartialCtxMappable<Record>::try_map
@@params record ctx
@@spec
    ensures
        *final(ctx) == *old(ctx),
        r.is_ok() == comdat_ok(*record, old(ctx).strtab.0@, old(ctx).version),
        r matches Ok(c) ==> comdat_is(c, *record, old(ctx).strtab.0@)
@@start
    broadcast use axiom_string_of;
@@source llvm-mapper/src/record/alias.rs
@@fn Alias as CtxMappable<Record>::try_map
@@params record ctx
@@spec
    ensures r.is_ok() == alias_ok(*record, ctx.ms()), r matches Ok(a) ==> alias_is(a, *record, *ctx)
@@source llvm-mapper/src/record/function.rs
@@fn Function as CtxMappable<Record>::try_map
@@params record ctx
@@spec
    ensures r.is_ok() == function_ok(*record, ctx.ms()), r matches Ok(x) ==> function_is(x, *record, *ctx)
@@source llvm-mapper/src/record/datalayout.rs
@@fn DataLayout as PartialCtxMappable<Record>::try_map
@@params record ctx
@@spec
    ensures
        *final(ctx) == *old(ctx),
        !record_loose(*record) ==> r.is_ok() == (layout_of(*record) is Some),
        !record_loose(*record) ==> (r matches Ok(d) ==> layout_of(*record) == Some(d.dl())),
        r matches Ok(d) ==> d.wf()
@@start
    proof { lemma_text(record.0.fields@); }
@@source llvm-mapper/src/block/vst.rs
@@fn Vst as TryFrom<(&Block,ModuleStyleVst)>::try_from
@@spec
    ensures r.is_ok()
@@source llvm-mapper/src/block/function/mod.rs
@@fn Function as TryFrom<(&Block,&MapCtx)>::try_from
@@spec
    ensures r.is_err()
@@loop 0
    invariant vx_i0 <= vx_s0@.len()
    decreases vx_s0@.len() - vx_i0
@@source llvm-mapper/src/block/module.rs
@@fn Module as TryFrom<(&Block,&mutPartialMapCtx)>::try_from
@@params p
@@spec
    ensures
        final(p.1).strtab == old(p.1).strtab,
        !module_loose(*p.0) ==> r.is_ok() == module_ok(*p.0, old(p.1).c0()),
        r.is_ok() ==> tables_are(*final(p.1), *p.0, *old(p.1)),
        r matches Ok(m) ==> module_is(m, *p.0)
@@attr #[verifier::loop_isolation(false)] #[verifier::rlimit(120)] #[verifier::spinoff_prover]
@@start
    hide(function_ok); hide(alias_ok); hide(comdat_ok); hide(comdat_is); hide(function_is); hide(alias_is); hide(type_block); hide(table_is); hide(groups_of); hide(groups_are);
    hide(entry_fits); hide(entry_is); hide(dl_of); hide(text_loose); hide(split_s); hide(with_code); hide(funs); hide(sfuns); hide(tail_ok); hide(all_bytes); hide(bytes);
    broadcast use axiom_string_of;
    proof { lemma_texts(recs(*p.0, ModuleCode::Triple)); lemma_texts(recs(*p.0, ModuleCode::Asm)); lemma_tables(); }
@@loop 0
    invariant
        vx_i0 <= vx_s0@.len(), vals(vx_s0@) == recs(*p.0, ModuleCode::SectionName), vx_o0@.len() == vx_i0, texts_upto(vx_o0@, recs(*p.0, ModuleCode::SectionName), vx_i0 as int)
    decreases vx_s0@.len() - vx_i0
@@loopstart 0
    proof { assert(vals(vx_s0@)[vx_i0 as int] == *vx_s0@[vx_i0 as int]); lemma_text(vx_s0@[vx_i0 as int].0.fields@); }
@@loop 1
    invariant
        vx_i1 <= vx_s1@.len(), vals(vx_s1@) == recs(*p.0, ModuleCode::GcName), vx_o1@.len() == vx_i1, texts_upto(vx_o1@, recs(*p.0, ModuleCode::GcName), vx_i1 as int)
    decreases vx_s1@.len() - vx_i1
@@loopstart 1
    proof { assert(vals(vx_s1@)[vx_i1 as int] == *vx_s1@[vx_i1 as int]); lemma_text(vx_s1@[vx_i1 as int].0.fields@); }
@@loop 2
    invariant
        vx_i2 <= vx_s2@.len(), vals(vx_s2@) == recs(*p.0, ModuleCode::Comdat), vx_o2@.len() == vx_i2, comdats_upto(vx_o2@, recs(*p.0, ModuleCode::Comdat), old(p.1).strtab.0@, vx_i2 as int), tables_pre(*ctx, *p.0, *old(p.1)), comdats_ok_upto(recs(*p.0, ModuleCode::Comdat), old(p.1).strtab.0@, version_of(*p.0), vx_i2 as int)
    decreases vx_s2@.len() - vx_i2
@@loopstart 2
    proof { assert(vals(vx_s2@)[vx_i2 as int] == *vx_s2@[vx_i2 as int]); }
@@loop 3
    invariant
        vx_i3 <= vx_s3@.len(), vx_o3@.len() == vx_i3, lines_upto(vx_o3@, strs(vx_s3@), vx_i3 as int)
    decreases vx_s3@.len() - vx_i3
@@loop 4
    invariant
        vx_i4 <= vx_s4@.len(), vals(vx_s4@) == recs(*p.0, ModuleCode::DepLib), vx_o4@.len() == vx_i4, texts_upto(vx_o4@, recs(*p.0, ModuleCode::DepLib), vx_i4 as int)
    decreases vx_s4@.len() - vx_i4
@@loopstart 4
    proof { assert(vals(vx_s4@)[vx_i4 as int] == *vx_s4@[vx_i4 as int]); lemma_text(vx_s4@[vx_i4 as int].0.fields@); }
@@loop 5
    invariant
        vx_i5 <= vx_s5@.len(), vals(vx_s5@) == recs(*p.0, ModuleCode::Function), functions_upto(recs(*p.0, ModuleCode::Function), module_ms(*p.0, old(p.1).c0()), vx_i5 as int)
    decreases vx_s5@.len() - vx_i5
@@loopstart 5
    proof { assert(vals(vx_s5@)[vx_i5 as int] == *vx_s5@[vx_i5 as int]); }
@@loop 6
    invariant
        vx_i6 <= vx_s6@.len(), vals(vx_s6@) == subs(*p.0, IrBlockId::Function), vx_i6 == 0
    decreases vx_s6@.len() - vx_i6
@@loopstart 6
    proof { assert(vals(vx_s6@)[vx_i6 as int] == *vx_s6@[vx_i6 as int]); }
@@loop 7
    invariant
        vx_i7 <= vx_s7@.len(), vals(vx_s7@) == recs(*p.0, ModuleCode::Alias), aliases_upto(recs(*p.0, ModuleCode::Alias), module_ms(*p.0, old(p.1).c0()), vx_i7 as int)
    decreases vx_s7@.len() - vx_i7
@@loopstart 7
    proof { assert(vals(vx_s7@)[vx_i7 as int] == *vx_s7@[vx_i7 as int]); }
