@@source llvm-bitstream/src/parser.rs Error=StreamError Record=BsRecord Block=BsBlock
@@fn StreamEntry::as_block
@@params self
@@spec
    ensures r == (match self { StreamEntry::SubBlock(b) => Some(b), _ => None })
@@source llvm-mapper/src/block/strtab.rs
@@derives Strtab Default
@@source llvm-mapper/src/block/attributes.rs
@@derives Attributes Default
@@derives AttributeGroups Default
@@source llvm-mapper/src/unroll.rs
@@fn Block::new
@@params id
@@spec
    ensures r.id == bid(id), r.records.0@.len() == 0, r.blocks.0.m() == Map::<BlockId, Vec<Block>>::empty()
@@fn enter_block
@@params bitstream block depth
@@local top Block::new(
@@attr #[verifier::spinoff_prover]
@@spec
    requires old(bitstream).parser.wf()
    ensures
        final(bitstream).parser.wf(), final(bitstream).parser.same(&old(bitstream).parser), final(bitstream).magic == old(bitstream).magic,
        match block_at(old(bitstream).parser.d(), old(bitstream).parser.len(), old(bitstream).parser.v(), block.block_id, depth as nat) {
            TreeV::Tree(t, p) => r.is_ok() && block_is(r->Ok_0, t) && final(bitstream).parser.v() == p && p.pos > old(bitstream).parser.v().pos,
            TreeV::Fail => r.is_err(),
        }
    decreases 256 - depth
@@start
    hide(crate::next);
    let ghost mut vx_acc: Seq<Item> = Seq::empty();
    let ghost vx_v = bitstream.parser.v();
    let ghost vx_n = bitstream.parser.len();
    proof { lemma_parts_empty(); }
@@loop 0
    invariant_except_break
        tree_at(old(bitstream).parser.d(), vx_n, vx_v, block.block_id, depth as nat, Seq::empty())
            == tree_at(old(bitstream).parser.d(), vx_n, bitstream.parser.v(), block.block_id, depth as nat, vx_acc),
    invariant
        bitstream.parser.wf(), bitstream.parser.same(&old(bitstream).parser), bitstream.magic == old(bitstream).magic,
        depth < 256, vx_v == old(bitstream).parser.v(), vx_n == old(bitstream).parser.len(),
        bitstream.parser.v().pos >= vx_v.pos,
        top.id == bid(block.block_id), parts_are(top.records.0@, top.blocks, vx_acc),
    ensures
        tree_at(old(bitstream).parser.d(), vx_n, vx_v, block.block_id, depth as nat, Seq::empty())
            == TreeV::Tree(Tree { id: block.block_id, items: vx_acc }, bitstream.parser.v()),
        bitstream.parser.v().pos > vx_v.pos,
    decreases 8 * vx_n - bitstream.parser.v().pos
@@loopstart 0
    let ghost vx_s = bitstream.parser.v();
    let ghost vx_r = top.records.0@;
    let ghost vx_b = top.blocks;
@@loopend 0
    proof {
        match crate::next(bitstream.parser.d(), bitstream.parser.len(), vx_s) {
            NextV::Entry(EntryV::Rec { abbrev, code, fields }, n) => {
                let x = Item::Rec { abbrev, code, fields };
                lemma_push_rec(vx_r, vx_b, vx_acc, top.records.0@.last(), x);
                assert(top.records.0@ =~= vx_r.push(top.records.0@.last()));
                vx_acc = vx_acc.push(x);
            },
            NextV::Entry(EntryV::Sub { id, .. }, n) => {
                let t = tree_at(bitstream.parser.d(), bitstream.parser.len(), n, id, (depth + 1) as nat, Seq::empty())->Tree_0;
                lemma_push_sub(vx_r, vx_b, top.blocks, vx_acc, with_id(top.blocks, bid(t.id)).last(), t);
                vx_acc = vx_acc.push(Item::Sub(t));
            },
            _ => {},
        }
    }
@@fn PartialBitcodeModule::new
@@params identification
@@spec
    ensures r.identification == identification, r.module is None, r.strtab is None, r.symtab is None
@@fn PartialBitcodeModule::reify
@@params self
@@spec
    ensures
        r.is_ok() ==> frame_ok(self),
        !partial_loose(self) ==> r.is_ok() == partial_ok(self),
        r matches Ok(m) ==> bm_is(m, self)
@@fn Bitcode as TryFrom<Bitstream<T>>::try_from
@@as try_from_stream
@@params bitstream
@@local vx_pm Vec::new(
@@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@@spec
    requires bitstream.parser.wf()
    ensures bitcode_at(r, bitstream.parser.d(), bitstream.parser.len(), bitstream.parser.v())
@@start
    hide(pms_are); hide(add_top); hide(pm_is); hide(crate::next); hide(bitcode_at); hide(block_at); hide(frame_ok); hide(partial_ok); hide(bm_is); hide(module_ok); hide(module_loose); hide(parts_are); hide(fill_strtab); hide(fill_symtab); hide(bid);
    let ghost mut vx_acc: Seq<PM> = Seq::empty();
    let ghost vx_d = bitstream.parser.d();
    let ghost vx_n = bitstream.parser.len();
    let ghost vx_v = bitstream.parser.v();
    proof { lemma_bids(); lemma_none_yet(); lemma_no_answer(vx_d, vx_n, vx_v); }
@@loop 0
    invariant_except_break
        tops(vx_d, vx_n, vx_v, Seq::empty()) == tops(vx_d, vx_n, bitstream.parser.v(), vx_acc),
    invariant
        bitstream.parser.wf(), bitstream.parser.d() == vx_d, bitstream.parser.len() == vx_n,
        pms_are(vx_pm@, vx_acc),
    ensures
        tops(vx_d, vx_n, vx_v, Seq::empty()) == Some(vx_acc),
    decreases 8 * vx_n - bitstream.parser.v().pos
@@loopstart 0
    let ghost vx_s = bitstream.parser.v();
    let ghost vx_p = vx_pm@;
    let ghost vx_e = crate::next(vx_d, vx_n, vx_s);
    let ghost vx_t = block_at(vx_d, vx_n, vx_e->Entry_1, vx_e->Entry_0->Sub_id, 0)->Tree_0;
    proof { lemma_bids(); lemma_filled(vx_p, vx_acc, vx_t); lemma_added(vx_p, vx_acc, vx_t); }
@@loopend 0
    proof {
        let a = add_top(vx_acc, vx_t)->Some_0;
        assert(vx_t.id == 23 || vx_t.id == 25 ==> pms_are(vx_pm@, a));
        if vx_t.id == 13 { assert(vx_pm@.drop_last() =~= vx_p); assert(pushed_ident(vx_p, vx_pm@, vx_t)); }
        if vx_t.id == 8 { assert(vx_pm@.drop_last() =~= vx_p.drop_last()); assert(put_module(vx_p, vx_pm@, vx_t)); }
        assert(pms_are(vx_pm@, a));
        vx_acc = a;
    }
@@loop 1
    invariant
        vx_t.id == 23 || vx_t.id == 25, filled(vx_p, vx_pm@, vx_t, vx_i1 as int),
    ensures
        pms_are(vx_pm@, add_top(vx_acc, vx_t)->Some_0)
    decreases vx_i1
@@loopexit 1
    proof { assert(filled(vx_p, vx_pm@, vx_t, vx_i1 as int) || filled(vx_p, vx_pm@, vx_t, vx_i1 + 1)); }
@@loop 2
    invariant
        vx_t.id == 23 || vx_t.id == 25, filled(vx_p, vx_pm@, vx_t, vx_i2 as int),
    ensures
        pms_are(vx_pm@, add_top(vx_acc, vx_t)->Some_0)
    decreases vx_i2
@@loopexit 2
    proof { assert(filled(vx_p, vx_pm@, vx_t, vx_i2 as int) || filled(vx_p, vx_pm@, vx_t, vx_i2 + 1)); }
@@loop 3
    invariant
        vx_o3@.len() + vx_s3@.len() == vx_pm@.len(), vx_s3@ == vx_pm@.skip(vx_o3@.len() as int),
        partials_upto(vx_pm@, vx_o3@.len() as int), bms_upto(vx_o3@, vx_pm@, vx_o3@.len() as int),
    decreases vx_s3@.len()
@@loopstart 3
    proof {
        assert(tops(vx_d, vx_n, vx_v, Seq::empty()) == Some(vx_acc));
        assert(pms_are(vx_pm@, vx_acc));
        assert(vx_s3@[0] == vx_pm@[vx_o3@.len() as int]);
    }
@@loopend 3
    proof {
        assert(bm_is(vx_o3@.last(), vx_pm@[vx_o3@.len() - 1]));
        assert(bms_upto(vx_o3@, vx_pm@, vx_o3@.len() as int));
    }
@@onret
    proof { if tops(vx_d, vx_n, vx_v, Seq::empty()) == Some(vx_acc) && pms_are(vx_pm@, vx_acc) { lemma_answer(vx_d, vx_n, vx_v, vx_acc, vx_pm@); } }
@@fn Bitcode as TryFrom<&[u8]>::try_from
@@params buf
@@spec
    ensures
        buf@.len() < 4 ==> r.is_err(),
        buf@.len() >= 4 && rd(buf@, 0, 32) != 0x0b17c0de ==> (if raw_ok(buf@) { bitcode_at(r, buf@, buf@.len() as int, PV { pos: 32, scopes: seq![ScopeV::Initial], bi: Map::empty() }) } else { r.is_err() }),
        buf@.len() >= 4 && rd(buf@, 0, 32) == 0x0b17c0de ==> (if wrapped_ok(buf@) {
            bitcode_at(r, buf@, hw(buf@, 2) as int + hw(buf@, 3), PV { pos: 8 * (hw(buf@, 2) as int) + 32, scopes: seq![ScopeV::Initial], bi: Map::empty() })
        } else { r.is_err() })
