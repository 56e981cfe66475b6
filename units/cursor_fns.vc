@@source llvm-bitcursor/src/lib.rs Error=CursorError
@@fn BitCursor::new
@@params inner
@@spec
    ensures r.wf(), r.data() == inner.vx_view(), r.len() == r.data().len(), r.pos() == 0, r.current_block == 0, r.bit_index == 0
@@start
    proof { reveal(BitCursor::block_ok); }
@@fn BitCursor::new_with_len
@@params inner byte_len
@@spec
    ensures
        r.is_ok() == (byte_len <= inner.vx_view().len()),
        r matches Ok(c) ==> c.wf() && c.data() == inner.vx_view() && c.len() == byte_len && c.pos() == 0
@@start
    proof { reveal(BitCursor::block_ok); }
@@fn BitCursor::byte_len
@@params self
@@spec
    requires self.wf()
    ensures r == self.len()
@@fn BitCursor::bit_len
@@params self
@@spec
    requires self.wf()
    ensures r == 8 * self.len()
@@fn BitCursor::tell_bit
@@params self
@@spec
    requires self.byte_pos < 0x1_0000_0000_0000, self.bit_index <= self.byte_pos * 8
    ensures r == self.pos()
@@fn BitCursor::tell_byte
@@params self
@@spec
    requires self.byte_pos < 0x1_0000_0000_0000, self.bit_index <= self.byte_pos * 8
    ensures r == self.pos() / 8
@@fn BitCursor::exhausted
@@params self
@@spec
    requires self.wf()
    ensures r == (self.pos() == 8 * self.len())
@@fn BitCursor::seek_bit
@@params self pos
@@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).same(old(self)),
        r.is_ok() == (pos <= 8 * old(self).len()),
        r.is_ok() ==> final(self).pos() == pos
@@start
    assert(!7usize == 0xffff_ffff_ffff_fff8usize) by (bit_vector);
    assert((pos / 8) & !7usize == (pos / 64) * 8) by (bit_vector);
    assert((pos / 8) & !((8usize - 1) as usize) == (pos / 64) * 8) by (bit_vector);
@@fn BitCursor::clear_block_state
@@params self
@@spec
    ensures final(self).current_block == 0, final(self).bit_index == 0, final(self).byte_pos == old(self).byte_pos,
        final(self).byte_len == old(self).byte_len, final(self).inner == old(self).inner, final(self).block_ok()
@@atend
    proof { reveal(BitCursor::block_ok); }
@@fn BitCursor::load_current_block
@@params self
@@attr #[verifier::loop_isolation(false)]
@@spec
    requires old(self).wf(), old(self).bit_index < 64
    ensures
        final(self).same(old(self)),
        r.is_ok() == (old(self).pos() / 8 < old(self).len()),
        r.is_err() ==> *final(self) == *old(self),
        r.is_ok() && old(self).byte_pos >= old(self).byte_len ==> final(self).wf() && final(self).pos() == old(self).byte_pos * 8,
        r.is_ok() && old(self).byte_pos < old(self).byte_len ==> {
            let n = if old(self).byte_len - old(self).byte_pos >= 8 { 8int } else { old(self).byte_len - old(self).byte_pos };
            &&& final(self).byte_pos == old(self).byte_pos + n
            &&& final(self).bit_index == 8 * n
            &&& final(self).block_ok()
        }
@@start
    proof { reveal(BitCursor::block_ok); }
@@loop 0
    invariant
        vx_i0 <= vx_s0.len(), vx_s0.len() <= 8,
        self.byte_len == old(self).byte_len, self.inner == old(self).inner, self.byte_pos == old(self).byte_pos, self.bit_index == 0,
        forall|i: int| 0 <= i < 64 ==> #[trigger] bit64(self.current_block, i) == (i < vx_i0 * 8 && (vx_s0@[i / 8] >> ((i % 8) as u8)) & 1 == 1),
    decreases vx_s0.len() - vx_i0
@@atend
    proof {
        let d = self.data();
        let bp = old(self).byte_pos as int;
        assert forall|i: int| 0 <= i < 64 implies #[trigger] bit64(self.current_block, i) == (i < self.bit_index && dbit(d, self.pos() + i)) by {
            assert((bp * 8 + i) / 8 == bp + i / 8);
            assert((bp * 8 + i) % 8 == i % 8);
        }
    }
@@fn BitCursor::read
@@params self nbits
@@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).same(old(self)),
        r.is_ok() == can_read(old(self).len(), old(self).pos(), nbits as int),
        r matches Ok(v) ==> v == rd(old(self).data(), old(self).pos(), nbits as nat) && final(self).pos() == old(self).pos() + nbits,
        r.is_err() ==> final(self).pos() >= old(self).pos(),
        (nbits == 0 || nbits >= 64) ==> *final(self) == *old(self)
@@start
    proof { reveal(BitCursor::block_ok); }
@@onret
    proof { if let Ok(v) = vx_ret { lemma_word_is_rd(v, old(self).data(), old(self).pos(), nbits as int); } }
@@fn BitCursor::read_as
@@params self nbits
@@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).same(old(self)),
        final(self).pos() >= old(self).pos(),
        ({
            let v = rd(old(self).data(), old(self).pos(), nbits as nat) as u64;
            &&& r.is_ok() == (can_read(old(self).len(), old(self).pos(), nbits as int) && Int::vx_fits(v))
            &&& r matches Ok(x) ==> x == Int::vx_of(v) && final(self).pos() == old(self).pos() + nbits
        })
@@fn BitCursor::read_exact
@@params self
@@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).same(old(self)),
        final(self).pos() >= old(self).pos(),
        ({
            let n = Int::vx_bits();
            let v = rd(old(self).data(), old(self).pos(), n) as u64;
            &&& r.is_ok() == (can_read(old(self).len(), old(self).pos(), n as int) && Int::vx_fits(v))
            &&& r matches Ok(x) ==> x == Int::vx_of(v) && final(self).pos() == old(self).pos() + n
        })
@@fn BitCursor::read_vbr
@@params self width
@@local result 0
@@local shift 0#2
@@optlocal block_mask 1u64<<|1<<
@@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).same(old(self)), final(self).pos() >= old(self).pos(),
        r.is_ok() == vbr_at(old(self).data(), old(self).len(), old(self).pos(), width as int).is_some(),
        r matches Ok(v) ==> vbr_at(old(self).data(), old(self).len(), old(self).pos(), width as int) == Some((v, final(self).pos()))
@@attr #[verifier::loop_isolation(false)]
@@loop 0
    invariant
        self.wf(), self.same(old(self)), self.pos() >= old(self).pos(),
        2 <= width <= 32, shift < 64,
        block_mask == 1u64 << ((width - 1) as u64),
        result < pow2(shift as nat),
        vbr(self.data(), self.len(), old(self).pos(), width as int, 0) == (match vbr(self.data(), self.len(), self.pos(), width as int, shift as int) {
            None => None, Some((v, e)) => Some(((result + v) as nat, e)) }),
    decreases 8 * self.len() - self.pos()
@@start
    broadcast use bc_group;
    proof { lemma2_to64(); }
@@loopstart 0
    let ghost vx_p = self.pos();
    let ghost vx_r = result;
    proof { lemma_rd_bound(self.data(), vx_p, width as nat); lemma_vbr_step(result, rd(self.data(), vx_p, width as nat), width as int, shift as int); }
@@fn BitCursor::read_svbr
@@params self width
@@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).same(old(self)), final(self).pos() >= old(self).pos(),
        ({
            let s = vbr_at(old(self).data(), old(self).len(), old(self).pos(), width as int);
            &&& r.is_ok() == s.is_some()
            &&& r matches Ok(v) ==> v == svbr_val(s.unwrap().0) && final(self).pos() == s.unwrap().1
        })
@@start
    broadcast use bc_group;
@@fn BitCursor::align32
@@params self
@@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).same(old(self)), final(self).pos() == align32_pos(old(self).len(), old(self).pos())
@@start
    proof { reveal(BitCursor::block_ok); }
@@fn BitCursor as Seek::seek
@@params self pos
@@start
    broadcast use {bb_neg_cast, lemma_no_block};
@@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).same(old(self)),
        ({
            let t = match pos { SeekFrom::Start(o) => o as int, SeekFrom::End(o) => old(self).len() + o, SeekFrom::Current(o) => old(self).pos() / 8 + o };
            &&& r.is_ok() == (0 <= t <= old(self).len() && !(pos matches SeekFrom::End(o) && o >= 0))
            &&& r matches Ok(v) ==> v == t && final(self).pos() == 8 * t
            &&& r.is_err() ==> *final(self) == *old(self)
        })
@@fn BitCursor as Seek::stream_position
@@params self
@@spec
    requires old(self).wf()
    ensures r.is_ok(), r->Ok_0 == old(self).pos() / 8, *final(self) == *old(self)
