@@source llvm-support/src/align.rs
@@fn Align::is_pow2
@@params value
@@spec
    ensures r == (value > 0 && value & ((value - 1) as u64) == 0)
@@fn Align::log2
@@params value
@@spec
    requires value > 0, value & ((value - 1) as u64) == 0
    ensures r < 64, value == 1u64 << r
@@onret
    proof {
        vstd::std_specs::bits::axiom_u64_leading_zeros(value);
        vstd::std_specs::bits::axiom_u64_trailing_zeros(value);
        let s = vx_ret as u64;
        if s < 64 && (value >> s) & 1u64 != 0u64 {
            assert(s < 64 && (value >> s) & 1u64 != 0u64 && value > 0 && value & ((value - 1) as u64) == 0 ==> value == 1u64 << s) by (bit_vector);
        }
        let t = vx_ret;
        assert(1u64 << t == 1u64 << (t as u64)) by (bit_vector);
    }
@@fn Align::from_shift
@@params shift
@@spec
    ensures r.is_ok() == (shift <= 63), r matches Ok(a) ==> a.0 == shift
@@fn Align::from_byte_align
@@params byte_align
@@spec
    ensures r.is_ok() == (bytes_align(byte_align as int) is Some), r matches Ok(a) ==> bytes_align(byte_align as int) == Some(a) && a.wf() && byte_align == pow2(a.0 as nat)
@@onret
    proof {
        match vx_ret {
            Ok(a) => { lemma_shl_pow2(a.0); lemma_bytes_align(byte_align as int, a.0); }
            Err(_) => { if exists|k: u8| pow2k(byte_align as int, k) { let k = choose|k: u8| pow2k(byte_align as int, k); lemma_pow2_and(byte_align, k); } }
        }
    }
@@fn Align::from_bit_align
@@params bit_align
@@spec
    ensures r.is_ok() == (bits_align(bit_align as int) is Some), r matches Ok(a) ==> bits_align(bit_align as int) == Some(a) && a.wf() && bit_align == 8 * pow2(a.0 as nat)
@@start
    proof { assert(bit_align & 7 == bit_align % 8) by (bit_vector); assert(bit_align >> 3 == bit_align / 8) by (bit_vector); }
@@fn Align::shift
@@params self
@@spec
    ensures r == self.0
@@fn Align::byte_align
@@params self
@@spec
    requires self.wf()
    ensures r == pow2(self.0 as nat)
@@start
    proof { lemma_shl_pow2(self.0); }
@@fn Align::bit_align
@@params self
@@spec
    requires self.wf()
    ensures r == (if self.0 <= 60 { 8 * pow2(self.0 as nat) as int } else { u64::MAX as int })
@@start
    proof {
        lemma_pow2_adds(3, self.0 as nat);
        lemma_pow2_pos(self.0 as nat);
        lemma2_to64();
        if self.0 < 61 { lemma_pow2_strictly_increases(3 + self.0 as nat, 64); } else if self.0 > 61 { lemma_pow2_strictly_increases(64, 3 + self.0 as nat); }
        lemma2_to64_rest();
    }
@@fn MaybeAlign as TryFrom<u8>::try_from
@@params value
@@spec
    ensures r.is_ok() == (value <= 64), r matches Ok(m) ==> m.0 == (if value == 0 { None } else { Some(Align((value - 1) as u8)) })
@@fn AlignedTypeWidth as TryFrom<u32>::try_from
@@params value
@@spec
    ensures r.is_ok() == (1 <= value <= 0x7f_ffff), r matches Ok(w) ==> w.0 == value
@@start
    assert((1u32 << 23) - 1 == 0x7f_ffff) by (bit_vector);
@@include space_fns.vc
@@source llvm-support/src/align.rs
@@fn AlignedType as PartialOrd::partial_cmp
@@as vx_partial_cmp
@@params self other
@@spec
    ensures r == Some(ord(tkey(*self), tkey(*other)))
@@fn AlignedType as Ord::cmp
@@params self other
@@spec
    ensures r == ord(tkey(*self), tkey(*other))
@@fn TypeAlignSpec as PartialEq::eq
@@as vx_eq
@@params self other
@@spec
    ensures r == (self.aligned_type == other.aligned_type)
@@fn TypeAlignSpec as PartialOrd::partial_cmp
@@as vx_partial_cmp
@@params self other
@@spec
    ensures r == Some(ord(tkey(self.aligned_type), tkey(other.aligned_type)))
@@fn TypeAlignSpec as Ord::cmp
@@params self other
@@spec
    ensures r == ord(tkey(self.aligned_type), tkey(other.aligned_type))
@@fn PointerAlignSpec as PartialOrd::partial_cmp
@@as vx_partial_cmp
@@params self other
@@spec
    ensures r == Some(ord(self.address_space.0 as int, other.address_space.0 as int))
@@fn PointerAlignSpec as Ord::cmp
@@params self other
@@spec
    ensures r == ord(self.address_space.0 as int, other.address_space.0 as int)
@@fn TypeAlignSpec::new
@@params aligned_type abi pref
@@spec
    ensures r.is_ok() == (mk_type(aligned_type, abi, pref) is Some), r matches Ok(t) ==> mk_type(aligned_type, abi, pref) == Some(t)
@@fn PointerAlignSpec::new
@@params address_space abi_alignment preferred_alignment pointer_size index_size
@@spec
    ensures r.is_ok() == (mk_ptr(address_space, abi_alignment, preferred_alignment, pointer_size, index_size) is Some),
        r matches Ok(t) ==> mk_ptr(address_space, abi_alignment, preferred_alignment, pointer_size, index_size) == Some(t)
@@fn TypeAlignSpec as FromStr::from_str
@@params value
@@attr #[verifier::spinoff_prover]
@@spec
    ensures
        r matches Ok(t) ==> t.wf() && t.aligned_type.wf() && ascii(value@) && value@.len() > 0,
        spec_parts(value@).len() <= 3 ==> r.is_ok() == (type_spec(value@) is Some),
        spec_parts(value@).len() <= 3 ==> (r matches Ok(t) ==> type_spec(value@) == Some(t))
@@fn PointerAlignSpec as Default::default
@@spec
    ensures r == (PointerAlignSpec { address_space: AddressSpace(0), abi_alignment: Align(3), preferred_alignment: Align(3), pointer_size: 64, index_size: 64 })
@@fn PointerAlignSpec as FromStr::from_str
@@params value
@@attr #[verifier::spinoff_prover]
@@spec
    ensures
        r matches Ok(t) ==> t.wf() && t.address_space.wf(),
        spec_parts(value@).len() <= 5 ==> r.is_ok() == (ptr_spec(value@) is Some),
        spec_parts(value@).len() <= 5 ==> (r matches Ok(t) ==> ptr_spec(value@) == Some(t))
@@fn TypeAlignSpecs as Default::default
@@spec
    ensures r.sorted(), r.0@ == type_defaults()
@@fn PointerAlignSpecs as Default::default
@@spec
    ensures r.sorted(), r.0@ == ptr_defaults()
@@fn TypeAlignSpecs::update
@@params self spec
@@spec
    requires old(self).sorted()
    ensures final(self).sorted(), final(self).0@ == type_upd(old(self).0@, spec),
        type_rel(old(self).0@, spec, final(self).0@)
@@loop 0
    invariant_except_break vx_o0 is None, forall|j: int| vx_i0 <= j < vx_s0@.len() ==> tkey(#[trigger] vx_s0@[j].aligned_type) > tkey(spec.aligned_type)
    invariant vx_i0 <= vx_s0@.len(), vx_s0@ == old(self).0@, *self == *old(self)
    ensures match vx_o0 { None => vx_i0 == 0, Some(p) => p == vx_i0 && p < vx_s0@.len() && tkey(vx_s0@[p as int].aligned_type) <= tkey(spec.aligned_type) },
        forall|j: int| (vx_o0 is Some && vx_i0 < j < vx_s0@.len()) || (vx_o0 is None && 0 <= j < vx_s0@.len()) ==> tkey(#[trigger] vx_s0@[j].aligned_type) > tkey(spec.aligned_type)
    decreases vx_i0
@@start
    broadcast use {type_ins, type_set};
@@atend
    proof { lemma_type_unique(old(self).0@, spec, self.0@); }
@@fn PointerAlignSpecs::update
@@params self spec
@@spec
    requires old(self).sorted()
    ensures final(self).sorted(), final(self).0@ == ptr_upd(old(self).0@, spec),
        ptr_rel(old(self).0@, spec, final(self).0@)
@@loop 0
    invariant_except_break vx_o0 is None, forall|j: int| vx_i0 <= j < vx_s0@.len() ==> (#[trigger] vx_s0@[j]).address_space.0 > spec.address_space.0
    invariant vx_i0 <= vx_s0@.len(), vx_s0@ == old(self).0@, *self == *old(self)
    ensures match vx_o0 { None => vx_i0 == 0, Some(p) => p == vx_i0 && p < vx_s0@.len() && vx_s0@[p as int].address_space.0 <= spec.address_space.0 },
        forall|j: int| (vx_o0 is Some && vx_i0 < j < vx_s0@.len()) || (vx_o0 is None && 0 <= j < vx_s0@.len()) ==> (#[trigger] vx_s0@[j]).address_space.0 > spec.address_space.0
    decreases vx_i0
@@start
    broadcast use {ptr_ins, ptr_set};
@@atend
    proof { lemma_ptr_unique(old(self).0@, spec, self.0@); }
@@verbatim
pub open spec fn tds(t: AlignedType, a: u8) -> TypeAlignSpec { TypeAlignSpec { aligned_type: t, abi_alignment: Align(a), preferred_alignment: Align(a) } }
/// the default type table
pub open spec fn type_defaults() -> Seq<TypeAlignSpec> {
    seq![tds(AlignedType::Aggregate, 3), tds(AlignedType::Float(AlignedTypeWidth(16)), 1), tds(AlignedType::Float(AlignedTypeWidth(32)), 2),
        tds(AlignedType::Float(AlignedTypeWidth(64)), 3), tds(AlignedType::Float(AlignedTypeWidth(128)), 4), tds(AlignedType::Integer(AlignedTypeWidth(1)), 0),
        tds(AlignedType::Integer(AlignedTypeWidth(8)), 0), tds(AlignedType::Integer(AlignedTypeWidth(16)), 1), tds(AlignedType::Integer(AlignedTypeWidth(32)), 2),
        tds(AlignedType::Integer(AlignedTypeWidth(64)), 3)]
}
pub open spec fn ptr_defaults() -> Seq<PointerAlignSpec> {
    seq![PointerAlignSpec { address_space: AddressSpace(0), abi_alignment: Align(3), preferred_alignment: Align(3), pointer_size: 64, index_size: 64 }]
}
@@end
