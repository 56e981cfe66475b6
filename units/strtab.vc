@@source llvm-mapper/src/map.rs
@@type MapCtxError
@@type MapError
@@errfrom MapError
@@source llvm-support/src/lib.rs
@@type StrtabRef
@@source llvm-mapper/src/block/strtab.rs
@@type StrtabError
@@errfrom StrtabError
@@type Strtab
@@derives Strtab Default
@@source llvm-mapper/src/block/symtab.rs
@@type SymtabError
@@errfrom SymtabError
@@type Symtab
@@source llvm-mapper/src/block/identification.rs
@@type IdentificationError
@@errfrom IdentificationError
@@type Identification
@@verbatim
impl VxFrom<(u64, u64)> for StrtabRef {
    open spec fn vx_spec(a: (u64, u64)) -> StrtabRef { StrtabRef { offset: a.0 as usize, size: a.1 as usize } }
    fn vx_conv(a: (u64, u64)) -> (r: StrtabRef) { StrtabRef::from_u64(a) }
}
impl VxFrom<(usize, usize)> for StrtabRef {
    open spec fn vx_spec(a: (usize, usize)) -> StrtabRef { StrtabRef { offset: a.0, size: a.1 } }
    fn vx_conv(a: (usize, usize)) -> (r: StrtabRef) { StrtabRef::from(a) }
}
/// whether the referenced bytes are wholly inside the table and are a string
pub open spec fn sref_ok(t: Seq<u8>, off: int, size: int) -> bool {
    size > 0 && 0 <= off && off + size <= t.len() && valid_utf8(t.subrange(off, off + size))
}
/// the first record with a code, if any
pub open spec fn first_code(b: Block, c: u64) -> Option<Record> {
    let m = with_code(b.records.0@, c);
    if m.len() > 0 { Some(m[0]) } else { None }
}
pub open spec fn blob_of(r: Option<Record>) -> Option<Seq<u8>> {
    match r { Some(x) => if tail_ok(x.0.fields@, 0) { Some(bytes(x.0.fields@)) } else { None }, None => None }
}
pub open spec fn string_ok(r: Option<Record>) -> bool { blob_of(r) matches Some(b) && valid_utf8(b) }
@@end
@@source llvm-support/src/lib.rs
@@fn StrtabRef as From<(usize,usize)>::from
@@params value
@@spec
    ensures r.offset == value.0, r.size == value.1
@@fn StrtabRef as From<(u64,u64)>::from
@@as from_u64
@@params value
@@spec
    ensures r.offset == value.0 as usize, r.size == value.1 as usize
@@source llvm-mapper/src/block/strtab.rs
@@fn Strtab as AsRef<[u8]>::as_ref
@@spec
    ensures r@ == self.0@
@@fn Strtab as TryFrom<&Block>::try_from
@@params block
@@spec
    ensures
        r.is_ok() == (blob_of(first_code(*block, 1)) is Some),
        r matches Ok(t) ==> blob_of(first_code(*block, 1)) == Some(t.0@)
@@start
    assert forall|x: Record| #[trigger] x.0.fields@.skip(0) == x.0.fields@ by { assert(x.0.fields@.skip(0) =~= x.0.fields@); }
@@fn Strtab::get
@@params self sref
@@spec
    ensures
        r is Some == sref_ok(self.0@, sref.offset as int, sref.size as int),
        r matches Some(s) ==> encode_utf8(s@) == self.0@.subrange(sref.offset as int, sref.offset + sref.size)
@@fn Strtab::try_get
@@params self sref
@@spec
    ensures
        r.is_ok() == sref_ok(self.0@, sref.offset as int, sref.size as int),
        r matches Ok(s) ==> encode_utf8(s@) == self.0@.subrange(sref.offset as int, sref.offset + sref.size)
@@start
    assert(self.0@.len() == vstd::std_specs::vec::spec_vec_len(&self.0));
@@fn Strtab::read_name
@@params self record
@@spec
    requires record.0.fields@.len() >= 2
    ensures
        r.is_ok() == sref_ok(self.0@, record.0.fields@[0] as int, record.0.fields@[1] as int),
        r matches Ok(s) ==> encode_utf8(s@) == self.0@.subrange(record.0.fields@[0] as int, record.0.fields@[0] + record.0.fields@[1])
@@source llvm-mapper/src/block/symtab.rs
@@fn Symtab as AsRef<[u8]>::as_ref
@@spec
    ensures r@ == self.0@
@@fn Symtab as TryFrom<&Block>::try_from
@@params block
@@spec
    ensures
        r.is_ok() == (blob_of(first_code(*block, 1)) is Some),
        r matches Ok(t) ==> blob_of(first_code(*block, 1)) == Some(t.0@)
@@start
    assert forall|x: Record| #[trigger] x.0.fields@.skip(0) == x.0.fields@ by { assert(x.0.fields@.skip(0) =~= x.0.fields@); }
@@source llvm-mapper/src/block/identification.rs
@@fn Identification as TryFrom<&Block>::try_from
@@params block
@@spec
    ensures
        r.is_ok() == (string_ok(first_code(*block, 1)) && first_code(*block, 2) is Some && first_code(*block, 2)->Some_0.0.fields@.len() > 0),
        r matches Ok(t) ==> blob_of(first_code(*block, 1)) == Some(encode_utf8(t.producer@)) && t.epoch == first_code(*block, 2)->Some_0.0.fields@[0]
@@start
    assert forall|x: Record| #[trigger] x.0.fields@.skip(0) == x.0.fields@ by { assert(x.0.fields@.skip(0) =~= x.0.fields@); }
