@@source llvm-support/src/lib.rs
@@source llvm-support/src/bitcodes.rs
@@type ReservedAbbrevId
@@type AbbrevOpEnc
@@type BlockInfoCode
@@type ReservedBlockId
@@enumtry ReservedAbbrevId
    ensures r.is_ok() == (vx_p < 4),
        r matches Ok(x) ==> (match x { ReservedAbbrevId::EndBlock => vx_p == 0, ReservedAbbrevId::EnterSubBlock => vx_p == 1,
            ReservedAbbrevId::DefineAbbrev => vx_p == 2, ReservedAbbrevId::UnabbrevRecord => vx_p == 3 })
@@enumtry AbbrevOpEnc
    ensures r.is_ok() == (1 <= vx_p <= 5),
        r matches Ok(x) ==> (match x { AbbrevOpEnc::Fixed => vx_p == 1, AbbrevOpEnc::Vbr => vx_p == 2,
            AbbrevOpEnc::Array => vx_p == 3, AbbrevOpEnc::Char6 => vx_p == 4, AbbrevOpEnc::Blob => vx_p == 5 })
@@enumtry BlockInfoCode
    ensures r.is_ok() == (1 <= vx_p <= 3),
        r matches Ok(x) ==> (match x { BlockInfoCode::SetBid => vx_p == 1, BlockInfoCode::BlockName => vx_p == 2,
            BlockInfoCode::SetRecordName => vx_p == 3 })
@@source llvm-bitstream/src/error.rs Error=StreamError
@@type Error
@@errfrom Error
@@source llvm-bitstream/src/record.rs Record=BsRecord Block=BsBlock
@@type Fields
@@type Record
@@type Block
@@source llvm-bitstream/src/abbrev.rs Error=StreamError Record=BsRecord Block=BsBlock
@@type AbbrevId
@@type AbbrevOp
@@type Abbrev
@@source llvm-bitstream/src/parser.rs Error=StreamError Record=BsRecord Block=BsBlock
@@type StreamEntry
@@type Scope
@@type StreamParser #[verifier::reject_recursive_types(T)]
@@source llvm-bitstream/src/lib.rs Error=StreamError Record=BsRecord Block=BsBlock
@@type BitcodeWrapper
@@type Bitstream #[verifier::reject_recursive_types(T)]
@@verbatim
// derive(Clone) of Abbrev (assumed: a clone holds equal operands)
impl Clone for Abbrev {
    #[verifier::external_body]
    fn clone(&self) -> (r: Abbrev) ensures r.operands@ == self.operands@ { unimplemented!() }
}
pub trait VxToVec: Sized { spec fn vx_copy_of(&self, o: &Self) -> bool; fn vx_to_vec(&self) -> (r: Self) ensures r.vx_copy_of(self); }
impl VxToVec for Vec<Abbrev> {
    open spec fn vx_copy_of(&self, o: &Self) -> bool { ops_of(self@) == ops_of(o@) }
    fn vx_to_vec(&self) -> (r: Vec<Abbrev>) {
        let mut v: Vec<Abbrev> = Vec::new();
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self.len(), v.len() == i, forall|j: int| 0 <= j < i ==> v@[j].operands@ == self@[j].operands@
            decreases self.len() - i
        { v.push(self[i].clone()); i += 1; }
        proof { assert(ops_of(v@) =~= ops_of(self@)); }
        v
    }
}
/// `[u64]::to_vec`
pub trait VxSliceVec { fn vx_to_vec(&self) -> (r: Vec<u64>) ensures r@ == self.vx_elems(); spec fn vx_elems(&self) -> Seq<u64>; }
impl VxSliceVec for [u64] {
    open spec fn vx_elems(&self) -> Seq<u64> { self@ }
    fn vx_to_vec(&self) -> (r: Vec<u64>) {
        let mut v: Vec<u64> = Vec::new();
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self.len(), v@ =~= self@.take(i as int)
            decreases self.len() - i
        { v.push(self[i]); i += 1; proof { assert(self@.take(i as int) =~= self@.take(i - 1).push(self@[i - 1])); } }
        v
    }
}
/// Vec::clone of definitions copies their operands (from vstd's elementwise specification)
pub broadcast proof fn vec_abbrev_clone(a: Vec<Abbrev>, b: Vec<Abbrev>)
    requires a.len() == b.len(), forall|i: int| #![all_triggers] 0 <= i < a.len() ==> cloned::<Abbrev>(a@[i], b@[i])
    ensures #[trigger] vstd::std_specs::vec::vec_clone_trigger(a, b) ==> ops_of(b@) == ops_of(a@)
{
    assert forall|i: int| 0 <= i < a.len() implies b@[i].operands@ == a@[i].operands@ by { assert(cloned::<Abbrev>(a@[i], b@[i])); }
    assert(ops_of(b@) =~= ops_of(a@));
}
impl VxFrom<u8> for u64 { open spec fn vx_spec(a: u8) -> u64 { a as u64 } fn vx_conv(a: u8) -> (r: u64) { a as u64 } }
impl VxFrom<u64> for AbbrevId {
    open spec fn vx_spec(a: u64) -> AbbrevId {
        if a == 0 { AbbrevId::Reserved(ReservedAbbrevId::EndBlock) } else if a == 1 { AbbrevId::Reserved(ReservedAbbrevId::EnterSubBlock) }
        else if a == 2 { AbbrevId::Reserved(ReservedAbbrevId::DefineAbbrev) } else if a == 3 { AbbrevId::Reserved(ReservedAbbrevId::UnabbrevRecord) }
        else { AbbrevId::Defined(a) }
    }
    fn vx_conv(a: u64) -> (r: AbbrevId) { AbbrevId::from(a) }
}

// ---------------------------------------------------------------- the format, as functions of (data, length, position)
pub type Ops = Seq<AbbrevOp>;
pub broadcast proof fn rd_1(d: Seq<u8>, p: int) ensures #[trigger] rd(d, p, 1) < 2 { lemma_rd_bound(d, p, 1); lemma2_to64(); }
pub broadcast proof fn rd_3(d: Seq<u8>, p: int) ensures #[trigger] rd(d, p, 3) < 8 { lemma_rd_bound(d, p, 3); lemma2_to64(); }
pub broadcast proof fn rd_6(d: Seq<u8>, p: int) ensures #[trigger] rd(d, p, 6) < 64 { lemma_rd_bound(d, p, 6); lemma2_to64(); }
pub broadcast proof fn rd_8(d: Seq<u8>, p: int) ensures #[trigger] rd(d, p, 8) < 256 { lemma_rd_bound(d, p, 8); lemma2_to64(); }
pub broadcast proof fn rd_32(d: Seq<u8>, p: int) ensures #[trigger] rd(d, p, 32) <= 0xffff_ffff { lemma_rd_bound(d, p, 32); lemma2_to64(); }
pub broadcast group rd_group { rd_1, rd_3, rd_6, rd_8, rd_32 }
pub open spec fn ops_of(v: Seq<Abbrev>) -> Seq<Ops> { v.map_values(|a: Abbrev| a.operands@) }

pub broadcast proof fn lemma_ops_cat(a: Seq<Abbrev>, b: Seq<Abbrev>)
    ensures #[trigger] ops_of(a + b) == ops_of(a) + ops_of(b)
{ assert(ops_of(a + b) =~= ops_of(a) + ops_of(b)); }
/// the six-bit character alphabet a-z A-Z 0-9 . _
pub open spec fn char6(v: nat) -> u64 {
    if v < 26 { (97 + v) as u64 } else if v < 52 { (65 + (v - 26)) as u64 } else if v < 62 { (48 + (v - 52)) as u64 } else if v == 62 { 46 } else { 95 }
}
/// acc, then the rest
pub open spec fn pre(acc: Seq<u64>, r: Option<(Seq<u64>, int)>) -> Option<(Seq<u64>, int)> {
    match r { None => None, Some((f, e)) => Some((acc + f, e)) }
}
pub proof fn lemma_pre_pre(a: Seq<u64>, b: Seq<u64>, r: Option<(Seq<u64>, int)>)
    ensures pre(a, pre(b, r)) == pre(a + b, r)
{ match r { None => {} Some((f, e)) => { assert(a + (b + f) =~= (a + b) + f); } } }
pub broadcast proof fn lemma_pre_one(a: Seq<u64>, v: u64, r: Option<(Seq<u64>, int)>)
    requires r is Some
    ensures #[trigger] pre(a, pre(seq![v], r)) == pre(a.push(v), r)
{ lemma_pre_pre(a, seq![v], r); assert(a + seq![v] =~= a.push(v)); }
pub broadcast proof fn lemma_pre_end(a: Seq<u64>, p: int)
    ensures #[trigger] pre(a, Some((Seq::<u64>::empty(), p))) == Some((a, p))
{ assert(a + Seq::<u64>::empty() =~= a); }
pub broadcast proof fn lemma_pre_start(r: Option<(Seq<u64>, int)>)
    ensures #[trigger] pre(Seq::<u64>::empty(), r) == r
{ match r { None => {} Some((f, e)) => { assert(Seq::<u64>::empty() + f =~= f); } } }
pub broadcast group pre_group { lemma_pre_one, lemma_pre_end, lemma_pre_start }
pub proof fn lemma_flat_push<T>(o: Seq<Vec<T>>, x: Vec<T>)
    ensures flat(o.push(x)) == flat(o) + x@
{ assert(o.push(x).drop_last() =~= o); }
pub open spec fn zero_width(o: AbbrevOp) -> bool {
    match o { AbbrevOp::Literal(_) => true, AbbrevOp::Vbr(w) => w == 0, AbbrevOp::Fixed(w) => w == 0, _ => false }
}
/// fields and end position of one operand at p
pub open spec fn op_fields(o: AbbrevOp, d: Seq<u8>, len: int, p: int) -> Option<(Seq<u64>, int)>
    decreases o, 0nat
{
    match o {
        AbbrevOp::Literal(v) => Some((seq![v], p)),
        AbbrevOp::Vbr(w) => if w == 0 { Some((seq![0u64], p)) } else {
            match vbr_at(d, len, p, w as int) { Some((v, e)) => Some((seq![v], e)), None => None } },
        AbbrevOp::Fixed(w) => if w == 0 { Some((seq![0u64], p)) } else if can_read(len, p, w as int) { Some((seq![rd(d, p, w as nat) as u64], p + w)) } else { None },
        AbbrevOp::Char6 => if can_read(len, p, 6) { Some((seq![char6(rd(d, p, 6))], p + 6)) } else { None },
        AbbrevOp::Array(e) => if zero_width(*e) { None } else {
            match vbr_at(d, len, p, 6) { None => None, Some((n, q)) => rep_fields(*e, d, len, q, n as nat) } },
        AbbrevOp::Blob => match vbr_at(d, len, p, 6) { None => None, Some((n, q)) =>
            match bytes_at(d, len, align32_pos(len, q), n as nat) { None => None, Some((f, e)) => Some((f, align32_pos(len, e))) } },
    }
}
pub open spec fn rep_fields(o: AbbrevOp, d: Seq<u8>, len: int, p: int, n: nat) -> Option<(Seq<u64>, int)>
    decreases o, n + 1
{
    if n == 0 { Some((Seq::empty(), p)) } else {
        match op_fields(o, d, len, p) { None => None, Some((f, q)) =>
            pre(f, rep_fields(o, d, len, q, (n - 1) as nat)) }
    }
}
pub open spec fn bytes_at(d: Seq<u8>, len: int, p: int, n: nat) -> Option<(Seq<u64>, int)>
    decreases n
{
    if n == 0 { Some((Seq::empty(), p)) } else if !can_read(len, p, 8) { None } else {
        pre(seq![rd(d, p, 8) as u64], bytes_at(d, len, p + 8, (n - 1) as nat))
    }
}
pub open spec fn vbrs_at(d: Seq<u8>, len: int, p: int, n: nat) -> Option<(Seq<u64>, int)>
    decreases n
{
    if n == 0 { Some((Seq::empty(), p)) } else {
        match vbr_at(d, len, p, 6) { None => None, Some((v, q)) =>
            pre(seq![v], vbrs_at(d, len, q, (n - 1) as nat)) }
    }
}
/// fields of operands i.. of a definition
pub open spec fn all_fields(o: Ops, i: int, d: Seq<u8>, len: int, p: int) -> Option<(Seq<u64>, int)>
    decreases o.len() - i
{
    if i < 0 || i >= o.len() { Some((Seq::empty(), p)) } else {
        match op_fields(o[i], d, len, p) { None => None, Some((f, q)) =>
            pre(f, all_fields(o, i + 1, d, len, q)) }
    }
}

/// scalar encodings with a width: (operand, end)
pub open spec fn scalar_enc(d: Seq<u8>, len: int, p: int, enc: nat) -> Option<(AbbrevOp, int)> {
    if enc == 1 { match vbr_at(d, len, p, 5) { Some((w, e)) => Some((AbbrevOp::Fixed(w), e)), None => None } }
    else if enc == 2 { match vbr_at(d, len, p, 5) { Some((w, e)) => Some((AbbrevOp::Vbr(w), e)), None => None } }
    else if enc == 4 { Some((AbbrevOp::Char6, p)) } else { None }
}
pub open spec fn pre_ops(acc: Ops, r: Option<(Ops, int)>) -> Option<(Ops, int)> {
    match r { None => None, Some((f, e)) => Some((acc + f, e)) }
}
pub proof fn lemma_pre_ops(a: Ops, o: AbbrevOp, r: Option<(Ops, int)>)
    ensures pre_ops(a, pre_ops(seq![o], r)) == pre_ops(a.push(o), r)
{ match r { None => {} Some((f, e)) => { assert(a + (seq![o] + f) =~= a.push(o) + f); } } }
pub broadcast proof fn lemma_pre_ops_end(a: Ops, p: int)
    ensures #[trigger] pre_ops(a, Some((Seq::<AbbrevOp>::empty(), p))) == Some((a, p))
{ assert(a + Seq::<AbbrevOp>::empty() =~= a); }
pub broadcast proof fn lemma_pre_ops_start(r: Option<(Ops, int)>)
    ensures #[trigger] pre_ops(Seq::<AbbrevOp>::empty(), r) == r
{ match r { None => {} Some((f, e)) => { assert(Seq::<AbbrevOp>::empty() + f =~= f); } } }
pub broadcast group pre_ops_group { lemma_pre_ops_end, lemma_pre_ops_start }
/// `left` operand entries of a definition at p: (operands, end)
pub open spec fn def_ops(d: Seq<u8>, len: int, p: int, left: nat) -> Option<(Ops, int)>
    decreases left
{
    if left == 0 { Some((Seq::empty(), p)) } else {
        match one_op(d, len, p, left) { None => None, Some((o, taken, q)) =>
            if taken > left { None } else { pre_ops(seq![o], def_ops(d, len, q, (left - taken) as nat)) } }
    }
}
pub broadcast proof fn def_ops_0(d: Seq<u8>, len: int, p: int) ensures #[trigger] def_ops(d, len, p, 0) == Some((Seq::<AbbrevOp>::empty(), p)) {}
/// one operand: (operand, entries of the definition it takes, end)
pub open spec fn one_op(d: Seq<u8>, len: int, p: int, left: nat) -> Option<(AbbrevOp, nat, int)> {
    if !can_read(len, p, 1) { None }
    else if rd(d, p, 1) == 1 { match vbr_at(d, len, p + 1, 8) { Some((v, e)) => Some((AbbrevOp::Literal(v), 1, e)), None => None } }
    else if !can_read(len, p + 1, 3) { None }
    else {
        let enc = rd(d, p + 1, 3);
        if enc == 3 {
            if left != 2 || !can_read(len, p + 4, 1) || rd(d, p + 4, 1) == 1 || !can_read(len, p + 5, 3) { None }
            else { match scalar_enc(d, len, p + 8, rd(d, p + 5, 3)) { Some((o, e)) => Some((AbbrevOp::Array(Box::new(o)), 2, e)), None => None } }
        } else if enc == 5 { if left != 1 { None } else { Some((AbbrevOp::Blob, 1, p + 4)) } }
        else { match scalar_enc(d, len, p + 4, enc) { Some((o, e)) => Some((o, 1, e)), None => None } }
    }
}
pub open spec fn def_at(d: Seq<u8>, len: int, p: int) -> Option<(Ops, int)> {
    match vbr_at(d, len, p, 5) { None => None, Some((n, q)) => if n == 0 { None } else { def_ops(d, len, q, n as nat) } }
}

// ---------------------------------------------------------------- parser: abstract state and step
pub enum ScopeV { Initial, Block { width: u64, id: u64, bi: Option<u64>, abbrevs: Seq<Ops> } }
pub struct PV { pub pos: int, pub scopes: Seq<ScopeV>, pub bi: Map<u64, Seq<Ops>> }
pub enum EntryV { End, Sub { id: u64, len: u64 }, Rec { abbrev: Option<u64>, code: u64, fields: Seq<u64> } }
pub enum StepV { Entry(EntryV, PV), Silent(PV), Fail }
pub enum NextV { Entry(EntryV, PV), Exhausted(PV), Fail }

pub open spec fn scope_width(s: ScopeV) -> u64 { match s { ScopeV::Initial => 2, ScopeV::Block { width, .. } => width } }
pub open spec fn is_info(s: ScopeV) -> bool { match s { ScopeV::Initial => false, ScopeV::Block { id, .. } => id == 0 } }
pub open spec fn set_last(s: Seq<ScopeV>, v: ScopeV) -> Seq<ScopeV> { s.update(s.len() - 1, v) }
pub open spec fn add_abbrev(s: ScopeV, o: Ops) -> ScopeV {
    match s { ScopeV::Initial => s, ScopeV::Block { width, id, bi, abbrevs } => ScopeV::Block { width, id, bi, abbrevs: abbrevs.push(o) } }
}
pub open spec fn set_bi(s: ScopeV, b: u64) -> ScopeV {
    match s { ScopeV::Initial => s, ScopeV::Block { width, id, bi, abbrevs } => ScopeV::Block { width, id, bi: Some(b), abbrevs } }
}
pub open spec fn info_of(m: Map<u64, Seq<Ops>>, id: u64) -> Seq<Ops> { if m.dom().contains(id) { m[id] } else { Seq::empty() } }

pub open spec fn step_enter(d: Seq<u8>, len: int, s: PV) -> StepV {
    match vbr_at(d, len, s.pos, 8) { None => StepV::Fail, Some((id, p1)) =>
    match vbr_at(d, len, p1, 4) { None => StepV::Fail, Some((width, p2)) => {
        let p3 = align32_pos(len, p2);
        if width < 1 || width >= 64 || !can_read(len, p3, 32) { StepV::Fail } else {
            let blen = (rd(d, p3, 32) * 4) as u64;
            let sc = ScopeV::Block { width, id, bi: None, abbrevs: info_of(s.bi, id) };
            let n = PV { pos: p3 + 32, scopes: s.scopes.push(sc), bi: s.bi };
            if id == 0 { StepV::Silent(n) } else { StepV::Entry(EntryV::Sub { id, len: blen }, n) }
        }
    } } }
}
pub open spec fn step_exit(d: Seq<u8>, len: int, s: PV) -> StepV {
    if s.scopes.len() <= 1 { StepV::Fail } else {
        let n = PV { pos: align32_pos(len, s.pos), scopes: s.scopes.drop_last(), bi: s.bi };
        if is_info(s.scopes.last()) { StepV::Silent(n) } else { StepV::Entry(EntryV::End, n) }
    }
}
/// where a new definition goes
pub open spec fn register(s: PV, o: Ops) -> Option<PV> {
    match s.scopes.last() {
        ScopeV::Initial => None,
        ScopeV::Block { width, id, bi, abbrevs } =>
            if id == 0 {
                match bi { None => None, Some(b) => Some(PV { pos: s.pos, scopes: s.scopes, bi: s.bi.insert(b, info_of(s.bi, b).push(o)) }) }
            } else { Some(PV { pos: s.pos, scopes: set_last(s.scopes, add_abbrev(s.scopes.last(), o)), bi: s.bi }) },
    }
}
pub open spec fn step_define(d: Seq<u8>, len: int, s: PV) -> StepV {
    match def_at(d, len, s.pos) { None => StepV::Fail, Some((o, e)) =>
        match register(PV { pos: e, scopes: s.scopes, bi: s.bi }, o) { None => StepV::Fail, Some(n) => StepV::Silent(n) } }
}
/// a complete record: interpreted in the information block, reported elsewhere
pub open spec fn take_record(s: PV, abbrev: Option<u64>, code: u64, fields: Seq<u64>) -> StepV {
    if is_info(s.scopes.last()) {
        if code < 1 || code > 3 { StepV::Fail }
        else if code == 1 {
            if fields.len() == 0 { StepV::Fail }
            else { StepV::Silent(PV { pos: s.pos, scopes: set_last(s.scopes, set_bi(s.scopes.last(), fields[0])), bi: s.bi }) }
        } else { StepV::Silent(s) }
    } else { StepV::Entry(EntryV::Rec { abbrev, code, fields }, s) }
}
/// an unabbreviated record: (code, fields, end)
pub open spec fn unabbrev_at(d: Seq<u8>, len: int, p: int) -> Option<(u64, Seq<u64>, int)> {
    match vbr_at(d, len, p, 6) { None => None, Some((code, p1)) =>
    match vbr_at(d, len, p1, 6) { None => None, Some((n, p2)) => coded(code, vbrs_at(d, len, p2, n as nat)) } }
}
pub open spec fn coded(code: u64, r: Option<(Seq<u64>, int)>) -> Option<(u64, Seq<u64>, int)> {
    match r { None => None, Some((f, e)) => Some((code, f, e)) }
}
pub open spec fn step_unabbrev(d: Seq<u8>, len: int, s: PV) -> StepV {
    if s.scopes.last() is Initial { StepV::Fail } else {
        match unabbrev_at(d, len, s.pos) { None => StepV::Fail, Some((code, f, e)) =>
            take_record(PV { pos: e, scopes: s.scopes, bi: s.bi }, None, code, f) }
    }
}
pub open spec fn step_abbrev(d: Seq<u8>, len: int, s: PV, aid: u64) -> StepV {
    match s.scopes.last() {
        ScopeV::Initial => StepV::Fail,
        ScopeV::Block { abbrevs, .. } =>
            if aid - 4 >= abbrevs.len() { StepV::Fail } else {
                match all_fields(abbrevs[aid - 4], 0, d, len, s.pos) { None => StepV::Fail, Some((f, e)) =>
                    if f.len() == 0 { StepV::Fail } else { take_record(PV { pos: e, scopes: s.scopes, bi: s.bi }, Some(aid), f[0], f.drop_first()) } }
            },
    }
}
pub open spec fn step(d: Seq<u8>, len: int, s: PV) -> StepV {
    let w = scope_width(s.scopes.last());
    if !can_read(len, s.pos, w as int) { StepV::Fail } else {
        let aid = rd(d, s.pos, w as nat) as u64;
        let t = PV { pos: s.pos + w, scopes: s.scopes, bi: s.bi };
        if aid == 0 { step_exit(d, len, t) } else if aid == 1 { step_enter(d, len, t) } else if aid == 2 { step_define(d, len, t) }
        else if aid == 3 { step_unabbrev(d, len, t) } else { step_abbrev(d, len, t, aid) }
    }
}
/// what the next pull reports
pub open spec fn next(d: Seq<u8>, len: int, s: PV) -> NextV
    decreases 8 * len - s.pos
{
    if s.pos >= 8 * len { NextV::Exhausted(s) } else {
        match step(d, len, s) {
            StepV::Fail => NextV::Fail,
            StepV::Entry(e, n) => NextV::Entry(e, n),
            StepV::Silent(n) => if s.pos < n.pos <= 8 * len { next(d, len, n) } else { NextV::Fail },
        }
    }
}
// ---------------------------------------------------------------- views of the real values
impl Scope {
    pub open spec fn v(&self) -> ScopeV {
        match self { Scope::Initial => ScopeV::Initial,
            Scope::Block { abbrev_id_width, block_id, blockinfo_block_id, abbrevs } =>
                ScopeV::Block { width: *abbrev_id_width, id: *block_id, bi: *blockinfo_block_id, abbrevs: ops_of(abbrevs@) } }
    }
}
pub open spec fn scopes_v(s: Seq<Scope>) -> Seq<ScopeV> { s.map_values(|s: Scope| s.v()) }
pub open spec fn bi_v(m: Map<u64, Vec<Abbrev>>) -> Map<u64, Seq<Ops>> { m.map_values(|a: Vec<Abbrev>| ops_of(a@)) }
pub broadcast proof fn sv_push(s: Seq<Scope>, x: Scope) ensures #[trigger] scopes_v(s.push(x)) == scopes_v(s).push(x.v()) { assert(scopes_v(s.push(x)) =~= scopes_v(s).push(x.v())); }
pub broadcast proof fn sv_pop(s: Seq<Scope>, k: int) requires 0 <= k <= s.len() ensures #[trigger] scopes_v(s.subrange(0, k)) == scopes_v(s).subrange(0, k) { assert(scopes_v(s.subrange(0, k)) =~= scopes_v(s).subrange(0, k)); }
pub broadcast proof fn sv_set(s: Seq<Scope>, i: int, x: Scope) requires 0 <= i < s.len() ensures #[trigger] scopes_v(s.update(i, x)) == scopes_v(s).update(i, x.v()) { assert(scopes_v(s.update(i, x)) =~= scopes_v(s).update(i, x.v())); }
pub broadcast proof fn sv_reset(s: Seq<ScopeV>, i: int, x: ScopeV, y: ScopeV) requires i == s.len() ensures #[trigger] s.push(x).update(i, y) == s.push(y) { assert(s.push(x).update(i, y) =~= s.push(y)); }
pub broadcast proof fn sv_same(s: Seq<ScopeV>, i: int) requires 0 <= i < s.len() ensures #[trigger] s.update(i, s[i]) == s { assert(s.update(i, s[i]) =~= s); }
pub broadcast proof fn ops_one(a: Abbrev) ensures #[trigger] ops_of(seq![a]) == seq![a.operands@] { assert(ops_of(seq![a]) =~= seq![a.operands@]); }
pub broadcast proof fn ops_push(s: Seq<Abbrev>, a: Abbrev) ensures #[trigger] ops_of(s.push(a)) == ops_of(s).push(a.operands@) { assert(ops_of(s.push(a)) =~= ops_of(s).push(a.operands@)); }
pub broadcast proof fn ops_add1(s: Seq<Ops>, a: Ops) ensures #[trigger] (s + seq![a]) == s.push(a) { assert(s + seq![a] =~= s.push(a)); }
pub broadcast proof fn ops_add0(s: Seq<Ops>) ensures #[trigger] (Seq::<Ops>::empty() + s) == s { assert(Seq::<Ops>::empty() + s =~= s); }
pub broadcast proof fn ops_none() ensures #[trigger] ops_of(Seq::<Abbrev>::empty()) == Seq::<Ops>::empty() { assert(ops_of(Seq::<Abbrev>::empty()) =~= Seq::<Ops>::empty()); }
pub broadcast group sv_group { vec_abbrev_clone, sv_push, sv_pop, sv_set, sv_reset, sv_same, ops_one, ops_push, ops_add1, ops_add0, ops_none, lemma_ops_cat }
impl StreamEntry {
    pub open spec fn v(&self) -> EntryV {
        match self { StreamEntry::EndBlock => EntryV::End, StreamEntry::SubBlock(b) => EntryV::Sub { id: b.block_id, len: b.len },
            StreamEntry::Record(r) => EntryV::Rec { abbrev: r.abbrev_id, code: r.code, fields: r.fields@ } }
    }
}
pub open spec fn scope_ok(s: ScopeV) -> bool { match s { ScopeV::Initial => true, ScopeV::Block { width, .. } => 1 <= width < 64 } }
impl<T: VxAsRef> StreamParser<T> {
    pub open spec fn d(&self) -> Seq<u8> { self.cursor.data() }
    pub open spec fn len(&self) -> int { self.cursor.len() }
    pub open spec fn v(&self) -> PV {
        PV { pos: self.cursor.pos(), scopes: scopes_v(self.scopes@), bi: bi_v(self.blockinfo@) }
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.cursor.wf()
        &&& self.scopes@.len() >= 1
        &&& self.scopes@[0] is Initial
        &&& forall|i: int| 0 <= i < self.scopes@.len() ==> scope_ok(#[trigger] self.scopes@[i].v())
    }
    pub open spec fn same(&self, o: &Self) -> bool { self.cursor.same(&o.cursor) }
    /// what one pull leaves behind
    pub open spec fn pulled(&self, o: &Self, r: Result<StreamEntry, StreamError>) -> bool {
        match crate::next(o.d(), o.len(), o.v()) {
            NextV::Entry(e, n) => r.is_ok() && r->Ok_0.v() == e && self.v() == n && self.v().pos > o.v().pos,
            NextV::Exhausted(n) => r is Err && r->Err_0 is Exhausted && self.v() == n && self.v().pos == 8 * self.len(),
            NextV::Fail => r is Err && !(r->Err_0 is Exhausted) && self.v().pos > o.v().pos,
        }
    }
    /// what one step leaves behind, given what it returned
    pub open spec fn stepped(&self, o: &Self, s: StepV, r: Result<Option<StreamEntry>, StreamError>) -> bool {
        match s {
            StepV::Fail => r.is_err() && !(r->Err_0 is Exhausted),
            StepV::Silent(n) => r.is_ok() && r->Ok_0.is_none() && self.v() == n,
            StepV::Entry(e, n) => r.is_ok() && r->Ok_0.is_some() && r->Ok_0.unwrap().v() == e && self.v() == n,
        }
    }
}
// ---------------------------------------------------------------- containers
pub open spec fn raw_ok(d: Seq<u8>) -> bool { d.len() % 4 == 0 && d.len() >= 4 }
/// header word k
pub open spec fn hw(d: Seq<u8>, k: int) -> nat { rd(d, 32 * k, 32) }
pub open spec fn wrapped_ok(d: Seq<u8>) -> bool {
    d.len() >= 20 && hw(d, 2) % 4 == 0 && hw(d, 3) % 4 == 0 && hw(d, 2) + hw(d, 3) <= d.len() && hw(d, 3) >= 4
}
pub open spec fn header(d: Seq<u8>, w: BitcodeWrapper) -> bool {
    w.magic == hw(d, 0) && w.version == hw(d, 1) && w.offset == hw(d, 2) && w.size == hw(d, 3) && w.cpu_type == hw(d, 4)
}
impl<T: VxAsRef> Bitstream<T> {
    pub open spec fn opened(&self, d: Seq<u8>, len: int, pos: int) -> bool {
        &&& self.parser.wf() && self.parser.d() == d && self.parser.len() == len
        &&& self.parser.v() == (PV { pos, scopes: seq![ScopeV::Initial], bi: Map::empty() })
    }
    pub open spec fn opened_raw(&self, d: Seq<u8>) -> bool { self.magic == rd(d, 0, 32) && self.opened(d, d.len() as int, 32) }
    pub open spec fn opened_wrapped(&self, d: Seq<u8>) -> bool {
        let off = hw(d, 2) as int;
        self.magic == rd(d, 8 * off, 32) && self.opened(d, off + hw(d, 3), 8 * off + 32)
    }
}
@@end
@@source llvm-bitstream/src/record.rs Record=BsRecord Block=BsBlock
@@fn Record::from_unabbrev
@@params code fields
@@spec
    ensures r.abbrev_id is None, r.code == code, r.fields@ == fields@
@@fn Record::from_abbrev
@@params abbrev_id code fields
@@spec
    ensures r.abbrev_id == Some(abbrev_id), r.code == code, r.fields@ == fields@
@@source llvm-bitstream/src/abbrev.rs Error=StreamError Record=BsRecord Block=BsBlock
@@fn AbbrevId as From<u64>::from
@@params value
@@spec
    ensures r == <AbbrevId as VxFrom<u64>>::vx_spec(value)
@@fn AbbrevOp::decode_char6
@@params char6
@@spec
    requires char6 < 64
    ensures r == crate::char6(char6 as nat)
@@fn AbbrevOp::parse
@@params self cur
@@local fields Vec::new
@@spec
    requires old(cur).wf()
    ensures
        final(cur).wf(), final(cur).same(old(cur)), final(cur).pos() >= old(cur).pos(),
        r.is_ok() == op_fields(*self, old(cur).data(), old(cur).len(), old(cur).pos()).is_some(),
        r matches Ok(f) ==> op_fields(*self, old(cur).data(), old(cur).len(), old(cur).pos()) == Some((f@, final(cur).pos())),
        r matches Err(e) ==> !(e is Exhausted)
    decreases *self
@@start
    broadcast use {pre_group, rd_group};
    let ghost vx_t = op_fields(*self, cur.data(), cur.len(), cur.pos());
@@loop 0
    invariant
        decreases_to!(*self => **elem),
        cur.wf(), cur.same(old(cur)), cur.pos() >= old(cur).pos(), vx_i0 <= vx_n0, vx_t == op_fields(*self, cur.data(), cur.len(), old(cur).pos()),
        vx_t == pre(fields@, rep_fields(**elem, cur.data(), cur.len(), cur.pos(), (vx_n0 - vx_i0) as nat)),
    decreases vx_n0 - vx_i0
@@loopstart 0
    let ghost vx_f = fields@;
    let ghost vx_p = cur.pos();
    let ghost vx_k = (vx_n0 - vx_i0) as nat;
@@loopend 0
    proof {
        let of = op_fields(**elem, cur.data(), cur.len(), vx_p);
        lemma_pre_pre(vx_f, of.unwrap().0, rep_fields(**elem, cur.data(), cur.len(), cur.pos(), (vx_k - 1) as nat));
    }
@@loop 1
    invariant
        cur.wf(), cur.same(old(cur)), cur.pos() >= old(cur).pos(), vx_i1 <= vx_n1, vx_t == op_fields(*self, cur.data(), cur.len(), old(cur).pos()),
        vx_t == (match pre(fields@, bytes_at(cur.data(), cur.len(), cur.pos(), (vx_n1 - vx_i1) as nat)) {
            None => None, Some((f, e)) => Some((f, align32_pos(cur.len(), e))) }),
    decreases vx_n1 - vx_i1
@@loopstart 1
    proof { rd_8(cur.data(), cur.pos()); assert(u8::vx_fits(rd(cur.data(), cur.pos(), 8) as u64)); }
@@fn Abbrev::new
@@params cur
@@local operands Vec::new
@@optlocal done_early false
@@optlocal num_abbrev_opnds match cur.read
@@spec
    requires old(cur).wf()
    ensures
        final(cur).wf(), final(cur).same(old(cur)), final(cur).pos() >= old(cur).pos(),
        r.is_ok() == def_at(old(cur).data(), old(cur).len(), old(cur).pos()).is_some(),
        r matches Ok(a) ==> def_at(old(cur).data(), old(cur).len(), old(cur).pos()) == Some((a.operands@, final(cur).pos())),
        r matches Err(e) ==> !(e is Exhausted)
@@start
    hide(vbr);
    broadcast use {pre_ops_group, rd_group, def_ops_0};
@@loop 0
    invariant_except_break
        !done_early,
        def_at(cur.data(), cur.len(), old(cur).pos()) == pre_ops(operands@, def_ops(cur.data(), cur.len(), cur.pos(), (vx_n0 - vx_i0) as nat)),
    invariant
        cur.wf(), cur.same(old(cur)), cur.pos() >= old(cur).pos(), vx_i0 <= vx_n0,
        vx_n0 == num_abbrev_opnds,
    ensures
        def_at(cur.data(), cur.len(), old(cur).pos()) == Some((operands@, cur.pos())),
    decreases vx_n0 - vx_i0
@@loopstart 0
    let ghost vx_p = cur.pos();
    let ghost vx_ops = operands@;
    let ghost vx_left = (vx_n0 - vx_i0) as nat;
@@loopexit 0
    proof {
        let e = one_op(cur.data(), cur.len(), vx_p, vx_left).unwrap();
        assert(operands@ =~= vx_ops.push(e.0));
        lemma_pre_ops(vx_ops, e.0, def_ops(cur.data(), cur.len(), cur.pos(), (vx_left - e.1) as nat));
    }
@@fn Abbrev::parse
@@params self cur
@@local vx_o0 Vec::new
@@attr #[verifier::loop_isolation(false)]
@@spec
    requires old(cur).wf()
    ensures
        final(cur).wf(), final(cur).same(old(cur)), final(cur).pos() >= old(cur).pos(),
        r.is_ok() == all_fields(self.operands@, 0, old(cur).data(), old(cur).len(), old(cur).pos()).is_some(),
        r matches Ok(f) ==> all_fields(self.operands@, 0, old(cur).data(), old(cur).len(), old(cur).pos()) == Some((f@, final(cur).pos())),
        r matches Err(e) ==> !(e is Exhausted)
@@start
    broadcast use pre_group;
@@loop 0
    invariant
        cur.wf(), cur.same(old(cur)), cur.pos() >= old(cur).pos(), vx_i0 <= vx_s0.len(), vx_s0@ == self.operands@,
        all_fields(self.operands@, 0, cur.data(), cur.len(), old(cur).pos()) == pre(flat(vx_o0@), all_fields(self.operands@, vx_i0 as int, cur.data(), cur.len(), cur.pos())),
    decreases vx_s0.len() - vx_i0
@@loopstart 0
    let ghost vx_oo = vx_o0@;
    let ghost vx_k = vx_i0 as int;
@@loopend 0
    proof {
        lemma_flat_push(vx_oo, vx_o0@.last());
        assert(vx_o0@ =~= vx_oo.push(vx_o0@.last()));
        lemma_pre_pre(flat(vx_oo), vx_o0@.last()@, all_fields(self.operands@, vx_k + 1, cur.data(), cur.len(), cur.pos()));
    }
@@source llvm-bitstream/src/parser.rs Error=StreamError Record=BsRecord Block=BsBlock
@@fn Scope as Default::default
@@spec
    ensures r is Initial
@@fn Scope::new
@@params abbrev_id_width block_id
@@spec
    ensures r.v() == (ScopeV::Block { width: abbrev_id_width, id: block_id, bi: None, abbrevs: Seq::empty() })
@@atend
    proof { assert(ops_of(Seq::<Abbrev>::empty()) =~= Seq::<Ops>::empty()); }
@@fn Scope::abbrev_id_width
@@params self
@@spec
    ensures r == scope_width(self.v())
@@fn Scope::extend_abbrevs
@@params self new_abbrevs
@@spec
    ensures
        r.is_ok() == !(*old(self) is Initial),
        r.is_err() ==> *final(self) == *old(self) && !(r->Err_0 is Exhausted),
        r.is_ok() ==> (old(self).v() matches ScopeV::Block { width, id, bi, abbrevs } &&
            final(self).v() == (ScopeV::Block { width, id, bi, abbrevs: abbrevs + ops_of(new_abbrevs@) }))
@@start
    broadcast use lemma_ops_cat;
@@fn Scope::get_abbrev
@@params self abbrev_id
@@spec
    requires abbrev_id >= 4
    ensures
        r.is_ok() == (self.v() matches ScopeV::Block { abbrevs, .. } && abbrev_id - 4 < abbrevs.len()),
        r matches Err(e) ==> !(e is Exhausted),
        r matches Ok(a) ==> (self.v() matches ScopeV::Block { abbrevs, .. } && a.operands@ == abbrevs[abbrev_id - 4])
@@fn Scope::is_blockinfo
@@params self
@@spec
    ensures r == is_info(self.v())
@@fn Scope::blockinfo_block_id
@@params self
@@spec
    ensures r == (match self.v() { ScopeV::Initial => None, ScopeV::Block { bi, .. } => bi })
@@fn Scope::set_blockinfo_block_id
@@params self new_bid
@@spec
    ensures
        r.is_ok() == !(*old(self) is Initial),
        r matches Err(e) ==> !(e is Exhausted) && *final(self) == *old(self),
        r.is_ok() ==> final(self).v() == set_bi(old(self).v(), new_bid)
@@fn StreamParser::new
@@params cur
@@rewrite Default::default() => HashMap::new()
@@spec
    requires cur.wf()
    ensures r.wf(), r.cursor == cur,
        r.v() == (PV { pos: cur.pos(), scopes: seq![ScopeV::Initial], bi: Map::empty() })
@@onret
    proof {
        assert(vx_ret.v().scopes =~= seq![ScopeV::Initial]);
        assert(vx_ret.v().bi =~= Map::empty());
    }
@@fn StreamParser::scope
@@params self
@@spec
    requires self.scopes@.len() >= 1
    ensures *r == self.scopes@.last()
@@fn StreamParser::scope_mut
@@params self
@@spec
    requires old(self).scopes@.len() >= 1
    ensures
        *r == old(self).scopes@.last(),
        final(self).cursor == old(self).cursor, final(self).blockinfo == old(self).blockinfo,
        final(self).scopes@ == old(self).scopes@.update(old(self).scopes@.len() - 1, *final(r))
@@fn StreamParser::enter_block
@@params self
@@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).same(old(self)), final(self).v().pos >= old(self).v().pos,
        final(self).stepped(old(self), step_enter(old(self).d(), old(self).len(), old(self).v()), r)
@@start
    broadcast use {sv_group, rd_group};
@@fn StreamParser::exit_block
@@params self
@@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).same(old(self)), final(self).v().pos >= old(self).v().pos,
        final(self).stepped(old(self), step_exit(old(self).d(), old(self).len(), old(self).v()), r)
@@start
    broadcast use {sv_group, rd_group};
@@fn StreamParser::define_abbrev
@@params self
@@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).same(old(self)), final(self).v().pos >= old(self).v().pos,
        match step_define(old(self).d(), old(self).len(), old(self).v()) {
            StepV::Silent(n) => r.is_ok() && final(self).v() == n,
            _ => r.is_err() && !(r->Err_0 is Exhausted),
        }
@@start
    broadcast use {sv_group, rd_group};
@@atend
    proof { assert(self.v().bi =~= step_define(old(self).d(), old(self).len(), old(self).v())->Silent_0.bi); }
@@fn StreamParser::interpret_blockinfo
@@params self record
@@spec
    requires old(self).wf(), is_info(old(self).v().scopes.last())
    ensures
        final(self).wf(), final(self).same(old(self)), final(self).v().pos == old(self).v().pos,
        match take_record(old(self).v(), record.abbrev_id, record.code, record.fields@) {
            StepV::Silent(n) => r.is_ok() && final(self).v() == n,
            _ => r.is_err() && !(r->Err_0 is Exhausted),
        }
@@start
    broadcast use {sv_group, rd_group};
@@fn StreamParser::parse_unabbrev
@@params self
@@local code match self.cursor.read_vbr(6)|self.cursor.read_vbr(6)
@@local fields Vec::new
@@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).same(old(self)), final(self).v().pos >= old(self).v().pos,
        final(self).stepped(old(self), step_unabbrev(old(self).d(), old(self).len(), old(self).v()), r)
@@start
    broadcast use pre_group;
    let ghost vx_t = unabbrev_at(self.d(), self.len(), self.v().pos);
@@loop 0
    invariant
        self.wf(), self.same(old(self)), self.scopes == old(self).scopes, self.blockinfo == old(self).blockinfo,
        !(old(self).v().scopes.last() is Initial), vx_t == unabbrev_at(old(self).d(), old(self).len(), old(self).v().pos),
        self.v().pos >= old(self).v().pos, vx_i0 <= vx_n0,
        vx_t == coded(code, pre(fields@, vbrs_at(self.d(), self.len(), self.v().pos, (vx_n0 - vx_i0) as nat))),
    decreases vx_n0 - vx_i0
@@fn StreamParser::parse_with_abbrev
@@params self abbrev_id
@@spec
    requires old(self).wf(), abbrev_id >= 4
    ensures
        final(self).wf(), final(self).same(old(self)), final(self).v().pos >= old(self).v().pos,
        final(self).stepped(old(self), step_abbrev(old(self).d(), old(self).len(), old(self).v(), abbrev_id), r)
@@fn StreamParser::advance_one
@@params self
@@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).same(old(self)),
        old(self).v().pos >= 8 * old(self).len() ==> r is Err && r->Err_0 is Exhausted && *final(self) == *old(self),
        old(self).v().pos < 8 * old(self).len() ==> final(self).v().pos > old(self).v().pos
            && final(self).stepped(old(self), step(old(self).d(), old(self).len(), old(self).v()), r)
@@fn StreamParser::advance
@@params self
@@attr #[verifier::loop_isolation(false)]
@@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).same(old(self)),
        final(self).pulled(old(self), r)
@@loop 0
    invariant
        self.wf(), self.same(old(self)), self.v().pos >= old(self).v().pos,
        self.v().pos > old(self).v().pos || *self == *old(self),
        crate::next(self.d(), self.len(), self.v()) == crate::next(self.d(), self.len(), old(self).v()),
    decreases 8 * self.len() - self.v().pos
@@source llvm-bitstream/src/lib.rs Error=StreamError Record=BsRecord Block=BsBlock
@@fn Bitstream::from_cursor
@@params cur
@@spec
    requires cur.wf()
    ensures
        r.is_ok() == (cur.len() % 4 == 0 && can_read(cur.len(), cur.pos(), 32)),
        r matches Err(e) ==> !(e is Exhausted),
        r matches Ok(b) ==> b.magic == rd(cur.data(), cur.pos(), 32) && b.opened(cur.data(), cur.len(), cur.pos() + 32)
@@start
    broadcast use rd_group;
@@fn Bitstream::from
@@params inner
@@spec
    ensures
        ({
            let d = inner.vx_view();
            if d.len() < 4 { r.is_err() }
            else if rd(d, 0, 32) == 0x0b17c0de { r.is_ok() == wrapped_ok(d) && (r matches Ok((w, b)) ==> w.is_some() && header(d, w.unwrap()) && b.opened_wrapped(d)) }
            else { r.is_ok() == raw_ok(d) && (r matches Ok((w, b)) ==> w.is_none() && b.opened_raw(d)) }
        })
@@start
    broadcast use rd_group;
@@fn Bitstream::from_raw
@@params inner
@@spec
    ensures r.is_ok() == raw_ok(inner.vx_view()), r matches Ok(b) ==> b.opened_raw(inner.vx_view())
@@start
    broadcast use rd_group;
@@fn Bitstream::from_wrapped
@@params inner
@@spec
    ensures r.is_ok() == wrapped_ok(inner.vx_view()), r matches Ok((w, b)) ==> header(inner.vx_view(), w) && b.opened_wrapped(inner.vx_view())
@@start
    broadcast use rd_group;
@@fn Bitstream::advance
@@params self
@@spec
    requires old(self).parser.wf()
    ensures final(self).parser.wf(), final(self).parser.same(&old(self).parser), final(self).magic == old(self).magic,
        final(self).parser.pulled(&old(self).parser, r)
@@fn Bitstream as Iterator::next
@@params self
@@spec
    requires old(self).parser.wf()
    ensures final(self).parser.wf(), final(self).parser.same(&old(self).parser), final(self).magic == old(self).magic,
        match r { None => final(self).parser.pulled(&old(self).parser, Err(StreamError::Exhausted)),
            Some(x) => !(x matches Err(e) && e is Exhausted) && final(self).parser.pulled(&old(self).parser, x) }
