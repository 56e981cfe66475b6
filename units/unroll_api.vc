@@source llvm-mapper/src/unroll.rs
@@derives Block Clone
@@source llvm-mapper/src/block/mod.rs
@@type BlockMapError
@@errfrom BlockMapError
@@source llvm-mapper/src/error.rs BitstreamError=StreamError
@@type Error
@@errfrom Error
@@source llvm-mapper/src/unroll.rs
@@type PartialBitcodeModule
@@type BitcodeModule
@@type Bitcode
@@source llvm-mapper/src/map.rs
@@derives PartialMapCtx Default
@@verbatim
// derive(Clone) of Block (assumed: a clone equals its original)
impl Clone for Block {
    #[verifier::external_body]
    fn clone(&self) -> (r: Block) ensures r == *self { unimplemented!() }
}
/// the ID of a block, as LLVM numbers them
pub open spec fn bid(v: u64) -> BlockId {
    if v == 0 { BlockId::Reserved(ReservedBlockId::BlockInfo) }
    else if v <= 7 { BlockId::Reserved(choose|x: ReservedBlockId| code_reserved_block_id(x) == v) }
    else if v <= 26 { BlockId::Ir(choose|x: IrBlockId| code_ir_block_id(x) == v) }
    else { BlockId::Unknown(v) }
}
pub proof fn lemma_ids()
    ensures forall|a: ReservedBlockId, b: ReservedBlockId| #![trigger code_reserved_block_id(a), code_reserved_block_id(b)] code_reserved_block_id(a) == code_reserved_block_id(b) ==> a == b,
        forall|a: IrBlockId, b: IrBlockId| #![trigger code_ir_block_id(a), code_ir_block_id(b)] code_ir_block_id(a) == code_ir_block_id(b) ==> a == b
{}
/// the IDs that count at the outermost level
pub proof fn lemma_bids()
    ensures
        forall|v: u64| #[trigger] bid(v) == BlockId::Ir(IrBlockId::Identification) <==> v == 13,
        forall|v: u64| #[trigger] bid(v) == BlockId::Ir(IrBlockId::Module) <==> v == 8,
        forall|v: u64| #[trigger] bid(v) == BlockId::Ir(IrBlockId::Strtab) <==> v == 23,
        forall|v: u64| #[trigger] bid(v) == BlockId::Ir(IrBlockId::Symtab) <==> v == 25,
{
    lemma_ids();
    assert forall|v: u64| 8 <= v <= 26 implies code_ir_block_id((#[trigger] bid(v))->Ir_0) == v by {
        let x = match v {
            8 => IrBlockId::Module,
            9 => IrBlockId::ParamAttr,
            10 => IrBlockId::ParamAttrGroup,
            11 => IrBlockId::Constants,
            12 => IrBlockId::Function,
            13 => IrBlockId::Identification,
            14 => IrBlockId::ValueSymtab,
            15 => IrBlockId::Metadata,
            16 => IrBlockId::MetadataAttachment,
            17 => IrBlockId::Type,
            18 => IrBlockId::Uselist,
            19 => IrBlockId::ModuleStrtab,
            20 => IrBlockId::GlobalValSummary,
            21 => IrBlockId::OperandBundleTags,
            22 => IrBlockId::MetadataKind,
            23 => IrBlockId::Strtab,
            24 => IrBlockId::FullLtoGlobalValSummary,
            25 => IrBlockId::Symtab,
            26 => IrBlockId::SyncScopeNames,
            _ => IrBlockId::Module,
        };
        assert(code_ir_block_id(x) == v);
    }
    assert(code_ir_block_id(bid(13)->Ir_0) == 13);
    assert(code_ir_block_id(bid(8)->Ir_0) == 8);
    assert(code_ir_block_id(bid(23)->Ir_0) == 23);
    assert(code_ir_block_id(bid(25)->Ir_0) == 25);
}
impl VxFrom<u64> for BlockId {
    open spec fn vx_spec(a: u64) -> BlockId { bid(a) }
    fn vx_conv(a: u64) -> (r: BlockId) { proof { lemma_ids(); } BlockId::from(a) }
}
impl<V> VxPush<BlockId, V> for IndexMap<BlockId, Vec<V>> {
    open spec fn vx_pushed(&self, k: BlockId, v: V, o: &Self) -> bool { pushed(self.m(), k, v, o.m()) }
    #[verifier::external_body]
    fn vx_push(&mut self, k: BlockId, v: V) { unimplemented!() }
}
// ---------------------------------------------------------------- the block tree in a stream
pub enum Item { Rec { abbrev: Option<u64>, code: u64, fields: Seq<u64> }, Sub(Tree) }
pub struct Tree { pub id: u64, pub items: Seq<Item> }
pub enum TreeV { Tree(Tree, PV), Fail }
pub open spec fn max_nesting() -> nat { 256 }
/// the block whose items so far are acc, read from s to its end
pub open spec fn tree_at(d: Seq<u8>, len: int, s: PV, id: u64, depth: nat, acc: Seq<Item>) -> TreeV
    decreases 8 * len - s.pos
{
    match crate::next(d, len, s) {
        NextV::Entry(e, n) => if !(s.pos < n.pos <= 8 * len) { TreeV::Fail } else {
            match e {
                EntryV::End => TreeV::Tree(Tree { id, items: acc }, n),
                EntryV::Rec { abbrev, code, fields } => tree_at(d, len, n, id, depth, acc.push(Item::Rec { abbrev, code, fields })),
                EntryV::Sub { id: i, .. } => if depth + 1 >= max_nesting() { TreeV::Fail } else {
                    match tree_at(d, len, n, i, depth + 1, Seq::empty()) {
                        TreeV::Tree(t, p) => if n.pos <= p.pos <= 8 * len { tree_at(d, len, p, id, depth, acc.push(Item::Sub(t))) } else { TreeV::Fail },
                        TreeV::Fail => TreeV::Fail,
                    }
                },
            }
        },
        _ => TreeV::Fail,
    }
}
pub open spec fn block_at(d: Seq<u8>, len: int, s: PV, id: u64, depth: nat) -> TreeV {
    if depth >= max_nesting() { TreeV::Fail } else { tree_at(d, len, s, id, depth, Seq::empty()) }
}
/// how many records there are among the items, and how many blocks with an ID
pub open spec fn nrec(s: Seq<Item>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { nrec(s.drop_last()) + (if s.last() is Rec { 1nat } else { 0nat }) }
}
pub open spec fn has_id(x: Item, k: BlockId) -> bool { x matches Item::Sub(t) && bid(t.id) == k }
pub open spec fn nsub(s: Seq<Item>, k: BlockId) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { nsub(s.drop_last(), k) + (if has_id(s.last(), k) { 1nat } else { 0nat }) }
}
pub open spec fn rec_is(r: Record, x: Item) -> bool {
    x matches Item::Rec { abbrev, code, fields } && r.0.abbrev_id == abbrev && r.0.code == code && r.0.fields@ == fields
}
/// the records and blocks are exactly the items, each kind in order
pub open spec fn parts_are(r: Seq<Record>, b: Blocks, s: Seq<Item>) -> bool
    decreases s, s.len() + 1
{
    &&& r.len() == nrec(s)
    &&& forall|k: BlockId| #[trigger] with_id(b, k).len() == nsub(s, k)
    &&& items_are(r, b, s, s.len())
}
/// the first n items are where they belong
pub open spec fn items_are(r: Seq<Record>, b: Blocks, s: Seq<Item>, n: nat) -> bool
    decreases s, n
{ n == 0 || (items_are(r, b, s, (n - 1) as nat) && item_is(r, b, s, n - 1)) }
pub open spec fn item_is(r: Seq<Record>, b: Blocks, s: Seq<Item>, i: int) -> bool
    decreases s, 0nat
{
    0 <= i < s.len() && match s[i] {
        Item::Rec { .. } => nrec(s.take(i)) < r.len() && rec_is(r[nrec(s.take(i)) as int], s[i]),
        Item::Sub(t) => nsub(s.take(i), bid(t.id)) < with_id(b, bid(t.id)).len() && block_is(with_id(b, bid(t.id))[nsub(s.take(i), bid(t.id)) as int], t),
    }
}
pub open spec fn block_is(b: Block, t: Tree) -> bool
    decreases t, 0nat
{ b.id == bid(t.id) && parts_are(b.records.0@, b.blocks, t.items) }
// derive(Default) of the collections
impl Records { pub fn default() -> (r: Self) ensures r.0@.len() == 0 { Records(Vec::new()) } }
impl Blocks { pub fn default() -> (r: Self) ensures r.0.m() == Map::<BlockId, Vec<Block>>::empty() { Blocks(IndexMap::default()) } }
pub proof fn lemma_parts_none(r: Seq<Record>, b: Blocks)
    requires r.len() == 0, b.0.m() == Map::<BlockId, Vec<Block>>::empty()
    ensures parts_are(r, b, Seq::empty())
{ assert forall|k: BlockId| #[trigger] with_id(b, k).len() == nsub(Seq::empty(), k) by {} }
pub proof fn lemma_parts_empty()
    ensures forall|r: Seq<Record>, b: Blocks| r.len() == 0 && b.0.m() == Map::<BlockId, Vec<Block>>::empty() ==> #[trigger] parts_are(r, b, Seq::empty())
{
    assert forall|r: Seq<Record>, b: Blocks| r.len() == 0 && b.0.m() == Map::<BlockId, Vec<Block>>::empty() implies #[trigger] parts_are(r, b, Seq::empty()) by { lemma_parts_none(r, b); }
}
pub proof fn lemma_item(r: Seq<Record>, b: Blocks, s: Seq<Item>, n: nat, i: int)
    requires items_are(r, b, s, n), 0 <= i < n <= s.len()
    ensures item_is(r, b, s, i)
    decreases n
{ if i < n - 1 { lemma_item(r, b, s, (n - 1) as nat, i); } }
pub proof fn lemma_items(r: Seq<Record>, b: Blocks, s: Seq<Item>, n: nat)
    requires forall|i: int| 0 <= i < n ==> #[trigger] item_is(r, b, s, i)
    ensures items_are(r, b, s, n)
    decreases n
{ if n > 0 { lemma_items(r, b, s, (n - 1) as nat); assert(item_is(r, b, s, n - 1)); } }
pub proof fn lemma_push_rec(r: Seq<Record>, b: Blocks, s: Seq<Item>, x: Record, v: Item)
    requires parts_are(r, b, s), rec_is(x, v)
    ensures parts_are(r.push(x), b, s.push(v))
{
    let t = s.push(v);
    assert(t.drop_last() =~= s);
    assert forall|k: BlockId| #[trigger] with_id(b, k).len() == nsub(t, k) by { assert(with_id(b, k).len() == nsub(s, k)); }
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] item_is(r.push(x), b, t, i) by {
        if i < s.len() {
            lemma_item(r, b, s, s.len(), i);
            assert(t.take(i) =~= s.take(i));
        } else { assert(t.take(i) =~= s); }
    }
    lemma_items(r.push(x), b, t, t.len());
}
pub proof fn lemma_push_sub(r: Seq<Record>, b: Blocks, n: Blocks, s: Seq<Item>, x: Block, t: Tree)
    requires parts_are(r, b, s), block_is(x, t), pushed(n.0.m(), bid(t.id), x, b.0.m())
    ensures parts_are(r, n, s.push(Item::Sub(t)))
{
    let v = Item::Sub(t);
    let u = s.push(v);
    assert(u.drop_last() =~= s);
    assert forall|k: BlockId| #[trigger] with_id(n, k).len() == nsub(u, k) by {
        assert(with_id(b, k).len() == nsub(s, k));
        assert(n.0.m().dom().contains(k) == (k == bid(t.id) || b.0.m().dom().contains(k)));
    }
    assert forall|i: int| 0 <= i < u.len() implies #[trigger] item_is(r, n, u, i) by {
        if i < s.len() {
            lemma_item(r, b, s, s.len(), i);
            assert(u.take(i) =~= s.take(i));
            match s[i] { Item::Sub(w) => {
                let k = bid(w.id);
                assert(with_id(b, k).len() == nsub(s, k));
                assert(b.0.m().dom().contains(k));
                if k == bid(t.id) { assert(n.0.m()[k]@ == b.0.m()[k]@.push(x)); } else { assert(n.0.m()[k] == b.0.m()[k]); }
            }, _ => {} }
        } else {
            assert(u.take(i) =~= s);
            let k = bid(t.id);
            assert(with_id(b, k).len() == nsub(s, k));
            if b.0.m().dom().contains(k) { assert(n.0.m()[k]@ == b.0.m()[k]@.push(x)); } else { assert(n.0.m()[k]@ == seq![x]); }
        }
    }
    lemma_items(r, n, u, u.len());
}
// ---------------------------------------------------------------- the modules of a stream
pub struct PM { pub ident: Tree, pub module: Option<Tree>, pub strtab: Option<Tree>, pub symtab: Option<Tree> }
/// the string table reaches the modules at the end of the list, back to the last one that has one
pub open spec fn fill_strtab(a: Seq<PM>, t: Tree) -> Seq<PM> {
    Seq::new(a.len(), |i: int| if forall|j: int| i <= j < a.len() ==> (#[trigger] a[j]).strtab is None { PM { ident: a[i].ident, module: a[i].module, strtab: Some(t), symtab: a[i].symtab } } else { a[i] })
}
pub open spec fn fill_symtab(a: Seq<PM>, t: Tree) -> Seq<PM> {
    Seq::new(a.len(), |i: int| if forall|j: int| i <= j < a.len() ==> (#[trigger] a[j]).symtab is None { PM { ident: a[i].ident, module: a[i].module, strtab: a[i].strtab, symtab: Some(t) } } else { a[i] })
}
/// one more block of the outermost level
pub open spec fn add_top(a: Seq<PM>, t: Tree) -> Option<Seq<PM>> {
    if t.id == 13 { Some(a.push(PM { ident: t, module: None, strtab: None, symtab: None })) }
    else if t.id == 8 {
        if a.len() == 0 || a.last().module is Some { None }
        else { Some(a.update(a.len() - 1, PM { ident: a.last().ident, module: Some(t), strtab: a.last().strtab, symtab: a.last().symtab })) }
    }
    else if t.id == 23 { Some(fill_strtab(a, t)) }
    else if t.id == 25 { Some(fill_symtab(a, t)) }
    else { None }
}
/// the modules of the stream from s to its end, after those in a
pub open spec fn tops(d: Seq<u8>, len: int, s: PV, a: Seq<PM>) -> Option<Seq<PM>>
    decreases 8 * len - s.pos
{
    match crate::next(d, len, s) {
        NextV::Exhausted(_) => Some(a),
        NextV::Entry(EntryV::Sub { id, .. }, n) => if !(s.pos < n.pos <= 8 * len) { None } else {
            match block_at(d, len, n, id, 0) {
                TreeV::Tree(t, p) => if !(n.pos <= p.pos <= 8 * len) { None } else {
                    match add_top(a, t) { Some(b) => tops(d, len, p, b), None => None } },
                TreeV::Fail => None,
            }
        },
        _ => None,
    }
}
pub open spec fn opt_is(b: Option<Block>, t: Option<Tree>) -> bool {
    match t { Some(x) => b is Some && block_is(b->Some_0, x), None => b is None }
}
pub open spec fn pm_is(p: PartialBitcodeModule, m: PM) -> bool {
    block_is(p.identification, m.ident) && opt_is(p.module, m.module) && opt_is(p.strtab, m.strtab) && opt_is(p.symtab, m.symtab)
}
pub open spec fn pms_are(v: Seq<PartialBitcodeModule>, m: Seq<PM>) -> bool {
    v.len() == m.len() && forall|i: int| #![trigger v[i]] #![trigger m[i]] 0 <= i < v.len() ==> pm_is(v[i], m[i])
}
/// a table has been handed to the modules from k on
pub open spec fn filled(p: Seq<PartialBitcodeModule>, q: Seq<PartialBitcodeModule>, t: Tree, k: int) -> bool {
    &&& q.len() == p.len() && 0 <= k <= p.len()
    &&& forall|j: int| #![trigger q[j]] #![trigger p[j]] 0 <= j < k ==> q[j] == p[j]
    &&& forall|j: int| #![trigger q[j]] #![trigger p[j]] k <= j < p.len() ==> {
        &&& q[j].identification == p[j].identification && q[j].module == p[j].module
        &&& if t.id == 23 { p[j].strtab is None && q[j].symtab == p[j].symtab && opt_is(q[j].strtab, Some(t)) }
            else { p[j].symtab is None && q[j].strtab == p[j].strtab && opt_is(q[j].symtab, Some(t)) }
    }
}
pub open spec fn stops(p: PartialBitcodeModule, t: Tree) -> bool { if t.id == 23 { p.strtab is Some } else { p.symtab is Some } }
pub proof fn lemma_filled(p: Seq<PartialBitcodeModule>, a: Seq<PM>, t: Tree)
    requires pms_are(p, a)
    ensures
        t.id == 23 || t.id == 25 ==> filled(p, p, t, p.len() as int),
        forall|q: Seq<PartialBitcodeModule>, k: int| #[trigger] filled(p, q, t, k) && (k == 0 || stops(p[k - 1], t)) && (t.id == 23 || t.id == 25)
            ==> pms_are(q, add_top(a, t)->Some_0)
{
    assert forall|q: Seq<PartialBitcodeModule>, k: int| #[trigger] filled(p, q, t, k) && (k == 0 || stops(p[k - 1], t)) && (t.id == 23 || t.id == 25)
        implies pms_are(q, add_top(a, t)->Some_0) by {
        let b = add_top(a, t)->Some_0;
        assert forall|i: int| #![trigger q[i]] #![trigger b[i]] 0 <= i < q.len() implies pm_is(q[i], b[i]) by {
            assert(pm_is(p[i], a[i]));
            if i < k {
                assert(pm_is(p[k - 1], a[k - 1]));
                assert(q[i] == p[i]);
                assert(b[i] == a[i]);
            } else {
                assert forall|j: int| i <= j < a.len() implies (if t.id == 23 { (#[trigger] a[j]).strtab is None } else { a[j].symtab is None }) by { assert(pm_is(p[j], a[j])); }
            }
        }
    }
}
/// how one more block of the outermost level changes the list, in terms of the real values
pub open spec fn pushed_ident(p: Seq<PartialBitcodeModule>, q: Seq<PartialBitcodeModule>, t: Tree) -> bool {
    &&& t.id == 13 && q.len() == p.len() + 1 && q.drop_last() == p
    &&& block_is(q.last().identification, t) && q.last().module is None && q.last().strtab is None && q.last().symtab is None
}
pub open spec fn put_module(p: Seq<PartialBitcodeModule>, q: Seq<PartialBitcodeModule>, t: Tree) -> bool {
    &&& t.id == 8 && p.len() > 0 && q.len() == p.len() && p.last().module is None
    &&& q.drop_last() == p.drop_last()
    &&& q.last().identification == p.last().identification && q.last().strtab == p.last().strtab && q.last().symtab == p.last().symtab
    &&& opt_is(q.last().module, Some(t))
}
pub proof fn lemma_added(p: Seq<PartialBitcodeModule>, a: Seq<PM>, t: Tree)
    requires pms_are(p, a)
    ensures
        forall|q: Seq<PartialBitcodeModule>| #![trigger pushed_ident(p, q, t)] #![trigger put_module(p, q, t)] pushed_ident(p, q, t) || put_module(p, q, t) ==> pms_are(q, add_top(a, t)->Some_0),
        add_top(a, t) is None <==> !(t.id == 13 || t.id == 8 && p.len() > 0 && p.last().module is None || t.id == 23 || t.id == 25),
{
    if p.len() > 0 { assert(pm_is(p.last(), a.last())); }
    let b = add_top(a, t)->Some_0;
    assert forall|q: Seq<PartialBitcodeModule>| #![trigger pushed_ident(p, q, t)] #![trigger put_module(p, q, t)] pushed_ident(p, q, t) || put_module(p, q, t) implies pms_are(q, b) by {
        assert forall|i: int| #![trigger q[i]] #![trigger b[i]] 0 <= i < q.len() implies pm_is(q[i], b[i]) by {
            if i < q.len() - 1 {
                assert(q.drop_last()[i] == q[i]);
                if t.id == 8 { assert(p.drop_last()[i] == p[i]); }
                assert(pm_is(p[i], a[i]));
            }
        }
    }
}
// ---------------------------------------------------------------- what a module of the stream maps to
pub open spec fn table_of_strings(p: PartialBitcodeModule) -> Option<Seq<u8>> {
    match p.strtab { Some(b) => blob_of(first_code(b, 1)), None => None }
}
pub open spec fn ident_ok(b: Block) -> bool {
    string_ok(first_code(b, 1)) && first_code(b, 2) is Some && first_code(b, 2)->Some_0.0.fields@.len() > 0
}
pub open spec fn start(t: Seq<u8>) -> C0 { C0 { strtab: t, groups: Set::empty(), nattr: 0 } }
/// all but the module block are in order
pub open spec fn frame_ok(p: PartialBitcodeModule) -> bool {
    &&& table_of_strings(p) is Some
    &&& ident_ok(p.identification)
    &&& p.module is Some
    &&& p.symtab matches Some(b) ==> blob_of(first_code(b, 1)) is Some
}
pub open spec fn partial_ok(p: PartialBitcodeModule) -> bool {
    frame_ok(p) && module_ok(p.module->Some_0, start(table_of_strings(p)->Some_0))
}
pub open spec fn partial_loose(p: PartialBitcodeModule) -> bool { p.module matches Some(b) && module_loose(b) }
pub open spec fn bm_is(m: BitcodeModule, p: PartialBitcodeModule) -> bool {
    &&& Some(m.strtab.0@) == table_of_strings(p)
    &&& blob_of(first_code(p.identification, 1)) == Some(encode_utf8(m.identification.producer@))
    &&& m.identification.epoch == first_code(p.identification, 2)->Some_0.0.fields@[0]
    &&& module_is(m.module, p.module->Some_0)
    &&& match p.symtab { Some(b) => m.symtab is Some && blob_of(first_code(b, 1)) == Some(m.symtab->Some_0.0@), None => m.symtab is None }
}
pub open spec fn partials_upto(v: Seq<PartialBitcodeModule>, n: int) -> bool { forall|i: int| 0 <= i < n ==> partial_loose(#[trigger] v[i]) || partial_ok(v[i]) }
pub open spec fn bms_upto(m: Seq<BitcodeModule>, v: Seq<PartialBitcodeModule>, n: int) -> bool {
    forall|i: int| #![trigger m[i]] #![trigger v[i]] 0 <= i < n ==> bm_is(m[i], v[i]) && frame_ok(v[i])
}
/// an answer for the modules of a stream
pub open spec fn answer(r: Result<Bitcode, Error>, v: Seq<PartialBitcodeModule>) -> bool {
    match r {
        Ok(b) => b.modules@.len() == v.len() && partials_upto(v, v.len() as int) && bms_upto(b.modules@, v, v.len() as int),
        Err(_) => exists|i: int| 0 <= i < v.len() && (partial_loose(#[trigger] v[i]) || !partial_ok(v[i])),
    }
}
/// the answer for a stream whose next entry is read from s
pub open spec fn bitcode_at(r: Result<Bitcode, Error>, d: Seq<u8>, len: int, s: PV) -> bool {
    match tops(d, len, s, Seq::empty()) {
        None => r.is_err(),
        Some(m) => exists|v: Seq<PartialBitcodeModule>| #[trigger] pms_are(v, m) && answer(r, v),
    }
}
pub proof fn lemma_answer(d: Seq<u8>, len: int, s: PV, m: Seq<PM>, v: Seq<PartialBitcodeModule>)
    requires tops(d, len, s, Seq::empty()) == Some(m), pms_are(v, m)
    ensures forall|r: Result<Bitcode, Error>| answer(r, v) ==> #[trigger] bitcode_at(r, d, len, s)
{
    assert forall|r: Result<Bitcode, Error>| answer(r, v) implies #[trigger] bitcode_at(r, d, len, s) by {
        assert(exists|v: Seq<PartialBitcodeModule>| #[trigger] pms_are(v, m) && answer(r, v));
        assert(tops(d, len, s, Seq::empty())->Some_0 == m);
        assert(exists|v: Seq<PartialBitcodeModule>| #[trigger] pms_are(v, tops(d, len, s, Seq::empty())->Some_0) && answer(r, v));
    }
}
pub proof fn lemma_none_yet() ensures pms_are(Seq::empty(), Seq::empty()) {}
pub proof fn lemma_no_answer(d: Seq<u8>, len: int, s: PV)
    ensures tops(d, len, s, Seq::empty()) is None ==> forall|r: Result<Bitcode, Error>| r.is_err() ==> #[trigger] bitcode_at(r, d, len, s)
{}
impl<T: VxAsRef> VxTryFrom<Bitstream<T>> for Bitcode {
    type VxErr = Error;
    open spec fn vx_tpre(a: Bitstream<T>) -> bool { a.parser.wf() }
    open spec fn vx_trel(a: Bitstream<T>, r: Result<Bitcode, Error>) -> bool { bitcode_at(r, a.parser.d(), a.parser.len(), a.parser.v()) }
    fn vx_tconv(a: Bitstream<T>) -> (r: Result<Bitcode, Error>) { Bitcode::try_from_stream(a) }
}
// derive(Default) of the mapping context (assumed: empty tables)
impl PartialMapCtx {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.c0() == start(Seq::empty()) { unimplemented!() }
}
@@end
