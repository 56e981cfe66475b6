@@verbatim
// ---------------------------------------------------------------- std stand-ins used above the cursor
use std::collections::HashMap;

pub trait VxExtend<I> {
    spec fn vx_extended(&self, x: I, o: &Self) -> bool;
    fn vx_extend(&mut self, x: I) ensures final(self).vx_extended(x, old(self));
}
impl<T> VxExtend<Vec<T>> for Vec<T> {
    open spec fn vx_extended(&self, x: Vec<T>, o: &Self) -> bool { self@ == o@ + x@ }
    fn vx_extend(&mut self, x: Vec<T>) { let mut x = x; self.append(&mut x); }
}

/// or_insert_with(Vec::new).push(v)
pub trait VxPush<K, V> {
    spec fn vx_pushed(&self, k: K, v: V, o: &Self) -> bool;
    fn vx_push(&mut self, k: K, v: V) ensures final(self).vx_pushed(k, v, old(self));
}
pub open spec fn pushed<K, V>(n: Map<K, Vec<V>>, k: K, v: V, o: Map<K, Vec<V>>) -> bool {
    &&& n.dom() == o.dom().insert(k)
    &&& n[k]@ == (if o.dom().contains(k) { o[k]@.push(v) } else { seq![v] })
    &&& forall|j: K| j != k && o.dom().contains(j) ==> n[j] == o[j]
}
pub fn vx_map_push<K, V, M: VxPush<K, V>>(m: &mut M, k: K, v: V)
    ensures final(m).vx_pushed(k, v, old(m))
{ m.vx_push(k, v) }
impl<V> VxPush<u64, V> for HashMap<u64, Vec<V>> {
    open spec fn vx_pushed(&self, k: u64, v: V, o: &Self) -> bool { pushed(self@, k, v, o@) }
    fn vx_push(&mut self, k: u64, v: V) {
        broadcast use vstd::std_specs::hash::group_hash_axioms;
        let mut l = match self.remove(&k) { Some(x) => x, None => Vec::new() };
        l.push(v);
        self.insert(k, l);
        proof {
            assert(self@.dom() =~= old(self)@.dom().insert(k));
            if !old(self)@.dom().contains(k) { assert(self@[k]@ =~= seq![v]); }
        }
    }
}
pub open spec fn flat<T>(s: Seq<Vec<T>>) -> Seq<T> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last()@ }
}
pub fn vx_flatten<T>(v: Vec<Vec<T>>) -> (r: Vec<T>)
    ensures r@ == flat(v@)
{
    let mut v = v;
    let mut out: Vec<T> = Vec::new();
    let ghost all = v@;
    let mut rev: Vec<Vec<T>> = Vec::new();
    while v.len() > 0
        invariant v@.len() + rev@.len() == all.len(), v@ == all.take(v@.len() as int),
            forall|i: int| 0 <= i < rev@.len() ==> rev@[i] == all[all.len() - 1 - i]
        decreases v@.len()
    {
        match v.pop() { Some(x) => { rev.push(x); } None => {} }
        assert(v@ =~= all.take(v@.len() as int));
    }
    proof { assert(all.take(0) =~= Seq::empty()); }
    while rev.len() > 0
        invariant rev@.len() <= all.len(), out@ == flat(all.take(all.len() - rev@.len())),
            forall|i: int| 0 <= i < rev@.len() ==> rev@[i] == all[all.len() - 1 - i]
        decreases rev@.len()
    {
        let ghost k = all.len() - rev@.len();
        match rev.pop() {
            Some(x) => {
                let mut x = x;
                proof {
                    assert(all.take(k + 1).drop_last() =~= all.take(k));
                    assert(all.take(k + 1).last() == x);
                }
                out.append(&mut x);
            }
            None => {}
        }
    }
    proof { assert(all.take(all.len() as int) =~= all); }
    out
}
@@end
