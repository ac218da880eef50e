// ---- indexmap: insertion-ordered set and map (assumed contract of the dependency) ----
// The view is the sequence of entries in insertion order; keys are pairwise different.  Equality of keys is
// specification equality (the keys' derived Eq and Hash agree with it).
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct IndexSet<T> { v: Vec<T> }
pub open spec fn is_in<T>(s: Seq<T>, x: T) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == x }
pub open spec fn set_add<T>(s: Seq<T>, x: T) -> Seq<T> { if is_in(s, x) { s } else { s.push(x) } }
impl<T> IndexSet<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    pub axiom fn ax_set(&self) ensures forall|i: int, j: int| 0 <= i < j < self@.len() ==> #[trigger] self@[i] != #[trigger] self@[j];
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: T) -> (r: bool) ensures final(self)@ == set_add(old(self)@, x), r == !is_in(old(self)@, x) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, x: &T) -> (r: Option<&T>) ensures r is Some <==> is_in(self@, *x), r is Some ==> *r->Some_0 == *x { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
impl<T> vstd::std_specs::core::IndexSpecImpl<usize> for IndexSet<T> { open spec fn index_req(&self, i: &usize) -> bool { *i < self@.len() } }
impl<T> std::ops::Index<usize> for IndexSet<T> { type Output = T;
    #[verifier::external_body]
    fn index(&self, i: usize) -> (r: &T) ensures *r == self@[i as int] { unimplemented!() } }

#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct IndexMap<K, V> { v: Vec<(K, V)> }
pub open spec fn im_at<K, V>(s: Seq<(K, V)>, k: K, i: int) -> bool { 0 <= i < s.len() && s[i].0 == k }
pub open spec fn im_has<K, V>(s: Seq<(K, V)>, k: K) -> bool { exists|i: int| #[trigger] im_at(s, k, i) }
pub open spec fn im_ix<K, V>(s: Seq<(K, V)>, k: K) -> int { choose|i: int| #[trigger] im_at(s, k, i) }
pub open spec fn im_val<K, V>(s: Seq<(K, V)>, k: K) -> V { s[im_ix(s, k)].1 }
pub open spec fn im_put<K, V>(s: Seq<(K, V)>, k: K, v: V) -> Seq<(K, V)> { if im_has(s, k) { s.update(im_ix(s, k), (k, v)) } else { s.push((k, v)) } }
impl<K, V> IndexMap<K, V> {
    pub uninterp spec fn view(&self) -> Seq<(K, V)>;
    pub axiom fn ax_map(&self) ensures forall|i: int, j: int| 0 <= i < j < self@.len() ==> (#[trigger] self@[i]).0 != (#[trigger] self@[j]).0;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<(K, V)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == im_put(old(self)@, k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r is Some <==> im_has(self@, *k), r is Some ==> *r->Some_0 == im_val(self@, *k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures r is Some <==> im_has(old(self)@, *k),
            match r { Some(b) => *b == im_val(old(self)@, *k) && final(self)@ == im_put(old(self)@, *k, *final(b)), None => final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
impl<K, V> vstd::std_specs::core::IndexSpecImpl<usize> for IndexMap<K, V> { open spec fn index_req(&self, i: &usize) -> bool { *i < self@.len() } }
impl<K, V> std::ops::Index<usize> for IndexMap<K, V> { type Output = (K, V);
    #[verifier::external_body]
    fn index(&self, i: usize) -> (r: &(K, V)) ensures *r == self@[i as int] { unimplemented!() } }
// derived Clone: the clone is the value (a Vec is identified with its contents)
impl<K, V> Clone for IndexMap<K, V> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub proof fn l_im_put<K, V>(s: Seq<(K, V)>, k: K, v: V)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    ensures im_has(im_put(s, k, v), k), im_val(im_put(s, k, v), k) == v,
        forall|q: K| q != k ==> (#[trigger] im_has(im_put(s, k, v), q) <==> im_has(s, q)),
        forall|q: K| q != k && im_has(s, q) ==> #[trigger] im_val(im_put(s, k, v), q) == im_val(s, q),
        forall|i: int, j: int| 0 <= i < j < im_put(s, k, v).len() ==> (#[trigger] im_put(s, k, v)[i]).0 != (#[trigger] im_put(s, k, v)[j]).0
{
    let t = im_put(s, k, v); let i0 = im_ix(s, k);
    if im_has(s, k) { assert(im_at(s, k, i0)); assert(im_at(t, k, i0)); } else { assert(im_at(t, k, s.len() as int)); }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0 != (#[trigger] t[j]).0 by {
        if im_has(s, k) { assert(t[i].0 == s[i].0 && t[j].0 == s[j].0); } else { assert(i < s.len() ==> t[i] == s[i]); if j == s.len() { if s[i].0 == k { assert(im_at(s, k, i)); } } else { assert(t[j] == s[j]); } }
    }
    assert(im_at(t, k, im_ix(t, k)));
    if im_has(s, k) { let a = im_ix(t, k); if a < i0 { assert(t[a].0 != t[i0].0); } if i0 < a { assert(t[i0].0 != t[a].0); } }
    else { let a = im_ix(t, k); if a < s.len() { assert(im_at(s, k, a)); } }
    assert forall|q: K| q != k implies (#[trigger] im_has(t, q) <==> im_has(s, q)) by {
        if im_has(t, q) { let a = im_ix(t, q); assert(im_at(t, q, a)); assert(im_at(s, q, a)); }
        if im_has(s, q) { let a = im_ix(s, q); assert(im_at(s, q, a)); assert(im_at(t, q, a)); }
    }
    assert forall|q: K| q != k && im_has(s, q) implies #[trigger] im_val(t, q) == im_val(s, q) by {
        let a = im_ix(s, q); assert(im_at(s, q, a)); assert(im_at(t, q, a)); let b = im_ix(t, q); assert(im_at(t, q, b));
        if a < b { assert(t[a].0 != t[b].0); } if b < a { assert(t[b].0 != t[a].0); }
    }
}
