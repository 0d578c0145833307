#![allow(unused_imports, unused_variables, unused_mut, dead_code, non_snake_case, unreachable_code, unused_parens, unused_braces, unused_assignments, unreachable_patterns, non_camel_case_types)]
use vstd::prelude::*;
use vstd::seq::*;
pub mod sess {
use super::*;
verus! {
global size_of usize == 8;
// ===================================================================================
// Stubs for dependency types (assumed contracts, listed in the evidence).
//
// Shared cells (`Cell<T>` = Rc<UnsafeCell<T>>): a cell is the value it holds. Every method is verified against the state it
// reaches through its own receiver; what other holders of the cell do happens between calls and at `.await` (see await_).
// Channels: `Sender::resolved` is what the sender is eventually used for (a prophecy: senders are consumed by `send`).
// ===================================================================================
pub type Cell<T> = T;
pub fn cell_new_<T>(v: T) -> (r: T) ensures r == v { v }
pub trait CellX: Sized {
    fn get_ref(&self) -> (r: &Self) ensures r == self;
    fn get_mut(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(r) == *final(self);
}
impl CellX for SessionInner { fn get_ref(&self) -> (r: &Self) { self } fn get_mut(&mut self) -> (r: &mut Self) { self } }
impl CellX for SenderLinkInner { fn get_ref(&self) -> (r: &Self) { self } fn get_mut(&mut self) -> (r: &mut Self) { self } }
impl CellX for ReceiverLinkInner { fn get_ref(&self) -> (r: &Self) { self } fn get_mut(&mut self) -> (r: &mut Self) { self } }
impl CellX for ConnectionInner { fn get_ref(&self) -> (r: &Self) { self } fn get_mut(&mut self) -> (r: &mut Self) { self } }
impl CellX for FrameInner { fn get_ref(&self) -> (r: &Self) { self } fn get_mut(&mut self) -> (r: &mut Self) { self } }
/// `clone` of immutable data and of shared handles
pub trait CloneX: Sized { fn clone(&self) -> (r: Self) ensures r == *self; }
impl CloneX for SessionInner { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl CloneX for SenderLinkInner { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl CloneX for ReceiverLinkInner { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl CloneX for ConnectionInner { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl CloneX for Session { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl CloneX for SenderLink { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl CloneX for ReceiverLink { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl CloneX for ConnectionRef { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl CloneX for Bytes { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl CloneX for ByteString { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl CloneX for Error { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl CloneX for AmqpProtocolError { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl CloneX for Source { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl CloneX for Target { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl CloneX for DeliveryState { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl CloneX for Attach { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl CloneX for Detach { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl CloneX for Flow { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl CloneX for Symbol { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl<T: CloneX> CloneX for Option<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
pub fn replace<T>(d: &mut T, v: T) -> (r: T) ensures r == *old(d), *final(d) == v { unimplemented!() }
pub enum Either<A, B> { Left(A), Right(B) }

pub struct Bytes { pub s: Ghost<Seq<u8>> }
impl View for Bytes { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.s@ } }
impl Bytes {
    pub fn r_(&self) -> (r: &Bytes) ensures r == self { self }
    #[verifier::external_body]
    pub fn new() -> (r: Bytes) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn split_to(&mut self, n: usize) -> (r: Bytes) requires n <= old(self)@.len()
        ensures r@ == old(self)@.subrange(0, n as int), final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
}
pub struct BytesMut { pub s: Ghost<Seq<u8>> }
impl View for BytesMut { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.s@ } }
impl BytesMut {
    #[verifier::external_body]
    pub fn copy_from_slice(b: &Bytes) -> (r: BytesMut) ensures r@ == b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn freeze(self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn put_slice(&mut self, v: &Bytes) ensures final(self)@ == old(self)@ + v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn put_u32(&mut self, v: u32) ensures final(self)@ == old(self)@ + be4(v) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_u8(&mut self, v: u8) ensures final(self)@ == old(self)@.push(v) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_u16(&mut self, v: u16) ensures final(self)@ == old(self)@ + seq![(v / 256) as u8, (v % 256) as u8] { unimplemented!() }
    #[verifier::external_body]
    pub fn put_u64(&mut self, v: u64) ensures final(self)@ == old(self)@ + (be4((v / 0x1_0000_0000) as u32) + be4((v % 0x1_0000_0000) as u32)) { unimplemented!() }
}
pub open spec fn be4(v: u32) -> Seq<u8> { seq![(v / 0x100_0000) as u8, (v / 0x1_0000 % 256) as u8, (v / 256 % 256) as u8, (v % 256) as u8] }

pub struct StaticStr { pub s: Ghost<Seq<u8>> }
impl StaticStr {
    #[verifier::external_body]
    pub fn lit_(a: Ghost<Seq<u8>>) -> (r: StaticStr) ensures r.s@ == a@ { unimplemented!() }
}
pub struct ByteString { pub s: Ghost<Seq<u8>> }
impl View for ByteString { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.s@ } }
impl ByteString {
    #[verifier::external_body]
    pub fn from_lit_(s: StaticStr) -> (r: ByteString) ensures r@ == s.s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn trimdown(&mut self) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= isize::MAX { unimplemented!() }
}

// ------------------------------------------------------------------ containers
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Vec<T> { t: std::marker::PhantomData<T> }
impl<T> View for Vec<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VecDeque<T> { t: std::marker::PhantomData<T> }
impl<T> View for VecDeque<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> VecDeque<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, v: T) ensures final(self)@ == old(self)@.push(v) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures match r { Some(v) => old(self)@.len() > 0 && v == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && *final(self) == *old(self) } { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, i: usize) -> (r: Option<T>)
        ensures match r { Some(v) => i < old(self)@.len() && v == old(self)@[i as int] && final(self)@ == old(self)@.remove(i as int), None => i >= old(self)@.len() && *final(self) == *old(self) } { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn back(&self) -> (r: Option<&T>) ensures match r { Some(v) => self@.len() > 0 && *v == self@.last(), None => self@.len() == 0 } { unimplemented!() }
    #[verifier::external_body]
    pub fn back_mut(&mut self) -> (r: Option<&mut T>)
        ensures match r { Some(v) => old(self)@.len() > 0 && *v == old(self)@.last() && final(self)@ == old(self)@.drop_last().push(*final(v)), None => old(self)@.len() == 0 && *final(self) == *old(self) } { unimplemented!() }
    #[verifier::external_body]
    pub fn index_(&self, i: usize) -> (r: &T) requires i < self@.len() ensures *r == self@[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn drain_(&mut self) -> (r: Drain<T>) ensures r.all() == old(self)@, r.pos() == 0, final(self)@ == Seq::<T>::empty() { unimplemented!() }
}
/// the elements taken out by `drain`
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Drain<T> { t: std::marker::PhantomData<T> }
impl<T> Drain<T> {
    pub uninterp spec fn all(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.all().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn next_(&mut self) -> (r: T) requires old(self).pos() < old(self).all().len()
        ensures r == old(self).all()[old(self).pos() as int], final(self).all() == old(self).all(), final(self).pos() == old(self).pos() + 1 { unimplemented!() }
}
/// the keys of a map: each exactly once
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
pub struct Keys<K> { t: std::marker::PhantomData<K> }
impl<K> View for Keys<K> { type V = Seq<K>; uninterp spec fn view(&self) -> Seq<K>; }
impl<K> Keys<K> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn at_(&self, i: usize) -> (r: K) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { t: std::marker::PhantomData<(K, V)> }
impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r { Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)) && (*final(v) == *v ==> *final(self) == *old(self)), None => !old(self)@.contains_key(*k) && *final(self) == *old(self) } { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn keys_(&self) -> (r: Keys<K>) ensures r@.no_duplicates(), forall|k: K| #[trigger] self@.contains_key(k) <==> r@.contains(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn at_mut_(&mut self, k: K) -> (r: &mut V) requires old(self)@.contains_key(k)
        ensures *r == old(self)@[k], final(self)@ == old(self)@.insert(k, *final(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn drain_(&mut self) -> (r: Drain<(K, V)>)
        ensures r.pos() == 0, final(self)@ == Map::<K, V>::empty(),
            forall|i: int| 0 <= i < r.all().len() ==> old(self)@.contains_key((#[trigger] r.all()[i]).0) && old(self)@[r.all()[i].0] == r.all()[i].1,
            forall|k: K| #[trigger] old(self)@.contains_key(k) ==> exists|i: int| 0 <= i < r.all().len() && (#[trigger] r.all()[i]).0 == k { unimplemented!() }
}
impl<K> HashMap<K, usize> {
    /// retain(|_, x| *x != v)
    #[verifier::external_body]
    pub fn retain_ne_(&mut self, v: usize) ensures forall|k: K| #[trigger] final(self)@.contains_key(k) <==> (old(self)@.contains_key(k) && old(self)@[k] != v), forall|k: K| #[trigger] final(self)@.contains_key(k) ==> final(self)@[k] == old(self)@[k] { unimplemented!() }
    #[verifier::external_body]
    pub fn retain_eq_(&mut self, v: usize) ensures forall|k: K| #[trigger] final(self)@.contains_key(k) <==> (old(self)@.contains_key(k) && old(self)@[k] == v), forall|k: K| #[trigger] final(self)@.contains_key(k) ==> final(self)@[k] == old(self)@[k] { unimplemented!() }
}
impl<T> Vec<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, v: T) ensures final(self)@ == old(self)@.push(v) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= isize::MAX { unimplemented!() }
}
/// entries of a slab, in key order
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct SlabIter<T> { t: std::marker::PhantomData<T> }
impl<T> View for SlabIter<T> { type V = Seq<usize>; uninterp spec fn view(&self) -> Seq<usize>; }
impl<T> SlabIter<T> {
    pub uninterp spec fn map(&self) -> Map<usize, T>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn index_(&self, i: usize) -> (r: (usize, &T)) requires i < self@.len() ensures r.0 == self@[i as int], *r.1 == self.map()[r.0] { unimplemented!() }
}
/// slab::Slab: a map from small keys
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Slab<T> { t: std::marker::PhantomData<T> }
#[derive(Clone, Copy)]
pub struct VacantEntry { pub key: usize }
impl VacantEntry { pub fn key(&self) -> (r: usize) ensures r == self.key { self.key } }
impl<T> View for Slab<T> { type V = Map<usize, T>; uninterp spec fn view(&self) -> Map<usize, T>; }
impl<T> Slab<T> {
    /// key the next insertion gets
    pub uninterp spec fn next(&self) -> usize;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<usize, T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<usize, T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: usize) -> (r: Option<&T>) ensures match r { Some(v) => self@.contains_key(k) && *v == self@[k], None => !self@.contains_key(k) } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: usize) -> (r: Option<&mut T>)
        ensures match r { Some(v) => old(self)@.contains_key(k) && *v == old(self)@[k] && final(self)@ == old(self)@.insert(k, *final(v)) && (*final(v) == *v ==> *final(self) == *old(self)), None => !old(self)@.contains_key(k) && *final(self) == *old(self) } { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: usize) -> (r: bool) ensures r == self@.contains_key(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, v: T) -> (r: usize) ensures r == old(self).next(), !old(self)@.contains_key(r), final(self)@ == old(self)@.insert(r, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: usize) -> (r: T) requires old(self)@.contains_key(k) ensures r == old(self)@[k], final(self)@ == old(self)@.remove(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<usize, T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn iter_(&self) -> (r: SlabIter<T>) ensures r.map() == self@, r@.no_duplicates(), forall|k: usize| #[trigger] self@.contains_key(k) <==> r@.contains(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn vacant_entry(&self) -> (r: VacantEntry) ensures r.key == self.next(), !self@.contains_key(r.key) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_at_(&mut self, e: VacantEntry, v: T) requires e.key == old(self).next() ensures final(self)@ == old(self)@.insert(e.key, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn keys_(&self) -> (r: Keys<usize>) ensures r@.no_duplicates(), forall|k: usize| #[trigger] self@.contains_key(k) <==> r@.contains(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn at_mut_(&mut self, k: usize) -> (r: &mut T) requires old(self)@.contains_key(k)
        ensures *r == old(self)@[k], final(self)@ == old(self)@.insert(k, *final(r)) { unimplemented!() }
}
pub trait OptX<T> { spec fn v_(&self) -> Option<T>; fn copied_(self) -> (r: Option<T>) where Self: Sized ensures r == self.v_(); fn cloned_(self) -> (r: Option<T>) where Self: Sized ensures r == self.v_(); }
impl<T> OptX<T> for Option<&T> {
    open spec fn v_(&self) -> Option<T> { match *self { Some(x) => Some(*x), None => None } }
    #[verifier::external_body]
    fn copied_(self) -> (r: Option<T>) { unimplemented!() }
    #[verifier::external_body]
    fn cloned_(self) -> (r: Option<T>) { unimplemented!() }
}

// ------------------------------------------------------------------ channels, notifications
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Sender<T> { t: std::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Receiver<T> { t: std::marker::PhantomData<T> }
pub struct Canceled {}
impl<T> Sender<T> {
    /// what is eventually sent (None: dropped without sending, the receiver sees `Canceled`)
    pub uninterp spec fn resolved(&self) -> Option<T>;
    #[verifier::external_body]
    pub fn send(self, v: T) -> (r: Result<(), T>) ensures self.resolved() == Some(v) { unimplemented!() }
}
impl<T> Receiver<T> { pub uninterp spec fn of(&self) -> Sender<T>; }
#[verifier::external_body]
pub fn channel<T>() -> (r: (Sender<T>, Receiver<T>)) ensures r.1.of() == r.0 { unimplemented!() }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Pool<T> { t: std::marker::PhantomData<T> }
impl<T> Pool<T> {
    #[verifier::external_body]
    pub fn channel(&self) -> (r: (Sender<T>, Receiver<T>)) ensures r.1.of() == r.0 { unimplemented!() }
}
#[verifier::external_body]
pub fn pool_channel_<T>() -> (r: (Sender<T>, Receiver<T>)) ensures r.1.of() == r.0 { unimplemented!() }
#[verifier::external_body]
pub fn pool_new_<T>() -> (r: Pool<T>) { unimplemented!() }
/// ntex_util Condition: `n`: number of notifications
pub struct Condition { pub id: Ghost<int>, pub n: Ghost<nat> }
/// every present and future waiter of the condition is released for good
pub uninterp spec fn cond_released(id: int) -> bool;
pub struct Waiter { pub id: Ghost<int> }
impl Condition {
    pub open spec fn released(&self) -> bool { cond_released(self.id@) }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.n@ == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn notify_and_lock_readiness(&mut self) ensures final(self).released(), *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn notify(&mut self) ensures final(self).n@ == old(self).n@ + 1, final(self).id == old(self).id { unimplemented!() }
    #[verifier::external_body]
    pub fn wait(&self) -> (r: Waiter) ensures r.id == self.id { unimplemented!() }
}
/// an async block (its body is not run by the function that creates it)
pub struct AsyncBlk {}
#[verifier::external_body]
pub fn __async_() -> (r: AsyncBlk) { unimplemented!() }
#[verifier::external_body]
pub fn __panic<T>() -> (r: T) requires false { unimplemented!() }
pub struct U32Try { pub v: u64 }
pub fn __u32_try_from(v: u64) -> (r: U32Try) ensures r.v == v { U32Try { v } }
impl U32Try { pub fn unwrap_or(self, d: u32) -> (r: u32) ensures r == (if self.v <= u32::MAX { self.v as u32 } else { d }) { if self.v <= 0xffff_ffff { self.v as u32 } else { d } } }
pub trait MinX: Sized + Copy { spec fn min_(a: Self, b: Self) -> Self; fn min_x(a: Self, b: Self) -> (r: Self) ensures r == Self::min_(a, b); }
impl MinX for usize { open spec fn min_(a: usize, b: usize) -> usize { if a <= b { a } else { b } } fn min_x(a: usize, b: usize) -> (r: usize) { if a <= b { a } else { b } } }
impl MinX for u16 { open spec fn min_(a: u16, b: u16) -> u16 { if a <= b { a } else { b } } fn min_x(a: u16, b: u16) -> (r: u16) { if a <= b { a } else { b } } }
pub fn min<T: MinX>(a: T, b: T) -> (r: T) ensures r == T::min_(a, b) { T::min_x(a, b) }
impl MinX for u32 { open spec fn min_(a: u32, b: u32) -> u32 { if a <= b { a } else { b } } fn min_x(a: u32, b: u32) -> (r: u32) { if a <= b { a } else { b } } }
