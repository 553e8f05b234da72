// Trusted contracts for the Rust standard library as used by fledger.  Nothing in this file is
// fledger code.  `It<T>` stands for any finished iterator: a sequence of the items still to come.
#![allow(unused)]
use vstd::prelude::*;
pub mod vp {
use vstd::prelude::*;
verus! {

pub use std::cmp::Ordering;
#[derive(Debug)]
pub struct VErr { pub code: u64 }
pub type VResult<T> = Result<T, VErr>;
#[verifier::external_body]
pub fn vx_err() -> (r: VErr) { unimplemented!() }
#[verifier::external_body]
pub fn vx_string() -> (r: String) { unimplemented!() }

// ---------------------------------------------------------------- sequences behind iterators
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct It<T> { pub v: Vec<T> }

/// The n items of an output come from distinct positions of an input of length m: `fwd[j]` is where
/// input j went (negative: dropped), `bwd[i]` is where output i came from.
pub open spec fn emb(m: int, n: int, fwd: Seq<int>, bwd: Seq<int>) -> bool {
    &&& fwd.len() == m && bwd.len() == n && n <= m
    &&& forall|j: int| 0 <= j < m ==> (#[trigger] fwd[j]) < n && (fwd[j] >= 0 ==> bwd[fwd[j]] == j)
    &&& forall|i: int| 0 <= i < n ==> 0 <= (#[trigger] bwd[i]) < m && fwd[bwd[i]] == i
}
pub open spec fn increasing(bwd: Seq<int>) -> bool {
    forall|i: int, j: int| 0 <= i < j < bwd.len() ==> (#[trigger] bwd[i]) < (#[trigger] bwd[j])
}
/// r is the subsequence of s given by fwd / bwd.
pub open spec fn filt<T>(s: Seq<T>, r: Seq<T>, fwd: Seq<int>, bwd: Seq<int>) -> bool {
    &&& emb(s.len() as int, r.len() as int, fwd, bwd)
    &&& increasing(bwd)
    &&& forall|i: int| #![trigger r[i]] #![trigger bwd[i]] 0 <= i < r.len() ==> 0 <= bwd[i] < s.len() && s[bwd[i]] == r[i] && fwd[bwd[i]] == i
    &&& forall|j: int| #![trigger s[j]] #![trigger fwd[j]] 0 <= j < s.len() ==> fwd[j] < r.len() && (fwd[j] >= 0 ==> r[fwd[j]] == s[j] && bwd[fwd[j]] == j)
}
/// r is a reordering of s.
pub open spec fn reord<T>(s: Seq<T>, r: Seq<T>, fwd: Seq<int>, bwd: Seq<int>) -> bool {
    &&& r.len() == s.len()
    &&& emb(s.len() as int, r.len() as int, fwd, bwd)
    &&& forall|i: int| #![trigger r[i]] #![trigger bwd[i]] 0 <= i < r.len() ==> 0 <= bwd[i] < s.len() && s[bwd[i]] == r[i] && fwd[bwd[i]] == i
    &&& forall|j: int| #![trigger s[j]] #![trigger fwd[j]] 0 <= j < s.len() ==> 0 <= fwd[j] < r.len() && r[fwd[j]] == s[j] && bwd[fwd[j]] == j
}
/// r holds the first occurrence of every value of s, in order.
pub open spec fn uniq<T>(s: Seq<T>, r: Seq<T>, fwd: Seq<int>, bwd: Seq<int>) -> bool {
    &&& fwd.len() == s.len() && bwd.len() == r.len() && r.len() <= s.len()
    &&& increasing(bwd)
    &&& no_dup(r)
    &&& forall|i: int| #![trigger r[i]] #![trigger bwd[i]] 0 <= i < r.len() ==> 0 <= bwd[i] < s.len() && s[bwd[i]] == r[i] && fwd[bwd[i]] == i
    &&& forall|j: int| #![trigger s[j]] #![trigger fwd[j]] 0 <= j < s.len() ==> 0 <= fwd[j] < r.len() && r[fwd[j]] == s[j] && bwd[fwd[j]] <= j
}

pub open spec fn no_dup<T>(s: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j] }
/// Subsequences keep membership and absence of duplicates (proved, not assumed).
pub broadcast proof fn lemma_filt<T>(s: Seq<T>, r: Seq<T>, fwd: Seq<int>, bwd: Seq<int>)
    requires #[trigger] filt(s, r, fwd, bwd),
    ensures no_dup(s) ==> no_dup(r),
{
    if no_dup(s) {
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies r[i] != r[j] by { assert(bwd[i] < bwd[j]); assert(s[bwd[i]] == r[i] && s[bwd[j]] == r[j]); }
    }
}
pub broadcast proof fn lemma_push_contains<T>(s: Seq<T>, a: T, b: T)
    ensures #[trigger] s.push(a).contains(b) <==> s.contains(b) || a == b,
{
    if s.contains(b) { let j = choose|j: int| 0 <= j < s.len() && s[j] == b; assert(s.push(a)[j] == b); }
    if a == b { assert(s.push(a)[s.len() as int] == b); }
    if s.push(a).contains(b) && a != b { let j = choose|j: int| 0 <= j < s.push(a).len() && s.push(a)[j] == b; assert(s[j] == b); }
}
pub open spec fn views(p: Seq<&[u8]>) -> Seq<Seq<u8>> { Seq::new(p.len(), |i: int| p[i]@) }
pub broadcast proof fn lemma_views(p: Seq<&[u8]>)
    ensures p.len() == 0 ==> (#[trigger] views(p)) == Seq::<Seq<u8>>::empty(), p.len() == 1 ==> views(p) == seq![p[0]@], p.len() == 2 ==> views(p) == seq![p[0]@, p[1]@],
        p.len() == 3 ==> views(p) == seq![p[0]@, p[1]@, p[2]@], p.len() == 4 ==> views(p) == seq![p[0]@, p[1]@, p[2]@, p[3]@],
{
    if p.len() == 0 { assert(views(p) =~= Seq::<Seq<u8>>::empty()); }
    if p.len() == 1 { assert(views(p) =~= seq![p[0]@]); }
    if p.len() == 2 { assert(views(p) =~= seq![p[0]@, p[1]@]); }
    if p.len() == 3 { assert(views(p) =~= seq![p[0]@, p[1]@, p[2]@]); }
    if p.len() == 4 { assert(views(p) =~= seq![p[0]@, p[1]@, p[2]@, p[3]@]); }
}
pub open spec fn sum_nat(s: Seq<int>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { sum_nat(s.drop_last()) + s.last() }
}

pub open spec fn flat_of<C: IntoIt>(outs: Seq<C>) -> Seq<C::Item> decreases outs.len() { if outs.len() == 0 { Seq::empty() } else { flat_of(outs.drop_last()) + outs.last().into_seq() } }
pub open spec fn in_some<C: IntoIt>(outs: Seq<C>, x: C::Item, i: int) -> bool { 0 <= i < outs.len() && outs[i].into_seq().contains(x) }
pub broadcast proof fn lemma_flat_of<C: IntoIt>(outs: Seq<C>, x: C::Item)
    ensures #[trigger] flat_of(outs).contains(x) <==> exists|i: int| #[trigger] in_some(outs, x, i),
    decreases outs.len(),
{
    if outs.len() > 0 {
        let (p, q) = (flat_of(outs.drop_last()), outs.last().into_seq());
        let n = outs.len() - 1;
        lemma_flat_of(outs.drop_last(), x);
        if (p + q).contains(x) {
            let j = choose|j: int| 0 <= j < (p + q).len() && (p + q)[j] == x;
            if j < p.len() { assert(p[j] == x); let i = choose|i: int| #[trigger] in_some(outs.drop_last(), x, i); assert(in_some(outs, x, i)); }
            else { assert(q[j - p.len()] == x); assert(in_some(outs, x, n)); }
        }
        if exists|i: int| #[trigger] in_some(outs, x, i) {
            let i = choose|i: int| #[trigger] in_some(outs, x, i);
            if i == n { let j = choose|j: int| 0 <= j < q.len() && q[j] == x; assert((p + q)[p.len() + j] == x); }
            else { assert(in_some(outs.drop_last(), x, i)); let j = choose|j: int| 0 <= j < p.len() && p[j] == x; assert((p + q)[j] == x); }
        }
    }
}
/// If every part has one item, the joined parts are these items.
pub open spec fn ones<C: IntoIt>(outs: Seq<C>) -> bool { forall|i: int| 0 <= i < outs.len() ==> (#[trigger] outs[i]).into_seq().len() == 1 }
pub proof fn lemma_ones<C: IntoIt>(outs: Seq<C>)
    requires ones(outs),
    ensures flat_of(outs).len() == outs.len(), forall|i: int| 0 <= i < outs.len() ==> (#[trigger] flat_of(outs)[i]) == outs[i].into_seq()[0],
    decreases outs.len(),
{
    if outs.len() > 0 {
        assert(outs[outs.len() - 1].into_seq().len() == 1);
        assert forall|i: int| 0 <= i < outs.drop_last().len() implies (#[trigger] outs.drop_last()[i]).into_seq().len() == 1 by { assert(outs[i].into_seq().len() == 1); }
        lemma_ones(outs.drop_last());
        assert forall|i: int| 0 <= i < outs.len() implies (#[trigger] flat_of(outs)[i]) == outs[i].into_seq()[0] by { if i < outs.len() - 1 { assert(flat_of(outs.drop_last())[i] == outs.drop_last()[i].into_seq()[0]); } }
    }
}
impl<T> View for It<T> {
    type V = Seq<T>;
    uninterp spec fn view(&self) -> Seq<T>;
}

impl<T> It<T> {
    #[verifier::external_body]
    pub fn map<U, F: FnMut(T) -> U>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] call_requires(f, (self@[i],)),
        ensures r@.len() == self@.len(),
            forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), r@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_filter<F: FnMut(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] call_requires(f, (&self@[i],)),
        ensures exists|fwd: Seq<int>, bwd: Seq<int>| #![trigger filt(self@, r@, fwd, bwd)] filt(self@, r@, fwd, bwd)
            && (forall|j: int| #![trigger self@[j]] #![trigger fwd[j]] 0 <= j < self@.len() ==> call_ensures(f, (&self@[j],), fwd[j] >= 0)),
            r@.len() > 0 ==> call_ensures(f, (&r@[0],), true),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_filter_map<U, F: FnMut(T) -> Option<U>>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] call_requires(f, (self@[i],)),
        ensures exists|fwd: Seq<int>, bwd: Seq<int>| #![trigger emb(self@.len() as int, r@.len() as int, fwd, bwd)] emb(self@.len() as int, r@.len() as int, fwd, bwd) && increasing(bwd)
            && (forall|j: int| #![trigger self@[j]] #![trigger fwd[j]] 0 <= j < self@.len() ==> call_ensures(f, (self@[j],), if fwd[j] >= 0 { Some(r@[fwd[j]]) } else { None }))
            && (forall|i: int| #![trigger r@[i]] #![trigger bwd[i]] 0 <= i < r@.len() ==> 0 <= bwd[i] < self@.len() && fwd[bwd[i]] == i && call_ensures(f, (self@[bwd[i]],), Some(r@[i]))),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_collect<C: FromSeq<T>>(self) -> (r: C)
        ensures r.from_seq(self@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_any<F: FnMut(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> #[trigger] call_requires(f, (old(self)@[i],)),
        ensures r ==> exists|i: int| 0 <= i < old(self)@.len() && call_ensures(f, (#[trigger] old(self)@[i],), true),
            !r ==> forall|i: int| 0 <= i < old(self)@.len() ==> call_ensures(f, (#[trigger] old(self)@[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_all<F: FnMut(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> #[trigger] call_requires(f, (old(self)@[i],)),
        ensures !r ==> exists|i: int| 0 <= i < old(self)@.len() && call_ensures(f, (#[trigger] old(self)@[i],), false),
            r ==> forall|i: int| 0 <= i < old(self)@.len() ==> call_ensures(f, (#[trigger] old(self)@[i],), true),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_find<F: FnMut(&T) -> bool>(&mut self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> #[trigger] call_requires(f, (&old(self)@[i],)),
        ensures
            r matches Some(x) ==> exists|i: int| 0 <= i < old(self)@.len() && x == #[trigger] old(self)@[i] && call_ensures(f, (&x,), true)
                && forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] old(self)@[j],), false),
            r is None ==> forall|i: int| 0 <= i < old(self)@.len() ==> call_ensures(f, (&#[trigger] old(self)@[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_position<F: FnMut(T) -> bool>(&mut self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> #[trigger] call_requires(f, (old(self)@[i],)),
        ensures
            r matches Some(i) ==> i < old(self)@.len() && call_ensures(f, (old(self)@[i as int],), true)
                && forall|j: int| 0 <= j < i ==> call_ensures(f, (#[trigger] old(self)@[j],), false),
            r is None ==> forall|i: int| 0 <= i < old(self)@.len() ==> call_ensures(f, (#[trigger] old(self)@[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_count(self) -> (r: usize)
        ensures r == self@.len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_last(self) -> (r: Option<T>)
        ensures
            self@.len() == 0 ==> r is None,
            self@.len() > 0 ==> r == Some(self@[self@.len() - 1]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_rev(self) -> (r: It<T>)
        ensures r@ == self@.reverse(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_take(self, n: usize) -> (r: It<T>)
        ensures r@ == self@.take(if n <= self@.len() { n as int } else { self@.len() as int }),
    { unimplemented!() }
    /// The items up to the first one for which f is false.
    #[verifier::external_body]
    pub fn vx_take_while<F: FnMut(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|x: &T| #[trigger] call_requires(f, (x,)),
        ensures r@.len() <= self@.len(), r@ == self@.take(r@.len() as int),
            forall|i: int| 0 <= i < r@.len() ==> call_ensures(f, (&#[trigger] r@[i],), true),
            r@.len() < self@.len() ==> call_ensures(f, (&self@[r@.len() as int],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_skip(self, n: usize) -> (r: It<T>)
        ensures r@ == self@.skip(if n <= self@.len() { n as int } else { self@.len() as int }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_enumerate(self) -> (r: It<(usize, T)>)
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> r@[i] == (i as usize, self@[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_chain<U: IntoIt<Item = T>>(self, o: U) -> (r: It<T>)
        ensures r@ == self@ + o.into_seq(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_flat_map<C: IntoIt, F: FnMut(T) -> C>(self, f: F) -> (r: It<C::Item>)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] call_requires(f, (self@[i],)),
        ensures exists|outs: Seq<C>| #![trigger flat_of(outs)] outs.len() == self@.len() && r@ == flat_of(outs) && (forall|i: int| 0 <= i < outs.len() ==> call_ensures(f, (self@[i],), #[trigger] outs[i])),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_inspect<F: FnMut(&T)>(self, f: F) -> (r: It<T>)
        ensures r@ == self@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_iter(self) -> (r: It<T>)
        ensures r@ == self@,
    { unimplemented!() }
}

impl<'a, T> It<&'a mut T> {
    /// `take` of an `iter_mut`: what is not taken stays as it is.
    #[verifier::external_body]
    pub fn vx_take_mut(self, n: usize) -> (r: It<&'a mut T>)
        ensures r@ == self@.take(if n <= self@.len() { n as int } else { self@.len() as int }),
            forall|i: int| n <= i < self@.len() ==> *final(#[trigger] self@[i]) == *self@[i],
    { unimplemented!() }
}
impl<'a, T> It<&'a T> {
    /// `cloned` / `copied`: Clone is taken to be a faithful copy.
    #[verifier::external_body]
    pub fn vx_cloned(self) -> (r: It<T>)
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> r@[i] == *self@[i],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_copied(self) -> (r: It<T>)
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> r@[i] == *self@[i],
    { unimplemented!() }
}

/// `sum` for the integer types fledger sums over (no overflow: the caller must show it).
pub trait Summable: Sized { spec fn as_i(&self) -> int; spec fn max_i() -> int; }
impl Summable for u64 { open spec fn as_i(&self) -> int { *self as int } open spec fn max_i() -> int { u64::MAX as int } }
impl Summable for usize { open spec fn as_i(&self) -> int { *self as int } open spec fn max_i() -> int { usize::MAX as int } }
impl Summable for u32 { open spec fn as_i(&self) -> int { *self as int } open spec fn max_i() -> int { u32::MAX as int } }
pub open spec fn as_ints<T: Summable>(s: Seq<T>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i].as_i()) }
impl<T: Summable> It<T> {
    #[verifier::external_body]
    pub fn vx_sum<R: Summable>(self) -> (r: R)
        requires sum_nat(as_ints(self@)) <= R::max_i(),
        ensures r.as_i() == sum_nat(as_ints(self@)),
    { unimplemented!() }
}

/// Order used by `sorted` / `sort*`.
pub open spec fn perm<T>(a: Seq<T>, b: Seq<T>) -> bool { a.to_multiset() == b.to_multiset() && a.len() == b.len() }

pub trait VxOrd: Sized { spec fn le(&self, o: &Self) -> bool; }
impl VxOrd for usize { open spec fn le(&self, o: &Self) -> bool { *self <= *o } }
impl VxOrd for u32 { open spec fn le(&self, o: &Self) -> bool { *self <= *o } }
impl VxOrd for u64 { open spec fn le(&self, o: &Self) -> bool { *self <= *o } }
impl<'a, T: VxOrd> VxOrd for &'a T { open spec fn le(&self, o: &Self) -> bool { (**self).le(*o) } }
impl<T: VxOrd> It<T> {
    #[verifier::external_body]
    pub fn vx_sorted(self) -> (r: It<T>)
        ensures exists|fwd: Seq<int>, bwd: Seq<int>| #[trigger] reord(self@, r@, fwd, bwd), perm(self@, r@),
            forall|i: int, j: int| #![trigger r@[i], r@[j]] 0 <= i <= j < r@.len() ==> r@[i].le(&r@[j]),
    { unimplemented!() }
}
impl<T> It<T> {
    /// `sorted_by`: no later item is less than an earlier one.
    #[verifier::external_body]
    pub fn vx_sorted_by<F: FnMut(&T, &T) -> Ordering>(self, f: F) -> (r: It<T>)
        requires forall|x: &T, y: &T| #[trigger] call_requires(f, (x, y)),
        ensures
            exists|fwd: Seq<int>, bwd: Seq<int>| #[trigger] reord(self@, r@, fwd, bwd),
            forall|i: int, j: int| #![trigger r@[i], r@[j]] 0 <= i < j < r@.len() ==>
                exists|o: Ordering| o != Ordering::Greater && #[trigger] call_ensures(f, (&r@[i], &r@[j]), o),
    { unimplemented!() }
    /// First occurrence of every value, in order.
    #[verifier::external_body]
    pub fn vx_unique(self) -> (r: It<T>)
        ensures exists|fwd: Seq<int>, bwd: Seq<int>| #[trigger] uniq(self@, r@, fwd, bwd),
    { unimplemented!() }
}
pub trait FromSeq<T>: Sized { spec fn from_seq(&self, s: Seq<T>) -> bool; }
impl<T> FromSeq<T> for Vec<T> { open spec fn from_seq(&self, s: Seq<T>) -> bool { self@ == s } }

// ---------------------------------------------------------------- for loops
pub trait IntoIt: Sized { type Item; spec fn into_seq(&self) -> Seq<Self::Item>; }
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
impl<T> IntoIt for Vec<T> { type Item = T; open spec fn into_seq(&self) -> Seq<T> { self@ } }
impl<'a, T> IntoIt for &'a Vec<T> { type Item = &'a T; open spec fn into_seq(&self) -> Seq<&'a T> { refs::<'a, T>(self@) } }
impl<'a, T> IntoIt for &'a [T] { type Item = &'a T; open spec fn into_seq(&self) -> Seq<&'a T> { refs::<'a, T>(self@) } }
impl<T> IntoIt for It<T> { type Item = T; open spec fn into_seq(&self) -> Seq<T> { self@ } }
impl IntoIt for std::ops::Range<usize> { type Item = usize;
    open spec fn into_seq(&self) -> Seq<usize> { range_seq(self.start, self.end) } }
impl IntoIt for std::ops::Range<u32> { type Item = u32;
    open spec fn into_seq(&self) -> Seq<u32> { if self.start >= self.end { Seq::empty() } else { Seq::new((self.end - self.start) as nat, |i: int| (self.start + i) as u32) } } }
pub open spec fn range_seq(a: usize, b: usize) -> Seq<usize> {
    if a >= b { Seq::empty() } else { Seq::new((b - a) as nat, |i: int| (a + i) as usize) } }

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ForIt<T> { pub v: Vec<T> }
impl<T> ForIt<T> {
    pub uninterp spec fn seq(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    pub open spec fn wf(&self) -> bool { 0 <= self.pos() <= self.seq().len() }
    pub open spec fn left(&self) -> int { self.seq().len() - self.pos() }
    #[verifier::external_body]
    pub fn has_more(&self) -> (r: bool)
        ensures r == (self.pos() < self.seq().len()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take_next(&mut self) -> (r: T)
        requires old(self).pos() < old(self).seq().len(), old(self).wf(),
        ensures r == old(self).seq()[old(self).pos()], final(self).seq() == old(self).seq(), final(self).pos() == old(self).pos() + 1, final(self).wf(),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_into<I: IntoIt>(i: I) -> (r: ForIt<I::Item>)
    ensures r.seq() == i.into_seq(), r.pos() == 0, r.wf(),
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_vec1<T>(x: T) -> (r: Vec<T>)
    ensures r@ == seq![x],
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_once<T>(x: T) -> (r: It<T>)
    ensures r@ == seq![x],
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_cmp_usize(a: &usize, b: &usize) -> (r: Ordering)
    ensures r == if *a < *b { Ordering::Less } else if *a == *b { Ordering::Equal } else { Ordering::Greater },
{ unimplemented!() }
pub trait VxMinMax: Sized {
    spec fn nn(&self) -> int;
    fn vx_max(self, o: Self) -> (r: Self) ensures r == if self.nn() > o.nn() { self } else { o };
    fn vx_min(self, o: Self) -> (r: Self) ensures r == if self.nn() > o.nn() { o } else { self };
}
impl VxMinMax for usize {
    open spec fn nn(&self) -> int { *self as int }
    fn vx_max(self, o: usize) -> usize { if self > o { self } else { o } }
    fn vx_min(self, o: usize) -> usize { if self > o { o } else { self } }
}
impl VxMinMax for u32 {
    open spec fn nn(&self) -> int { *self as int }
    fn vx_max(self, o: u32) -> u32 { if self > o { self } else { o } }
    fn vx_min(self, o: u32) -> u32 { if self > o { o } else { self } }
}
#[verifier::external_body]
pub fn vx_range(i: std::ops::Range<usize>) -> (r: It<usize>)
    ensures r@ == range_seq(i.start, i.end),
{ unimplemented!() }

// ---------------------------------------------------------------- Vec
/// A Vec takes at most isize::MAX bytes (used for items which are not zero-sized).
pub axiom fn axiom_vec_len<T>(v: Vec<T>) ensures v@.len() <= isize::MAX;
pub trait VxVec<T>: Sized {
    spec fn vs(&self) -> Seq<T>;
    fn vx_iter<'a>(&'a self) -> (r: It<&'a T>)
        ensures r@ == refs::<'a, T>(self.vs()),
            forall|i: int| #![trigger r@[i]] #![trigger self.vs()[i]] 0 <= i < self.vs().len() ==> r@[i] == &self.vs()[i];
    fn vx_into_iter(self) -> (r: It<T>)
        ensures r@ == self.vs();
    fn vx_retain<F: FnMut(&T) -> bool>(&mut self, f: F)
        requires forall|x: &T| #[trigger] call_requires(f, (x,)),
        ensures
            exists|fwd: Seq<int>, bwd: Seq<int>| #![trigger filt(old(self).vs(), final(self).vs(), fwd, bwd)] filt(old(self).vs(), final(self).vs(), fwd, bwd)
            && (forall|j: int| #![trigger old(self).vs()[j]] #![trigger fwd[j]] 0 <= j < old(self).vs().len() ==> call_ensures(f, (&old(self).vs()[j],), fwd[j] >= 0));
    fn vx_contains(&self, x: &T) -> (r: bool)
        ensures r == self.vs().contains(*x);
    fn vx_extend<U: IntoIt<Item = T>>(&mut self, o: U)
        ensures final(self).vs() == old(self).vs() + o.into_seq();
    fn vx_extend_from_slice(&mut self, o: &Vec<T>)
        ensures final(self).vs() == old(self).vs() + o@;
    fn vx_append(&mut self, o: &mut Vec<T>)
        ensures final(self).vs() == old(self).vs() + old(o)@, final(o)@.len() == 0;
    /// `splice(..n, vec![])`
    fn vx_cut(&mut self, n: usize) -> (r: It<T>)
        requires n <= old(self).vs().len(),
        ensures r@ == old(self).vs().take(n as int), final(self).vs() == old(self).vs().skip(n as int);
    fn vx_reverse(&mut self)
        ensures final(self).vs() == old(self).vs().reverse();
    fn vx_truncate(&mut self, n: usize)
        ensures final(self).vs() == old(self).vs().take(if n <= old(self).vs().len() { n as int } else { old(self).vs().len() as int });
    fn vx_first(&self) -> (r: Option<&T>)
        ensures r is None <==> self.vs().len() == 0, r matches Some(x) ==> *x == self.vs()[0];
    fn vx_last(&self) -> (r: Option<&T>)
        ensures r is None <==> self.vs().len() == 0, r matches Some(x) ==> *x == self.vs().last();
    fn vx_to_vec(&self) -> (r: Vec<T>)
        ensures r@ == self.vs();
    /// `sort_by`: stable, and no later item is less than an earlier one.
    fn vx_sort_by<F: FnMut(&T, &T) -> Ordering>(&mut self, f: F)
        requires forall|x: &T, y: &T| #[trigger] call_requires(f, (x, y)),
        ensures
            exists|fwd: Seq<int>, bwd: Seq<int>| #[trigger] reord(old(self).vs(), final(self).vs(), fwd, bwd),
            forall|i: int, j: int| #![trigger final(self).vs()[i], final(self).vs()[j]] 0 <= i < j < final(self).vs().len() ==>
                exists|o: Ordering| o != Ordering::Greater && #[trigger] call_ensures(f, (&final(self).vs()[i], &final(self).vs()[j]), o);
    fn vx_get_mut<'a>(&'a mut self, i: usize) -> (r: Option<&'a mut T>)
        ensures
            match r {
                Some(v) => i < old(self).vs().len() && *v == old(self).vs()[i as int] && final(self).vs() == old(self).vs().update(i as int, *final(v)),
                None => i >= old(self).vs().len() && final(self).vs() == old(self).vs(),
            };
    fn vx_iter_mut<'a>(&'a mut self) -> (r: It<&'a mut T>)
        ensures r@.len() == old(self).vs().len(), final(self).vs().len() == old(self).vs().len(),
            forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == old(self).vs()[i],
            forall|i: int| #![trigger final(self).vs()[i]] #![trigger r@[i]] 0 <= i < r@.len() ==> final(self).vs()[i] == *final(r@[i]);
    /// `iter_mut().find(f)`
    fn vx_find_mut<'a, F: FnMut(&T) -> bool>(&'a mut self, f: F) -> (r: Option<&'a mut T>)
        requires forall|x: &T| #[trigger] call_requires(f, (x,)),
        ensures
            match r {
                Some(v) => exists|i: int| 0 <= i < old(self).vs().len() && *v == #[trigger] old(self).vs()[i] && call_ensures(f, (&old(self).vs()[i],), true)
                    && final(self).vs() == old(self).vs().update(i, *final(v)),
                None => final(self).vs() == old(self).vs() && forall|i: int| 0 <= i < old(self).vs().len() ==> call_ensures(f, (&#[trigger] old(self).vs()[i],), false),
            };
}
impl<T> VxVec<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_sort_by<F: FnMut(&T, &T) -> Ordering>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body]
    fn vx_get_mut<'a>(&'a mut self, i: usize) -> (r: Option<&'a mut T>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_iter_mut<'a>(&'a mut self) -> (r: It<&'a mut T>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_find_mut<'a, F: FnMut(&T) -> bool>(&'a mut self, f: F) -> (r: Option<&'a mut T>) { unimplemented!() }
    open spec fn vs(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter<'a>(&'a self) -> (r: It<&'a T>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: It<T>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_retain<F: FnMut(&T) -> bool>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body]
    fn vx_contains(&self, x: &T) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_extend<U: IntoIt<Item = T>>(&mut self, o: U) { unimplemented!() }
    #[verifier::external_body]
    fn vx_extend_from_slice(&mut self, o: &Vec<T>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_append(&mut self, o: &mut Vec<T>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_cut(&mut self, n: usize) -> (r: It<T>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_reverse(&mut self) { unimplemented!() }
    #[verifier::external_body]
    fn vx_truncate(&mut self, n: usize) { unimplemented!() }
    #[verifier::external_body]
    fn vx_first(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_last(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_to_vec(&self) -> (r: Vec<T>) { unimplemented!() }
}

pub trait VxSlice<T> {
    spec fn ss(&self) -> Seq<T>;
    fn vx_iter<'a>(&'a self) -> (r: It<&'a T>)
        ensures r@ == refs::<'a, T>(self.ss()),
            forall|i: int| #![trigger r@[i]] #![trigger self.ss()[i]] 0 <= i < self.ss().len() ==> r@[i] == &self.ss()[i];
}
impl<T> VxSlice<T> for [T] {
    open spec fn ss(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter<'a>(&'a self) -> (r: It<&'a T>) { unimplemented!() }
}
impl<T> It<T> {
    #[verifier::external_body]
    pub fn vx_zip<U>(self, o: It<U>) -> (r: It<(T, U)>)
        ensures r@.len() == if self@.len() < o@.len() { self@.len() } else { o@.len() },
            forall|i: int| #![trigger r@[i]] #![trigger self@[i]] #![trigger o@[i]] 0 <= i < r@.len() ==> r@[i] == (self@[i], o@[i]),
    { unimplemented!() }
}

// ---------------------------------------------------------------- Option / bool
pub trait VxOpt<T>: Sized {
    spec fn os(&self) -> Option<T>;
    fn vx_and_then<U, F: FnOnce(T) -> Option<U>>(self, f: F) -> (r: Option<U>)
        requires self.os() matches Some(x) ==> call_requires(f, (x,)),
        ensures self.os() is None ==> r is None, self.os() matches Some(x) ==> call_ensures(f, (x,), r);
    fn vx_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U)
        requires self.os() matches Some(x) ==> call_requires(f, (x,)),
        ensures self.os() is None ==> r == d, self.os() matches Some(x) ==> call_ensures(f, (x,), r);
    fn vx_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> (r: T)
        requires self.os() is None ==> call_requires(f, ()),
        ensures self.os() is None ==> call_ensures(f, (), r), self.os() matches Some(x) ==> r == x;
    fn vx_or_else<F: FnOnce() -> Option<T>>(self, f: F) -> (r: Option<T>)
        requires self.os() is None ==> call_requires(f, ()),
        ensures self.os() is None ==> call_ensures(f, (), r), self.os() matches Some(x) ==> r == Some(x);
    fn vx_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool)
        requires self.os() matches Some(x) ==> call_requires(f, (x,)),
        ensures self.os() is None ==> !r, self.os() matches Some(x) ==> call_ensures(f, (x,), r);
    fn vx_iter(&self) -> (r: It<&T>)
        ensures self.os() is None ==> r@.len() == 0, self.os() matches Some(x) ==> r@.len() == 1 && *r@[0] == x;
}
impl<T> VxOpt<T> for Option<T> {
    open spec fn os(&self) -> Option<T> { *self }
    #[verifier::external_body]
    fn vx_and_then<U, F: FnOnce(T) -> Option<U>>(self, f: F) -> (r: Option<U>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U) { unimplemented!() }
    #[verifier::external_body]
    fn vx_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> (r: T) { unimplemented!() }
    #[verifier::external_body]
    fn vx_or_else<F: FnOnce() -> Option<T>>(self, f: F) -> (r: Option<T>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: It<&T>) { unimplemented!() }
}
pub trait VxOptRef<T>: Sized {
    spec fn oref(&self) -> Option<T>;
    fn vx_cloned(self) -> (r: Option<T>) ensures r == self.oref();
    fn vx_copied(self) -> (r: Option<T>) ensures r == self.oref();
}
impl<'a, T> VxOptRef<T> for Option<&'a T> {
    open spec fn oref(&self) -> Option<T> { match self { Some(x) => Some(**x), None => None } }
    #[verifier::external_body]
    fn vx_cloned(self) -> (r: Option<T>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_copied(self) -> (r: Option<T>) { unimplemented!() }
}
pub trait VxOr<T>: Sized {
    spec fn or_of(&self, d: T) -> T;
    fn vx_unwrap_or(self, d: T) -> (r: T) ensures r == self.or_of(d);
}
impl<T> VxOr<T> for Option<T> {
    open spec fn or_of(&self, d: T) -> T { match self { Some(x) => *x, None => d } }
    #[verifier::external_body]
    fn vx_unwrap_or(self, d: T) -> (r: T) { unimplemented!() }
}
impl<T, E> VxOr<T> for Result<T, E> {
    open spec fn or_of(&self, d: T) -> T { match self { Ok(x) => *x, Err(_) => d } }
    #[verifier::external_body]
    fn vx_unwrap_or(self, d: T) -> (r: T) { unimplemented!() }
}
pub trait VxBool: Sized {
    spec fn bv(&self) -> bool;
    fn vx_then<U, F: FnOnce() -> U>(self, f: F) -> (r: Option<U>)
        requires self.bv() ==> call_requires(f, ()),
        ensures !self.bv() ==> r is None, self.bv() ==> r is Some && call_ensures(f, (), r->Some_0);
    fn vx_then_some<U>(self, u: U) -> (r: Option<U>)
        ensures r == if self.bv() { Some(u) } else { None };
}
impl VxBool for bool {
    open spec fn bv(&self) -> bool { *self }
    #[verifier::external_body]
    fn vx_then<U, F: FnOnce() -> U>(self, f: F) -> (r: Option<U>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_then_some<U>(self, u: U) -> (r: Option<U>) { unimplemented!() }
}

// ---------------------------------------------------------------- HashMap
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { m: std::collections::HashMap<K, V> }
/// Some enumeration of the entries, each key once.
pub uninterp spec fn entries<K, V>(m: Map<K, V>) -> Seq<(K, V)>;
pub uninterp spec fn entry_pos<K, V>(m: Map<K, V>, k: K) -> int;
pub open spec fn enumerates<K, V>(s: Seq<(K, V)>, m: Map<K, V>) -> bool {
    &&& s.len() == m.dom().len()
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0) && m[s[i].0] == s[i].1 && entry_pos(m, s[i].0) == i
    &&& forall|k: K| #[trigger] m.dom().contains(k) ==> 0 <= entry_pos(m, k) < s.len() && s[entry_pos(m, k)] == (k, m[k])
}
/// Every finite map can be enumerated.
pub axiom fn axiom_entries<K, V>(m: Map<K, V>) ensures enumerates(entries(m), m);
impl<K, V> View for HashMap<K, V> {
    type V = Map<K, V>;
    uninterp spec fn view(&self) -> Map<K, V>;
}
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<K, V>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.dom().len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@.dom().len() == 0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &K) -> (r: Option<&'a V>)
        ensures match r { Some(v) => self@.dom().contains(*k) && *v == self@[*k], None => !self@.dom().contains(*k) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool)
        ensures r == self@.dom().contains(*k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'a>(&'a mut self, k: &K) -> (r: Option<&'a mut V>)
        ensures
            match r {
                Some(v) => old(self)@.dom().contains(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
                None => !old(self)@.dom().contains(*k) && final(self)@ == old(self)@,
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            r == if old(self)@.dom().contains(k) { Some(old(self)@[k]) } else { None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k),
            r == if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<'a>(&'a mut self, k: K) -> (r: Entry<'a, K, V>)
        ensures r.key() == k, r.start() == old(self)@, r.end() == final(self)@, r.cur() == if old(self)@.dom().contains(k) { Some(old(self)@[k]) } else { None },
    { unimplemented!() }
    /// `entry(k).and_modify(f)` with the entry dropped.
    #[verifier::external_body]
    pub fn vx_modify<F: FnOnce(&mut V)>(&mut self, k: &K, f: F)
        requires forall|v: &mut V| old(self)@.dom().contains(*k) && *v == old(self)@[*k] ==> #[trigger] call_requires(f, (v,)),
        ensures
            !old(self)@.dom().contains(*k) ==> final(self)@ == old(self)@,
            old(self)@.dom().contains(*k) ==> exists|v: &mut V| *v == old(self)@[*k] && #[trigger] call_ensures(f, (v,), ()) && final(self)@ == old(self)@.insert(*k, *final(v)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter<'a>(&'a self) -> (r: It<(&'a K, &'a V)>)
        ensures enumerates(entries(self@), self@),
            r@.len() == entries(self@).len(),
            forall|i: int| #![trigger r@[i]] #![trigger entries(self@)[i]] 0 <= i < r@.len() ==> *r@[i].0 == entries(self@)[i].0 && *r@[i].1 == entries(self@)[i].1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter_mut<'a>(&'a mut self) -> (r: It<(&'a K, &'a mut V)>)
        ensures enumerates(entries(old(self)@), old(self)@),
            r@.len() == entries(old(self)@).len(), final(self)@.dom() == old(self)@.dom(),
            forall|i: int| #![trigger r@[i]] #![trigger entries(old(self)@)[i]] 0 <= i < r@.len() ==> *r@[i].0 == entries(old(self)@)[i].0 && *r@[i].1 == entries(old(self)@)[i].1,
            forall|i: int| #![trigger r@[i]] #![trigger entries(old(self)@)[i]] 0 <= i < r@.len() ==> final(self)@[entries(old(self)@)[i].0] == *final(r@[i].1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn keys<'a>(&'a self) -> (r: It<&'a K>)
        ensures enumerates(entries(self@), self@),
            r@.len() == entries(self@).len(),
            forall|i: int| #![trigger r@[i]] #![trigger entries(self@)[i]] 0 <= i < r@.len() ==> *r@[i] == entries(self@)[i].0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn values<'a>(&'a self) -> (r: It<&'a V>)
        ensures enumerates(entries(self@), self@),
            r@.len() == entries(self@).len(),
            forall|i: int| #![trigger r@[i]] #![trigger entries(self@)[i]] 0 <= i < r@.len() ==> *r@[i] == entries(self@)[i].1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_clear(&mut self)
        ensures final(self)@ == Map::<K, V>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_clone(&self) -> (r: Self)
        ensures r@ == self@,
    { unimplemented!() }
}
/// A view of the entry API: `end` is the (prophesied) final map.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct Entry<'a, K, V> { e: std::collections::hash_map::Entry<'a, K, V> }
impl<'a, K, V> Entry<'a, K, V> {
    pub uninterp spec fn key(&self) -> K;
    pub uninterp spec fn start(&self) -> Map<K, V>;
    #[verifier::prophetic]
    pub uninterp spec fn end(&self) -> Map<K, V>;
    pub uninterp spec fn cur(&self) -> Option<V>;
    #[verifier::external_body]
    pub fn or_insert(self, d: V) -> (r: &'a mut V)
        ensures *r == match self.cur() { Some(x) => x, None => d }, self.end() == self.start().insert(self.key(), *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> (r: &'a mut V)
        requires call_requires(f, ()),
        ensures self.cur() matches Some(x) ==> *r == x, self.cur() is None ==> call_ensures(f, (), *r), self.end() == self.start().insert(self.key(), *final(r)),
    { unimplemented!() }
}
}
}
use vp::*;
verus! { global size_of usize == 8; broadcast use {vp::lemma_filt, vp::lemma_push_contains, vp::lemma_views, vp::lemma_flat_of}; }
