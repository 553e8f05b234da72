verus! {
/// `bimap::BiMap`: every left value has one right value, and the other way round.
#[verifier::external_body]
#[verifier::reject_recursive_types(L)]
#[verifier::reject_recursive_types(R)]
pub struct BiMap<L, R> { l: std::collections::HashMap<L, R> }
pub enum Overwritten<L, R> { Neither, Left(L, R), Right(L, R), Pair(L, R), Both((L, R), (L, R)) }
pub open spec fn twoway<L, R>(l: Map<L, R>, r: Map<R, L>) -> bool {
    &&& forall|a: L| #![trigger l.dom().contains(a)] l.dom().contains(a) ==> r.dom().contains(l[a]) && r[l[a]] == a
    &&& forall|b: R| #![trigger r.dom().contains(b)] r.dom().contains(b) ==> l.dom().contains(r[b]) && l[r[b]] == b
}
impl<L, R> BiMap<L, R> {
    pub uninterp spec fn l(&self) -> Map<L, R>;
    pub uninterp spec fn r(&self) -> Map<R, L>;
    pub axiom fn axiom_twoway(&self) ensures twoway(self.l(), self.r()), self.l().dom().len() == self.r().dom().len();
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.l() == Map::<L, R>::empty(), r.r() == Map::<R, L>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_by_left<'a>(&'a self, a: &L) -> (r: Option<&'a R>)
        ensures match r { Some(b) => self.l().dom().contains(*a) && *b == self.l()[*a], None => !self.l().dom().contains(*a) }, twoway(self.l(), self.r())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_by_right<'a>(&'a self, b: &R) -> (r: Option<&'a L>)
        ensures match r { Some(a) => self.r().dom().contains(*b) && *a == self.r()[*b], None => !self.r().dom().contains(*b) }, twoway(self.l(), self.r())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, a: L, b: R) -> (res: Overwritten<L, R>)
        ensures put(*old(self), *final(self), a, b), twoway(old(self).l(), old(self).r()), twoway(final(self).l(), final(self).r()),
            ({ let (hl, hr) = (old(self).l().dom().contains(a), old(self).r().dom().contains(b));
               res == if hl && hr { if old(self).l()[a] == b { Overwritten::Pair(a, b) } else { Overwritten::Both((a, old(self).l()[a]), (old(self).r()[b], b)) } }
                      else if hl { Overwritten::Left(a, old(self).l()[a]) } else if hr { Overwritten::Right(old(self).r()[b], b) } else { Overwritten::Neither } }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_by_left(&mut self, a: &L) -> (res: Option<(L, R)>)
        ensures twoway(old(self).l(), old(self).r()), twoway(final(self).l(), final(self).r()),
            final(self).l() == old(self).l().remove(*a), final(self).r() == if old(self).l().dom().contains(*a) { old(self).r().remove(old(self).l()[*a]) } else { old(self).r() },
            res == if old(self).l().dom().contains(*a) { Some((*a, old(self).l()[*a])) } else { None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_by_right(&mut self, b: &R) -> (res: Option<(L, R)>)
        ensures twoway(old(self).l(), old(self).r()), twoway(final(self).l(), final(self).r()),
            final(self).r() == old(self).r().remove(*b), final(self).l() == if old(self).r().dom().contains(*b) { old(self).l().remove(old(self).r()[*b]) } else { old(self).l() },
            res == if old(self).r().dom().contains(*b) { Some((old(self).r()[*b], *b)) } else { None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter<'a>(&'a self) -> (r: It<(&'a L, &'a R)>)
        ensures enumerates(entries(self.l()), self.l()), r@.len() == entries(self.l()).len(), twoway(self.l(), self.r()),
            forall|i: int| #![trigger r@[i]] #![trigger entries(self.l())[i]] 0 <= i < r@.len() ==> *r@[i].0 == entries(self.l())[i].0 && *r@[i].1 == entries(self.l())[i].1,
    { unimplemented!() }
}
/// a and b belong to each other, and to nothing else.
pub open spec fn put<L, R>(o: BiMap<L, R>, n: BiMap<L, R>, a: L, b: R) -> bool {
    &&& n.l() == (if o.r().dom().contains(b) { o.l().remove(o.r()[b]) } else { o.l() }).insert(a, b)
    &&& n.r() == (if o.l().dom().contains(a) { o.r().remove(o.l()[a]) } else { o.r() }).insert(b, a)
}
}
