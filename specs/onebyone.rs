verus! {
pub proof fn lemma_flat_empty<T>() ensures flat_of(Seq::<Vec<T>>::empty()) == Seq::<T>::empty() {}
pub proof fn lemma_flat_push<T>(outs: Seq<Vec<T>>, r: Vec<T>)
    ensures flat_of(outs.push(r)) == flat_of(outs) + r@,
{ assert(outs.push(r).drop_last() =~= outs); }
/// The messages are handled one after the other, and every answer is passed on.
pub open spec fn one_by_one(h: Seq<Intern>, outs: Seq<Vec<InternOut>>, msgs: Seq<InternIn>) -> bool {
    h.len() == msgs.len() + 1 && outs.len() == msgs.len() && forall|i: int| #![trigger outs[i]] 0 <= i < msgs.len() ==> h[i + 1].did(&h[i], msgs[i], outs[i]@)
}
pub proof fn lemma_one_more(h: Seq<Intern>, outs: Seq<Vec<InternOut>>, all: Seq<InternIn>, p: int, s: Intern, r: Vec<InternOut>)
    requires 0 <= p < all.len(), one_by_one(h, outs, all.take(p)), s.did(&h.last(), all[p], r@),
    ensures one_by_one(h.push(s), outs.push(r), all.take(p + 1)),
{
    let (h2, o2, a2) = (h.push(s), outs.push(r), all.take(p + 1));
    assert forall|i: int| #![trigger o2[i]] 0 <= i < a2.len() implies h2[i + 1].did(&h2[i], a2[i], o2[i]@) by { if i < p { assert(h[i + 1].did(&h[i], all.take(p)[i], outs[i]@)); } }
}
}
