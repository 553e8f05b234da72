//@include flo_body.rs
//@file rl flmodules/src/flo/realm.rs
//@file co flmodules/src/dht_storage/core.rs
//@file cr flmodules/src/flo/crypto.rs
//@sub /\.clone\(\)/ => /.dup()/
//@sub /\+ Clone\b/ => /+ Dup/
//@sub /#\[serde[^\]]*\]/ => //
//@file br flmodules/src/dht_storage/broker.rs
//@file dn flmodules/src/dht_storage/intern.rs
//@sub /watch::Receiver<Stats>/ => /VxStats/
//@sub /Broker<DHTStorageIn, DHTStorageOut>/ => /VxQueue<DHTStorageIn>/
//@sub /Broker<InternIn, InternOut>/ => /VxQueue<InternIn>/
//@sub /UnboundedReceiver<InternOut>/ => /VxTap/
//@sub /anyhow::Result<([^{;]*)>\s*\{/ => /VResult<\1> {/
//@sub /StorageError::\w+\.into\(\)/ => /vx_err()/
//@sub /flcrypto::access::Badge\b/ => /Badge/
//@sub /calc_flo_id\(&\*(\w+)\)/ => /calc_flo_id(&\1.0)/
//@sub /global_id\(\((\*[\w:]+(?:\.\w+)?\([^()]*\))\)\.into\(\)\)/ => /global_id(FloID(\1))/
//@sub /(\w+)\.(?:vx_)?contains\(&([\w.()]+)\)/ => /vx_has(\1, \2)/
//@sub /\[(\w+), &\[([\w.()]+)\]\]\.(?:vx_)?concat\(\)/ => /vx_and_one(\1, \2)/
//@sub /\.try_into\(\)\?/ => /.vx_wrapped::<T>()?/
//@sub /(\w+\.(?:global_id|realm_id|flo_id)\(\)) == \*(\w+)/ => /vx_eq(&\1, \2)/
//@sub /(\w+\.cache\(\)\.get_id\(\)) == \*(\w+)/ => /vx_eq(&\1, \2)/
//@sub /&(\w+) == (\w+)\)/ => /vx_eq(&\1, \2))/
verus! {
// ------------------------------------------------------------------ what is trusted here
#[verifier::external_body]
pub fn vx_eq<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[verifier::external_body]
pub fn vx_has<T>(s: &[T], x: T) -> (r: bool) ensures r == s@.contains(x) { unimplemented!() }
#[verifier::external_body]
pub fn vx_and_one<T>(s: &[T], x: T) -> (r: Vec<T>) ensures r@ == s@.push(x) { unimplemented!() }
#[verifier::external_body]
pub fn vx_nothing<'a, T>() -> (r: &'a [T]) ensures r@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body]
pub struct VxStats { x: u8 }
#[verifier::external_body]
pub struct DHTRouterIn { x: u8 }
#[verifier::external_body]
pub struct DHTRouterOut { x: u8 }
//@enum br DHTStorageIn
//@enum br DHTStorageOut
//@enum dn InternIn
//@enum dn InternOut
pub type FloCuckoo = (Flo, Vec<FloID>);
/// A broker is closed, or the storage didn't answer in time.
pub uninterp spec fn trouble() -> bool;
/// The way into a module: what is put in is handled in this order (B01, B02).
#[verifier::external_body] #[verifier::reject_recursive_types(I)]
pub struct VxQueue<I> { x: std::marker::PhantomData<I> }
impl<I> VxQueue<I> {
    pub uninterp spec fn put(&self) -> Seq<I>;
    #[verifier::external_body]
    pub fn emit_msg_in(&mut self, m: I) -> (r: VResult<()>)
        ensures r is Ok ==> final(self).put() == old(self).put().push(m), r is Err ==> trouble() && final(self).put() == old(self).put() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_tap_out(&mut self) -> (r: VResult<(VxTap, usize)>) ensures final(self).put() == old(self).put(), r is Err ==> trouble() { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_subsystem(&mut self, id: usize) -> (r: VResult<()>) ensures final(self).put() == old(self).put(), r is Err ==> trouble() { unimplemented!() }
}
#[verifier::external_body]
pub struct VxTap { x: u8 }
/// The storage of this node said so.
pub uninterp spec fn said(m: DHTStorageOut) -> bool;
impl VxTap {
    #[verifier::external_body]
    pub fn recv(&mut self) -> (r: Option<InternOut>) ensures r matches Some(InternOut::Storage(m)) ==> said(m), r is None ==> trouble() { unimplemented!() }
}
/// `select!` with a timeout: the other one is done, or an error.
#[verifier::external_body]
pub fn vx_or_timeout<T>(r: VResult<T>) -> (s: VResult<T>) ensures s is Ok ==> s == r, s is Err ==> r is Err || trouble() { unimplemented!() }
//@struct co DHTConfig
//@struct br DHTStorage
impl RealmID {
//@fn rl RealmID::global_id ret=r
//@ spec
    ensures r.0 == *self, r.1 == fid, // [V02]
//@end
}
impl Flo {
    pub fn vx_wrapped<T>(self) -> (r: VResult<FloWrapper<T>>) ensures r is Ok <==> readable::<T>(self), r matches Ok(w) ==> w.faithful() && w.flo == self { FloWrapper::<T>::try_from(self) }
}
pub open spec fn gid(f: Flo) -> GlobalID { GlobalID(f.realm, id_of(f)) }
/// The storage showed this Flo.
/// The message says: this is the Flo.
pub open spec fn shown_by(m: DHTStorageOut, f: Flo) -> bool { exists|c: Vec<FloID>| m == DHTStorageOut::FloValue((f, c)) }
/// The storage showed this Flo.
pub open spec fn shown(f: Flo) -> bool { exists|m: DHTStorageOut| said(m) && #[trigger] shown_by(m, f) }
pub open spec fn readable<T>(f: Flo) -> bool { f.flo_type@ == tyname::<T>() && unrmp::<T>(f.data@) is Some }
/// It showed a Flo with this identifier which is something else.
pub open spec fn other<T>(id: GlobalID) -> bool { exists|f: Flo| shown(f) && #[trigger] gid(f) == id && !readable::<T>(f) }
pub open spec fn flos_of(s: Seq<Flo>, l: Seq<FloCuckoo>) -> bool { s.len() == l.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) == l[i].0 }
pub open spec fn flos_by(m: DHTStorageOut, s: Seq<Flo>) -> bool { m matches DHTStorageOut::FloValues(l) && flos_of(s, l@) }
pub open spec fn flos_said(s: Seq<Flo>) -> bool { exists|m: DHTStorageOut| said(m) && #[trigger] flos_by(m, s) }
/// What a message is read as, by the one who waits.
pub open spec fn answered<T, C: Fn(DHTStorageOut) -> Option<T>>(check: &C, t: T) -> bool { exists|m: DHTStorageOut| #[trigger] answer(check, m, t) }
pub open spec fn answer<T, C: Fn(DHTStorageOut) -> Option<T>>(check: &C, m: DHTStorageOut, t: T) -> bool { said(m) && call_ensures(*check, (m,), Some(t)) }
/// Identifiers are 32 bytes, so there are not more than so many.
pub uninterp spec fn some_badges() -> nat;
pub axiom fn axiom_badges(s: Seq<BadgeID>) requires s.no_duplicates() ensures s.len() <= some_badges();
pub open spec fn verifier_gid(rid: RealmID, k: KeyPairID) -> GlobalID { GlobalID(rid, FloID(dhash("ican.re.fledg.flmodules.flo.Flo"@, seq![k.0.0@]))) }
pub open spec fn badge_gid(rid: RealmID, b: BadgeID) -> GlobalID { GlobalID(rid, FloID(b.0)) }
/// The verifier is the one which the storage shows, with this identifier.
pub open spec fn has_verifier(rid: RealmID, k: KeyPairID, v: Verifier, w: FloWrapper<Verifier>) -> bool { v.id() == k && shown(w.flo) && w.faithful() && gid(w.flo) == verifier_gid(rid, k) && w.object == v }
pub open spec fn no_verifier(rid: RealmID, k: KeyPairID) -> bool {
    trouble() || other::<Verifier>(verifier_gid(rid, k)) || exists|w: FloWrapper<Verifier>| shown(w.flo) && #[trigger] w.faithful() && gid(w.flo) == verifier_gid(rid, k) && w.object.id() != k
}
pub open spec fn stored_badge(rid: RealmID, b: BadgeID, w: FloWrapper<BadgeCond>) -> bool { shown(w.flo) && w.faithful() && gid(w.flo) == badge_gid(rid, b) }
pub open spec fn no_badge(rid: RealmID, v: VersionSpec<BadgeID>, badges: Seq<BadgeID>) -> bool {
    trouble() || badges.contains(v.vid()) || other::<BadgeCond>(badge_gid(rid, v.vid())) || exists|w: FloWrapper<BadgeCond>| #[trigger] w.faithful() && stored_badge(rid, v.vid(), w) && !v.takes(w.flo.data_version)
}
/// The condition is what the storage shows for this link, inside of these badges.
pub open spec fn drawn(cl: ConditionLink, rid: RealmID, badges: Seq<BadgeID>, c: Condition) -> bool decreases c {
    match cl {
        ConditionLink::Verifier(k) => match c {
            Condition::Verifier(v) => exists|w: FloWrapper<Verifier>| #[trigger] w.faithful() && has_verifier(rid, k, v, w),
            Condition::NotAvailable => no_verifier(rid, k),
            _ => false,
        },
        ConditionLink::Badge(s) => match c {
            Condition::Badge(t, b) => t == s && b.id == s.vid() && s.takes(b.version) && !badges.contains(s.vid())
                && exists|w: FloWrapper<BadgeCond>| #[trigger] w.faithful() && stored_badge(rid, s.vid(), w) && b.version == w.flo.data_version && drawn(w.object.0, rid, badges.push(s.vid()), *b.condition),
            Condition::NotAvailable => no_badge(rid, s, badges),
            _ => false,
        },
        ConditionLink::NofT(t, l) => c matches Condition::NofT(n, v) && n == t && v.len() == l.len() && forall|i: int| 0 <= i < v.len() ==> drawn(l[i], rid, badges, #[trigger] v[i]),
        ConditionLink::Pass => c == Condition::Pass,
        ConditionLink::Fail => c == Condition::Fail,
    }
}
//@struct cr BadgeCond
impl FloWrapper<BadgeCond> {
//@fn cr FloBadge::badge_link ret=r
//@ sub /\((\*[\w:]+(?:\.\w+)?\([^()]*\))\)\.into\(\)/ => /BadgeID(\1)/
//@ spec
    ensures r.id.0 == id_of(self.flo).0, r.version == self.flo.data_version, r.condition == self.object.0, // [V02]
//@end
}
pub trait VxMore<T>: Sized {
    spec fn opt(&self) -> Option<T>;
    fn vx_filter<F: FnOnce(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires self.opt() matches Some(x) ==> call_requires(f, (&x,)),
        ensures match self.opt() { None => r is None, Some(x) => match r { Some(y) => y == x && call_ensures(f, (&x,), true), None => call_ensures(f, (&x,), false) } };
}
impl<T> VxMore<T> for Option<T> {
    open spec fn opt(&self) -> Option<T> { *self }
    #[verifier::external_body]
    fn vx_filter<F: FnOnce(&T) -> bool>(self, f: F) -> (r: Option<T>) { unimplemented!() }
}
pub trait VxOk<T>: Sized { spec fn okv(&self) -> Option<T>; fn vx_ok(self) -> (r: Option<T>) ensures r == self.okv(); }
impl<T, E> VxOk<T> for Result<T, E> {
    open spec fn okv(&self) -> Option<T> { match self { Ok(x) => Some(*x), Err(_) => None } }
    #[verifier::external_body]
    fn vx_ok(self) -> (r: Option<T>) { unimplemented!() }
}
/// What was asked before is still asked before what is asked now.
pub open spec fn grown(a: DHTStorage, b: DHTStorage) -> bool { a.intern.put().is_prefix_of(b.intern.put()) }
pub open spec fn storing(f: Flo) -> InternIn { InternIn::Storage(DHTStorageIn::StoreFlo(f)) }
impl DHTStorage {
//@fn br DHTStorage::store_flo ret=r
//@ spec
    ensures r is Err ==> trouble(), grown(*old(self), *final(self)), // [V02]
        r is Ok ==> final(self).intern.put() == old(self).intern.put().push(InternIn::Storage(DHTStorageIn::StoreFlo(flo))), // [V02]
//@end
//@fn br DHTStorage::propagate ret=r
//@ spec
    ensures r is Ok ==> final(self).intern.put() == old(self).intern.put().push(InternIn::Storage(DHTStorageIn::PropagateFlos)), // [V02]
//@end
//@fn br DHTStorage::sync ret=r
//@ spec
    ensures r is Ok ==> final(self).broker.put() == old(self).broker.put().push(DHTStorageIn::SyncFromNeighbors), // [V02]
//@end
#[verifier::exec_allows_no_decreases_clause]
//@fn br DHTStorage::wait_tap ret=r
//@ sub /<T>\(/ => /<T, C: Fn(DHTStorageOut) -> Option<T>>(/
//@ sub /&\(dyn [\s\S]*?\+ Sync\)/ => /&C/
//@ spec
    requires forall|m: DHTStorageOut| #[trigger] call_requires(*check, (m,)),
    ensures r matches Ok(t) ==> answered(check, t), r is Err ==> trouble(), // [V02]
//@ entry
    proof { assert forall|m: DHTStorageOut, t: T| said(m) && #[trigger] call_ensures(*check, (m,), Some(t)) implies answered(check, t) by { assert(answer(check, m, t)); } }
//@ loop 0
    invariant forall|m: DHTStorageOut| #[trigger] call_requires(*check, (m,)), forall|m: DHTStorageOut, t: T| said(m) && #[trigger] call_ensures(*check, (m,), Some(t)) ==> answered(check, t),
    ensures trouble(),
//@end
//@fn br DHTStorage::send_wait_timeout ret=r
//@ sub /<T>\(/ => /<T, C: Fn(DHTStorageOut) -> Option<T>>(/
//@ sub /&\(dyn [\s\S]*?\+ Sync\)/ => /&C/
//@ sub ! /select! \{[\s\S]*?= (Self::\w+\([^()]*\)) => res,?\s*\}/ => /vx_or_timeout(\1)/
//@ spec
    requires forall|m: DHTStorageOut| #[trigger] call_requires(*check, (m,)),
    ensures grown(*old(self), *final(self)), // [V02]
        r matches Ok(t) ==> answered(check, t), r is Err ==> trouble(), // [V02]
        r is Ok ==> final(self).intern.put() == old(self).intern.put().push(InternIn::Storage(msg_in)), // [V02]
//@end
//@fn br DHTStorage::send_wait ret=r
//@ sub /<T>\(/ => /<T, C: Fn(DHTStorageOut) -> Option<T>>(/
//@ sub /&\(dyn [\s\S]*?\+ Sync\)/ => /&C/
//@ spec
    requires forall|m: DHTStorageOut| #[trigger] call_requires(*check, (m,)),
    ensures grown(*old(self), *final(self)), // [V02]
        r matches Ok(t) ==> answered(check, t), r is Err ==> trouble(), // [V02]
        r is Ok ==> final(self).intern.put() == old(self).intern.put().push(InternIn::Storage(msg_in)), // [V02]
//@end
//@fn br DHTStorage::get_realm_ids ret=r
//@ spec
    ensures grown(*old(self), *final(self)), // [V02]
        r matches Ok(l) ==> said(DHTStorageOut::RealmIDs(l)), r is Err ==> trouble(), // [V02]
        r is Ok ==> final(self).intern.put() == old(self).intern.put().push(InternIn::Storage(DHTStorageIn::GetRealms)), // [V02]
//@ closure 0 -> (r: Option<Vec<RealmID>>) ensures r == (match msg { DHTStorageOut::RealmIDs(l) => Some(l), _ => None })
//@end
//@fn br DHTStorage::get_flo_timeout ret=r
//@ sub /<T: [^>]*>\(/ => /<T>(/
//@ spec
    ensures grown(*old(self), *final(self)), // [V02]
        r matches Ok(w) ==> shown(w.flo) && gid(w.flo) == *id && w.faithful(), // [V02]
        r is Ok ==> final(self).intern.put() == old(self).intern.put().push(InternIn::Storage(DHTStorageIn::ReadFlo(*id))), // [V02]
        r is Err ==> trouble() || other::<T>(*id), // [V02]
//@ closure 0 -> (r: Option<Flo>) ensures match r { Some(f) => gid(f) == *id && shown_by(msg, f), None => forall|f: Flo| #[trigger] shown_by(msg, f) ==> gid(f) != *id }
//@end
//@fn br DHTStorage::get_flo ret=r
//@ sub /<T: [^>]*>\(/ => /<T>(/
//@ spec
    ensures grown(*old(self), *final(self)), // [V02]
        r matches Ok(w) ==> shown(w.flo) && gid(w.flo) == *id && w.faithful(), // [V02]
        r is Ok ==> final(self).intern.put() == old(self).intern.put().push(InternIn::Storage(DHTStorageIn::ReadFlo(*id))), // [V02]
        r is Err ==> trouble() || other::<T>(*id), // [V02]
//@end
//@fn br DHTStorage::get_flos ret=r
//@ spec
    ensures grown(*old(self), *final(self)), // [V02]
        r matches Ok(l) ==> flos_said(l@), r is Err ==> trouble(), // [V02]
        r is Ok ==> final(self).intern.put() == old(self).intern.put().push(InternIn::Storage(DHTStorageIn::GetFlos)), // [V02]
//@ closure 0 -> (r: Option<Vec<Flo>>) ensures match r { Some(s) => flos_by(msg, s@), None => !(msg is FloValues) }
//@ closure 1 -> (r: Flo) ensures r == f.0
//@end
//@fn br DHTStorage::get_cuckoos ret=r
//@ spec
    ensures grown(*old(self), *final(self)), // [V02]
        r matches Ok(l) ==> said(DHTStorageOut::CuckooIDs(*id, l)), r is Err ==> trouble(), // [V02]
        r is Ok ==> final(self).intern.put() == old(self).intern.put().push(InternIn::Storage(DHTStorageIn::ReadCuckooIDs(*id))), // [V02]
//@ closure 0 -> (r: Option<Vec<FloID>>) ensures r == (match msg { DHTStorageOut::CuckooIDs(i, l) => if i == *id { Some(l) } else { None }, _ => None })
//@end
//@fn br DHTStorage::convert ret=r
//@ spec
    ensures grown(*old(self), *final(self)), // [V02]
        drawn(*cl, *rid, Seq::empty(), r), // [V02]
//@ sub /&\[\]/ => /vx_nothing()/
//@end
//@fn br DHTStorage::convert_badges ret=r
//@ spec
    requires badges@.no_duplicates(),
    ensures grown(*old(self), *final(self)), // [V02]
        drawn(*cl, *rid, badges@, r), // [V02]
    decreases some_badges() - badges@.len(), *cl, // [V02]
//@ entry
    let ghost bs = badges@;
    proof { assert forall|x: BadgeID| !bs.contains(x) implies (#[trigger] bs.push(x)).no_duplicates() && bs.len() < some_badges() by { axiom_badges(bs.push(x)); } }
//@ closure 0 -> (r: bool) ensures r == (v.object.id() == *ver)
//@ closure 1 -> (r: Condition) ensures r == Condition::Verifier(v.object)
//@ closure 2 -> (r: bool) ensures r == version.takes(b.flo.data_version)
//@ loopstart 0
    proof { assert(*cond == vec[vx_it0.pos() - 1]); assert(decreases_to!(*cl => vec@)); assert(decreases_to!(vec@ => vec[vx_it0.pos() - 1])); }
//@ loop 0
    invariant grown(*old(self), *self), *cl is NofT, cl->NofT_1 == *vec, vx_it0.wf(), vx_it0.seq() == refs(vec@), badges@.no_duplicates(),
        conds.len() == vx_it0.pos(), forall|i: int| 0 <= i < vx_it0.pos() ==> drawn(vec[i], *rid, badges@, #[trigger] conds[i]), // [V02]
    decreases vx_it0.left(),
//@end
}
}
