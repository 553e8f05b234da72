//@include dht_body.rs
//@include wrapper.rs
//@file core flmodules/src/dht_storage/core.rs
//@file msgs flmodules/src/router/messages.rs
//@file intern flmodules/src/dht_storage/intern.rs
//@file sb flmodules/src/dht_storage/broker.rs
//@file rb flmodules/src/dht_router/broker.rs
//@file realm flmodules/src/flo/realm.rs
//@sub /\.clone\(\)/ => /.dup()/
//@sub /watch::Sender<Stats>/ => /VxSender/
//@sub /watch::Receiver<Stats>/ => /VxReceiver/
//@sub /Box<dyn DataStorage \+ Send>/ => /VxStore/
//@sub /\(\*self\.ds\)/ => /self.ds/
//@sub /\.into\(\)/ => /.vx_to()/
//@sub /MODULE_NAME: &str/ => /MODULE_NAME: &'static str/
//@sub /\.unwrap_or\(/ => /.vx_unwrap_or(/
//@sub /\.(?:vx_)?unwrap_or_default\(\)/ => /.vx_unwrap_or(Vec::new())/
//@sub /serde_yaml::from_str\(/ => /vx_from_yaml(/
//@sub /\(\*\*(\w+)\)\.vx_to/ => /\1.0.vx_to/
//@sub /\(\*(\w+)\.dup\(\)\)/ => /(\1.0)/
verus! {
// ------------------------------------------------------------------ what is trusted here
pub trait Dup: Sized { fn dup(&self) -> (r: Self) ensures r == *self; }
impl Dup for U256 { fn dup(&self) -> (r: Self) { *self } }
impl Dup for FloID { fn dup(&self) -> (r: Self) { FloID(self.0) } }
impl Dup for RealmID { fn dup(&self) -> (r: Self) { RealmID(self.0) } }
impl Dup for Flo { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
impl Dup for GlobalID { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
impl Dup for Vec<FloID> { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
impl Dup for Vec<RealmID> { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
impl Dup for (Flo, Vec<FloID>) { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
impl Dup for DHTConfig { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
impl Dup for Option<VxSender> { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
/// The watchers of the statistics (tokio::sync::watch), and the statistics.
#[verifier::external_body]
pub struct VxSender { x: u8 }
#[verifier::external_body]
pub struct VxReceiver { x: u8 }
#[verifier::external_body]
pub struct Stats { x: u8 }
#[verifier::external_body]
pub fn vx_channel(e: Stats) -> (r: (VxSender, VxReceiver)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_default() -> (r: Stats) { unimplemented!() }
impl VxSender { #[verifier::external_body] pub fn send(&self, s: Stats) -> (r: VResult<()>) { unimplemented!() } }
impl Stats { #[verifier::external_body] pub fn from_realms(realms: &HashMap<RealmID, RealmStorage>, system_realms: Vec<RealmID>) -> (r: Stats) { unimplemented!() } }
/// A DataStorage: what was last set is what is read. It never refuses to store.
#[verifier::external_body]
pub struct VxStore { x: u8 }
impl VxStore {
    pub uninterp spec fn at(&self, k: Seq<char>) -> Seq<char>;
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: VResult<String>) ensures r is Ok && r->Ok_0@ == self.at(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&mut self, k: &str, v: &str) -> (r: VResult<()>) ensures final(self).at(k@) == v@, forall|o: Seq<char>| o != k@ ==> #[trigger] final(self).at(o) == old(self).at(o) { unimplemented!() }
}
/// `FloRealm::try_from`: a Flo which describes a realm, with its realm (see F04).
pub uninterp spec fn as_realm(f: Flo) -> Option<FloRealm>;
pub axiom fn axiom_realm(f: Flo) ensures as_realm(f) matches Some(r) ==> realm_flo(r) == f;
#[verifier::external_body]
pub fn vx_try_realm(f: Flo) -> (r: VResult<FloRealm>) ensures match r { Ok(x) => as_realm(f) == Some(x), Err(_) => as_realm(f) is None } { unimplemented!() }
impl FloRealm { #[verifier::external_body] pub fn realm_id(&self) -> (r: RealmID) ensures r == realm_of(realm_flo(*self)) { unimplemented!() } }
impl Flo { #[verifier::external_body] pub fn global_id(&self) -> (r: GlobalID) ensures r == gid_of(*self) { unimplemented!() } }
pub open spec fn gid_of(f: Flo) -> GlobalID { GlobalID(realm_of(f), flo_id_of(f)) }
/// The conversions of the ID types (AsU256), and of the messages.
pub trait VxTo<T>: Sized { spec fn is_to(&self, r: T) -> bool; fn vx_to(self) -> (r: T) ensures self.is_to(r); }
impl VxTo<U256> for FloID { open spec fn is_to(&self, r: U256) -> bool { r == self.0 } fn vx_to(self) -> U256 { self.0 } }
impl VxTo<FloID> for U256 { open spec fn is_to(&self, r: FloID) -> bool { r == FloID(*self) } fn vx_to(self) -> FloID { FloID(self) } }
impl VxTo<InternOut> for DHTStorageOut { open spec fn is_to(&self, r: InternOut) -> bool { up(r, *self) } fn vx_to(self) -> InternOut { InternOut::from(self) } }
impl VxTo<String> for &'static str { open spec fn is_to(&self, r: String) -> bool { r@ == self@ } #[verifier::external_body] fn vx_to(self) -> String { unimplemented!() } }
/// `flatten` of an Option.
pub trait VxFlat<T>: Sized { spec fn flat(&self) -> Option<T>; fn vx_flatten(self) -> (r: Option<T>) ensures r == self.flat(); }
impl<T> VxFlat<T> for Option<Option<T>> {
    open spec fn flat(&self) -> Option<T> { match self { Some(Some(x)) => Some(*x), _ => None } }
    #[verifier::external_body] fn vx_flatten(self) -> (r: Option<T>) { unimplemented!() }
}
/// `vec![..]`
#[verifier::external_body]
pub fn vx_arr<T, const N: usize>(a: [T; N]) -> (r: Vec<T>) ensures r@ == a@ { unimplemented!() }

// ------------------------------------------------------------------ copied types
//@const sb MODULE_NAME
//@struct realm GlobalID derive=PartialEq,Eq,Structural
//@enum rb DHTRouterIn
//@enum rb DHTRouterOut
//@enum sb DHTStorageIn
//@enum sb DHTStorageOut
//@enum intern MessageClosest
//@enum intern MessageDest
//@enum intern MessageNeighbour
//@enum intern InternIn
//@enum intern InternOut
//@struct intern Messages
pub type Intern = Messages;
pub type Realms = Map<RealmID, RealmStorage>;

// ------------------------------------------------------------------ what is promised
pub open spec fn unpacked<T>(w: NetworkWrapper) -> Option<T> { if w.module@ == MODULE_NAME@ { unyaml::<T>(w.msg@) } else { None } }
pub open spec fn up(o: InternOut, m: DHTStorageOut) -> bool { o == InternOut::Storage(m) }
pub open spec fn closest(o: InternOut, dst: U256, m: MessageClosest) -> bool { o matches InternOut::Routing(DHTRouterIn::MessageClosest(d, w)) && d == dst && packs(w, MODULE_NAME@, m) }
pub open spec fn direct(o: InternOut, dst: U256, m: MessageDest) -> bool { o matches InternOut::Routing(DHTRouterIn::MessageDirect(d, w)) && d == dst && packs(w, MODULE_NAME@, m) }
pub open spec fn neighbour(o: InternOut, dst: U256, m: MessageNeighbour) -> bool { o matches InternOut::Routing(DHTRouterIn::MessageNeighbour(d, w)) && d == dst && packs(w, MODULE_NAME@, m) }
pub open spec fn broadcast(o: InternOut, m: MessageNeighbour) -> bool { o matches InternOut::Routing(DHTRouterIn::MessageBroadcast(w)) && packs(w, MODULE_NAME@, m) }
pub open spec fn accepts(cfg: DHTConfig, id: RealmID) -> bool { cfg.realms@.len() == 0 || cfg.realms@.contains(id) }
/// Nothing to say.
pub open spec fn empty_msg(m: MessageNeighbour) -> bool {
    match m {
        MessageNeighbour::AvailableRealmIDs(l) => l@.len() == 0,
        MessageNeighbour::AvailableFlos(_, l) => l@.len() == 0,
        MessageNeighbour::RequestFlos(_, l) => l@.len() == 0,
        MessageNeighbour::Flos(l) => l@.len() == 0,
        _ => false,
    }
}
pub open spec fn one_realm(s: RealmStorage, id: RealmID) -> bool { s.wf() && s.realm_id == id && forall|k: FloID| #[trigger] s.flos@.dom().contains(k) ==> realm_of(s.flos@[k].flo) == id }
/// Every realm only has Flos of this realm.
pub open spec fn good(m: Realms) -> bool { forall|id: RealmID| #[trigger] m.dom().contains(id) ==> one_realm(m[id], id) }
pub open spec fn held(m: Realms, g: GlobalID) -> bool { m.dom().contains(g.0) && m[g.0].flos@.dom().contains(g.1) }
pub open spec fn held_as(m: Realms, g: GlobalID, fc: FloCuckoo) -> bool { held(m, g) && of_entry(fc, m[g.0].flos@[g.1]) }
/// The realm when a Flo was offered to it; b: it was taken.
pub open spec fn updated(n: RealmStorage, o: RealmStorage, f: Flo, b: bool) -> bool {
    &&& n.wf() && n.same_config(&o) && (o.size <= o.realm_config.max_space ==> n.within_space())
    &&& n.up_versions(&o, &f) && n.up_cuckoos(&o, &f) && n.up_evict(&o, &f) && n.up_accept(&o, &f)
    &&& b && n.flos@.dom().contains(flo_id_of(f)) ==> n.flos@[flo_id_of(f)].flo == f
    &&& !b ==> (o.flos@.dom().contains(flo_id_of(f)) && version_of(o.flos@[flo_id_of(f)].flo) >= version_of(f)) || flo_size_of(f) * 3 > o.realm_config.max_space
}
pub open spec fn started(n: RealmStorage, fr: FloRealm, cfg: DHTConfig) -> bool {
    &&& n.wf() && n.dht_config == cfg && n.realm_config == realm_cfg(fr) && n.realm_id == realm_of(realm_flo(fr))
    &&& n.flos@.dom() == Set::<FloID>::empty().insert(flo_id_of(realm_flo(fr))) && n.flos@[flo_id_of(realm_flo(fr))].flo == realm_flo(fr)
}
/// The node when a Flo was offered to it: only the realm of the Flo changes, and it is only created if it is accepted.
pub open spec fn took(n: Realms, o: Realms, cfg: DHTConfig, f: Flo, b: bool) -> bool {
    let id = realm_of(f);
    if o.dom().contains(id) { n == o.insert(id, n[id]) && updated(n[id], o[id], f, b) }
    else if as_realm(f) is Some && accepts(cfg, id) { b && n == o.insert(id, n[id]) && started(n[id], as_realm(f)->Some_0, cfg) }
    else { !b && n == o }
}
pub proof fn lemma_took(n: Realms, o: Realms, cfg: DHTConfig, f: Flo, b: bool)
    requires good(o), took(n, o, cfg, f, b),
    ensures good(n),
{
    axiom_realm(f);
    let id = realm_of(f);
    assert forall|x: RealmID| #[trigger] n.dom().contains(x) implies one_realm(n[x], x) by {
        assert(x != id ==> o.dom().contains(x));
        if x == id && o.dom().contains(id) { lemma_one_realm(n[id], o[id], f); }
    }
}
pub proof fn lemma_one_realm(n: RealmStorage, o: RealmStorage, f: Flo)
    requires one_realm(o, realm_of(f)), n.wf(), n.same_config(&o), n.up_versions(&o, &f),
    ensures one_realm(n, realm_of(f)),
{
    reveal(RealmStorage::up_versions);
    assert forall|k: FloID| #[trigger] n.flos@.dom().contains(k) implies realm_of(n.flos@[k].flo) == realm_of(f) by { assert(o.flos@.dom().contains(k) || k == flo_id_of(f)); }
}
/// What is sent on when a Flo was offered: the Flo, if it was taken, and the cuckoo link to the node which has the parent.
pub open spec fn sent_on(r: Seq<InternOut>, f: Flo, b: bool) -> bool {
    let p: int = if b { 1 } else { 0 };
    &&& b ==> r.len() > 0 && closest(r[0], flo_id_of(f).0, MessageClosest::StoreFlo(f))
    &&& match config_of(f).cuckoo {
        Cuckoo::Parent(id) => r.len() == p + 1 && closest(r[p], id.0, MessageClosest::StoreCuckooID(gid_of(f))),
        _ => r.len() == p,
    }
}
pub open spec fn stored(n: Realms, o: Realms, cfg: DHTConfig, f: Flo, r: Seq<InternOut>) -> bool {
    (took(n, o, cfg, f, true) && sent_on(r, f, true)) || (took(n, o, cfg, f, false) && sent_on(r, f, false))
}
/// These cuckoos are now linked to the Flo, if it is there.
pub open spec fn links(n: Realms, o: Realms, g: GlobalID, ids: Seq<FloID>) -> bool {
    if o.dom().contains(g.0) { n == o.insert(g.0, n[g.0]) && n[g.0].wf() && n[g.0].linked_all(&o[g.0], g.1, ids) } else { n == o }
}
pub proof fn lemma_links(n: Realms, o: Realms, g: GlobalID, ids: Seq<FloID>)
    requires good(o), links(n, o, g, ids),
    ensures good(n),
{
    assert forall|x: RealmID| #[trigger] n.dom().contains(x) implies one_realm(n[x], x) by {
        assert(x != g.0 ==> o.dom().contains(x));
        if x == g.0 && o.dom().contains(x) { assert(one_realm(o[x], x)); assert forall|k: FloID| #[trigger] n[x].flos@.dom().contains(k) implies realm_of(n[x].flos@[k].flo) == x by { assert(o[x].flos@.dom().contains(k)); } }
    }
}
/// A Flo with its cuckoos was offered.
pub open spec fn offered_by(n: Realms, m: Realms, o: Realms, cfg: DHTConfig, fc: FloCuckoo) -> bool { (took(m, o, cfg, fc.0, true) || took(m, o, cfg, fc.0, false)) && links(n, m, gid_of(fc.0), fc.1@) }
pub open spec fn offered(n: Realms, o: Realms, cfg: DHTConfig, fc: FloCuckoo) -> bool { exists|m: Realms| #[trigger] offered_by(n, m, o, cfg, fc) }
/// Flos were offered one after the other.
pub open spec fn each_offered(h: Seq<Realms>, cfg: DHTConfig, l: Seq<FloCuckoo>) -> bool { h.len() == l.len() + 1 && forall|i: int| #![trigger h[i]] 0 <= i < l.len() ==> offered(h[i + 1], h[i], cfg, l[i]) }
pub proof fn lemma_each_more(h: Seq<Realms>, cfg: DHTConfig, all: Seq<FloCuckoo>, p: int, n: Realms)
    requires 0 <= p < all.len(), each_offered(h, cfg, all.take(p)), offered(n, h.last(), cfg, all[p]),
    ensures each_offered(h.push(n), cfg, all.take(p + 1)),
{
    let (h2, a2) = (h.push(n), all.take(p + 1));
    assert forall|i: int| #![trigger h2[i]] 0 <= i < a2.len() implies offered(h2[i + 1], h2[i], cfg, a2[i]) by { if i < p { assert(offered(h[i + 1], h[i], cfg, all.take(p)[i])); } }
}
/// Each realm once.
pub open spec fn realm_list(l: Seq<RealmID>, m: Realms) -> bool { l.len() == m.dom().len() && forall|id: RealmID| #[trigger] l.contains(id) <==> m.dom().contains(id) }
pub open spec fn keys_of(l: Seq<RealmID>, m: Realms) -> bool { l.len() == entries(m).len() && forall|i: int| #![trigger l[i]] 0 <= i < l.len() ==> l[i] == entries(m)[i].0 }
pub proof fn lemma_realm_list(l: Seq<RealmID>, m: Realms)
    requires enumerates(entries(m), m), keys_of(l, m),
    ensures realm_list(l, m),
{
    assert forall|id: RealmID| #[trigger] l.contains(id) <==> m.dom().contains(id) by {
        if l.contains(id) { let i = choose|i: int| 0 <= i < l.len() && l[i] == id; assert(entries(m)[i].0 == id); }
        if m.dom().contains(id) { let p = entry_pos(m, id); assert(entries(m)[p] == (id, m[id])); assert(l[p] == id); }
    }
}
/// fc is one of the Flos of these realms, and all of them are there.
pub open spec fn somewhere(fc: FloCuckoo, m: Realms) -> bool { exists|g: GlobalID| #[trigger] held_as(m, g, fc) }
pub open spec fn in_list(l: Seq<FloCuckoo>, fs: FloStorage) -> bool { exists|i: int| 0 <= i < l.len() && of_entry(#[trigger] l[i], fs) }
pub open spec fn flo_list(l: Seq<FloCuckoo>, m: Realms) -> bool {
    &&& forall|i: int| #![trigger l[i]] 0 <= i < l.len() ==> somewhere(l[i], m)
    &&& forall|g: GlobalID| #[trigger] held(m, g) ==> in_list(l, m[g.0].flos@[g.1])
}
/// Those of the wanted Flos which are here.
pub open spec fn found(l: Seq<FloCuckoo>, m: Realms, id: RealmID, ids: Seq<FloID>) -> bool {
    &&& forall|i: int| #![trigger l[i]] 0 <= i < l.len() ==> found_one(l[i], m, id, ids)
    &&& forall|k: FloID| #[trigger] ids.contains(k) && held(m, GlobalID(id, k)) ==> in_list(l, m[id].flos@[k])
}
pub open spec fn found_one(fc: FloCuckoo, m: Realms, id: RealmID, ids: Seq<FloID>) -> bool { exists|k: FloID| #[trigger] ids.contains(k) && held_as(m, GlobalID(id, k), fc) }
/// A neighbour has these realms: those which are accepted are asked for.
pub open spec fn asks_one(m: MessageNeighbour, ids: Seq<RealmID>, cfg: DHTConfig, o: Realms) -> bool {
    match m {
        MessageNeighbour::RequestFlos(id, l) => ids.contains(id) && accepts(cfg, id) && !o.dom().contains(id) && l@.len() == 1 && l@[0] == FloID(id.0),
        MessageNeighbour::RequestFloMetas(id) => ids.contains(id) && accepts(cfg, id),
        _ => false,
    }
}
pub open spec fn asks_realm(m: MessageNeighbour, id: RealmID) -> bool { m matches MessageNeighbour::RequestFlos(x, l) && x == id && l@.len() == 1 && l@[0] == FloID(id.0) }
pub open spec fn asked_realm(ms: Seq<MessageNeighbour>, id: RealmID) -> bool { exists|i: int| 0 <= i < ms.len() && asks_realm(#[trigger] ms[i], id) }
pub open spec fn asks_metas(m: MessageNeighbour, id: RealmID) -> bool { m == MessageNeighbour::RequestFloMetas(id) }
pub open spec fn asked_metas(ms: Seq<MessageNeighbour>, id: RealmID) -> bool { exists|i: int| 0 <= i < ms.len() && asks_metas(#[trigger] ms[i], id) }
pub open spec fn asks_all(ms: Seq<MessageNeighbour>, ids: Seq<RealmID>, cfg: DHTConfig, o: Realms) -> bool {
    &&& forall|i: int| #![trigger ms[i]] 0 <= i < ms.len() ==> asks_one(ms[i], ids, cfg, o)
    &&& forall|id: RealmID| #[trigger] ids.contains(id) && accepts(cfg, id) ==> asked_metas(ms, id) && (!o.dom().contains(id) ==> asked_realm(ms, id))
}
pub open spec fn metas(l: Seq<FloMeta>, s: RealmStorage) -> bool {
    &&& l.len() == s.flos@.dom().len()
    &&& forall|i: int| #![trigger l[i]] 0 <= i < l.len() ==> s.has_meta(l[i])
    &&& forall|k: FloID| #[trigger] s.flos@.dom().contains(k) ==> s.announced(l, s.flos@[k])
}
pub open spec fn needs(l: Seq<FloID>, s: RealmStorage, a: Seq<FloMeta>) -> bool {
    &&& forall|i: int| #![trigger l[i]] 0 <= i < l.len() ==> s.wanted(a, l[i])
    &&& forall|j: int| 0 <= j < a.len() && s.wants(#[trigger] a[j]) ==> l.contains(a[j].id)
}
pub open spec fn is_one(ms: Seq<MessageNeighbour>) -> bool { ms.len() == 1 }
/// What is answered to a neighbour.
pub open spec fn answers(ms: Seq<MessageNeighbour>, msg: MessageNeighbour, cfg: DHTConfig, o: Realms) -> bool {
    match msg {
        MessageNeighbour::RequestRealmIDs => is_one(ms) && (ms[0] matches MessageNeighbour::AvailableRealmIDs(l) && realm_list(l@, o)),
        MessageNeighbour::AvailableRealmIDs(ids) => asks_all(ms, ids@, cfg, o),
        MessageNeighbour::RequestFloMetas(id) => if o.dom().contains(id) { is_one(ms) && (ms[0] matches MessageNeighbour::AvailableFlos(x, l) && x == id && metas(l@, o[id])) } else { ms.len() == 0 },
        MessageNeighbour::AvailableFlos(id, a) => if o.dom().contains(id) && o[id].wants_some(a@) { is_one(ms) && (ms[0] matches MessageNeighbour::RequestFlos(x, l) && x == id && needs(l@, o[id], a@)) } else { ms.len() == 0 },
        MessageNeighbour::RequestFlos(id, ids) => if o.dom().contains(id) { is_one(ms) && (ms[0] matches MessageNeighbour::Flos(l) && found(l@, o, id, ids@)) } else { ms.len() == 0 },
        MessageNeighbour::Flos(_) => ms.len() == 0,
    }
}
pub open spec fn post(o: Option<InternOut>, dst: U256, m: MessageNeighbour) -> bool { match o { Some(x) => !empty_msg(m) && neighbour(x, dst, m), None => empty_msg(m) } }
/// These messages are sent, except if there is nothing in them.
pub open spec fn posted_as(r: Seq<InternOut>, ms: Seq<MessageNeighbour>, dst: U256, fwd: Seq<int>, bwd: Seq<int>) -> bool {
    &&& emb(ms.len() as int, r.len() as int, fwd, bwd) && increasing(bwd)
    &&& forall|j: int| #![trigger ms[j]] 0 <= j < ms.len() ==> post(if fwd[j] >= 0 { Some(r[fwd[j]]) } else { None }, dst, ms[j])
}
pub open spec fn posted(r: Seq<InternOut>, ms: Seq<MessageNeighbour>, dst: U256) -> bool { exists|fwd: Seq<int>, bwd: Seq<int>| #[trigger] posted_as(r, ms, dst, fwd, bwd) }
pub open spec fn answered(r: Seq<InternOut>, msg: MessageNeighbour, dst: U256, cfg: DHTConfig, o: Realms) -> bool { exists|ms: Seq<MessageNeighbour>| #[trigger] answers(ms, msg, cfg, o) && posted(r, ms, dst) }
pub open spec fn each_in(n: Realms, o: Realms, cfg: DHTConfig, l: Seq<FloCuckoo>) -> bool { exists|h: Seq<Realms>| #[trigger] each_offered(h, cfg, l) && h[0] == o && h.last() == n }
pub open spec fn from_neighbour(msg: MessageNeighbour, x: U256, cfg: DHTConfig, n: Realms, o: Realms, r: Seq<InternOut>) -> bool {
    &&& match msg { MessageNeighbour::Flos(l) => each_in(n, o, cfg, l@), _ => n == o }
    &&& answered(r, msg, x, cfg, o)
}
pub open spec fn gives_flo(x: InternOut, o: Realms, g: GlobalID, dst: U256) -> bool { exists|fc: FloCuckoo| held_as(o, g, fc) && #[trigger] direct(x, dst, MessageDest::FloValue(fc)) }
pub open spec fn ids_held(o: Realms, g: GlobalID, l: Vec<FloID>) -> bool { held(o, g) && l@ == o[g.0].flos@[g.1].cuckoos@ }
pub open spec fn gives_ids(x: InternOut, o: Realms, g: GlobalID, dst: U256) -> bool { exists|l: Vec<FloID>| ids_held(o, g, l) && #[trigger] direct(x, dst, MessageDest::CookooIDs(g, l)) }
/// A message which looks for the node closest to an ID.
pub open spec fn from_routing(msg: MessageClosest, from: U256, key: U256, cfg: DHTConfig, n: Realms, o: Realms, r: Seq<InternOut>) -> bool {
    match msg {
        MessageClosest::StoreFlo(f) => stored(n, o, cfg, f, r),
        MessageClosest::ReadFlo(id) => n == o && if held(o, GlobalID(id, FloID(key))) { r.len() == 1 && gives_flo(r[0], o, GlobalID(id, FloID(key)), from) } else { r.len() == 0 },
        MessageClosest::GetCuckooIDs(id) => n == o && if held(o, GlobalID(id, FloID(key))) { r.len() == 1 && gives_ids(r[0], o, GlobalID(id, FloID(key)), from) } else { r.len() == 0 },
        MessageClosest::StoreCuckooID(g) => r.len() == 0 && links(n, o, GlobalID(g.0, FloID(key)), seq![g.1]),
    }
}
/// The answer of another node.
pub open spec fn from_dest(msg: MessageDest, cfg: DHTConfig, n: Realms, o: Realms, r: Seq<InternOut>) -> bool {
    r.len() == 1 && match msg {
        MessageDest::FloValue(fc) => offered(n, o, cfg, fc) && up(r[0], DHTStorageOut::FloValue(fc)),
        MessageDest::UnknownFlo(g) => n == o && up(r[0], DHTStorageOut::ValueMissing(g)),
        MessageDest::CookooIDs(g, l) => n == o && up(r[0], DHTStorageOut::CuckooIDs(g, l)),
    }
}
pub open spec fn from_app(msg: DHTStorageIn, cfg: DHTConfig, n: Realms, o: Realms, r: Seq<InternOut>) -> bool {
    match msg {
        DHTStorageIn::StoreFlo(f) => stored(n, o, cfg, f, r),
        DHTStorageIn::ReadFlo(g) => n == o && r.len() == 1 && if held(o, g) { r[0] matches InternOut::Storage(DHTStorageOut::FloValue(fc)) && held_as(o, g, fc) } else { closest(r[0], g.1.0, MessageClosest::ReadFlo(g.0)) },
        DHTStorageIn::ReadCuckooIDs(g) => n == o && if held(o, g) {
            r.len() == 2 && (r[0] matches InternOut::Storage(DHTStorageOut::CuckooIDs(x, l)) && x == g && ids_held(o, g, l)) && closest(r[1], g.1.0, MessageClosest::GetCuckooIDs(g.0))
        } else { r.len() == 1 && closest(r[0], g.1.0, MessageClosest::GetCuckooIDs(g.0)) },
        DHTStorageIn::SyncFromNeighbors => n == o && r.len() == 1 && broadcast(r[0], MessageNeighbour::RequestRealmIDs),
        DHTStorageIn::GetRealms => n == o && r.len() == 1 && (r[0] matches InternOut::Storage(DHTStorageOut::RealmIDs(l)) && realm_list(l@, o)),
        DHTStorageIn::GetFlos => n == o && r.len() == 1 && (r[0] matches InternOut::Storage(DHTStorageOut::FloValues(l)) && flo_list(l@, o)),
        DHTStorageIn::PropagateFlos => n == o && if o.dom().len() == 0 { r.len() == 0 } else { r.len() == 1 && tells_realms(r[0], o) },
    }
}
pub open spec fn tells_realms(x: InternOut, o: Realms) -> bool { exists|l: Vec<RealmID>| realm_list(l@, o) && #[trigger] broadcast(x, MessageNeighbour::AvailableRealmIDs(l)) }
pub open spec fn idle(n: Realms, o: Realms, r: Seq<InternOut>) -> bool { n == o && r.len() == 0 }
pub open spec fn from_router(msg: DHTRouterOut, cfg: DHTConfig, n: Realms, o: Realms, r: Seq<InternOut>) -> bool {
    match msg {
        DHTRouterOut::MessageRouting(from, _, _, key, w) => match unpacked::<MessageClosest>(w) { Some(m) => from_routing(m, from, key, cfg, n, o, r), None => idle(n, o, r) },
        DHTRouterOut::MessageClosest(from, _, key, w) => match unpacked::<MessageClosest>(w) { Some(m) => from_routing(m, from, key, cfg, n, o, r), None => idle(n, o, r) },
        DHTRouterOut::MessageDest(_, _, w) => match unpacked::<MessageDest>(w) { Some(m) => from_dest(m, cfg, n, o, r), None => idle(n, o, r) },
        DHTRouterOut::MessageNeighbour(from, w) => match unpacked::<MessageNeighbour>(w) { Some(m) => from_neighbour(m, from, cfg, n, o, r), None => idle(n, o, r) },
        _ => idle(n, o, r),
    }
}
/// The accepted realms only grow by what the system names.
pub open spec fn cfg_next(n: DHTConfig, o: DHTConfig, msg: InternIn) -> bool {
    if let InternIn::Routing(DHTRouterOut::SystemRealm(id)) = msg {
        n.our_id == o.our_id && n.realms@ == if o.realms@.contains(id) { o.realms@ } else { o.realms@.push(id) }
    } else { n == o }
}
pub open spec fn all_flos(l: Seq<FloCuckoo>, s: RealmStorage) -> bool {
    &&& forall|i: int| #![trigger l[i]] 0 <= i < l.len() ==> s.is_held(l[i])
    &&& forall|k: FloID| #[trigger] s.flos@.dom().contains(k) ==> s.listed(l, s.flos@[k])
}
pub open spec fn per_realm(outs: Seq<Vec<FloCuckoo>>, e: Seq<(RealmID, RealmStorage)>) -> bool { outs.len() == e.len() && forall|i: int| #![trigger outs[i]] 0 <= i < outs.len() ==> all_flos(outs[i]@, e[i].1) }
pub open spec fn among(l: Seq<FloCuckoo>, e: Seq<(RealmID, RealmStorage)>) -> bool {
    &&& forall|i: int| #![trigger l[i]] 0 <= i < l.len() ==> in_one(l[i], e)
    &&& forall|j: int, k: FloID| 0 <= j < e.len() && (#[trigger] e[j].1.flos@.dom().contains(k)) ==> in_list(l, e[j].1.flos@[k])
}
pub open spec fn in_one(fc: FloCuckoo, e: Seq<(RealmID, RealmStorage)>) -> bool { exists|j: int| 0 <= j < e.len() && (#[trigger] e[j].1.is_held(fc)) }
pub proof fn lemma_among(outs: Seq<Vec<FloCuckoo>>, e: Seq<(RealmID, RealmStorage)>)
    requires per_realm(outs, e),
    ensures among(flat_of(outs), e),
    decreases outs.len(),
{
    if outs.len() > 0 {
        let (o, d, l) = (outs.drop_last(), e.drop_last(), flat_of(outs));
        assert(per_realm(o, d)) by { assert forall|i: int| #![trigger o[i]] 0 <= i < o.len() implies all_flos(o[i]@, d[i].1) by { assert(all_flos(outs[i]@, e[i].1)); } }
        lemma_among(o, d);
        let (a, z) = (flat_of(o), outs.last()@);
        assert(l == a + z);
        assert(all_flos(outs[outs.len() - 1]@, e[outs.len() - 1].1));
        assert forall|i: int| #![trigger l[i]] 0 <= i < l.len() implies in_one(l[i], e) by {
            if i < a.len() { assert(l[i] == a[i]); let j = choose|j: int| 0 <= j < d.len() && (#[trigger] d[j].1.is_held(a[i])); assert(e[j].1.is_held(l[i])); }
            else { assert(l[i] == z[i - a.len()]); assert(e[e.len() - 1].1.is_held(l[i])); }
        }
        assert forall|j: int, k: FloID| 0 <= j < e.len() && (#[trigger] e[j].1.flos@.dom().contains(k)) implies in_list(l, e[j].1.flos@[k]) by {
            let fs = e[j].1.flos@[k];
            if j < d.len() { assert(d[j].1.flos@.dom().contains(k)); assert(in_list(a, fs)); let i = choose|i: int| 0 <= i < a.len() && of_entry(#[trigger] a[i], fs); assert(l[i] == a[i]); assert(of_entry(l[i], fs)); }
            else { assert(e[j].1.listed(z, fs)); let i = choose|i: int| 0 <= i < z.len() && of_entry(#[trigger] z[i], fs); assert(l[i + a.len()] == z[i]); assert(of_entry(l[i + a.len()], fs)); }
        }
    }
}
pub proof fn lemma_flo_list(l: Seq<FloCuckoo>, m: Realms)
    requires enumerates(entries(m), m), among(l, entries(m)),
    ensures flo_list(l, m),
{
    let e = entries(m);
    assert forall|i: int| #![trigger l[i]] 0 <= i < l.len() implies somewhere(l[i], m) by {
        assert(in_one(l[i], e));
        let j = choose|j: int| 0 <= j < e.len() && (#[trigger] e[j].1.is_held(l[i]));
        let s = e[j].1;
        let k = choose|k: FloID| #[trigger] s.flos@.dom().contains(k) && of_entry(l[i], s.flos@[k]);
        assert(m.dom().contains(e[j].0) && m[e[j].0] == s);
        assert(held_as(m, GlobalID(e[j].0, k), l[i]));
    }
    assert forall|g: GlobalID| #[trigger] held(m, g) implies in_list(l, m[g.0].flos@[g.1]) by { let p = entry_pos(m, g.0); assert(e[p] == (g.0, m[g.0])); assert(e[p].1.flos@.dom().contains(g.1)); }
}
/// Of the realms of a neighbour: those which are accepted, and of those the ones which are not known.
pub open spec fn are_accepted(acc: Seq<RealmID>, ids: Seq<RealmID>, cfg: DHTConfig) -> bool { forall|id: RealmID| #[trigger] acc.contains(id) <==> ids.contains(id) && accepts(cfg, id) }
pub open spec fn acc_fwd(ids: Seq<RealmID>, fwd: Seq<int>, cfg: DHTConfig) -> bool { forall|j: int| #![trigger fwd[j]] 0 <= j < ids.len() ==> (fwd[j] >= 0 <==> accepts(cfg, ids[j])) }
pub proof fn lemma_accepted(acc: Seq<RealmID>, ids: Seq<RealmID>, cfg: DHTConfig, fwd: Seq<int>, bwd: Seq<int>)
    requires filt(ids, acc, fwd, bwd), acc_fwd(ids, fwd, cfg),
    ensures are_accepted(acc, ids, cfg),
{
    assert forall|id: RealmID| #[trigger] acc.contains(id) <==> ids.contains(id) && accepts(cfg, id) by {
        if acc.contains(id) { let i = choose|i: int| 0 <= i < acc.len() && acc[i] == id; assert(ids[bwd[i]] == id); assert(fwd[bwd[i]] == i); }
        if ids.contains(id) && accepts(cfg, id) { let j = choose|j: int| 0 <= j < ids.len() && ids[j] == id; assert(fwd[j] >= 0); assert(acc[fwd[j]] == id); }
    }
}
pub open spec fn new_fwd(acc: Seq<RealmID>, fwd: Seq<int>, o: Realms) -> bool { forall|j: int| #![trigger fwd[j]] 0 <= j < acc.len() ==> (fwd[j] >= 0 <==> !o.dom().contains(acc[j])) }
pub open spec fn two_parts(ms: Seq<MessageNeighbour>, f: Seq<&RealmID>, acc: Seq<RealmID>) -> bool {
    &&& ms.len() == f.len() + acc.len()
    &&& forall|i: int| #![trigger ms[i]] 0 <= i < f.len() ==> asks_realm(ms[i], *f[i])
    &&& forall|i: int| #![trigger ms[i]] f.len() <= i < ms.len() ==> asks_metas(ms[i], acc[i - f.len()])
}
pub proof fn lemma_asks_all(ms: Seq<MessageNeighbour>, acc: Seq<RealmID>, ids: Seq<RealmID>, cfg: DHTConfig, o: Realms, f: Seq<&RealmID>, fwd: Seq<int>, bwd: Seq<int>)
    requires are_accepted(acc, ids, cfg), filt(refs(acc), f, fwd, bwd), new_fwd(acc, fwd, o), two_parts(ms, f, acc),
    ensures asks_all(ms, ids, cfg, o),
{
    assert forall|i: int| #![trigger ms[i]] 0 <= i < ms.len() implies asks_one(ms[i], ids, cfg, o) by {
        if i < f.len() { assert(refs(acc)[bwd[i]] == f[i]); assert(acc[bwd[i]] == *f[i]); assert(acc.contains(*f[i])); assert(fwd[bwd[i]] == i); assert(asks_realm(ms[i], *f[i])); }
        else { assert(acc.contains(acc[i - f.len()])); }
    }
    assert forall|id: RealmID| #[trigger] ids.contains(id) && accepts(cfg, id) implies asked_metas(ms, id) && (!o.dom().contains(id) ==> asked_realm(ms, id)) by {
        assert(acc.contains(id));
        let j = choose|j: int| 0 <= j < acc.len() && acc[j] == id;
        assert(asks_metas(ms[f.len() + j], id));
        if !o.dom().contains(id) { assert(fwd[j] >= 0); assert(*refs(acc)[j] == id); assert(*f[fwd[j]] == id); assert(asks_realm(ms[fwd[j]], id)); }
    }
}
pub open spec fn find_fwd(ids: Seq<FloID>, l: Seq<FloCuckoo>, m: Realms, id: RealmID, fwd: Seq<int>, bwd: Seq<int>) -> bool {
    &&& emb(ids.len() as int, l.len() as int, fwd, bwd)
    &&& forall|j: int| #![trigger fwd[j]] 0 <= j < ids.len() ==> if fwd[j] >= 0 { held_as(m, GlobalID(id, ids[j]), l[fwd[j]]) } else { !held(m, GlobalID(id, ids[j])) }
}
pub proof fn lemma_found(ids: Seq<FloID>, l: Seq<FloCuckoo>, m: Realms, id: RealmID, fwd: Seq<int>, bwd: Seq<int>)
    requires find_fwd(ids, l, m, id, fwd, bwd), m.dom().contains(id),
    ensures found(l, m, id, ids),
{
    assert forall|i: int| #![trigger l[i]] 0 <= i < l.len() implies found_one(l[i], m, id, ids) by { assert(fwd[bwd[i]] == i); assert(ids.contains(ids[bwd[i]])); assert(held_as(m, GlobalID(id, ids[bwd[i]]), l[i])); }
    assert forall|k: FloID| #[trigger] ids.contains(k) && held(m, GlobalID(id, k)) implies in_list(l, m[id].flos@[k]) by {
        let j = choose|j: int| 0 <= j < ids.len() && ids[j] == k; assert(fwd[j] >= 0); assert(of_entry(l[fwd[j]], m[id].flos@[k]));
    }
}
/// Once the answers are known, this is what is sent.
pub proof fn lemma_answers(ms: Seq<MessageNeighbour>, msg: MessageNeighbour, cfg: DHTConfig, o: Realms, dst: U256)
    requires answers(ms, msg, cfg, o),
    ensures forall|r: Seq<InternOut>, fwd: Seq<int>, bwd: Seq<int>| #![trigger emb(ms.len() as int, r.len() as int, fwd, bwd), answered(r, msg, dst, cfg, o)]
        posted_as(r, ms, dst, fwd, bwd) ==> answered(r, msg, dst, cfg, o),
{
    assert forall|r: Seq<InternOut>, fwd: Seq<int>, bwd: Seq<int>| #![trigger emb(ms.len() as int, r.len() as int, fwd, bwd), answered(r, msg, dst, cfg, o)]
        posted_as(r, ms, dst, fwd, bwd) implies answered(r, msg, dst, cfg, o) by { assert(posted(r, ms, dst)); }
}
impl Messages {
    pub open spec fn wf(&self) -> bool { good(self.realms@) }
    /// The storage has what the node has.
    pub open spec fn saved(&self) -> bool { unyaml::<HashMap<RealmID, RealmStorage>>(self.ds.at(MODULE_NAME@)) == Some(self.realms) }
    pub open spec fn did(&self, o: &Messages, msg: InternIn, r: Seq<InternOut>) -> bool {
        &&& cfg_next(self.config, o.config, msg)
        &&& match msg { InternIn::Routing(m) => from_router(m, o.config, self.realms@, o.realms@, r), InternIn::Storage(m) => from_app(m, o.config, self.realms@, o.realms@, r) }
    }
}
impl GlobalID {
//@fn realm GlobalID::new
//@ spec
    ensures res == GlobalID(realm, flo),
//@end
//@fn realm GlobalID::realm_id
//@ spec
    ensures *res == self.0,
//@end
//@fn realm GlobalID::flo_id
//@ spec
    ensures *res == self.1,
//@end
}
impl InternOut {
//@fn intern <InternOut as From<DHTStorageOut>>::from
//@ spec
    ensures up(res, value), // [S06]
//@end
}
impl MessageClosest {
//@fn intern MessageClosest::to_intern_out
//@ spec
    ensures res is Some && closest(res->Some_0, dst, *self), // [S06]
//@ closure 0 -> (r: InternOut) ensures r == InternOut::Routing(DHTRouterIn::MessageClosest(dst, msg_wrap))
//@ sub /\.vx_ok\(\)/ => /.ok()/
//@end
}
impl MessageDest {
//@fn intern MessageDest::to_intern_out
//@ spec
    ensures res is Some && direct(res->Some_0, dst, *self), // [S06]
//@ closure 0 -> (r: InternOut) ensures r == InternOut::Routing(DHTRouterIn::MessageDirect(dst, msg_wrap))
//@ sub /\.vx_ok\(\)/ => /.ok()/
//@end
}
impl MessageNeighbour {
//@fn intern MessageNeighbour::to_neighbour
//@ spec
    ensures post(res, dst, self), // [S06]
//@ closure 0 -> (r: Option<InternOut>) ensures r is Some && neighbour(r->Some_0, dst, self)
//@ closure 1 -> (r: InternOut) ensures r == InternOut::Routing(DHTRouterIn::MessageNeighbour(dst, msg_wrap))
//@ sub /\.vx_ok\(\)/ => /.ok()/
//@end
//@fn intern MessageNeighbour::to_broadcast
//@ spec
    ensures match res { Some(x) => !empty_msg(self) && broadcast(x, self), None => empty_msg(self) }, // [S06]
//@ closure 0 -> (r: Option<InternOut>) ensures r is Some && broadcast(r->Some_0, self)
//@ closure 1 -> (r: InternOut) ensures r == InternOut::Routing(DHTRouterIn::MessageBroadcast(msg_wrap))
//@ sub /\.vx_ok\(\)/ => /.ok()/
//@end
}
impl Messages {
//@fn intern Messages::new
//@ spec
    requires unyaml::<HashMap<RealmID, RealmStorage>>(ds.at(MODULE_NAME@)) matches Some(m) ==> good(m@),
    ensures res.0.wf(), // [S06]
        res.0.saved(), // [S07]
        res.0.config == config, // [S06]
        match unyaml::<HashMap<RealmID, RealmStorage>>(ds.at(MODULE_NAME@)) { Some(m) => res.0.realms@ == m@, None => res.0.realms@ == Map::<RealmID, RealmStorage>::empty() }, // [S07]
//@ sub /watch::channel\(Stats::default\(\)\)/ => /vx_channel(vx_default())/
//@end
//@fn intern Messages::store
//@ spec
    ensures final(self).saved(), // [S07]
        final(self).realms == old(self).realms, final(self).config == old(self).config, // [S06]
//@ sub ! /self\.tx\.(?:dup|clone)\(\)\.map\(\|tx\| \{\s*tx\.send\(([\s\S]*)\)\s*\.(?:vx_)?is_err\(\)\s*\.(?:vx_)?then\(\|\| self\.tx = None\)\s*\}\);/ => /if let Some(tx) = self.tx.dup() { if tx.send(\1).is_err() { self.tx = None; } }/
//@ sub ! /serde_yaml::to_string\((&self\.realms)\)\s*\.(?:vx_)?ok\(\)\s*\.map\(\|s\| ([^;]*)\);/ => /if let Ok(s) = vx_to_yaml(\1) { let _ = \2; }/
//@ exit
    proof { axiom_yaml(self.realms); }
//@end
//@fn intern Messages::create_realm
//@ spec
    requires !old(self).realms@.dom().contains(realm_of(realm_flo(realm))),
    ensures
        res is Ok <==> accepts(old(self).config, realm_of(realm_flo(realm))), // [S06]
        final(self).config == old(self).config,
        match res { Ok(_) => final(self).realms@ == old(self).realms@.insert(realm_of(realm_flo(realm)), final(self).realms@[realm_of(realm_flo(realm))]) && started(final(self).realms@[realm_of(realm_flo(realm))], realm, old(self).config), Err(_) => *final(self) == *old(self) }, // [S06]
//@ sub /CoreError::RealmNotAccepted\.vx_to\(\)/ => /vx_err()/
//@end
//@fn intern Messages::upsert_flo
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).config == old(self).config, took(final(self).realms@, old(self).realms@, old(self).config, flo, res), // [S06]
        old(self).saved() ==> final(self).saved(), // [S07]
//@ sub ! /self\s*\.realms\s*\.get_mut\(([^\n]*)\)\s*\.map\(\|(\w+)\| ([^\n]*)\)\s*\.vx_unwrap_or_else\(\|\| \{\s*TryInto::<FloRealm>::try_into\((\w+)\)\s*\.(?:vx_)?ok\(\)\s*\.vx_and_then\(\|(\w+)\| (self\.create_realm\(\w+\))\.(?:vx_)?ok\(\)\)\s*\.is_some\(\)\s*\}\)/ => /match self.realms.get_mut(\1) { Some(\2) => { proof { axiom_fits(*\2); } \3 } None => match vx_try_realm(\4) { Ok(\5) => \6.is_ok(), Err(_) => false } }/
//@ entry
    let ghost vflo = flo;
    proof {
        axiom_realm(flo);
        assert(self.realms@.dom().contains(realm_of(flo)) ==> one_realm(self.realms@[realm_of(flo)], realm_of(flo)));
    }
//@ exit
    proof { lemma_took(self.realms@, old(self).realms@, old(self).config, vflo, res); }
//@end
//@fn intern Messages::store_flo
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).config == old(self).config, stored(final(self).realms@, old(self).realms@, old(self).config, flo, res@), // [S06]
        old(self).saved() ==> final(self).saved(), // [S07]
//@ sub /\*parent\.dup\(\)/ => /parent.0/
//@end
//@fn intern Messages::msg_routing
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).config == old(self).config, from_routing(msg, origin, key, old(self).config, final(self).realms@, old(self).realms@, res@), // [S06]
        old(self).saved() ==> final(self).saved(), // [S07]
//@ closure 0 -> (r: Option<FloCuckoo>) ensures (r is Some) == realm.flos@.dom().contains(fid), r matches Some(fc) ==> of_entry(fc, realm.flos@[fid])
//@ closure 1 -> (r: Vec<InternOut>) ensures r@.len() == 1 && r@[0] == msg
//@ closure 2 -> (r: Option<Vec<FloID>>) ensures (r is Some) == realm.flos@.dom().contains(fid), r matches Some(l) ==> l@ == realm.flos@[fid].cuckoos@
//@ closure 3 -> (r: Vec<InternOut>) ensures r@.len() == 1 && direct(r@[0], origin, MessageDest::CookooIDs(parent, ids))
//@ closure 4 -> (r: Vec<InternOut>) ensures r@.len() == 1 && r@[0] == msg
//@ sub ! /self\s*\.realms\s*\.get_mut\(([^\n]*)\)\s*\.map\(\|(\w+)\| (\w+\.store_cuckoo_id\([^;]*\))\);/ => /if let Some(\2) = self.realms.get_mut(\1) { proof { axiom_fits(*\2); \2.lemma_linked_none(fid); } let ghost vx_o = *\2; \3; proof { \2.lemma_linked_one(&vx_o, &vx_o, fid, Seq::<FloID>::empty(), gid.1); assert(Seq::<FloID>::empty().push(gid.1) =~= seq![gid.1]); lemma_links(self.realms@, old(self).realms@, GlobalID(gid.0, fid), seq![gid.1]); } }/
//@end
//@fn intern Messages::msg_dest
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).config == old(self).config, from_dest(msg, old(self).config, final(self).realms@, old(self).realms@, res@), // [S06]
        old(self).saved() ==> final(self).saved(), // [S07]
//@ closure 1 -> (r: Vec<InternOut>) ensures r@.len() == 1 && r@[0] == msg
//@ sub ! /self\s*\.realms\s*\.get_mut\(([^\n]*)\)\s*\.map\(\|(\w+)\| (\w+\.store_cuckoo_ids\([^;]*\))\);/ => /let ghost vx_m = self.realms@; if let Some(\2) = self.realms.get_mut(\1) { \3; } proof { lemma_links(self.realms@, vx_m, gid_of(fc.0), fc.1@); assert(offered_by(self.realms@, vx_m, old(self).realms@, old(self).config, fc)); }/
//@end
//@fn intern Messages::msg_dht_storage
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).config == old(self).config, from_app(msg, old(self).config, final(self).realms@, old(self).realms@, res@), // [S06]
        old(self).saved() ==> final(self).saved(), // [S07]
//@ closure 0 -> (r: Option<Vec<FloID>>) ensures (r is Some) == realm.flos@.dom().contains(id.1), r matches Some(l) ==> l@ == realm.flos@[id.1].cuckoos@
//@ closure 1 -> (r: Vec<InternOut>) ensures r@.len() == 1 && up(r@[0], DHTStorageOut::CuckooIDs(id, cids))
//@ closure 2 -> (r: Vec<FloCuckoo>) ensures all_flos(r@, *realm.1)
//@ closure 3 -> (r: Vec<InternOut>) ensures r@.len() == 1 && r@[0] == msg
//@ entry
    proof {
        let m = self.realms@;
        axiom_entries(m);
        assert forall|l: Seq<RealmID>| keys_of(l, m) implies #[trigger] realm_list(l, m) by { lemma_realm_list(l, m); }
        assert forall|outs: Seq<Vec<FloCuckoo>>| #![trigger flat_of(outs)] per_realm(outs, entries(m)) implies flo_list(flat_of(outs), m) by { lemma_among(outs, entries(m)); lemma_flo_list(flat_of(outs), m); }
    }
//@ sub /vec!\[(DHTStorageOut::FloValues\([^\]]*)\]/ => /vx_arr([\1])/
//@end
//@fn intern Messages::msg_neighbour
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).config == old(self).config, from_neighbour(msg, origin, old(self).config, final(self).realms@, old(self).realms@, res@), // [S06]
        old(self).saved() ==> final(self).saved(), // [S07]
//@ closure 0 -> (r: bool) ensures r == accepts(self.config, *rid)
//@ closure 1 -> (r: bool) ensures r == !self.realms@.dom().contains(**id)
//@ closure 2 -> (r: MessageNeighbour) ensures asks_realm(r, *rid)
//@ closure 3 -> (r: MessageNeighbour) ensures asks_metas(r, *rid)
//@ closure 4 -> (r: Vec<FloMeta>) requires realm.wf() ensures metas(r@, *realm)
//@ closure 5 -> (r: Vec<MessageNeighbour>) ensures r@.len() == 1 && r@[0] == MessageNeighbour::AvailableFlos(realm_id, fm)
//@ closure 6 -> (r: Option<Vec<FloID>>) ensures (r is Some) == realm.wants_some(flo_metas@), r matches Some(l) ==> needs(l@, *realm, flo_metas@)
//@ closure 7 -> (r: Vec<MessageNeighbour>) ensures r@.len() == 1 && r@[0] == MessageNeighbour::RequestFlos(realm_id, needed)
//@ closure 8 -> (r: Vec<FloCuckoo>) requires realm == self.realms@[realm_id], self.realms@.dom().contains(realm_id) ensures found(r@, self.realms@, realm_id, flo_ids@)
//@ closure 9 -> (r: Option<FloCuckoo>) ensures match r { Some(fc) => realm.flos@.dom().contains(*id) && of_entry(fc, realm.flos@[*id]), None => !realm.flos@.dom().contains(*id) }
//@ closure 10 -> (r: Vec<MessageNeighbour>) ensures r@.len() == 1 && r@[0] == MessageNeighbour::Flos(flos)
//@ closure 13 -> (r: Option<InternOut>) ensures post(r, origin, msg)
//@ sub ! /self\s*\.realms\s*\.get_mut\(([^\n]*)\)\s*\.map\(\|(\w+)\| \{\s*(\w+)\s*\.vx_into_iter\(\)\s*\.(?:vx_)?for_each\(\|(\w+)\| (\w+\.store_cuckoo_id\([^;]*?\))\)\s*\}\);/ => /let ghost vx_m = self.realms@; if let Some(\2) = self.realms.get_mut(\1) { let ghost all = \3@; let ghost vx_o = *\2; proof { \2.lemma_linked_none(flo_id_of(flo)); } let mut vx_c = vx_into(\3); while vx_c.has_more() invariant vx_c.wf(), vx_c.seq() == all, \2.wf(), \2.linked_all(&vx_o, flo_id_of(flo), all.take(vx_c.pos())), decreases vx_c.left(), { let \4 = vx_c.take_next(); let ghost vx_b = *\2; proof { axiom_fits(vx_b); assert(all.take(vx_c.pos()) =~= all.take(vx_c.pos() - 1).push(\4)); } \5; proof { \2.lemma_linked_one(&vx_b, &vx_o, flo_id_of(flo), all.take(vx_c.pos() - 1), \4); } } proof { assert(all.take(all.len() as int) =~= all); } }/
//@ sub ! /\bmatch msg \{([\s\S]*)\}\s*\.vx_into_iter\(\)\s*\.vx_filter_map\(\|msg\|/ => /let vx_ms: Vec<MessageNeighbour> = match msg {\1}; proof { lemma_answers(vx_ms@, vmsg, self.config, old(self).realms@, origin); } vx_ms.vx_into_iter().vx_filter_map(|msg|/
//@ entry
    let ghost vmsg = msg;
    proof {
        let m = self.realms@;
        axiom_entries(m);
        assert forall|l: Seq<RealmID>| keys_of(l, m) implies #[trigger] realm_list(l, m) by { lemma_realm_list(l, m); }
        assert forall|l: Seq<FloCuckoo>, id: RealmID, ids: Seq<FloID>, fwd: Seq<int>, bwd: Seq<int>| #![trigger emb(ids.len() as int, l.len() as int, fwd, bwd), found(l, m, id, ids)]
            find_fwd(ids, l, m, id, fwd, bwd) && m.dom().contains(id) implies found(l, m, id, ids) by { lemma_found(ids, l, m, id, fwd, bwd); }
        if let MessageNeighbour::AvailableRealmIDs(v) = vmsg {
            let (ids, cfg) = (v@, self.config);
            assert forall|acc: Seq<RealmID>, fwd: Seq<int>, bwd: Seq<int>| #[trigger] filt(ids, acc, fwd, bwd) && acc_fwd(ids, fwd, cfg) implies are_accepted(acc, ids, cfg) by { lemma_accepted(acc, ids, cfg, fwd, bwd); }
            assert forall|ms: Seq<MessageNeighbour>, acc: Seq<RealmID>, f: Seq<&RealmID>, fwd: Seq<int>, bwd: Seq<int>| #![trigger filt(refs(acc), f, fwd, bwd), asks_all(ms, ids, cfg, m)]
                are_accepted(acc, ids, cfg) && filt(refs(acc), f, fwd, bwd) && new_fwd(acc, fwd, m) && two_parts(ms, f, acc) implies asks_all(ms, ids, cfg, m) by { lemma_asks_all(ms, acc, ids, cfg, m, f, fwd, bwd); }
        }
    }
//@ beforeloop 0
    let ghost all = flo_cuckoos@;
    let ghost mut h = seq![self.realms@];
//@ loop 0
    invariant
        vx_it0.wf(), vx_it0.seq() == all, self.wf(), self.config == old(self).config,
        each_offered(h, self.config, all.take(vx_it0.pos())), h[0] == old(self).realms@, h.last() == self.realms@,
    decreases vx_it0.left(),
//@ loopstart 0
    let ghost vx_s = self.realms@;
    let ghost fc = (flo, cuckoos);
//@ loopend 0
    proof {
        lemma_links(self.realms@, vx_m, gid_of(fc.0), fc.1@);
        assert(offered_by(self.realms@, vx_m, vx_s, self.config, fc));
        lemma_each_more(h, self.config, all, vx_it0.pos() - 1, self.realms@);
        h = h.push(self.realms@);
    }
//@ afterloop 0
    proof { assert(all.take(all.len() as int) =~= all); }
//@end
//@fn intern Messages::msg_dht_router
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), cfg_next(final(self).config, old(self).config, InternIn::Routing(msg)), from_router(msg, old(self).config, final(self).realms@, old(self).realms@, res@), // [S06]
        old(self).saved() ==> final(self).saved(), // [S07]
//@ sub /(\w+)\s*\.unwrap_yaml\(MODULE_NAME\)\s*\.map\(\|(\w+)\| (self\.\w+\([^)]*\))\)/ => /(match \1.unwrap_yaml(MODULE_NAME) { Some(\2) => Some(\3), None => None })/
//@end
//@fn intern <Messages as SubsystemHandler<InternIn,InternOut>>::messages
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), // [S06]
        old(self).saved() ==> final(self).saved(), // [S07]
        exists|h: Seq<Intern>, outs: Seq<Vec<InternOut>>| #[trigger] one_by_one(h, outs, inputs@) && h[0] == *old(self) && h.last() == *final(self) && res@ == flat_of(outs), // [S06]
//@ sub ! /inputs\s*\.vx_into_iter\(\)(?:\s*\.vx_inspect\([^\n]*\))?\s*\.vx_flat_map\(\|msg\| ([\s\S]*?)\)\s*(?:\.vx_inspect\([^\n]*\)\s*)?\.vx_collect(?:::<Vec<_>>)?\(\)/ => /{ let ghost all = inputs@; let mut vx_out: Vec<InternOut> = Vec::new(); let mut vx_it = vx_into(inputs); let ghost mut h = seq![*self]; let ghost mut outs = Seq::<Vec<InternOut>>::empty(); proof { lemma_flat_empty::<InternOut>(); } while vx_it.has_more() invariant vx_it.wf(), vx_it.seq() == all, self.wf(), old(self).saved() ==> self.saved(), one_by_one(h, outs, all.take(vx_it.pos())), h[0] == *old(self), h.last() == *self, vx_out@ == flat_of(outs), decreases vx_it.left(), { let ghost p = vx_it.pos(); let msg = vx_it.take_next(); let ghost o = *self; let vx_r: Vec<InternOut> = \1; proof { lemma_flat_push(outs, vx_r); lemma_one_more(h, outs, all, p, *self, vx_r); outs = outs.push(vx_r); h = h.push(*self); } vx_out.vx_extend(vx_r); } proof { assert(all.take(all.len() as int) =~= all); } vx_out }/
//@end
//@fn intern Messages::read_flo
//@ spec
    ensures match res { Some(fc) => held_as(self.realms@, *id, fc), None => !held(self.realms@, *id) }, // [S06]
//@ closure 0 -> (r: Option<FloCuckoo>) ensures (r is Some) == realm.flos@.dom().contains(id.1), r matches Some(fc) ==> of_entry(fc, realm.flos@[id.1])
//@end
}
}
//@include onebyone.rs
fn main() {}
