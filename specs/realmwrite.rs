//@include dhtstorage_body.rs
//@file rv flmodules/src/dht_storage/realm_view.rs
//@file bl flmodules/src/flo/blob.rs
//@file rl flmodules/src/flo/realm.rs
//@sub /\.clone\(\)/ => /.dup()/
//@sub /anyhow::Result<([^{;]*)>\s*\{/ => /VResult<\1> {/
//@sub /\(\*(\w+)\)\.into\(\)/ => /FloID(\1.0)/
//@sub /\b(\w+)\s*\.(?:vx_)?edit_data_signers\(/ => /\1.vx_edit(/
//@sub /RVError::\w+\.into\(\)/ => /vx_err()/
//@sub /(\w+(?:\.dup\(\))?)\.into\(\)\)/ => /\1.vx_flo())/
//@sub /impl FnOnce\(&mut BlobPage\)/ => /E/
//@sub /impl FnMut\(&mut BlobPage\)/ => /E/
//@sub /\bBytes::from\(((?:\w+\.)*\w+(?:\(\))?)\)/ => /vx_text(\1)/
//@sub /HashSet<BlobID>/ => /VxSet/
//@sub /(\w+\.(?:vx_)?get_parents\(\))\.(?:vx_)?into_iter\(\)\.(?:vx_)?collect\(\)/ => /vx_set(\1)/
//@sub /&mut edit\b/ => /vx_again(&edit)/
//@sub /mut edit: E/ => /edit: E/
//@sub /(self\.store_page\([^;]*\))\s*\.expect\([^)]*\)/ => /vx_live(\1)/
//@sub /Err\((\w+)\) => \{?\}?\s*\(\)/ => /Err(\1) => vx_refused()/
//@sub /\(\*\*(\w+)\)\.into\(\)/ => /FloID(\1.0)/
//@sub /\(\*flo\.flo_id\(\)\)\.into\(\)/ => /BlobID(flo.flo_id().0)/
//@sub /\(\*root\.flo_id\(\)\.dup\(\)\)\.into\(\)/ => /BlobID(root.flo_id().0)/
//@sub /\.(?:vx_)?unwrap_or_default\(\)\s*\.(?:vx_)?into_iter\(\)\s*\.(?:vx_)?chain\(std::iter::once\((FloID\(\w+\.0\))\)\)/ => /.vx_and_one(\1)/
//@sub /\.entry\(([^()]*(?:\([^()]*\))?[^()]*)\)\s*\.or_insert_with\(Vec::new\)/ => /.vx_entry_vec(\1)/
//@sub /(\w+)\.(?:vx_)?contains\(&(\w+)\)/ => /vx_has(\1, \2)/
//@sub /((?:self\.)?\w+\.cache\(\))\.get_services\(\)\.get\((\w+)\)/ => /vx_service(\1, \2)/
//@sub /&\(&(\w+)\)\.into\(\)/ => /&vx_realm_gid(&\1)/
verus! {
// ------------------------------------------------------------------ what is trusted here
#[derive(PartialEq, Eq, Structural, Copy)]
pub struct BlobID(pub U256);
impl Clone for BlobID { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
/// A page: what is known of it here is proved for blobs in V01.
#[verifier::external_body]
pub struct BlobPage { x: u8 }
#[verifier::external_body]
pub struct BlobTag { x: u8 }
pub type FloBlobPage = FloWrapper<BlobPage>;
pub type FloBlobTag = FloWrapper<BlobTag>;
pub type FloRealm = FloWrapper<Realm>;
pub open spec fn without(s: Seq<BlobID>, x: BlobID) -> Seq<BlobID> { s.filter(|y: BlobID| y != x) }
pub open spec fn listed(o: Option<BlobID>) -> Seq<BlobID> { match o { Some(p) => seq![p], None => Seq::empty() } }
impl BlobPage {
    pub uninterp spec fn parents(&self) -> Seq<BlobID>;
    pub uninterp spec fn children(&self) -> Seq<BlobID>;
    pub uninterp spec fn path(&self) -> Option<Seq<char>>;
    pub uninterp spec fn index(&self) -> Option<Seq<u8>>;
    pub open spec fn like(&self, o: BlobPage) -> bool { self.parents() == o.parents() && self.path() == o.path() && self.index() == o.index() }
    #[verifier::external_body]
    pub fn add_child(&mut self, child: BlobID) ensures final(self).like(*old(self)), final(self).children() == old(self).children().push(child) { unimplemented!() }
    #[verifier::external_body]
    pub fn rm_child(&mut self, child: &BlobID) ensures final(self).like(*old(self)), final(self).children() == without(old(self).children(), *child) { unimplemented!() }
}
impl BlobTag {
    pub uninterp spec fn parents(&self) -> Seq<BlobID>;
    pub uninterp spec fn name(&self) -> Seq<char>;
}
impl Realm {
    pub uninterp spec fn services(&self) -> Map<Seq<char>, FloID>;
    pub uninterp spec fn rest(&self) -> int;
    #[verifier::external_body]
    pub fn set_service(&mut self, name: &str, id: FloID) ensures final(self).services() == old(self).services().insert(name@, id), final(self).rest() == old(self).rest() { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_text(s: String) -> (r: Bytes) ensures r@ == utf8(s@) { unimplemented!() }
impl FloWrapper<BlobPage> {
    /// What is made out of nothing but these.
    #[verifier::external_body]
    pub fn new_cuckoo(realm: RealmID, cond: Condition, path: &str, index: Bytes, parent: Option<BlobID>, cuckoo: Cuckoo, signers: &[&Signer]) -> (r: VResult<FloBlobPage>)
        ensures r matches Ok(w) ==> new_page(w, realm, cond, path@, index@, parent, cuckoo) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_parents(&self) -> (r: Vec<BlobID>) ensures r@ == self.object.parents() { unimplemented!() }
//@fn bl FloBlobPage::blob_id ret=r
//@ sub /\(\*self\.flo_id\(\)\)\.into\(\)/ => /BlobID(self.flo_id().0)/
//@ spec
    ensures r == bid(self.flo), // [V03]
//@end
}
impl FloWrapper<BlobTag> {
    #[verifier::external_body]
    pub fn new_cuckoo(realm: RealmID, cond: Condition, name: &str, parent: Option<BlobID>, cuckoo: Cuckoo, signers: &[&Signer]) -> (r: VResult<FloBlobTag>)
        ensures r matches Ok(w) ==> new_tag(w, realm, cond, name@, parent, cuckoo) { unimplemented!() }
//@fn bl FloBlobTag::blob_id ret=r
//@ sub /\(\*self\.flo_id\(\)\)\.into\(\)/ => /BlobID(self.flo_id().0)/
//@ spec
    ensures r == bid(self.flo), // [V03]
//@end
}
/// A set of identifiers.
#[verifier::external_body]
pub struct VxSet { x: u8 }
impl View for VxSet { type V = Set<BlobID>; uninterp spec fn view(&self) -> Set<BlobID>; }
/// What is in a, but not in b, in some order.
pub uninterp spec fn minus(a: Set<BlobID>, b: Set<BlobID>) -> Seq<BlobID>;
pub open spec fn lost(a: Set<BlobID>, b: Set<BlobID>, k: BlobID) -> bool { a.contains(k) && !b.contains(k) }
impl VxSet {
    #[verifier::external_body]
    pub fn difference<'a>(&'a self, b: &VxSet) -> (r: It<&'a BlobID>)
        ensures r@ == refs(minus(self@, b@)), minus(self@, b@).no_duplicates(), forall|k: BlobID| #![trigger lost(self@, b@, k)] #![trigger minus(self@, b@).contains(k)] minus(self@, b@).contains(k) == lost(self@, b@, k) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_set(v: Vec<BlobID>) -> (r: VxSet) ensures forall|k: BlobID| #[trigger] r@.contains(k) == v@.contains(k) { unimplemented!() }
/// The same change once more; it keeps nothing between two calls.
#[verifier::external_body]
pub fn vx_again<E>(e: &E) -> (r: E) ensures r == *e { unimplemented!() }
/// `expect`: the node stops if its broker is closed.
#[verifier::external_body]
pub fn vx_live(r: VResult<()>) ensures r is Ok { unimplemented!() }
/// Some change was refused by the Flo: a signature is missing, or something cannot be encoded.
pub uninterp spec fn refused() -> bool;
#[verifier::external_body]
pub fn vx_refused() ensures refused() { unimplemented!() }
/// A condition has less than four billion parts, and no Flo is changed four billion times.
pub axiom fn axiom_size(f: Flo, c: Condition) requires signable(f, c) ensures sized(c), f.data_version < u32::MAX;
// ------------------------------------------------------------------ what is written
pub open spec fn bid(f: Flo) -> BlobID { BlobID(id_of(f).0) }
pub open spec fn drawn_for(f: Flo, c: Condition) -> bool { drawn(latest(f), f.realm, Seq::empty(), c) }
/// The condition of a Flo: as it is stored, or as the one had it who made the Flo.
pub open spec fn signable(f: Flo, c: Condition) -> bool { drawn_for(f, c) || is_link(latest(f), c) }
pub open spec fn made<T>(w: FloWrapper<T>, realm: RealmID, c: Condition, cuckoo: Cuckoo) -> bool { w.faithful() && w.flo.realm == realm && is_link(latest(w.flo), c) && w.flo.flo_config.cuckoo == cuckoo }
pub open spec fn new_page(w: FloBlobPage, realm: RealmID, c: Condition, path: Seq<char>, index: Seq<u8>, parent: Option<BlobID>, cuckoo: Cuckoo) -> bool {
    made(w, realm, c, cuckoo) && w.object.path() == Some(path) && w.object.index() == Some(index) && w.object.parents() == listed(parent) && w.object.children() == Seq::<BlobID>::empty()
}
pub open spec fn new_tag(w: FloBlobTag, realm: RealmID, c: Condition, name: Seq<char>, parent: Option<BlobID>, cuckoo: Cuckoo) -> bool {
    made(w, realm, c, cuckoo) && w.object.name() == name && w.object.parents() == listed(parent)
}
/// b is what the change makes out of a, signed by who may sign for a.
#[verifier::prophetic]
pub open spec fn changed<T, E: FnOnce(&mut T)>(e: E, a: FloWrapper<T>, b: FloWrapper<T>) -> bool { did(e, a.object, b.object) && next(a, b) }
pub open spec fn next<T>(a: FloWrapper<T>, b: FloWrapper<T>) -> bool {
    b.faithful() && same_history(a.flo, b.flo) && b.flo.data_version == a.flo.data_version + 1 && signable(a.flo, b.flo.data_signature.condition)
    && holds(b.flo.data_signature.condition, good(b.flo.data_signature.signatures@, ddigest(b.flo)))
}
/// As the signers' condition is resolved, they cannot sign for it.
pub open spec fn may_not(f: Flo, signers: Seq<&Signer>) -> bool { exists|c: Condition| #[trigger] drawn_for(f, c) && !holds(c, by_signers(signers)) }
impl<T> FloWrapper<T> {
    pub fn vx_flo(self) -> (r: Flo) ensures r == self.flo { self.flo }
    pub fn vx_edit<E: FnOnce(&mut T)>(&self, cond: Condition, edit: E, signers: &[&Signer]) -> (r: VResult<FloWrapper<T>>)
        requires signable(self.flo, cond), forall|x: &mut T| #[trigger] call_requires(edit, (x,)), // [V03]
        ensures r matches Ok(w) ==> changed(edit, *self, w) && w.flo.data_signature.condition == cond,
    {
        proof { axiom_size(self.flo, cond); }
        self.edit_data_signers(cond, edit, signers)
    }
}
//@struct rv RealmStorage
//@struct rv RealmView
impl<T> RealmStorage<T> {
    /// Everything is kept under its own identifier, and is of this realm.
    pub open spec fn kept(&self) -> bool { forall|k: BlobID| #[trigger] self.storage@.dom().contains(k) ==> bid(self.storage@[k].flo) == k && self.storage@[k].flo.realm == self.realm }
    /// Everything but the stored Flos.
    pub open spec fn place(&self) -> (RealmID, DHTStorage, BlobID, HashMap<BlobID, Vec<BlobID>>) { (self.realm, self.dht_storage, self.root, self.cuckoos) }
}
pub open spec fn same_item<T>(a: RealmStorage<T>, b: RealmStorage<T>, k: BlobID) -> bool { a.storage@.dom().contains(k) == b.storage@.dom().contains(k) && a.storage@[k] == b.storage@[k] }
impl RealmView {
    pub open spec fn ok(&self) -> bool { self.pages.kept() && self.tags.kept() && self.pages.realm == self.realm.flo.realm && self.tags.realm == self.realm.flo.realm }
    pub open spec fn sent(&self, f: Flo) -> bool { self.dht_storage.intern.put().contains(storing(f)) }
}
pub open spec fn later(a: RealmView, b: RealmView) -> bool { grown(a.dht_storage, b.dht_storage) }
/// Nothing but pages is another one.
pub open spec fn only_pages(a: RealmView, b: RealmView) -> bool { later(a, b) && b.realm == a.realm && b.tags == a.tags && b.pages.place() == a.pages.place() }
pub broadcast proof fn lemma_later(a: RealmView, b: RealmView, c: RealmView)
    ensures #![trigger later(a, b), later(b, c)] later(a, b) && later(b, c) ==> later(a, c)
{}
pub broadcast proof fn lemma_sent(a: RealmView, b: RealmView, f: Flo)
    ensures #![trigger later(a, b), a.sent(f)] later(a, b) && a.sent(f) ==> b.sent(f)
{
    if later(a, b) && a.sent(f) { let i = choose|i: int| 0 <= i < a.dht_storage.intern.put().len() && a.dht_storage.intern.put()[i] == storing(f); assert(b.dht_storage.intern.put()[i] == storing(f)); }
}
/// What is resolved for a Flo.
pub broadcast proof fn lemma_drawn(f: Flo, rid: RealmID, c: Condition)
    ensures #![trigger drawn(latest(f), rid, Seq::empty(), c)] rid == f.realm && drawn(latest(f), rid, Seq::empty(), c) ==> drawn_for(f, c)
{}
/// The identifiers of the signers.
pub broadcast proof fn lemma_by_ids(c: Condition, v: Seq<KeyPairID>, ss: Seq<&Signer>)
    requires v.len() == ss.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) == ss[i].vk().id(),
    ensures #![trigger holds(c, by(refs(v))), holds(c, by_signers(ss))] holds(c, by(refs(v))) == holds(c, by_signers(ss))
{
    assert forall|x: Verifier| #[trigger] by(refs(v))(x) <==> by_signers(ss)(x) by {
        if by_signers(ss)(x) { let i = choose|i: int| 0 <= i < ss.len() && (#[trigger] ss[i]).vk().id() == x.id(); assert(v[i] == x.id()); assert(*refs(v)[i] == v[i]); }
        if by(refs(v))(x) { let i = choose|i: int| 0 <= i < refs(v).len() && *(#[trigger] refs(v)[i]) == x.id(); assert(refs(v)[i] == &v[i]); assert(ss[i].vk().id() == x.id()); }
    }
    lemma_same(c, by(refs(v)), by_signers(ss));
}
impl RealmView {
//@fn rv RealmView::store_page ret=r
//@ spec
    ensures only_pages(*old(self), *final(self)), // [V03]
        r is Ok ==> final(self).pages.storage@ == old(self).pages.storage@.insert(bid(page.flo), page) && final(self).sent(page.flo), // [V03]
        r is Err ==> final(self).pages == old(self).pages, // [V03]
//@end
//@fn rv RealmView::store_tag ret=r
//@ spec
    ensures later(*old(self), *final(self)), final(self).realm == old(self).realm, final(self).pages == old(self).pages, final(self).tags.place() == old(self).tags.place(), // [V03]
        r is Ok ==> final(self).tags.storage@ == old(self).tags.storage@.insert(bid(tag.flo), tag) && final(self).sent(tag.flo), // [V03]
        r is Err ==> final(self).tags == old(self).tags, // [V03]
//@end
//@fn rv RealmView::set_realm_service ret=r
//@ spec
    ensures later(*old(self), *final(self)), final(self).pages == old(self).pages, final(self).tags == old(self).tags, r is Err ==> final(self).realm == old(self).realm || trouble(), // [V03]
        r is Ok ==> next(old(self).realm, final(self).realm) && final(self).realm.object.services() == old(self).realm.object.services().insert(name@, FloID(id.0)) && final(self).realm.object.rest() == old(self).realm.object.rest()
            && final(self).sent(final(self).realm.flo), // [V03]
//@ closure 0 -> (x: ()) ensures final(r).services() == old(r).services().insert(name@, FloID(id.0)), final(r).rest() == old(r).rest()
//@end
}
/// The parent names the page as its child, if the signers may sign for it.
pub open spec fn takes_child(a: FloBlobPage, b: FloBlobPage, id: BlobID) -> bool { next(a, b) && b.object.like(a.object) && b.object.children() == a.object.children().push(id) }
pub open spec fn drops_child(a: FloBlobPage, b: FloBlobPage, id: BlobID) -> bool { next(a, b) && b.object.like(a.object) && b.object.children() == without(a.object.children(), id) }
pub open spec fn has_child(a: FloBlobPage, b: FloBlobPage, id: BlobID) -> bool { next(a, b) && b.object.like(a.object) && b.object.children() == without(a.object.children(), id).push(id) }
/// Nothing changes where nothing may be signed.
pub open spec fn left(a: FloBlobPage, b: FloBlobPage, signers: Seq<&Signer>) -> bool { a == b && (may_not(a.flo, signers) || refused()) }
/// The parent, if it is known here, names its new child.
pub open spec fn adopted(v: RealmView, n: RealmView, p: BlobID, w: FloBlobPage, signers: Seq<&Signer>) -> bool {
    p != bid(w.flo) && v.pages.storage@.dom().contains(p) ==> n.pages.storage@.dom().contains(p)
        && (left(v.pages.storage@[p], n.pages.storage@[p], signers) || (takes_child(v.pages.storage@[p], n.pages.storage@[p], bid(w.flo)) && n.sent(n.pages.storage@[p].flo)))
}
/// A page after another one changed its parents.
pub open spec fn related(v: RealmView, a: FloBlobPage, b: FloBlobPage, was: bool, is: bool, id: BlobID, signers: Seq<&Signer>) -> bool {
    if was == is { b == a } else if was { left(a, b, signers) || (drops_child(a, b, id) && v.sent(b.flo)) } else { left(a, b, signers) || (has_child(a, b, id) && v.sent(b.flo)) }
}
impl RealmView {
//@fn rv RealmView::create_http_cuckoo ret=r
//@ sub /parent\.dup\(\)\.(?:vx_)?and_then\(\|p\| self\.pages\.storage\.get_mut\(&p\)\)/ => /vx_at(&self.pages.storage, &parent)/
//@ spec
    requires old(self).ok(),
    ensures final(self).ok(), only_pages(*old(self), *final(self)), // [V03]
        r matches Ok(w) ==> new_page(w, old(self).realm.flo.realm, cond, path@, utf8(content@), parent, cuckoo) && final(self).sent(w.flo), // [V03]
        r matches Ok(w) ==> forall|k: BlobID| k != bid(w.flo) && parent != Some(k) ==> #[trigger] same_item(old(self).pages, final(self).pages, k), // [V03]
        r matches Ok(w) ==> final(self).pages.storage@.dom().contains(bid(w.flo)) && (parent != Some(bid(w.flo)) ==> final(self).pages.storage@[bid(w.flo)] == w), // [V03]
        r matches Ok(w) ==> parent matches Some(p) ==> adopted(*old(self), *final(self), p, w, signers@), // [V03]
//@ entry
    broadcast use {lemma_later, lemma_sent, lemma_drawn, lemma_by_ids};
//@ closure 1 -> (r: KeyPairID) ensures r == sig.vk().id()
//@ closure 2 -> (x: ()) ensures final(page).like(*old(page)), final(page).children() == old(page).children().push(bid(fp.flo))
//@end
//@fn rv RealmView::create_http ret=r
//@ spec
    requires old(self).ok(),
    ensures final(self).ok(), only_pages(*old(self), *final(self)), // [V03]
        r matches Ok(w) ==> new_page(w, old(self).realm.flo.realm, cond, path@, utf8(content@), parent, Cuckoo::None) && final(self).sent(w.flo), // [V03]
        r matches Ok(w) ==> parent matches Some(p) ==> adopted(*old(self), *final(self), p, w, signers@), // [V03]
//@end
//@fn rv RealmView::create_tag_cuckoo ret=r
//@ spec
    requires old(self).ok(),
    ensures final(self).ok(), later(*old(self), *final(self)), final(self).realm == old(self).realm, final(self).pages == old(self).pages, // [V03]
        r matches Ok(w) ==> new_tag(w, old(self).realm.flo.realm, cond, name@, parent, cuckoo) && final(self).sent(w.flo) && final(self).tags.storage@ == old(self).tags.storage@.insert(bid(w.flo), w), // [V03]
//@end
//@fn rv RealmView::create_tag ret=r
//@ spec
    requires old(self).ok(),
    ensures final(self).ok(), later(*old(self), *final(self)), final(self).realm == old(self).realm, final(self).pages == old(self).pages, // [V03]
        r matches Ok(w) ==> new_tag(w, old(self).realm.flo.realm, cond, name@, parent, Cuckoo::None) && final(self).sent(w.flo) && final(self).tags.storage@ == old(self).tags.storage@.insert(bid(w.flo), w), // [V03]
//@end
//@fn rv RealmView::set_realm_http ret=r
//@ spec
    ensures later(*old(self), *final(self)), final(self).pages == old(self).pages, final(self).tags == old(self).tags, r is Err ==> final(self).realm == old(self).realm || trouble(), // [V03]
        r is Ok ==> next(old(self).realm, final(self).realm) && final(self).realm.object.services() == old(self).realm.object.services().insert("http"@, FloID(id.0)) && final(self).sent(final(self).realm.flo), // [V03]
//@end
//@fn rv RealmView::set_realm_tag ret=r
//@ spec
    ensures later(*old(self), *final(self)), final(self).pages == old(self).pages, final(self).tags == old(self).tags, r is Err ==> final(self).realm == old(self).realm || trouble(), // [V03]
        r is Ok ==> next(old(self).realm, final(self).realm) && final(self).realm.object.services() == old(self).realm.object.services().insert("tag"@, FloID(id.0)) && final(self).sent(final(self).realm.flo), // [V03]
//@end
//@fn rv RealmView::update_child_links
//@ sub /fn update_child_links\(/ => /fn update_child_links<E: FnOnce(&mut BlobPage)>(/
//@ spec
    requires old(self).ok(), forall|x: &mut BlobPage| #[trigger] call_requires(edit, (x,)),
    ensures final(self).ok(), only_pages(*old(self), *final(self)), // [V03]
        forall|k: BlobID| #[trigger] final(self).pages.storage@.dom().contains(k) == old(self).pages.storage@.dom().contains(k), // [V03]
        forall|k: BlobID| #![trigger same_item(old(self).pages, final(self).pages, k)] #![trigger final(self).pages.storage@[k]] !lost(before@, after@, k) ==> same_item(old(self).pages, final(self).pages, k), // [V03]
        forall|k: BlobID| #![trigger edited(edit, *old(self), *final(self), k, signers@)] #![trigger final(self).pages.storage@[k]] lost(before@, after@, k) && old(self).pages.storage@.dom().contains(k) ==> edited(edit, *old(self), *final(self), k, signers@), // [V03]
//@ entry
    broadcast use {lemma_later, lemma_sent, lemma_drawn, lemma_by_ids};
//@ loop 0
    invariant self.ok(), only_pages(*old(self), *self), forall|x: &mut BlobPage| #[trigger] call_requires(edit, (x,)),
        vx_it0.wf(), vx_it0.seq() == refs(minus(before@, after@)), minus(before@, after@).no_duplicates(),
        forall|k: BlobID| #![trigger lost(before@, after@, k)] #![trigger minus(before@, after@).contains(k)] minus(before@, after@).contains(k) == lost(before@, after@, k),
        forall|k: BlobID| #[trigger] self.pages.storage@.dom().contains(k) == old(self).pages.storage@.dom().contains(k),
        forall|k: BlobID| !minus(before@, after@).take(vx_it0.pos()).contains(k) ==> #[trigger] same_item(old(self).pages, self.pages, k),
        forall|k: BlobID| minus(before@, after@).take(vx_it0.pos()).contains(k) && old(self).pages.storage@.dom().contains(k) ==> #[trigger] edited(edit, *old(self), *self, k, signers@),
    decreases vx_it0.left(),
//@ loopstart 0
    let ghost k0 = *self; let ghost ms = minus(before@, after@);
    proof {
        broadcast use {lemma_later, lemma_sent, lemma_drawn};
        assert(*pid == ms[vx_it0.pos() - 1]);
        assert(ms.take(vx_it0.pos() as int) =~= ms.take(vx_it0.pos() - 1).push(*pid));
        assert(!ms.take(vx_it0.pos() - 1).contains(*pid));
    }
//@ loopend 0
    proof {
        assert(same_item(old(self).pages, k0.pages, *pid)); assert(later(k0, *self)); assert(same_item(k0.pages, self.pages, *pid) || changed(edit, k0.pages.storage@[*pid], self.pages.storage@[*pid]));
        assert forall|k: BlobID| ms.take(vx_it0.pos()).contains(k) && old(self).pages.storage@.dom().contains(k) implies #[trigger] edited(edit, *old(self), *self, k, signers@) by {
            if k != *pid { assert(ms.take(vx_it0.pos() - 1).contains(k)); assert(edited(edit, *old(self), k0, k, signers@)); assert(same_item(k0.pages, self.pages, k)); assert(k0.sent(k0.pages.storage@[k].flo) ==> self.sent(k0.pages.storage@[k].flo)); }
        }
        assert forall|k: BlobID| !ms.take(vx_it0.pos()).contains(k) implies #[trigger] same_item(old(self).pages, self.pages, k) by {
            assert(!ms.take(vx_it0.pos() - 1).contains(k)); assert(same_item(old(self).pages, k0.pages, k));
        }
    }
//@ afterloop 0
    proof { let ms = minus(before@, after@); assert(ms.take(ms.len() as int) =~= ms); }
//@end
//@fn rv RealmView::update_page ret=r
//@ sub /fn update_page\(/ => /fn update_page<E: FnOnce(&mut BlobPage)>(/
//@ sub /\|pb\|/ => /|pb: &mut BlobPage|/
//@ spec
    requires old(self).ok(), forall|x: &mut BlobPage| #[trigger] call_requires(edit, (x,)),
    ensures final(self).ok(), only_pages(*old(self), *final(self)), r is Err ==> final(self).pages == old(self).pages, // [V03]
        r matches Ok(w) ==> old(self).pages.storage@.dom().contains(*id) && changed(edit, old(self).pages.storage@[*id], w) && final(self).sent(w.flo), // [V03]
        r matches Ok(w) ==> final(self).pages.storage@.dom().contains(*id) && (old(self).pages.storage@[*id].object.parents().contains(*id) == w.object.parents().contains(*id) ==> final(self).pages.storage@[*id] == w), // [V03]
        r matches Ok(w) ==> forall|k: BlobID| k != *id ==> #[trigger] follows(*old(self), *final(self), k, old(self).pages.storage@[*id].object.parents().contains(k), w.object.parents().contains(k), *id, signers@), // [V03]
//@ entry
    broadcast use {lemma_later, lemma_sent, lemma_drawn};
//@ closure 0 -> (x: ()) ensures final(pb).like(*old(pb)), final(pb).children() == without(old(pb).children(), *id)
//@ closure 1 -> (x: ()) ensures final(pb).like(*old(pb)), final(pb).children() == without(old(pb).children(), *id).push(*id)
//@end
}
/// What became of page k, as the page id was a child of it, and is one.
pub open spec fn follows(v: RealmView, n: RealmView, k: BlobID, was: bool, is: bool, id: BlobID, signers: Seq<&Signer>) -> bool {
    v.pages.storage@.dom().contains(k) == n.pages.storage@.dom().contains(k) && (v.pages.storage@.dom().contains(k) ==> related(n, v.pages.storage@[k], n.pages.storage@[k], was, is, id, signers))
}
#[verifier::prophetic]
pub open spec fn edited<E: FnOnce(&mut BlobPage)>(e: E, v: RealmView, w: RealmView, k: BlobID, signers: Seq<&Signer>) -> bool {
    left(v.pages.storage@[k], w.pages.storage@[k], signers) || (changed(e, v.pages.storage@[k], w.pages.storage@[k]) && w.sent(w.pages.storage@[k].flo))
}
#[verifier::external_body]
pub fn vx_at<'a, T>(m: &'a HashMap<BlobID, T>, k: &Option<BlobID>) -> (r: Option<&'a T>)
    ensures r == (match *k { Some(x) => if m@.dom().contains(x) { Some(&m@[x]) } else { None }, None => None }) { unimplemented!() }
pub trait VxAndOne: Sized { spec fn with(&self, x: FloID) -> Seq<FloID>; fn vx_and_one(self, x: FloID) -> (r: Vec<FloID>) ensures r@ == self.with(x); }
impl VxAndOne for VResult<Vec<FloID>> {
    open spec fn with(&self, x: FloID) -> Seq<FloID> { match *self { Ok(l) => l@.push(x), Err(_) => seq![x] } }
    #[verifier::external_body]
    fn vx_and_one(self, x: FloID) -> (r: Vec<FloID>) { unimplemented!() }
}
impl<V> HashMap<BlobID, Vec<V>> {
    #[verifier::external_body]
    pub fn vx_entry_vec<'a>(&'a mut self, k: BlobID) -> (r: &'a mut Vec<V>)
        ensures r@ == (if old(self)@.dom().contains(k) { old(self)@[k]@ } else { Seq::empty() }), final(self)@ == old(self)@.insert(k, *final(r)) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_service<'a>(r: &'a Realm, name: &str) -> (o: Option<&'a FloID>)
    ensures o == (if r.services().dom().contains(name@) { Some(&r.services()[name@]) } else { None }) { unimplemented!() }
#[verifier::external_body]
pub fn vx_realm_gid(id: &RealmID) -> (r: GlobalID) ensures r == GlobalID(*id, FloID(id.0)) { unimplemented!() }
// ------------------------------------------------------------------ what is read
impl GlobalID {
//@fn rl GlobalID::realm_id ret=r
//@ spec
    ensures *r == self.0, // [V03]
//@end
//@fn rl GlobalID::flo_id ret=r
//@ spec
    ensures *r == self.1, // [V03]
//@end
}
pub open spec fn blob_gid(realm: RealmID, k: BlobID) -> GlobalID { GlobalID(realm, FloID(k.0)) }
pub open spec fn listed_at(m: Map<BlobID, Vec<BlobID>>, k: BlobID) -> Seq<BlobID> { if m.dom().contains(k) { m[k]@ } else { Seq::empty() } }
impl<T> RealmStorage<T> {
    /// The storage could not give this, or it is here as it was shown.
    pub open spec fn fresh(&self, k: BlobID) -> bool { trouble() || other::<T>(blob_gid(self.realm, k)) || (self.storage@.dom().contains(k) && shown(self.storage@[k].flo)) }
    /// It is here, and a cuckoo of b.
    pub open spec fn attached(&self, b: BlobID, k: BlobID) -> bool { self.fresh(k) && (trouble() || other::<T>(blob_gid(self.realm, k)) || k == b || listed_at(self.cuckoos@, b).contains(k)) }
    /// The cuckoos of b, as the storage told them.
    pub open spec fn told(&self, b: BlobID) -> bool { trouble() || exists|l: Vec<FloID>| #[trigger] said(DHTStorageOut::CuckooIDs(blob_gid(self.realm, b), l)) && self.all_attached(b, l@) }
    pub open spec fn all_attached(&self, b: BlobID, l: Seq<FloID>) -> bool { forall|i: int| 0 <= i < l.len() ==> self.attached(b, BlobID((#[trigger] l[i]).0)) }
    pub open spec fn same_ids(&self, o: Self) -> bool { self.realm == o.realm && self.root == o.root }
}
/// Nothing is lost, and what is another one was shown by the storage.
pub open spec fn refreshed<T>(a: RealmStorage<T>, b: RealmStorage<T>, k: BlobID) -> bool {
    same_item(a, b, k) || (b.storage@.dom().contains(k) && shown(b.storage@[k].flo))
}
/// Some more cuckoos of k, each one once.
pub open spec fn more_cuckoos<T>(a: RealmStorage<T>, b: RealmStorage<T>, k: BlobID) -> bool {
    listed_at(a.cuckoos@, k).is_prefix_of(listed_at(b.cuckoos@, k)) && (listed_at(a.cuckoos@, k).no_duplicates() ==> listed_at(b.cuckoos@, k).no_duplicates())
        && (!listed_at(a.cuckoos@, k).contains(k) ==> !listed_at(b.cuckoos@, k).contains(k))
}
pub open spec fn read_more<T>(a: RealmStorage<T>, b: RealmStorage<T>) -> bool {
    grown(a.dht_storage, b.dht_storage) && b.same_ids(a) && (a.kept() ==> b.kept()) && (forall|k: BlobID| #[trigger] refreshed(a, b, k)) && (forall|k: BlobID| #[trigger] more_cuckoos(a, b, k))
}
pub proof fn lemma_read_more<T>(a: RealmStorage<T>, b: RealmStorage<T>, c: RealmStorage<T>)
    requires read_more(a, b), read_more(b, c), ensures read_more(a, c),
{
    assert forall|k: BlobID| #[trigger] refreshed(a, c, k) by { assert(refreshed(a, b, k)); assert(refreshed(b, c, k)); }
    assert forall|k: BlobID| #[trigger] more_cuckoos(a, c, k) by { assert(more_cuckoos(a, b, k)); assert(more_cuckoos(b, c, k)); }
}
impl<T> RealmStorage<T> {
//@fn rv `RealmStorage<T>::update_cuckoos` ret=r
//@ spec
    requires old(self).kept(),
    ensures read_more(*old(self), *final(self)), r is Ok, // [V03]
        final(self).fresh(*bid), // [V03]
        final(self).told(*bid), // [V03]
        forall|k: BlobID| k != *bid ==> #[trigger] listed_at(final(self).cuckoos@, k) == listed_at(old(self).cuckoos@, k), // [V03]
//@ loop 0
    invariant self.kept(), old(self).kept(), read_more(*old(self), *self), vx_it0.wf(), cuckoos_then(vx_it0.seq(), blob_gid(self.realm, *bid)),
        forall|i: int| 0 <= i < vx_it0.pos() ==> self.attached(*bid, BlobID((#[trigger] vx_it0.seq()[i]).0)),
        forall|k: BlobID| k != *bid ==> #[trigger] listed_at(self.cuckoos@, k) == listed_at(old(self).cuckoos@, k),
    decreases vx_it0.left(),
//@ loopstart 0
    let ghost k0 = *self; let ghost n0 = BlobID(id.0); proof { assert(id == vx_it0.seq()[vx_it0.pos() - 1]); }
//@ loopend 0
    proof {
        assert(grown(k0.dht_storage, self.dht_storage));
        assert forall|k: BlobID| k != *bid implies #[trigger] listed_at(self.cuckoos@, k) == listed_at(old(self).cuckoos@, k) by { assert(listed_at(k0.cuckoos@, k) == listed_at(old(self).cuckoos@, k)); assert(listed_at(self.cuckoos@, k) == listed_at(k0.cuckoos@, k)); }
        assert forall|k: BlobID| #[trigger] refreshed(k0, *self, k) by {}
        assert forall|k: BlobID| #[trigger] more_cuckoos(k0, *self, k) by {}
        assert(read_more(k0, *self));
        lemma_read_more(*old(self), k0, *self);
        assert(self.attached(*bid, n0));
        assert forall|i: int| 0 <= i < vx_it0.pos() implies self.attached(*bid, BlobID((#[trigger] vx_it0.seq()[i]).0)) by {
            if i < vx_it0.pos() - 1 { let x = BlobID(vx_it0.seq()[i].0); assert(k0.attached(*bid, x)); assert(refreshed(k0, *self, x)); assert(more_cuckoos(k0, *self, *bid)); lemma_prefix_has(listed_at(k0.cuckoos@, *bid), listed_at(self.cuckoos@, *bid), x); }
        }
    }
//@ afterloop 0
    proof {
        let s = vx_it0.seq();
        assert(s[s.len() - 1].0 == bid.0);
        if !trouble() {
            let id = blob_gid(self.realm, *bid);
            let l = choose|l: Vec<FloID>| #[trigger] said(DHTStorageOut::CuckooIDs(id, l)) && s == l@.push(id.1);
            assert forall|i: int| 0 <= i < l@.len() implies self.attached(*bid, BlobID((#[trigger] l@[i]).0)) by { assert(s[i] == l@[i]); }
            assert(said(DHTStorageOut::CuckooIDs(id, l)) && self.all_attached(*bid, l@));
        }
    }
//@end
}
/// What the storage told, or nothing, and then the blob itself.
pub open spec fn cuckoos_then(s: Seq<FloID>, id: GlobalID) -> bool { s.len() > 0 && s.last() == id.1 && (trouble() || exists|l: Vec<FloID>| #[trigger] said(DHTStorageOut::CuckooIDs(id, l)) && s == l@.push(id.1)) }
pub proof fn lemma_prefix_has(a: Seq<BlobID>, b: Seq<BlobID>, x: BlobID) requires a.is_prefix_of(b), ensures a.contains(x) ==> b.contains(x)
{ if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(b[i] == x); } }
/// Everything which was there is read again.
pub open spec fn all_fresh<T>(a: RealmStorage<T>, b: RealmStorage<T>) -> bool { forall|k: BlobID| a.storage@.dom().contains(k) ==> #[trigger] b.fresh(k) }
#[verifier::external_body]
pub fn vx_keys<T>(m: &HashMap<BlobID, T>) -> (r: Vec<BlobID>) ensures forall|k: BlobID| #[trigger] m@.dom().contains(k) == r@.contains(k) { unimplemented!() }
impl<T> RealmStorage<T> {
//@fn rv `RealmStorage<T>::update_blobs` ret=r
//@ sub /self\.storage\.(?:vx_)?keys\(\)\.(?:vx_)?cloned\(\)\.(?:vx_)?collect::<Vec<_>>\(\)/ => /vx_keys(&self.storage)/
//@ spec
    requires old(self).kept(),
    ensures read_more(*old(self), *final(self)), // [V03]
        r is Ok ==> all_fresh(*old(self), *final(self)), // [V03]
//@ loop 0
    invariant self.kept(), old(self).kept(), read_more(*old(self), *self), vx_it0.wf(),
        forall|k: BlobID| #[trigger] old(self).storage@.dom().contains(k) == vx_it0.seq().contains(k),
        forall|i: int| 0 <= i < vx_it0.pos() ==> self.fresh(#[trigger] vx_it0.seq()[i]),
    decreases vx_it0.left(),
//@ loopstart 0
    let ghost k0 = *self; proof { assert(bid == vx_it0.seq()[vx_it0.pos() - 1]); }
//@ loopend 0
    proof {
        lemma_read_more(*old(self), k0, *self);
        assert forall|i: int| 0 <= i < vx_it0.pos() implies self.fresh(#[trigger] vx_it0.seq()[i]) by { if i < vx_it0.pos() - 1 { let x = vx_it0.seq()[i]; assert(k0.fresh(x)); assert(refreshed(k0, *self, x)); } }
    }
//@end
//@fn rv `RealmStorage<T>::from_root` ret=r
//@ spec
    ensures r matches Ok(s) ==> s.realm == root.0 && s.root == BlobID(root.1.0) && s.kept() && s.fresh(s.root) && s.told(s.root), // [V03]
        r is Ok, // [V03]
//@end
//@fn rv `RealmStorage<T>::from_service` ret=r
//@ sub /where\s*FloWrapper<T>: BlobPath \+ BlobFamily,/ => //
//@ spec
    ensures r is Ok, r matches Ok(o) ==> match o { // [V03]
        Some(s) => fr.object.services().dom().contains(service@) && s.realm == fr.flo.realm && s.root == BlobID(fr.object.services()[service@].0) && s.kept() && s.fresh(s.root) && s.told(s.root), // [V03]
        None => !fr.object.services().dom().contains(service@), // [V03]
    },
//@end
}
pub open spec fn begun(v: RealmView, realm: FloRealm) -> bool {
    v.realm == realm && v.ok() && realm.object.services().dom().contains("http"@) && realm.object.services().dom().contains("tag"@)
        && v.pages.root == BlobID(realm.object.services()["http"@].0) && v.tags.root == BlobID(realm.object.services()["tag"@].0)
        && v.pages.fresh(v.pages.root) && v.tags.fresh(v.tags.root) && v.pages.told(v.pages.root) && v.tags.told(v.tags.root)
}
pub open spec fn shown_realm(w: FloRealm, id: RealmID) -> bool { shown(w.flo) && w.faithful() && gid(w.flo) == GlobalID(id, FloID(id.0)) }
impl RealmView {
//@fn rv RealmView::new_from_realm ret=r
//@ spec
    ensures r matches Ok(v) ==> begun(v, realm) && v.dht_storage == dht_storage, // [V03]
        r is Err ==> !(realm.object.services().dom().contains("http"@) && realm.object.services().dom().contains("tag"@)), // [V03]
//@end
//@fn rv RealmView::new_from_id ret=r
//@ spec
    ensures r matches Ok(v) ==> begun(v, v.realm) && shown_realm(v.realm, id), // [V03]
//@end
//@fn rv RealmView::new_first ret=r
//@ spec
    ensures r matches Ok(v) ==> exists|l: Vec<RealmID>, i: int| #[trigger] said(DHTStorageOut::RealmIDs(l)) && 0 <= i < l.len() && begun(v, v.realm) && shown_realm(v.realm, #[trigger] l[i]), // [V03]
//@ loop 0
    invariant vx_it0.wf(), exists|l: Vec<RealmID>| #[trigger] said(DHTStorageOut::RealmIDs(l)) && vx_it0.seq() == l@,
    decreases vx_it0.left(),
//@ loopstart 0
    proof { assert(id == vx_it0.seq()[vx_it0.pos() - 1]); }
//@end
//@fn rv RealmView::fetch_page ret=r
//@ spec
    requires old(self).ok(),
    ensures final(self).ok(), r is Ok, read_more(old(self).pages, final(self).pages), final(self).pages.fresh(id), final(self).pages.told(id), final(self).tags == old(self).tags, final(self).realm == old(self).realm, // [V03]
//@end
//@fn rv RealmView::fetch_tag ret=r
//@ spec
    requires old(self).ok(),
    ensures final(self).ok(), r is Ok, read_more(old(self).tags, final(self).tags), final(self).tags.fresh(id), final(self).tags.told(id), final(self).pages == old(self).pages, final(self).realm == old(self).realm, // [V03]
//@end
//@fn rv RealmView::update_pages ret=r
//@ spec
    requires old(self).ok(),
    ensures final(self).ok(), read_more(old(self).pages, final(self).pages), r is Ok ==> all_fresh(old(self).pages, final(self).pages), final(self).tags == old(self).tags, final(self).realm == old(self).realm, // [V03]
//@end
//@fn rv RealmView::update_tags ret=r
//@ spec
    requires old(self).ok(),
    ensures final(self).ok(), read_more(old(self).tags, final(self).tags), r is Ok ==> all_fresh(old(self).tags, final(self).tags), final(self).pages == old(self).pages, final(self).realm == old(self).realm, // [V03]
//@end
//@fn rv RealmView::update_realm ret=r
//@ spec
    requires old(self).ok(),
    ensures final(self).ok(), final(self).pages == old(self).pages, final(self).tags == old(self).tags, // [V03]
        r matches Ok(w) ==> *w == final(self).realm && shown(w.flo) && w.faithful() && gid(w.flo) == gid(old(self).realm.flo), // [V03]
        r is Err ==> final(self).realm == old(self).realm, // [V03]
//@end
//@fn rv RealmView::update_all ret=r
//@ spec
    requires old(self).ok(),
    ensures final(self).ok(), read_more(old(self).pages, final(self).pages), read_more(old(self).tags, final(self).tags), // [V03]
        r is Ok ==> all_fresh(old(self).pages, final(self).pages) && all_fresh(old(self).tags, final(self).tags) && shown(final(self).realm.flo) && gid(final(self).realm.flo) == gid(old(self).realm.flo), // [V03]
//@end
//@fn rv RealmView::get_root_page ret=r
//@ spec
    ensures match r { Some(p) => self.pages.storage@.dom().contains(self.pages.root) && *p == self.pages.storage@[self.pages.root], None => !self.pages.storage@.dom().contains(self.pages.root) }, // [V03]
//@end
//@fn rv RealmView::get_root_tag ret=r
//@ spec
    ensures match r { Some(p) => self.tags.storage@.dom().contains(self.tags.root) && *p == self.tags.storage@[self.tags.root], None => !self.tags.storage@.dom().contains(self.tags.root) }, // [V03]
//@end
//@fn rv RealmView::get_realm_service ret=r
//@ spec
    ensures r == (if self.realm.object.services().dom().contains(name@) { Some(&self.realm.object.services()[name@]) } else { None }), // [V03]
//@end
//@fn rv RealmView::get_cond ret=r
//@ sub /<T: [^>]*>\(/ => /<T>(/
//@ spec
    ensures drawn_for(flo.flo, r), final(self).pages == old(self).pages, final(self).tags == old(self).tags, final(self).realm == old(self).realm, // [V03]
//@end
}
impl FloWrapper<Realm> {
    #[verifier::external_body]
    pub fn new(name: &str, cond: Condition, config: RealmConfig, signers: &[&Signer]) -> (r: VResult<FloRealm>) ensures r matches Ok(w) ==> w.faithful() && is_link(latest(w.flo), cond) { unimplemented!() }
}
//@struct rv RVBuilderBlob
//@struct rv RealmViewBuilder
/// The new page and tag are stored, and the services of the new realm point to them.
pub open spec fn built(v: RealmView, p: RVBuilderBlob, t: RVBuilderBlob) -> bool {
    v.sent(v.realm.flo) && exists|fp: FloBlobPage, ft: FloBlobTag| #[trigger] new_page(fp, v.realm.flo.realm, p.cond, p.path_name@, utf8(p.content->0@), p.parent, p.cuckoo) && #[trigger] new_tag(ft, v.realm.flo.realm, t.cond, t.path_name@, t.parent, t.cuckoo)
        && v.sent(fp.flo) && v.sent(ft.flo) && v.pages.root == bid(fp.flo) && v.tags.root == bid(ft.flo)
}
pub broadcast proof fn lemma_put(s: Seq<InternIn>, x: InternIn)
    ensures #![trigger s.push(x)] forall|y: InternIn| #[trigger] s.push(x).contains(y) == (s.contains(y) || y == x)
{
    assert forall|y: InternIn| #[trigger] s.push(x).contains(y) == (s.contains(y) || y == x) by {
        assert(s.push(x)[s.len() as int] == x);
        if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x)[i] == y); }
        if s.push(x).contains(y) { let i = choose|i: int| 0 <= i < s.len() + 1 && s.push(x)[i] == y; if i < s.len() { assert(s[i] == y); } }
    }
}
impl RealmViewBuilder {
//@fn rv RealmViewBuilder::config ret=r
//@ sub /\bmut self\b/ => /vx0self/
//@ sub /\bself\b/ => /vx_self/
//@ sub /\bvx0self\b/ => /self/
//@ spec
    ensures r == (RealmViewBuilder { config, ..vx0self }), // [V03]
//@ entry
    let mut vx_self = vx0self;
//@end
//@fn rv RealmViewBuilder::root_http_cuckoo ret=r
//@ sub /\bmut self\b/ => /vx0self/
//@ sub /\bself\b/ => /vx_self/
//@ sub /\bvx0self\b/ => /self/
//@ spec
    ensures r == (RealmViewBuilder { page: Some(RVBuilderBlob { path_name: path, content: Some(content), parent, cond, cuckoo, signers }), ..vx0self }), // [V03]
//@ entry
    let mut vx_self = vx0self;
//@end
//@fn rv RealmViewBuilder::root_http ret=r
//@ spec
    ensures r == (RealmViewBuilder { page: Some(RVBuilderBlob { path_name: path, content: Some(content), parent, cond, cuckoo: Cuckoo::None, signers }), ..self }), // [V03]
//@end
//@fn rv RealmViewBuilder::root_tag_cuckoo ret=r
//@ sub /\bmut self\b/ => /vx0self/
//@ sub /\bself\b/ => /vx_self/
//@ sub /\bvx0self\b/ => /self/
//@ spec
    ensures r == (RealmViewBuilder { tag: Some(RVBuilderBlob { path_name: name, content: None, parent, cond, cuckoo, signers }), ..vx0self }), // [V03]
//@ entry
    let mut vx_self = vx0self;
//@end
//@fn rv RealmViewBuilder::root_tag ret=r
//@ spec
    ensures r == (RealmViewBuilder { tag: Some(RVBuilderBlob { path_name: name, content: None, parent, cond, cuckoo: Cuckoo::None, signers }), ..self }), // [V03]
//@end
//@fn rv RealmViewBuilder::build ret=r
//@ sub /\bmut self\b/ => /vx0self/
//@ sub /\bself\b/ => /vx_self/
//@ sub /\bvx0self\b/ => /self/
//@ sub /&realm_signers\b/ => /realm_signers/
//@ spec
    requires vx0self.page matches Some(p) ==> p.content is Some,
    ensures r matches Ok(v) ==> vx0self.page is Some && vx0self.tag is Some && begun(v, v.realm) && built(v, vx0self.page->0, vx0self.tag->0), // [V03]
//@ entry
    let mut vx_self = vx0self; broadcast use lemma_put; proof { assert("http"@ != "tag"@) by { reveal_strlit("http"); reveal_strlit("tag"); assert("http"@.len() == 4 && "tag"@.len() == 3); } }
//@ closure 0 -> (x: ()) ensures final(r).services() == old(r).services().insert("http"@, id_of(fp.flo)).insert("tag"@, id_of(ft.flo))
//@end
}
}
fn main() {}
