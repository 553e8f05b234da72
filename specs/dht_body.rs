//@include prelude.rs
//@include ids.rs
//@file core flmodules/src/dht_storage/core.rs
verus! {

// ------------------------------------------------------------------ what is trusted here
/// A Flo, seen from the storage layer: identity, version, realm, config and encoded size are
/// functions of the Flo (their own code is covered by the flo properties).
#[verifier::external_body]
#[derive(PartialEq, Eq, Structural)]
pub struct Flo { x: u8 }
pub uninterp spec fn flo_id_of(f: Flo) -> FloID;
pub uninterp spec fn realm_of(f: Flo) -> RealmID;
pub uninterp spec fn version_of(f: Flo) -> u32;
pub uninterp spec fn config_of(f: Flo) -> FloConfig;
pub uninterp spec fn flo_size_of(f: Flo) -> usize;
pub uninterp spec fn fs_size(f: FloStorage) -> usize;
/// Nothing that fits in memory encodes to 2^60 bytes.
pub open spec fn big() -> int { 0x1000_0000_0000_0000 }
/// The creation time is a date in milliseconds, which always takes the same number of bytes.
pub axiom fn axiom_sizes(a: FloStorage, b: FloStorage)
    ensures a.flo == b.flo && a.cuckoos@ == b.cuckoos@ && a.time_update == b.time_update && a.time_read == b.time_read && a.reads == b.reads
        ==> fs_size(a) == fs_size(b);
/// All a node holds of one realm fits in its memory.
pub axiom fn axiom_fits(s: RealmStorage) ensures s.wf() ==> s.size < big();
impl Flo {
    #[verifier::external_body]
    pub fn flo_id(&self) -> (r: FloID) ensures r == flo_id_of(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn realm_id(&self) -> (r: RealmID) ensures r == realm_of(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn version(&self) -> (r: u32) ensures r == version_of(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn flo_config(&self) -> (r: &FloConfig) ensures *r == config_of(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn size(&self) -> (r: usize) ensures r == flo_size_of(*self), r < big() { unimplemented!() }
}
impl Clone for Flo {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for DHTConfig {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct FloRealm { x: u8 }
pub uninterp spec fn realm_flo(f: FloRealm) -> Flo;
pub uninterp spec fn realm_cfg(f: FloRealm) -> RealmConfig;
pub struct RealmCache { pub c: RealmConfig }
impl RealmCache {
    #[verifier::external_body]
    pub fn get_config(&self) -> (r: RealmConfig) ensures r == self.c { unimplemented!() }
}
impl FloRealm {
    #[verifier::external_body]
    pub fn flo(&self) -> (r: &Flo) ensures *r == realm_flo(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn cache(&self) -> (r: &RealmCache) ensures r.c == realm_cfg(*self) { unimplemented!() }
}
#[verifier::external_body]
pub fn now() -> (r: i64) { unimplemented!() }
impl FloStorage {
//@fn core `<FloStorage as From<Flo>>::from` as=from_flo
//@ spec
    ensures res.flo == flo, res.cuckoos@.len() == 0, res.time_update == 0, res.time_read == 0, res.reads == 0,
//@end
//@fn core FloStorage::version
//@ spec
    ensures res == version_of(self.flo),
//@end
    #[verifier::external_body]
    pub fn size(&self) -> (r: usize) ensures r == fs_size(*self), r < big() { unimplemented!() }
}
pub struct KNode { }
impl KNode {
    /// Proved for the real function by property K01.
    #[verifier::external_body]
    pub fn get_depth(root: &NodeID, id: &NodeID) -> (r: usize) ensures r == depth_spec(*root, *id) { unimplemented!() }
}

// ------------------------------------------------------------------ copied types
//@struct core RealmConfig derive=Clone,Copy
//@struct core FloMeta
//@struct core DHTConfig
//@struct core FloConfig
//@enum core Cuckoo
//@type core FloCuckoo
//@struct core RealmStorage
//@struct core FloStorage

// ------------------------------------------------------------------ abstract view

pub open spec fn total(m: Map<FloID, FloStorage>) -> int
    decreases m.dom().len()
{
    if m.dom().len() == 0 { 0 } else {
        let k = m.dom().choose();
        fs_size(m[k]) + total(m.remove(k))
    }
}
pub proof fn lemma_total_remove(m: Map<FloID, FloStorage>, k: FloID)
    requires m.dom().contains(k),
    ensures total(m) == total(m.remove(k)) + fs_size(m[k]),
    decreases m.dom().len(),
{
    let c = m.dom().choose();
    if c != k {
        lemma_total_remove(m.remove(c), k);
        lemma_total_remove(m.remove(k), c);
        assert(m.remove(c).remove(k) =~= m.remove(k).remove(c));
        assert(m.remove(k).dom().len() > 0);
        lemma_total_choice(m.remove(k), c);
    }
}
pub proof fn lemma_total_choice(m: Map<FloID, FloStorage>, k: FloID)
    requires m.dom().contains(k),
    ensures true,
{
}
pub proof fn lemma_total_insert(m: Map<FloID, FloStorage>, k: FloID, v: FloStorage)
    requires !m.dom().contains(k),
    ensures total(m.insert(k, v)) == total(m) + fs_size(v),
{
    lemma_total_remove(m.insert(k, v), k);
    assert(m.insert(k, v).remove(k) =~= m);
}
pub proof fn lemma_total_nonneg(m: Map<FloID, FloStorage>)
    ensures total(m) >= 0, forall|k: FloID| m.dom().contains(k) ==> fs_size(#[trigger] m[k]) <= total(m),
    decreases m.dom().len(),
{
    if m.dom().len() != 0 {
        lemma_total_nonneg(m.remove(m.dom().choose()));
        assert forall|k: FloID| m.dom().contains(k) implies fs_size(#[trigger] m[k]) <= total(m) by {
            lemma_total_remove(m, k);
            lemma_total_nonneg(m.remove(k));
        }
    }
}

pub proof fn lemma_push_no_dup<T>(s: Seq<T>, x: T)
    requires no_dup(s), !s.contains(x),
    ensures no_dup(s.push(x)),
{
    assert forall|i: int, j: int| 0 <= i < j < s.push(x).len() implies s.push(x)[i] != s.push(x)[j] by { if j == s.len() { assert(s.contains(s[i])); } }
}
pub proof fn lemma_push_has<T>(s: Seq<T>, x: T, y: T) ensures s.push(x).contains(y) <==> s.contains(y) || y == x
{
    if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x)[i] == y); }
    assert(s.push(x)[s.len() as int] == x);
}
pub open spec fn ids_sum(m: Map<FloID, FloStorage>, s: Seq<&FloID>) -> int {
    sum_nat(Seq::new(s.len(), |i: int| fs_size(m[*s[i]]) as int))
}
pub proof fn lemma_total_sub(m: Map<FloID, FloStorage>, n: Map<FloID, FloStorage>)
    requires forall|k: FloID| #[trigger] n.dom().contains(k) ==> m.dom().contains(k) && m[k] == n[k],
    ensures total(n) <= total(m),
    decreases n.dom().len(),
{
    if n.dom().len() == 0 { lemma_total_nonneg(m); } else {
        let k = n.dom().choose();
        assert(n.dom().contains(k));
        lemma_total_remove(m, k); lemma_total_remove(n, k);
        lemma_total_sub(m.remove(k), n.remove(k));
    }
}
pub proof fn lemma_total_split(m: Map<FloID, FloStorage>, a: Map<FloID, FloStorage>, b: Map<FloID, FloStorage>)
    requires forall|k: FloID| #[trigger] m.dom().contains(k) <==> a.dom().contains(k) || b.dom().contains(k),
        forall|k: FloID| #[trigger] a.dom().contains(k) ==> !b.dom().contains(k) && m[k] == a[k],
        forall|k: FloID| #[trigger] b.dom().contains(k) ==> m[k] == b[k],
    ensures total(m) == total(a) + total(b),
    decreases a.dom().len(),
{
    if a.dom().len() == 0 {
        assert forall|k: FloID| #[trigger] m.dom().contains(k) <==> b.dom().contains(k) by { assert(!a.dom().contains(k)); }
        assert(m =~= b);
    } else {
        let k = a.dom().choose();
        assert(a.dom().contains(k)); assert(m.dom().contains(k));
        lemma_total_remove(m, k); lemma_total_remove(a, k);
        lemma_total_split(m.remove(k), a.remove(k), b);
    }
}
pub proof fn lemma_ids_total(m: Map<FloID, FloStorage>, f: Seq<&FloID>)
    requires no_dup(f), forall|k: FloID| #[trigger] m.dom().contains(k) <==> f.contains(&k),
    ensures ids_sum(m, f) == total(m),
    decreases f.len(),
{
    if f.len() == 0 {
        assert forall|k: FloID| !#[trigger] m.dom().contains(k) by { assert(!f.contains(&k)); }
        assert(m.dom() =~= Set::empty());
    } else {
        let x = *f.last(); let g = f.drop_last();
        assert(f.contains(f.last()));
        assert(m.dom().contains(x));
        let n = m.remove(x);
        assert forall|k: FloID| #[trigger] n.dom().contains(k) <==> g.contains(&k) by {
            if n.dom().contains(k) { assert(m.dom().contains(k)); let i = choose|i: int| 0 <= i < f.len() && f[i] == &k; assert(g[i] == &k); }
            if g.contains(&k) { let i = choose|i: int| 0 <= i < g.len() && g[i] == &k; assert(f[i] == &k); assert(f.contains(&k)); assert(f[i] != f[f.len() - 1]); }
        }
        assert(no_dup(g)) by { assert forall|i: int, j: int| 0 <= i < j < g.len() implies g[i] != g[j] by { assert(f[i] != f[j]); } }
        lemma_ids_total(n, g);
        lemma_total_remove(m, x);
        let a = Seq::new(f.len(), |i: int| fs_size(m[*f[i]]) as int);
        assert(a.drop_last() =~= Seq::new(g.len(), |i: int| fs_size(n[*g[i]]) as int)) by {
            assert forall|i: int| 0 <= i < g.len() implies m[*g[i]] == n[*g[i]] by { assert(f[i] != f[f.len() - 1]); assert(g.contains(g[i])); assert(n.dom().contains(*g[i])); }
        }
    }
}
pub open spec fn of_entry(fc: FloCuckoo, fs: FloStorage) -> bool { fc.0 == fs.flo && fc.1@ == fs.cuckoos@ }
impl RealmStorage {
    pub open spec fn fl(&self) -> Map<FloID, FloStorage> { self.flos@ }
    pub open spec fn dp(&self, id: FloID) -> usize { depth_spec(self.dht_config.our_id, id.0) as usize }
    pub open spec fn is_realm(&self, id: FloID) -> bool { id.0 == self.realm_id.0 }
    /// s holds something else than the realm.
    pub open spec fn some_other(&self, s: Seq<FloID>) -> bool { exists|i: int| 0 <= i < s.len() && !self.is_realm(#[trigger] s[i]) }
    /// Index and content agree.
    pub open spec fn wf_index(&self) -> bool {
        &&& forall|d: usize, i: int| #![trigger self.distances@[d]@[i]] self.distances@.dom().contains(d) && 0 <= i < self.distances@[d]@.len()
              ==> self.flos@.dom().contains(self.distances@[d]@[i]) && self.dp(self.distances@[d]@[i]) == d
        &&& forall|d: usize| #![trigger self.distances@[d]] self.distances@.dom().contains(d) ==> no_dup(self.distances@[d]@)
        &&& forall|id: FloID| #[trigger] self.flos@.dom().contains(id) ==>
              self.distances@.dom().contains(self.dp(id)) && self.distances@[self.dp(id)]@.contains(id)
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.size == total(self.flos@)
        &&& self.wf_index()
        &&& forall|id: FloID| #[trigger] self.flos@.dom().contains(id) ==>
              flo_id_of(self.flos@[id].flo) == id && no_dup(self.flos@[id].cuckoos@)
    }
    /// cuckoo is now linked to parent, and nothing else changed.
    pub open spec fn added(&self, o: &Self, parent: FloID, cuckoo: FloID) -> bool {
        &&& forall|k: FloID| k != parent && #[trigger] self.flos@.dom().contains(k) ==> self.flos@[k] == o.flos@[k]
        &&& o.flos@.dom().contains(parent) ==> {
            &&& self.flos@[parent].flo == o.flos@[parent].flo
            &&& self.flos@[parent].cuckoos@ == if o.flos@[parent].cuckoos@.contains(cuckoo) { o.flos@[parent].cuckoos@ } else { o.flos@[parent].cuckoos@.push(cuckoo) }
            &&& self.flos@[parent].cuckoos@.contains(cuckoo)
        }
    }
    /// All of these cuckoos are now linked to parent, and nothing else changed.
    pub open spec fn linked_all(&self, o: &Self, parent: FloID, ids: Seq<FloID>) -> bool {
        &&& self.same_config(o) && self.flos@.dom() == o.flos@.dom()
        &&& forall|k: FloID| #[trigger] self.flos@.dom().contains(k) ==> self.flos@[k].flo == o.flos@[k].flo && (k != parent ==> self.flos@[k] == o.flos@[k])
        &&& o.flos@.dom().contains(parent) ==> forall|x: FloID| #[trigger] self.flos@[parent].cuckoos@.contains(x) <==> o.flos@[parent].cuckoos@.contains(x) || ids.contains(x)
    }
    pub proof fn lemma_linked_none(&self, parent: FloID) ensures self.linked_all(self, parent, Seq::<FloID>::empty()) {}
    pub proof fn lemma_linked_one(&self, b: &Self, o: &Self, parent: FloID, ids: Seq<FloID>, x: FloID)
        requires b.linked_all(o, parent, ids), self.added(b, parent, x), self.same_config(b), self.flos@.dom() == b.flos@.dom(),
        ensures self.linked_all(o, parent, ids.push(x)),
    {
        assert forall|k: FloID| #[trigger] self.flos@.dom().contains(k) implies self.flos@[k].flo == o.flos@[k].flo && (k != parent ==> self.flos@[k] == o.flos@[k]) by { assert(b.flos@.dom().contains(k)); }
        if o.flos@.dom().contains(parent) {
            let (n, p) = (self.flos@[parent].cuckoos@, b.flos@[parent].cuckoos@);
            assert forall|y: FloID| #[trigger] n.contains(y) <==> o.flos@[parent].cuckoos@.contains(y) || ids.push(x).contains(y) by {
                lemma_push_has(ids, x, y); lemma_push_has(p, x, y);
                assert(p.contains(y) <==> o.flos@[parent].cuckoos@.contains(y) || ids.contains(y));
            }
        }
    }
    /// s lists exactly the Flos at distance d.
    pub open spec fn index_of(&self, s: Seq<FloID>, d: usize) -> bool {
        forall|k: FloID| #[trigger] s.contains(k) <==> self.flos@.dom().contains(k) && self.dp(k) == d
    }
    /// What can be removed at distance d / below distance d.
    pub open spec fn at(&self, d: int) -> Map<FloID, FloStorage> { self.flos@.restrict(self.flos@.dom().filter(|k: FloID| self.dp(k) == d && !self.is_realm(k))) }
    pub open spec fn below(&self, d: int) -> Map<FloID, FloStorage> { self.flos@.restrict(self.flos@.dom().filter(|k: FloID| self.dp(k) < d && !self.is_realm(k))) }
    /// What the storage announces about a Flo.
    pub open spec fn meta_of(&self, m: FloMeta, fs: FloStorage) -> bool {
        m.id == flo_id_of(fs.flo) && m.version == version_of(fs.flo) && m.cuckoos == fs.cuckoos@.len() as u32
    }
    /// The other side has something newer: an unknown Flo, a higher version, or more cuckoos.
    pub open spec fn wants(&self, m: FloMeta) -> bool {
        !self.flos@.dom().contains(m.id) || version_of(self.flos@[m.id].flo) < m.version || (self.flos@[m.id].cuckoos@.len() as u32) < m.cuckoos
    }
    pub open spec fn has_meta(&self, m: FloMeta) -> bool { exists|k: FloID| #[trigger] self.flos@.dom().contains(k) && self.meta_of(m, self.flos@[k]) }
    pub open spec fn announced(&self, l: Seq<FloMeta>, fs: FloStorage) -> bool { exists|i: int| 0 <= i < l.len() && self.meta_of(#[trigger] l[i], fs) }
    /// The Flo with its cuckoos is one of those stored.
    pub open spec fn is_held(&self, fc: FloCuckoo) -> bool { exists|k: FloID| #[trigger] self.flos@.dom().contains(k) && of_entry(fc, self.flos@[k]) }
    pub open spec fn listed(&self, l: Seq<FloCuckoo>, fs: FloStorage) -> bool { exists|i: int| 0 <= i < l.len() && of_entry(#[trigger] l[i], fs) }
    pub open spec fn wants_some(&self, l: Seq<FloMeta>) -> bool { exists|j: int| 0 <= j < l.len() && self.wants(#[trigger] l[j]) }
    pub open spec fn wanted(&self, l: Seq<FloMeta>, id: FloID) -> bool { exists|j: int| 0 <= j < l.len() && self.wants(#[trigger] l[j]) && l[j].id == id }
    pub open spec fn within_space(&self) -> bool {
        self.size <= self.realm_config.max_space || forall|k: FloID| #[trigger] self.flos@.dom().contains(k) ==> self.is_realm(k)
    }
    /// self is o with flo taken in or not.
    pub open spec fn mid(&self, o: &Self, flo: &Flo) -> bool {
        &&& self.wf() && self.same_config(o)
        &&& *self == *o || {
            &&& self.flos@.dom() == o.flos@.dom().insert(flo_id_of(*flo))
            &&& self.flos@[flo_id_of(*flo)].flo == *flo
            &&& forall|k: FloID| k != flo_id_of(*flo) && #[trigger] self.flos@.dom().contains(k) ==> self.flos@[k] == o.flos@[k]
            &&& o.flos@.dom().contains(flo_id_of(*flo)) ==> self.flos@[flo_id_of(*flo)].cuckoos == o.flos@[flo_id_of(*flo)].cuckoos && version_of(*flo) > version_of(o.flos@[flo_id_of(*flo)].flo)
        }
    }
    /// self is o without some of the furthest Flos.
    pub open spec fn evicted(&self, o: &Self) -> bool {
        &&& forall|k: FloID| #[trigger] self.flos@.dom().contains(k) ==> o.flos@.dom().contains(k) && self.flos@[k] == o.flos@[k]
        &&& forall|e: FloID, k: FloID| (#[trigger] o.flos@.dom().contains(e)) && !self.flos@.dom().contains(e)
            && (#[trigger] self.flos@.dom().contains(k)) && !self.is_realm(k) ==> o.dp(e) <= o.dp(k)
        &&& forall|e: FloID| (#[trigger] o.flos@.dom().contains(e)) && !self.flos@.dom().contains(e) ==> !o.is_realm(e)
    }
    /// Versions never go down, and content only changes to a newer version of the same Flo.
    #[verifier::opaque]
    pub open spec fn up_versions(&self, o: &Self, flo: &Flo) -> bool {
        &&& forall|k: FloID| #[trigger] self.flos@.dom().contains(k) ==> o.flos@.dom().contains(k) || k == flo_id_of(*flo)
        &&& forall|k: FloID| #[trigger] self.flos@.dom().contains(k) && o.flos@.dom().contains(k) ==>
            self.flos@[k].flo == o.flos@[k].flo
            || k == flo_id_of(*flo) && self.flos@[k].flo == *flo && version_of(*flo) > version_of(o.flos@[k].flo)
        &&& self.flos@.dom().contains(flo_id_of(*flo)) && !o.flos@.dom().contains(flo_id_of(*flo)) ==> self.flos@[flo_id_of(*flo)].flo == *flo
    }
    /// Cuckoos are kept, and a new one is added to the Flo it points to.
    #[verifier::opaque]
    pub open spec fn up_cuckoos(&self, o: &Self, flo: &Flo) -> bool {
        &&& forall|k: FloID| #[trigger] self.flos@.dom().contains(k) && o.flos@.dom().contains(k) ==>
            self.flos@[k].cuckoos@ == o.flos@[k].cuckoos@
            || (config_of(*flo).cuckoo == Cuckoo::Parent(k) && self.flos@[k].cuckoos@ == o.flos@[k].cuckoos@.push(flo_id_of(*flo)))
        &&& forall|k: FloID| #[trigger] self.flos@.dom().contains(k) && o.flos@.dom().contains(k)
            && config_of(*flo).cuckoo == Cuckoo::Parent(k) && flo_size_of(*flo) * 3 <= o.realm_config.max_space ==>
            self.flos@[k].cuckoos@.contains(flo_id_of(*flo))
    }
    /// What is dropped is not closer than anything that is kept; the realm is never dropped; a Flo which
    /// is new and not a cuckoo only takes the place of Flos further away; nothing is dropped while there is space.
    #[verifier::opaque]
    pub open spec fn up_evict(&self, o: &Self, flo: &Flo) -> bool {
        &&& forall|e: FloID, k: FloID| (#[trigger] o.flos@.dom().contains(e)) && !self.flos@.dom().contains(e)
            && (#[trigger] self.flos@.dom().contains(k)) && !self.is_realm(k) ==> o.dp(e) <= o.dp(k)
        &&& forall|e: FloID| (#[trigger] o.flos@.dom().contains(e)) && !self.flos@.dom().contains(e) ==> !o.is_realm(e)
        &&& o.size <= o.realm_config.max_space && !o.flos@.dom().contains(flo_id_of(*flo)) && !(config_of(*flo).cuckoo is Parent) ==>
            forall|e: FloID| (#[trigger] o.flos@.dom().contains(e)) && !self.flos@.dom().contains(e) ==> o.dp(e) < o.dp(flo_id_of(*flo))
        &&& o.size + 2 * big() <= o.realm_config.max_space ==> forall|e: FloID| (#[trigger] o.flos@.dom().contains(e)) ==> self.flos@.dom().contains(e)
    }
    pub open spec fn fresh(fs: FloStorage, flo: &Flo) -> bool {
        fs.flo == *flo && fs.cuckoos@.len() == 0 && fs.time_update == 0 && fs.time_read == 0 && fs.reads == 0
    }
    /// A new Flo which fits, or which fits in the place of Flos further away, is stored.
    #[verifier::opaque]
    pub open spec fn up_accept(&self, o: &Self, flo: &Flo) -> bool {
        o.size <= o.realm_config.max_space && !o.flos@.dom().contains(flo_id_of(*flo)) && !(config_of(*flo).cuckoo is Parent) && flo_size_of(*flo) * 3 <= o.realm_config.max_space ==>
            forall|fs: FloStorage| RealmStorage::fresh(fs, flo) && (o.size + #[trigger] fs_size(fs) <= o.realm_config.max_space || fs_size(fs) <= total(o.below(o.dp(flo_id_of(*flo)) as int)))
                ==> self.flos@.dom().contains(flo_id_of(*flo))
    }
    pub open spec fn pre(&self, o: &Self, flo: &Flo) -> bool {
        &&& self.flos@.dom() == o.flos@.dom() && self.same_config(o)
        &&& forall|k: FloID| #[trigger] o.flos@.dom().contains(k) ==> self.flos@[k].flo == o.flos@[k].flo
        &&& match config_of(*flo).cuckoo { Cuckoo::Parent(p) => self.added(o, p, flo_id_of(*flo)), _ => *self == *o }
    }
    pub proof fn lemma_unchanged(&self, flo: &Flo)
        ensures flo_size_of(*flo) * 3 > self.realm_config.max_space ==> self.up_versions(self, flo) && self.up_cuckoos(self, flo) && self.up_evict(self, flo) && self.up_accept(self, flo),
    {
        reveal(RealmStorage::up_versions); reveal(RealmStorage::up_cuckoos); reveal(RealmStorage::up_evict); reveal(RealmStorage::up_accept);
    }
    pub proof fn lemma_final(&self, s2: &Self, s1: &Self, s0: &Self, flo: &Flo)
        requires s1.pre(s0, flo), s2.mid(s1, flo), self.evicted(s2), s2.size <= s2.realm_config.max_space ==> *self == *s2, self.same_config(s2),
            s1.size <= s0.size + big(), s2.size <= s1.size + big(),
            !s1.flos@.dom().contains(flo_id_of(*flo)) && s1.size <= s1.realm_config.max_space ==>
                forall|e: FloID| (#[trigger] s2.flos@.dom().contains(e)) && !self.flos@.dom().contains(e) ==> s2.dp(e) < s2.dp(flo_id_of(*flo)),
            s2.up_accept(s1, flo),
        ensures self.up_versions(s0, flo), self.up_cuckoos(s0, flo), self.up_evict(s0, flo), self.up_accept(s0, flo),
    {
        reveal(RealmStorage::up_versions); reveal(RealmStorage::up_cuckoos); reveal(RealmStorage::up_evict); reveal(RealmStorage::up_accept);
        assert forall|e: FloID| #[trigger] s0.flos@.dom().contains(e) implies s1.flos@.dom().contains(e) && s2.flos@.dom().contains(e) by { assert(s1.flos@.dom().contains(e)); }
        assert forall|k: FloID| #[trigger] self.flos@.dom().contains(k) implies s2.flos@.dom().contains(k) && (s1.flos@.dom().contains(k) || k == flo_id_of(*flo)) by {}
    }
    pub open spec fn at_sum(&self, n: int) -> int decreases n { if n <= 0 { 0 } else { self.at_sum(n - 1) + total(self.at(n - 1)) } }
    pub proof fn lemma_at_sum(&self, n: int, r: Seq<u64>)
        requires 0 <= n, r.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r[i]) == total(self.at(i)),
        ensures sum_nat(as_ints(r)) == self.at_sum(n),
        decreases n,
    {
        if n > 0 {
            assert(as_ints(r).drop_last() =~= as_ints(r.drop_last()));
            self.lemma_at_sum(n - 1, r.drop_last());
        }
    }
    pub proof fn lemma_at_sums(&self, n: int)
        requires 0 <= n,
        ensures forall|r: Seq<u64>| #![trigger as_ints(r)] r.len() == n && (forall|i: int| 0 <= i < n ==> (#[trigger] r[i]) == total(self.at(i)))
            ==> sum_nat(as_ints(r)) == total(self.below(n)),
    {
        self.lemma_below(n);
        assert forall|r: Seq<u64>| #![trigger as_ints(r)] r.len() == n && (forall|i: int| 0 <= i < n ==> (#[trigger] r[i]) == total(self.at(i)))
            implies sum_nat(as_ints(r)) == total(self.below(n)) by { self.lemma_at_sum(n, r); }
    }
    pub proof fn lemma_below(&self, n: int)
        requires 0 <= n,
        ensures self.at_sum(n) == total(self.below(n)), total(self.below(n)) <= total(self.flos@),
        decreases n,
    {
        lemma_total_sub(self.flos@, self.below(n));
        if n == 0 { assert(self.below(0).dom() =~= Set::empty()); } else {
            self.lemma_below(n - 1);
            lemma_total_split(self.below(n), self.below(n - 1), self.at(n - 1));
        }
    }
    pub proof fn lemma_below_removed(&self, n: int)
        requires self.wf(),
        ensures forall|o: Self, k: FloID| #![trigger o.below(n), self.flos@.remove(k)] o.same_config(self) && o.flos@ == self.flos@.remove(k) && self.flos@.dom().contains(k) && !self.is_realm(k) ==>
            (self.dp(k) < n ==> total(o.below(n)) == total(self.below(n)) - fs_size(self.flos@[k])),
            (forall|k: FloID| #[trigger] self.flos@.dom().contains(k) && !self.is_realm(k) ==> self.dp(k) >= n) ==> total(self.below(n)) == 0,
            forall|k: FloID| #[trigger] self.flos@.dom().contains(k) ==> total(self.flos@.remove(k)) == total(self.flos@) - fs_size(self.flos@[k]),
    {
        assert forall|o: Self, k: FloID| #![trigger o.below(n), self.flos@.remove(k)] o.same_config(self) && o.flos@ == self.flos@.remove(k) && self.flos@.dom().contains(k) && !self.is_realm(k) && self.dp(k) < n
            implies total(o.below(n)) == total(self.below(n)) - fs_size(self.flos@[k]) by {
            assert(o.below(n) =~= self.below(n).remove(k));
            lemma_total_remove(self.below(n), k);
        }
        if forall|k: FloID| #[trigger] self.flos@.dom().contains(k) && !self.is_realm(k) ==> self.dp(k) >= n {
            assert(self.below(n).dom() =~= Set::empty());
        }
        assert forall|k: FloID| #[trigger] self.flos@.dom().contains(k) implies total(self.flos@.remove(k)) == total(self.flos@) - fs_size(self.flos@[k]) by { lemma_total_remove(self.flos@, k); }
    }
    pub proof fn lemma_all_sizes(&self)
        requires self.wf(),
        ensures forall|r: Seq<usize>| #![trigger as_ints(r)] r.len() == entries(self.flos@).len() && (forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]) == fs_size(entries(self.flos@)[i].1))
            ==> sum_nat(as_ints(r)) == total(self.flos@),
            enumerates(entries(self.flos@), self.flos@),
    {
        axiom_entries(self.flos@);
        let e = entries(self.flos@);
        let f: Seq<&FloID> = Seq::new(e.len(), |i: int| &e[i].0);
        assert forall|r: Seq<usize>| #![trigger as_ints(r)] r.len() == e.len() && (forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]) == fs_size(e[i].1))
            implies sum_nat(as_ints(r)) == total(self.flos@) by {
            assert(no_dup(f)) by { assert forall|i: int, j: int| 0 <= i < j < f.len() implies f[i] != f[j] by { assert(e[i].0 == *f[i] && e[j].0 == *f[j]); } }
            assert forall|k: FloID| #[trigger] self.flos@.dom().contains(k) <==> f.contains(&k) by {
                if self.flos@.dom().contains(k) { let i = entry_pos(self.flos@, k); assert(e[i].0 == k); assert(f[i] == &k); }
                if f.contains(&k) { let i = choose|i: int| 0 <= i < f.len() && f[i] == &k; assert(e[i].0 == k); }
            }
            lemma_ids_total(self.flos@, f);
            assert(as_ints(r) =~= Seq::new(f.len(), |i: int| fs_size(self.flos@[*f[i]]) as int));
        }
    }
    pub proof fn lemma_index(&self, d: usize)
        requires self.wf(),
        ensures self.distances@.dom().contains(d) ==> self.index_of(self.distances@[d]@, d) && no_dup(self.distances@[d]@),
            !self.distances@.dom().contains(d) ==> total(self.at(d as int)) == 0,
    {
        if !self.distances@.dom().contains(d) {
            assert forall|k: FloID| !#[trigger] self.at(d as int).dom().contains(k) by {}
            assert(self.at(d as int).dom() =~= Set::empty());
        }
    }
    pub proof fn lemma_at_depth(&self, s: Seq<FloID>, d: usize)
        requires self.wf(), no_dup(s), self.index_of(s, d),
        ensures forall|f: Seq<&FloID>, fwd: Seq<int>, bwd: Seq<int>, r: Seq<usize>| #![trigger filt(refs(s), f, fwd, bwd), as_ints(r)]
            filt(refs(s), f, fwd, bwd) && (forall|j: int| #![trigger fwd[j]] 0 <= j < s.len() ==> (fwd[j] >= 0 <==> !self.is_realm(s[j])))
            && r.len() == f.len() && (forall|i: int| 0 <= i < f.len() ==> (#[trigger] r[i]) == if self.flos@.dom().contains(*f[i]) { fs_size(self.flos@[*f[i]]) } else { 0 })
            ==> sum_nat(as_ints(r)) == total(self.at(d as int)),
            total(self.at(d as int)) <= total(self.flos@),
            forall|k: FloID| #[trigger] s.contains(k) ==> self.flos@.dom().contains(k),
    {
        lemma_total_sub(self.flos@, self.at(d as int));
        assert forall|f: Seq<&FloID>, fwd: Seq<int>, bwd: Seq<int>, r: Seq<usize>| #![trigger filt(refs(s), f, fwd, bwd), as_ints(r)]
            filt(refs(s), f, fwd, bwd) && (forall|j: int| #![trigger fwd[j]] 0 <= j < s.len() ==> (fwd[j] >= 0 <==> !self.is_realm(s[j])))
            && r.len() == f.len() && (forall|i: int| 0 <= i < f.len() ==> (#[trigger] r[i]) == if self.flos@.dom().contains(*f[i]) { fs_size(self.flos@[*f[i]]) } else { 0 })
            implies sum_nat(as_ints(r)) == total(self.at(d as int)) by {
            let m = self.at(d as int);
            assert(no_dup(refs(s)));
            assert forall|k: FloID| #[trigger] m.dom().contains(k) <==> f.contains(&k) by {
                if m.dom().contains(k) {
                    assert(s.contains(k));
                    let j = choose|j: int| 0 <= j < s.len() && s[j] == k;
                    assert(refs(s)[j] == &k); assert(fwd[j] >= 0); assert(f[fwd[j]] == &k);
                }
                if f.contains(&k) {
                    let i = choose|i: int| 0 <= i < f.len() && f[i] == &k;
                    let j = bwd[i];
                    assert(refs(s)[j] == &k); assert(s[j] == k); assert(s.contains(k)); assert(fwd[j] >= 0);
                }
            }
            lemma_ids_total(m, f);
            assert forall|i: int| 0 <= i < f.len() implies self.flos@.dom().contains(*(#[trigger] f[i])) by { assert(f.contains(f[i])); assert(m.dom().contains(*f[i])); }
            assert(Seq::new(f.len(), |i: int| fs_size(m[*f[i]]) as int) =~= Seq::new(f.len(), |i: int| fs_size(self.flos@[*f[i]]) as int)) by {
                assert forall|i: int| 0 <= i < f.len() implies m[*f[i]] == self.flos@[*f[i]] by { assert(f.contains(f[i])); assert(m.dom().contains(*f[i])); }
            }
            assert(as_ints(r) =~= Seq::new(f.len(), |i: int| fs_size(self.flos@[*f[i]]) as int));
        }
    }
    pub open spec fn same_config(&self, o: &Self) -> bool {
        self.dht_config == o.dht_config && self.realm_config == o.realm_config && self.realm_id == o.realm_id
    }
}

impl FloConfig {
//@fn core FloConfig::cuckoo_parent
//@ spec
    ensures res == match self.cuckoo { Cuckoo::Parent(p) => Some(&p), _ => None },
//@end
//@fn core FloConfig::is_cuckoo_of
//@ spec
    ensures res <==> self.cuckoo == Cuckoo::Parent(*parent), // [S03]
//@end
//@fn core FloConfig::allows_cuckoo
//@ spec
    ensures res <==> (self.cuckoo matches Cuckoo::Duration(t) && age < t),
//@end
}
impl DHTConfig {
//@fn core DHTConfig::accepts_realm
//@ spec
    ensures res <==> self.realms@.len() == 0 || self.realms@.contains(*id), // [S06]
//@end
}
impl RealmStorage {
//@fn core RealmStorage::remove_entry
//@ sub ! /\.entry\((\w+)\)\s*\.and_modify\(/ => /.vx_modify(&\1, /
//@ closure 0 header: |v: &mut Vec<FloID>|
    requires true,
    ensures
            no_dup(old(v)@) ==> no_dup(final(v)@),
            forall|x: FloID| #[trigger] final(v)@.contains(x) <==> old(v)@.contains(x) && x != *id,
//@ closure 1 header: |i: &FloID| -> (keep: bool)
    ensures keep == (*i != *id)
//@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(), // [S01]
        final(self).same_config(old(self)),
        final(self).flos@ == old(self).flos@.remove(*id),
        res == if old(self).flos@.dom().contains(*id) { Some(old(self).flos@[*id]) } else { None },
//@ entry
    proof { lemma_total_nonneg(self.flos@); if self.flos@.dom().contains(*id) { lemma_total_remove(self.flos@, *id); } }
//@ exit
    proof {
        let d = old(self).dp(*id);
        if !old(self).flos@.dom().contains(*id) { assert(self.flos@ =~= old(self).flos@); }
        let o = old(self).distances@; let n = self.distances@;
        if old(self).flos@.dom().contains(*id) {
            assert forall|k: FloID| #[trigger] self.flos@.dom().contains(k) implies n.dom().contains(self.dp(k)) && n[self.dp(k)]@.contains(k) by {
                assert(o[old(self).dp(k)]@.contains(k));
            }
        }
        assert(self.size == total(self.flos@));
        assert forall|d: usize| #![trigger self.distances@[d]] self.distances@.dom().contains(d) implies no_dup(self.distances@[d]@) by { assert(o.dom().contains(d)); }
        assert forall|d: usize, i: int| #![trigger self.distances@[d]@[i]] self.distances@.dom().contains(d) && 0 <= i < self.distances@[d]@.len()
              implies self.flos@.dom().contains(self.distances@[d]@[i]) && self.dp(self.distances@[d]@[i]) == d by {
                assert(self.distances@[d]@.contains(self.distances@[d]@[i]));
                if d == old(self).dp(*id) { let j = choose|j: int| 0 <= j < o[d]@.len() && o[d]@[j] == self.distances@[d]@[i]; assert(old(self).dp(o[d]@[j]) == d); }
              }
    }
//@end

//@fn core RealmStorage::put
//@ sub ! /\.entry\(depth\)\s*\.or_insert_with\(Vec::new\)/ => /.entry(depth).or_insert(Vec::new())/
//@ sub ! /: FloStorage = flo\.into\(\)/ => /: FloStorage = FloStorage::from_flo(flo)/
//@ spec
    requires old(self).wf(), old(self).size + big() <= u64::MAX,
    ensures
        final(self).wf(), // [S01]
        final(self).same_config(old(self)),
        final(self).size < old(self).size + big(),
        final(self).flos@.dom() == old(self).flos@.dom().insert(flo_id_of(flo)),
        final(self).flos@[flo_id_of(flo)].flo == flo, // [S02]
        forall|k: FloID| k != flo_id_of(flo) && #[trigger] final(self).flos@.dom().contains(k) ==> final(self).flos@[k] == old(self).flos@[k],
        old(self).flos@.dom().contains(flo_id_of(flo)) ==> final(self).flos@[flo_id_of(flo)].cuckoos == old(self).flos@[flo_id_of(flo)].cuckoos, // [S03]
        !old(self).flos@.dom().contains(flo_id_of(flo)) ==> final(self).flos@[flo_id_of(flo)].cuckoos@.len() == 0,
        !old(self).flos@.dom().contains(flo_id_of(flo)) ==> ({ let fs = final(self).flos@[flo_id_of(flo)]; fs.time_update == 0 && fs.time_read == 0 && fs.reads == 0 }),
        !old(self).flos@.dom().contains(flo_id_of(flo)) ==> final(self).size == old(self).size + fs_size(final(self).flos@[flo_id_of(flo)]),
//@ entry
    proof { lemma_total_nonneg(self.flos@.remove(flo_id_of(flo))); if self.flos@.dom().contains(flo_id_of(flo)) { lemma_total_remove(self.flos@, flo_id_of(flo)); } else { assert(self.flos@.remove(flo_id_of(flo)) =~= self.flos@); } }
    let ghost fid = flo_id_of(flo);
//@ before "self.flos.insert(id, df)"
    let ghost m1 = self.flos@;
    proof { lemma_total_insert(m1, fid, df); }
//@ exit
    proof {
        let d = self.dp(fid);
        let o = old(self).distances@; let n = self.distances@;
        assert(!m1.dom().contains(fid));
        assert forall|k: FloID| #[trigger] self.flos@.dom().contains(k) implies n.dom().contains(self.dp(k)) && n[self.dp(k)]@.contains(k) by {
            if k != fid { assert(m1.dom().contains(k)); }
        }
        assert(self.wf_index());
    }
//@end

//@fn core RealmStorage::remove_furthest
//@ closure 0 header: |vx_p0: (&usize, &Vec<FloID>)| -> (keep: Option<&usize>)
    ensures
        keep matches Some(d) ==> d == vx_p0.0 && self.some_other(vx_p0.1@),
        keep is None ==> !self.some_other(vx_p0.1@),
//@ closure 1 header: |vx_p0: &&FloID| -> (b: bool)
    ensures b == !self.is_realm(**vx_p0)
//@ closure 2 header: || -> (dd: &usize)
    ensures dd == dist
//@ closure 3 header: |ids: &Vec<FloID>| -> (l: Option<&FloID>)
    ensures
       l matches Some(id) ==> ids@.contains(*id) && !self.is_realm(*id),
       l is None ==> !self.some_other(ids@),
//@ closure 4 header: |vx_p0: &&FloID| -> (b: bool)
    ensures b == !self.is_realm(**vx_p0)
//@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(), // [S01]
        final(self).same_config(old(self)),
        final(self).size <= old(self).size,
        res ==> exists|id: FloID| #[trigger] old(self).flos@.dom().contains(id) && !old(self).is_realm(id)
            && final(self).flos@ == old(self).flos@.remove(id)
            && forall|k: FloID| #[trigger] old(self).flos@.dom().contains(k) && !old(self).is_realm(k) ==> old(self).dp(id) <= old(self).dp(k), // [S04]
        !res ==> final(self).flos@ == old(self).flos@ && final(self).size == old(self).size
            && forall|k: FloID| #[trigger] old(self).flos@.dom().contains(k) ==> old(self).is_realm(k), // [S01] [S04]
//@ entry
    proof {
        axiom_entries(self.distances@);
    }
//@ before "return self.remove_entry"
    proof {
        assert(self.flos@.dom().contains(id) && self.dp(id) == *furthest);
        lemma_total_remove(self.flos@, id);
        lemma_total_nonneg(self.flos@);
        assert forall|k: FloID| #[trigger] self.flos@.dom().contains(k) && !self.is_realm(k) implies *furthest <= self.dp(k) by {
            let ids = self.distances@[self.dp(k)]@;
            let i = choose|i: int| 0 <= i < ids.len() && ids[i] == k;
            assert(!self.is_realm(ids[i]));
            assert(entries(self.distances@)[entry_pos(self.distances@, self.dp(k))].0 == self.dp(k));
        }
    }
//@end

//@fn core RealmStorage::store_cuckoo_id
//@ spec
    requires old(self).wf(), old(self).size + big() <= u64::MAX,
    ensures
        final(self).wf(), // [S01] [S03]
        final(self).same_config(old(self)),
        final(self).flos@.dom() == old(self).flos@.dom(),
        final(self).size < old(self).size + big(),
        final(self).added(old(self), *parent, cuckoo), // [S03]
        !old(self).flos@.dom().contains(*parent) ==> final(self).size == old(self).size,
//@ entry
    proof { lemma_total_nonneg(self.flos@); if self.flos@.dom().contains(*parent) { lemma_total_remove(self.flos@, *parent); lemma_total_nonneg(self.flos@.remove(*parent)); } }
//@ exit
    proof {
        if self.flos@.dom().contains(*parent) { lemma_total_remove(self.flos@, *parent); assert(self.flos@.remove(*parent) =~= old(self).flos@.remove(*parent)); }
        assert(self.flos@.dom() =~= old(self).flos@.dom());
        assert forall|d: usize, i: int| #![trigger self.distances@[d]@[i]] self.distances@.dom().contains(d) && 0 <= i < self.distances@[d]@.len()
              implies self.flos@.dom().contains(self.distances@[d]@[i]) && self.dp(self.distances@[d]@[i]) == d by {
            assert(old(self).dp(old(self).distances@[d]@[i]) == d);
        }
        if self.flos@.dom().contains(*parent) && !old(self).flos@[*parent].cuckoos@.contains(cuckoo) {
            lemma_push_no_dup(old(self).flos@[*parent].cuckoos@, cuckoo);
        }
        assert(self.flos@.dom().contains(*parent) ==> self.flos@[*parent].cuckoos@.contains(cuckoo));
    }
//@end

//@fn core RealmStorage::store_cuckoo_ids
//@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(), // [S01] [S03]
        final(self).linked_all(old(self), *parent, cuckoos@), // [S02] [S03]
//@ entry
    proof { self.lemma_linked_none(*parent); }
//@ beforeloop 0
    let ghost all = cuckoos@;
//@ loop 0
    invariant
        vx_it0.wf(), vx_it0.seq() == all,
        self.wf(), self.linked_all(old(self), *parent, all.take(vx_it0.pos())),
    decreases vx_it0.left(),
//@ loopstart 0
    let ghost b = *self;
    proof { assert(all.take(vx_it0.pos()) =~= all.take(vx_it0.pos() - 1).push(cuckoo)); axiom_fits(b); }
//@ loopend 0
    proof { self.lemma_linked_one(&b, old(self), *parent, all.take(vx_it0.pos() - 1), cuckoo); }
//@ afterloop 0
    proof { assert(all.take(all.len() as int) =~= all); }
//@end

//@fn core RealmStorage::size_at_depth
//@ closure 0 header: |ids: &Vec<FloID>| -> (n: u64)
    requires self.wf(), no_dup(ids@), self.index_of(ids@, distance),
    ensures n == total(self.at(distance as int))
//@ closure 1 header: |vx_p0: &&FloID| -> (b: bool)
    ensures b == !self.is_realm(**vx_p0)
//@ closure 2 header: |id: &FloID| -> (n: usize)
    requires true,
    ensures n == if self.flos@.dom().contains(*id) { fs_size(self.flos@[*id]) } else { 0 }
//@ closure 3 header: |flo: &FloStorage| -> (n: usize)
    ensures n == fs_size(*flo)
//@ before "ids.iter()"
    proof { self.lemma_at_depth(ids@, distance); }
//@ spec
    requires self.wf(), distance < 256,
    ensures res == total(self.at(distance as int)),
//@ entry
    proof { self.lemma_index(distance); }
//@end

//@fn core RealmStorage::upsert_flo
//@ sub /(?s)flo\.flo_config\(\)\s*\.cuckoo_parent\(\)\s*\.map\(\|(\w+)\| self\.store_cuckoo_id\(\1, flo_id\.clone\(\)\)\);/ => /if let Some(\1) = flo.flo_config().cuckoo_parent() { self.store_cuckoo_id(\1, flo_id.clone()); }/
//@ sub /FloStorage::from\(/ => /FloStorage::from_flo(/
//@ closure 1 header: |depth: usize| -> (n: u64)
    requires depth < 256,
    ensures n == total(self.at(depth as int))
//@ closure 2 header: |f: (&FloID, &FloStorage)| -> (n: usize)
    ensures n == fs_size(*f.1)
//@ spec
    requires old(self).wf(), old(self).size + 3 * big() <= u64::MAX,
    ensures
        final(self).wf(), // [S01] [S03]
        final(self).same_config(old(self)),
        old(self).size <= old(self).realm_config.max_space ==> final(self).within_space(), // [S01]
        final(self).up_versions(old(self), &flo), // [S02]
        res && final(self).flos@.dom().contains(flo_id_of(flo)) ==> final(self).flos@[flo_id_of(flo)].flo == flo, // [S02]
        !res ==> (old(self).flos@.dom().contains(flo_id_of(flo)) && version_of(old(self).flos@[flo_id_of(flo)].flo) >= version_of(flo))
            || flo_size_of(flo) * 3 > old(self).realm_config.max_space, // [S02]
        final(self).up_cuckoos(old(self), &flo), // [S03]
        final(self).up_evict(old(self), &flo), // [S04]
        final(self).up_accept(old(self), &flo), // [S04]
//@ entry
    let ghost fid = flo_id_of(flo);
    let ghost vflo = flo;
    let ghost s0 = *self;
    proof { s0.lemma_unchanged(&flo); }
//@ before "let mut is_new_flo"
    let ghost s1 = *self;
    proof {
        assert(s1.pre(&s0, &flo));
        s1.lemma_below(s1.dp(fid) as int);
        s1.lemma_at_sums(s1.dp(fid) as int);
        lemma_total_nonneg(s1.below(s1.dp(fid) as int));
        lemma_depth(s1.dht_config.our_id, fid.0);
        assert forall|a: FloStorage, b: FloStorage| a.flo == flo && b.flo == flo && #[trigger] fs_size(a) != #[trigger] fs_size(b) && a.cuckoos@.len() == 0 && b.cuckoos@.len() == 0
           && a.time_update == b.time_update && a.time_read == b.time_read && a.reads == b.reads implies false by { assert(a.cuckoos@ =~= b.cuckoos@); axiom_sizes(a, b); }
    }
//@ beforeloop 0
    let ghost s2 = *self;
    proof {
        if !s1.flos@.dom().contains(fid) && s1.size <= s1.realm_config.max_space {
            assert(s2.below(s2.dp(fid) as int) =~= s1.below(s1.dp(fid) as int));
            assert(s2.size <= s2.realm_config.max_space + total(s2.below(s2.dp(fid) as int)));
        }
        assert(s2.mid(&s1, &vflo));
        assert(s2.up_accept(&s1, &vflo)) by {
            reveal(RealmStorage::up_accept);
            assert forall|a: FloStorage, b: FloStorage| RealmStorage::fresh(a, &vflo) && RealmStorage::fresh(b, &vflo) && #[trigger] fs_size(a) != #[trigger] fs_size(b) implies false by {
                assert(a.cuckoos@ =~= b.cuckoos@); axiom_sizes(a, b); }
        }
    }
//@ loop 0
    invariant
        s2.mid(&s1, &vflo), self.wf(), self.same_config(&s2),
        self.evicted(&s2),
        s2.size <= s2.realm_config.max_space ==> *self == s2,
        !s1.flos@.dom().contains(fid) && s1.size <= s1.realm_config.max_space ==> (self.size <= self.realm_config.max_space + total(self.below(s2.dp(fid) as int))
            && forall|e: FloID| (#[trigger] s2.flos@.dom().contains(e)) && !self.flos@.dom().contains(e) ==> s2.dp(e) < s2.dp(fid)),
    ensures
        self.within_space(),
    decreases self.flos@.dom().len(),
//@ loopstart 0
    let ghost b = *self;
    proof { b.lemma_below_removed(s2.dp(fid) as int); axiom_entries(self.flos@); }
//@ afterloop 0
    proof {
        assert(self.evicted(&s2));
        self.lemma_all_sizes();
        self.lemma_final(&s2, &s1, &s0, &vflo);
    }
//@end

//@fn core RealmStorage::new
//@ spec
    ensures
        res matches Ok(s) && s.wf() // [S01]
            && s.dht_config == dht_config && s.realm_config == realm_cfg(realm) && s.realm_id == realm_of(realm_flo(realm))
            && s.flos@.dom() == Set::<FloID>::empty().insert(flo_id_of(realm_flo(realm))) && s.flos@[flo_id_of(realm_flo(realm))].flo == realm_flo(realm),
//@ before "s.put("
    proof { assert(total(s.flos@) == 0); assert(s.wf()); }
//@end

//@fn core RealmStorage::flo_count
//@ spec
    ensures res == self.flos@.dom().len(), // [S01]
//@end

//@fn core RealmStorage::get_flo_cuckoo
//@ closure 0 header: |fs: &FloStorage| -> (fc: (Flo, Vec<FloID>))
    ensures fc.0 == fs.flo && fc.1@ =~= fs.cuckoos@
//@ spec
    ensures
        res is Some <==> self.flos@.dom().contains(*id), // [S02] [S03]
        res matches Some(fc) ==> fc.0 == self.flos@[*id].flo && fc.1@ == self.flos@[*id].cuckoos@, // [S02] [S03]
//@end

//@fn core RealmStorage::get_all_flo_cuckoos
//@ closure 0 -> (fc: (Flo, Vec<FloID>)) ensures fc.0 == f.1.flo && fc.1@ == f.1.cuckoos@
//@ spec
    ensures
        res@.len() == self.flos@.dom().len(), // [S06]
        forall|i: int| #![trigger res@[i]] 0 <= i < res@.len() ==> self.is_held(res@[i]), // [S06]
        forall|k: FloID| #[trigger] self.flos@.dom().contains(k) ==> self.listed(res@, self.flos@[k]), // [S06]
//@ entry
    proof { axiom_entries(self.flos@); }
//@ exit
    proof {
        assert forall|i: int| #![trigger res@[i]] 0 <= i < res@.len() implies self.is_held(res@[i]) by { assert(self.flos@.dom().contains(entries(self.flos@)[i].0)); assert(of_entry(res@[i], self.flos@[entries(self.flos@)[i].0])); }
        assert forall|k: FloID| #[trigger] self.flos@.dom().contains(k) implies self.listed(res@, self.flos@[k]) by {
            let p = entry_pos(self.flos@, k);
            assert(entries(self.flos@)[p].1 == self.flos@[k]);
            assert(of_entry(res@[p], self.flos@[k]));
        }
    }
//@end

//@fn core RealmStorage::get_cuckoo_ids
//@ closure 0 header: |fs: &FloStorage| -> (fc: Vec<FloID>)
    ensures fc@ =~= fs.cuckoos@
//@ spec
    ensures
        res is Some <==> self.flos@.dom().contains(*key), // [S03]
        res matches Some(fc) ==> fc@ == self.flos@[*key].cuckoos@, // [S03]
//@end

//@fn core RealmStorage::get_flo_metas
//@ closure 0 header: |df: &FloStorage| -> (m: FloMeta)
    ensures self.meta_of(m, *df)
//@ spec
    requires self.wf(),
    ensures
        res@.len() == self.flos@.dom().len(), // [S05]
        forall|i: int| #![trigger res@[i]] 0 <= i < res@.len() ==> self.has_meta(res@[i]), // [S05]
        forall|k: FloID| #[trigger] self.flos@.dom().contains(k) ==> self.announced(res@, self.flos@[k]), // [S05]
//@ entry
    proof { axiom_entries(self.flos@); }
//@ exit
    proof {
        assert forall|k: FloID| #[trigger] self.flos@.dom().contains(k) implies self.announced(res@, self.flos@[k]) by {
            let p = entry_pos(self.flos@, k);
            assert(entries(self.flos@)[p].1 == self.flos@[k]);
            assert(self.meta_of(res@[p], self.flos@[k]));
        }
        assert forall|i: int| #![trigger res@[i]] 0 <= i < res@.len() implies self.has_meta(res@[i]) by {
            let k = entries(self.flos@)[i].0;
            assert(self.flos@.dom().contains(k));
            assert(self.meta_of(res@[i], self.flos@[k]));
        }
    }
//@end

//@fn core RealmStorage::sync_available
//@ closure 0 header: |remote: &FloMeta| -> (o: Option<FloID>)
    ensures o == if self.wants(*remote) { Some(remote.id) } else { None }
//@ closure 1 header: |local: &FloStorage| -> (b: bool)
    ensures b == (version_of(local.flo) >= remote.version && local.cuckoos@.len() as u32 >= remote.cuckoos)
//@ closure 2 header: || -> (i: FloID)
    ensures i == remote.id
//@ closure 3 header: || -> (v: Vec<FloID>)
    ensures v@ =~= a@
//@ spec
    ensures
        res is None <==> !self.wants_some(available@), // [S05]
        res matches Some(l) ==> (forall|i: int| #![trigger l@[i]] 0 <= i < l@.len() ==> self.wanted(available@, l@[i])), // [S05]
        res matches Some(l) ==> (forall|j: int| 0 <= j < available@.len() && self.wants(#[trigger] available@[j]) ==> l@.contains(available@[j].id)), // [S05]
//@ exit
    proof { if res is Some { assert(res->Some_0@.len() > 0); assert(self.wanted(available@, res->Some_0@[0])); } }
//@end
}
}
