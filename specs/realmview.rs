//@include prelude.rs
//@include ids.rs
//@include nodelist.rs
//@file bl flmodules/src/flo/blob.rs
//@file rv flmodules/src/dht_storage/realm_view.rs
//@sub /\.clone\(\)/ => /.dup()/
//@sub /\bHashMap<String, / => /Named</
//@sub /RealmStorage<\w+>/ => /RealmStorage/
//@sub /FloWrapper<T>/ => /VxFlo/
//@sub /\bonce\((\w+)\)\.(?:vx_)?chain\((self\.cuckoos\.get\(\w+\))\.(?:vx_)?into_iter\(\)\.(?:vx_)?flatten\(\)\)/ => /vx_self_and(\1, \2)/
//@sub /\.(?:vx_)?filter_map\(((?:(?!\.(?:vx_)?find\()[\s\S])*?)\)\s*\.(?:vx_)?find\(/ => /.vx_filter_map_find(\1, /
//@sub /(\w+)\.split_first\(\)/ => /vx_split_first(&\1)/
//@sub /\.(?:vx_)?to_vec\(\)/ => /.dup()/
//@sub /\b(\w+) == part\.0/ => /vx_same_text(\1, part.0)/
//@sub /(\w+)\.trim_start_matches\("(.)"\)/ => /vx_trim_start(\1, '\2')/
//@sub /(vx_trim_start\([^()]*\))\.split\('(.)'\)\s*\.(?:vx_)?collect::<Vec<_>>\(\)/ => /vx_split(\1, '\2')/
//@sub / as &dyn BlobPathFamily/ => //
//@sub /<T: BlobPathFamily>\(&self, (\w+): &T\)/ => /(&self, \1: &VxFlo)/
//@sub /"(\w+)"\.into\(\)/ => /vx_string("\1")/
//@sub /\.entry\(([^()]*(?:\([^()]*\))?[^()]*)\)\s*\.or_insert_with\(Vec::new\)/ => /.vx_entry_vec(\1)/
verus! {
// ------------------------------------------------------------------ what is trusted here
pub trait Dup: Sized { fn dup(&self) -> (r: Self) ensures r == *self; }
impl<T> Dup for T { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
pub type BlobID = U256;
#[verifier::external_body]
pub struct Bytes { x: u8 }
/// A map whose keys are texts.
#[verifier::external_body] #[verifier::accept_recursive_types(V)]
pub struct Named<V> { m: std::collections::HashMap<String, V> }
impl<V> View for Named<V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
pub trait Text { spec fn text(&self) -> Seq<char>; }
impl Text for String { open spec fn text(&self) -> Seq<char> { self@ } }
impl<'a> Text for &'a str { open spec fn text(&self) -> Seq<char> { (**self)@ } }
impl<V> Named<V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &str) -> (r: Option<&'a V>)
        ensures match r { Some(v) => self@.dom().contains(k@) && *v == self@[k@], None => !self@.dom().contains(k@) } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'a>(&'a mut self, k: &str) -> (r: Option<&'a mut V>)
        ensures match r { Some(v) => old(self)@.dom().contains(k@) && *v == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(v)), None => !old(self)@.dom().contains(k@) && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn insert<K: Text>(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.text(), v) { unimplemented!() }
}
impl<T> Named<Vec<T>> {
    #[verifier::external_body]
    pub fn vx_entry_vec<'a, K: Text>(&'a mut self, k: K) -> (r: &'a mut Vec<T>)
        ensures r@ == (if old(self)@.dom().contains(k.text()) { old(self)@[k.text()]@ } else { Seq::empty() }), final(self)@ == old(self)@.insert(k.text(), *final(r)) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
pub trait MapErr<T, E>: Sized {
    spec fn rv(&self) -> Result<T, E>;
    fn vx_map_err<E2, F: FnOnce(E) -> E2>(self, f: F) -> (r: Result<T, E2>)
        requires self.rv() matches Err(e) ==> call_requires(f, (e,)),
        ensures r is Ok <==> self.rv() is Ok, r matches Ok(x) ==> self.rv() == Ok::<T, E>(x);
}
impl<T, E> MapErr<T, E> for Result<T, E> {
    open spec fn rv(&self) -> Result<T, E> { *self }
    #[verifier::external_body]
    fn vx_map_err<E2, F: FnOnce(E) -> E2>(self, f: F) -> (r: Result<T, E2>) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_vec1<T>(x: T) -> (r: Vec<T>) ensures r@ == seq![x] { unimplemented!() }
pub trait Shown { spec fn shown(&self) -> Seq<char>; }
impl Shown for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl<'a> Shown for &'a String { open spec fn shown(&self) -> Seq<char> { (**self)@ } }
impl<'a> Shown for &'a str { open spec fn shown(&self) -> Seq<char> { (**self)@ } }
#[verifier::external_body]
pub fn vx_fmt1<A: Shown>(a: &str, x: &A, b: &str) -> (r: String) ensures r@ == a@ + x.shown() + b@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_fmt2<A: Shown, B: Shown>(a: &str, x: &A, b: &str, y: &B, c: &str) -> (r: String) ensures r@ == a@ + x.shown() + b@ + y.shown() + c@ { unimplemented!() }
#[verifier::external_body] #[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { m: std::collections::HashSet<K> }
impl<K> View for HashSet<K> { type V = Set<K>; uninterp spec fn view(&self) -> Set<K>; }
impl<K> HashSet<K> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
}
//@struct bl Blob
#[verifier::external_body]
pub struct DHTStorage { x: u8 }
/// A Flo with what is stored in it.
#[verifier::external_body]
pub struct VxFlo { x: u8 }
pub uninterp spec fn blob_of(f: VxFlo) -> Blob;
#[verifier::external_body]
pub fn vx_split_first<'a>(v: &Vec<&'a str>) -> (r: Option<(&'a str, Vec<&'a str>)>)
    ensures match r { Some(p) => v@.len() > 0 && p.0 == v@[0] && p.1@ == v@.skip(1), None => v@.len() == 0 } { unimplemented!() }
#[verifier::external_body]
pub fn vx_same_text(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_self_and<'a>(id: &'a BlobID, o: Option<&'a Vec<BlobID>>) -> (r: It<&'a BlobID>)
    ensures r@ == refs(seq![*id] + (match o { Some(v) => v@, None => Seq::empty() })) { unimplemented!() }
impl<T> It<T> {
    /// `filter_map(f)`, then `find(g)`.
    #[verifier::external_body]
    pub fn vx_filter_map_find<U, F: FnMut(T) -> Option<U>, G: FnMut(&U) -> bool>(self, f: F, g: G) -> (r: (Option<U>, Ghost<int>))
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] call_requires(f, (self@[i],)), forall|u: &U| #[trigger] call_requires(g, (u,)),
        ensures
            r.0 matches Some(x) ==> 0 <= r.1@ < self@.len() && call_ensures(f, (self@[r.1@],), Some(x)) && call_ensures(g, (&x,), true) && (forall|j: int| 0 <= j < r.1@ ==> passed_over(f, g, #[trigger] self@[j])),
            r.0 is None ==> forall|j: int| 0 <= j < self@.len() ==> passed_over(f, g, #[trigger] self@[j]),
    { unimplemented!() }
}
pub open spec fn passed_over<T, U, F: FnMut(T) -> Option<U>, G: FnMut(&U) -> bool>(f: F, g: G, t: T) -> bool {
    call_ensures(f, (t,), None) || exists|u: U| #[trigger] call_ensures(f, (t,), Some(u)) && call_ensures(g, (&u,), false)
}
// ------------------------------------------------------------------ blobs
pub open spec fn parents_key() -> Seq<char> { "parents"@ }
pub open spec fn children_key() -> Seq<char> { "children"@ }
pub open spec fn path_key() -> Seq<char> { "path"@ }
pub open spec fn linked(b: Blob, k: Seq<char>) -> Seq<BlobID> { if b.links@.dom().contains(k) { b.links@[k]@ } else { Seq::empty() } }
pub open spec fn parents_of(b: Blob) -> Seq<BlobID> { linked(b, parents_key()) }
pub open spec fn children_of(b: Blob) -> Seq<BlobID> { linked(b, children_key()) }
pub open spec fn path_of(b: Blob) -> Option<Seq<char>> { if b.values@.dom().contains(path_key()) { Some(b.values@[path_key()]@) } else { None } }
/// Only the links under this name are other ones.
pub open spec fn only_links(a: Blob, b: Blob, k: Seq<char>) -> bool {
    a.blob_type == b.blob_type && a.values == b.values && a.datas == b.datas && (forall|o: Seq<char>| o != k ==> #[trigger] linked(b, o) == linked(a, o))
}
pub proof fn lemma_keys() ensures parents_key() != children_key() { reveal_strlit("parents"); reveal_strlit("children"); assert(parents_key().len() == 7 && children_key().len() == 8); }
/// What is left of a list without x.
pub open spec fn without(s: Seq<BlobID>, x: BlobID) -> Seq<BlobID> { part(s, seq![x], false) }
pub broadcast proof fn lemma_without(s: Seq<BlobID>, r: Seq<BlobID>, fwd: Seq<int>, bwd: Seq<int>, x: BlobID)
    requires filt(s, r, fwd, bwd), forall|j: int| #![trigger s[j]] #![trigger fwd[j]] 0 <= j < s.len() ==> (fwd[j] >= 0) == (s[j] != x),
    ensures #![trigger filt(s, r, fwd, bwd), without(s, x)] r == without(s, x),
{
    assert forall|j: int| #![trigger s[j]] #![trigger fwd[j]] 0 <= j < s.len() implies (fwd[j] >= 0) == (seq![x].contains(s[j]) == false) by { assert(seq![x][0] == x); if s[j] == x { assert(seq![x].contains(s[j])); } }
    lemma_filt_part(s, r, fwd, bwd, seq![x], false);
}
pub trait BlobAccess: Sized {
    spec fn blob(&self) -> Blob;
    fn get_blob(&self) -> (r: &Blob) ensures *r == self.blob();
    fn get_blob_mut(&mut self) -> (r: &mut Blob) ensures *r == old(self).blob(), final(self).blob() == *final(r);
//@fn bl BlobAccess::links ret=r vis=none
//@ spec
    ensures *r == self.blob().links, // [V01]
//@end
//@fn bl BlobAccess::links_mut ret=r vis=none
//@ spec
    ensures *r == old(self).blob().links, final(self).blob().links == *final(r), final(self).blob().blob_type == old(self).blob().blob_type, final(self).blob().values == old(self).blob().values, final(self).blob().datas == old(self).blob().datas, // [V01]
//@end
//@fn bl BlobAccess::values ret=r vis=none
//@ spec
    ensures *r == self.blob().values, // [V01]
//@end
//@fn bl BlobAccess::values_mut ret=r vis=none
//@ spec
    ensures *r == old(self).blob().values, final(self).blob().values == *final(r), final(self).blob().blob_type == old(self).blob().blob_type, final(self).blob().links == old(self).blob().links, final(self).blob().datas == old(self).blob().datas, // [V01]
//@end
//@fn bl BlobAccess::datas ret=r vis=none
//@ spec
    ensures *r == self.blob().datas, // [V01]
//@end
//@fn bl BlobAccess::datas_mut ret=r vis=none
//@ spec
    ensures *r == old(self).blob().datas, final(self).blob().datas == *final(r), final(self).blob().blob_type == old(self).blob().blob_type, final(self).blob().links == old(self).blob().links, final(self).blob().values == old(self).blob().values, // [V01]
//@end
//@fn bl BlobAccess::get_data ret=r vis=none
//@ spec
    ensures match r { Some(v) => self.blob().datas@.dom().contains(key@) && *v == self.blob().datas@[key@], None => !self.blob().datas@.dom().contains(key@) }, // [V01]
//@end
//@fn bl BlobAccess::set_data vis=none
//@ spec
    ensures final(self).blob().datas@ == old(self).blob().datas@.insert(key@, value), final(self).blob().links == old(self).blob().links, final(self).blob().values == old(self).blob().values, // [V01]
//@end
}
pub trait BlobFamily: BlobAccess {
//@fn bl BlobFamily::set_parents vis=none
//@ spec
    ensures parents_of(final(self).blob()) == parents@, only_links(old(self).blob(), final(self).blob(), parents_key()), // [V01]
//@end
//@fn bl BlobFamily::add_parent vis=none
//@ spec
    ensures parents_of(final(self).blob()) == parents_of(old(self).blob()).push(parent), only_links(old(self).blob(), final(self).blob(), parents_key()), // [V01]
//@end
//@fn bl BlobFamily::rm_parent vis=none
//@ spec
    ensures parents_of(final(self).blob()) == without(parents_of(old(self).blob()), *parent), only_links(old(self).blob(), final(self).blob(), parents_key()), // [V01]
//@ entry
        broadcast use lemma_without;
        assert(without(Seq::empty(), *parent) =~= Seq::empty());
//@ sub ! /(self\.links_mut\(\)\s*\.get_mut\("\w+"\))\s*\.(?:vx_)?map\(\|(\w+)\| ([\s\S]*?)\);/ => /match \1 { Some(\2) => { \3 } None => {} }/
//@ sub /\b(\w+) (!=|==) parent\b/ => /*\1 \2 *parent/
//@ closure 1 -> (r: bool) ensures r == (*p != *parent)
//@end
//@fn bl BlobFamily::get_parents ret=r vis=none
//@ spec
    ensures r@ == parents_of(self.blob()), // [V01]
//@end
//@fn bl BlobFamily::set_children vis=none
//@ spec
    ensures children_of(final(self).blob()) == children@, only_links(old(self).blob(), final(self).blob(), children_key()), // [V01]
//@end
//@fn bl BlobFamily::add_child vis=none
//@ spec
    ensures children_of(final(self).blob()) == children_of(old(self).blob()).push(child), only_links(old(self).blob(), final(self).blob(), children_key()), // [V01]
//@end
//@fn bl BlobFamily::rm_child vis=none
//@ spec
    ensures children_of(final(self).blob()) == without(children_of(old(self).blob()), *child), only_links(old(self).blob(), final(self).blob(), children_key()), // [V01]
//@ entry
        broadcast use lemma_without;
        assert(without(Seq::empty(), *child) =~= Seq::empty());
//@ sub ! /(self\.links_mut\(\)\s*\.get_mut\("\w+"\))\s*\.(?:vx_)?map\(\|(\w+)\| ([\s\S]*?)\);/ => /match \1 { Some(\2) => { \3 } None => {} }/
//@ sub /\b(\w+) (!=|==) child\b/ => /*\1 \2 *child/
//@ closure 1 -> (r: bool) ensures r == (*c != *child)
//@end
//@fn bl BlobFamily::get_children ret=r vis=none
//@ spec
    ensures r@ == children_of(self.blob()), // [V01]
//@end
}
pub trait BlobPath: BlobAccess {
//@fn bl BlobPath::set_path vis=none
//@ spec
    ensures path_of(final(self).blob()) == Some(path@), final(self).blob().links == old(self).blob().links, final(self).blob().datas == old(self).blob().datas, // [V01]
//@end
//@fn bl BlobPath::get_path ret=r vis=none
//@ spec
    ensures match r { Some(p) => path_of(self.blob()) == Some(p@), None => path_of(self.blob()) is None }, // [V01]
//@end
}

impl BlobAccess for VxFlo {
    open spec fn blob(&self) -> Blob { blob_of(*self) }
    /// `get_blob` and `get_blob_mut` of FloBlobPage and FloBlobTag: the blob in the cache.
    #[verifier::external_body]
    fn get_blob(&self) -> (r: &Blob) { unimplemented!() }
    #[verifier::external_body]
    fn get_blob_mut(&mut self) -> (r: &mut Blob) { unimplemented!() }
}
impl BlobFamily for VxFlo {}
impl BlobPath for VxFlo {}
// ------------------------------------------------------------------ finding by path
//@struct rv RealmStorage
pub open spec fn group(rs: RealmStorage, id: BlobID) -> Seq<BlobID> { seq![id] + (if rs.cuckoos@.dom().contains(id) { rs.cuckoos@[id]@ } else { Seq::empty() }) }
/// The blobs of a list, each with its cuckoos.
pub open spec fn looked(rs: RealmStorage, curr: Seq<BlobID>) -> Seq<BlobID> decreases curr.len() {
    if curr.len() == 0 { Seq::empty() } else { looked(rs, curr.drop_last()) + group(rs, curr.last()) }
}
pub open spec fn named(rs: RealmStorage, id: BlobID, part: Seq<char>) -> bool { rs.storage@.dom().contains(id) && path_of(rs.storage@[id].blob()) == Some(part) }
/// The first blob of the list with this name.
pub open spec fn hit(rs: RealmStorage, ids: Seq<BlobID>, part: Seq<char>, i: int) -> bool {
    0 <= i < ids.len() && named(rs, ids[i], part) && forall|j: int| 0 <= j < i ==> !named(rs, #[trigger] ids[j], part)
}
/// What is found following the parts of the path: at each part, the first one of this name, then its children.
pub open spec fn lookup(rs: RealmStorage, parts: Seq<Seq<char>>, curr: Seq<BlobID>) -> Option<VxFlo> decreases parts.len() {
    if parts.len() == 0 { None }
    else if exists|i: int| hit(rs, looked(rs, curr), parts[0], i) {
        let i = choose|i: int| hit(rs, looked(rs, curr), parts[0], i);
        let f = rs.storage@[looked(rs, curr)[i]];
        if parts.len() == 1 { Some(f) } else { lookup(rs, parts.skip(1), children_of(f.blob())) }
    } else { None }
}
pub open spec fn views(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn derefs(v: Seq<&BlobID>) -> Seq<BlobID> { Seq::new(v.len(), |i: int| *v[i]) }
pub open spec fn grouped(rs: RealmStorage, outs: Seq<It<&BlobID>>, curr: Seq<&BlobID>) -> bool {
    outs.len() == curr.len() && forall|i: int| 0 <= i < outs.len() ==> (#[trigger] outs[i])@ == refs(group(rs, *curr[i]))
}
pub proof fn lemma_looked(rs: RealmStorage, outs: Seq<It<&BlobID>>, curr: Seq<&BlobID>)
    requires grouped(rs, outs, curr),
    ensures flat_of(outs) == refs(looked(rs, derefs(curr))),
    decreases curr.len(),
{
    if curr.len() > 0 {
        let (o, c) = (outs.drop_last(), curr.drop_last());
        assert(grouped(rs, o, c));
        lemma_looked(rs, o, c);
        assert(derefs(curr).drop_last() =~= derefs(c));
        assert(outs[outs.len() - 1]@ == refs(group(rs, *curr.last())));
        assert(flat_of(outs) =~= refs(looked(rs, derefs(curr))));
    } else { assert(flat_of(outs) =~= refs(looked(rs, derefs(curr)))); }
}
pub proof fn lemma_hit(rs: RealmStorage, ids: Seq<BlobID>, part: Seq<char>, i: int, k: int)
    requires hit(rs, ids, part, i), hit(rs, ids, part, k),
    ensures i == k,
{
    if i < k { assert(!named(rs, ids[i], part)); } else if k < i { assert(!named(rs, ids[k], part)); }
}
pub open spec fn trim_start(s: Seq<char>, c: char) -> Seq<char> decreases s.len() { if s.len() > 0 && s[0] == c { trim_start(s.skip(1), c) } else { s } }
/// The parts between the separators.
pub open spec fn split_at(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![Seq::empty()] } else if s.last() == c { split_at(s.drop_last(), c).push(Seq::empty()) } else { let p = split_at(s.drop_last(), c); p.drop_last().push(p.last().push(s.last())) }
}
#[verifier::external_body]
pub fn vx_trim_start(s: &str, c: char) -> (r: &str) ensures r@ == trim_start(s@, c) { unimplemented!() }
#[verifier::external_body]
pub fn vx_split(s: &str, c: char) -> (r: Vec<&str>) ensures views(r@) == split_at(s@, c) { unimplemented!() }
pub proof fn lemma_views(p: Seq<&str>)
    ensures p.len() > 0 ==> views(p.skip(1)) == views(p).skip(1) && views(p)[0] == p[0]@,
{ if p.len() > 0 { assert(views(p.skip(1)) =~= views(p).skip(1)); } }
/// The hit is the one which lookup takes.
pub proof fn lemma_lookup(rs: RealmStorage, parts: Seq<Seq<char>>, curr: Seq<BlobID>, i: int)
    requires parts.len() > 0, hit(rs, looked(rs, curr), parts[0], i),
    ensures ({ let f = rs.storage@[looked(rs, curr)[i]]; lookup(rs, parts, curr) == if parts.len() == 1 { Some(f) } else { lookup(rs, parts.skip(1), children_of(f.blob())) } }),
{
    let k = choose|k: int| hit(rs, looked(rs, curr), parts[0], k);
    lemma_hit(rs, looked(rs, curr), parts[0], i, k);
}
pub proof fn lemma_none(rs: RealmStorage, parts: Seq<Seq<char>>)
    ensures lookup(rs, parts, Seq::empty()) is None,
{ assert forall|i: int| !hit(rs, looked(rs, Seq::empty()), parts[0], i) by { reveal_with_fuel(looked, 2); } }
impl RealmStorage {
//@fn rv RealmStorage<T>::get_path_internal ret=r retty=VResult<&VxFlo>
//@ spec
    ensures
        match r { Ok(f) => lookup(*self, views(parts@), derefs(curr@)) == Some(*f), Err(_) => lookup(*self, views(parts@), derefs(curr@)) is None }, // [V01]
    decreases parts@.len(),
//@ entry
        let ghost (gp, gc) = (parts@, curr@);
        assert forall|outs: Seq<It<&BlobID>>| #![trigger flat_of(outs)] grouped(*self, outs, gc) implies flat_of(outs) == refs(looked(*self, derefs(gc))) by { lemma_looked(*self, outs, gc); }
//@ sub ! /(\.(?:vx_)?collect(?:::<Vec<_>>)?\(\);)/ => /\1 proof { assert(ids@ == refs(looked(*self, derefs(gc)))); assert(derefs(ids@) =~= looked(*self, derefs(gc))); lemma_views(gp); }/
//@ sub ! /if let Some\((\w+)\) = (\w+)\s*\.(?:vx_)?iter\(\)\s*\.vx_filter_map_find\(/ => /let vx_its = \2.vx_iter(); let ghost its = vx_its@; if let (Some(\1), vx_i) = vx_its.vx_filter_map_find(/
//@ closure 0 -> (r: It<&BlobID>) ensures r@ == refs(group(*self, *id))
//@ closure 1 -> (r: Option<&VxFlo>) ensures match r { Some(f) => self.storage@.dom().contains(**id) && *f == self.storage@[**id], None => !self.storage@.dom().contains(**id) }
//@ closure 2 -> (r: bool) ensures r == (path_of((**f).blob()) == Some(part.0@))
//@ closure 3 -> (r: bool) ensures r == (p@ == part.0@)
//@ before "if part.1.len() == 0"
                proof {
                    let l = looked(*self, derefs(gc));
                    assert forall|j: int| 0 <= j < vx_i@ implies !named(*self, #[trigger] l[j], part.0@) by { assert(*its[j] == &l[j]); }
                    assert(hit(*self, l, part.0@, vx_i@));
                    let i = vx_i@;
                    lemma_lookup(*self, views(gp), derefs(gc), i);
                    lemma_none(*self, views(gp).skip(1));
                    assert(derefs(refs(children_of(f.blob()))) =~= children_of(f.blob()));
                }
//@end
//@fn rv RealmStorage<T>::get_path ret=r retty=VResult<&VxFlo>
//@ spec
    ensures
        match r { Ok(f) => lookup(*self, split_at(trim_start(path@, '/'), '/'), seq![self.root]) == Some(*f), Err(_) => lookup(*self, split_at(trim_start(path@, '/'), '/'), seq![self.root]) is None }, // [V01]
//@ entry
    assert(derefs(seq![&self.root]) =~= seq![self.root]);
//@ sub /vec!\[([^\[\],]*)\]/ => /vx_vec1(\1)/
//@end
}
#[verifier::external_body]
pub struct FloRealm { x: u8 }
//@struct rv RealmView
pub open spec fn blob_in(v: RealmView, id: BlobID) -> Option<VxFlo> {
    if v.pages.storage@.dom().contains(id) { Some(v.pages.storage@[id]) } else if v.tags.storage@.dom().contains(id) { Some(v.tags.storage@[id]) } else { None }
}
/// The chain of the blob and its first parents.
pub open spec fn chain(v: RealmView, b: VxFlo, c: Seq<VxFlo>) -> bool {
    &&& c.len() > 0 && c[0] == b
    &&& forall|i: int| 0 <= i < c.len() ==> path_of((#[trigger] c[i]).blob()) is Some
    &&& forall|i: int| 0 < i < c.len() ==> follows(v, #[trigger] c[i - 1], c[i])
}
pub open spec fn follows(v: RealmView, a: VxFlo, b: VxFlo) -> bool { parents_of(a.blob()).len() > 0 && blob_in(v, parents_of(a.blob())[0]) == Some(b) }
/// Their names, from the last one of the chain to the first.
pub open spec fn full(c: Seq<VxFlo>) -> Seq<char> decreases c.len() {
    if c.len() == 0 { Seq::empty() } else { seq!['/'] + path_of(c.last().blob())->Some_0 + full(c.drop_last()) }
}
pub open spec fn is_full(v: RealmView, b: VxFlo, s: Seq<char>, c: Seq<VxFlo>) -> bool { chain(v, b, c) && parents_of(c.last().blob()).len() == 0 && s == full(c) }
/// The first parent of one of the chain, except the last one.
pub open spec fn followed(c: Seq<VxFlo>, p: BlobID) -> bool { exists|i: int| 0 <= i < c.len() - 1 && parents_of((#[trigger] c[i]).blob())[0] == p }
pub open spec fn all_followed(c: Seq<VxFlo>, s: Set<BlobID>) -> bool { forall|p: BlobID| #[trigger] s.contains(p) <==> followed(c, p) }
pub open spec fn known(v: RealmView) -> Set<BlobID> { v.pages.storage@.dom().union(v.tags.storage@.dom()) }
pub proof fn lemma_one(b: VxFlo) requires path_of(b.blob()) is Some
    ensures full(seq![b]) == seq!['/'] + path_of(b.blob())->Some_0
{ reveal_with_fuel(full, 2); assert(seq![b].drop_last() =~= Seq::empty()); assert(full(seq![b]) =~= seq!['/'] + path_of(b.blob())->Some_0); }
/// One more parent.
pub proof fn lemma_more(v: RealmView, b: VxFlo, c: Seq<VxFlo>, s: Set<BlobID>, p: BlobID, f: VxFlo)
    requires chain(v, b, c), all_followed(c, s), parents_of(c.last().blob()).len() > 0, p == parents_of(c.last().blob())[0], blob_in(v, p) == Some(f),
        path_of(f.blob()) is Some, s.subset_of(known(v)), !s.contains(p),
    ensures chain(v, b, c.push(f)), all_followed(c.push(f), s.insert(p)), s.insert(p).subset_of(known(v)), s.insert(p).len() <= known(v).len(), s.insert(p).len() == s.len() + 1,
        full(c.push(f)) == seq!['/'] + path_of(f.blob())->Some_0 + full(c),
{
    let d = c.push(f);
    assert(d.drop_last() =~= c);
    assert forall|i: int| 0 < i < d.len() implies follows(v, #[trigger] d[i - 1], d[i]) by { if i < c.len() { assert(d[i - 1] == c[i - 1]); } }
    assert forall|q: BlobID| #[trigger] s.insert(p).contains(q) <==> followed(d, q) by {
        if s.contains(q) { let i = choose|i: int| 0 <= i < c.len() - 1 && parents_of((#[trigger] c[i]).blob())[0] == q; assert(d[i] == c[i]); }
        if q == p { assert(d[c.len() - 1] == c.last()); }
        if followed(d, q) && q != p {
            let i = choose|i: int| 0 <= i < d.len() - 1 && parents_of((#[trigger] d[i]).blob())[0] == q;
            if i == c.len() - 1 { assert(d[i] == c.last()); } else { assert(d[i] == c[i]); assert(followed(c, q)); }
        }
    }
    vstd::set_lib::lemma_len_subset(s.insert(p), known(v));
}
/// There is no such path: somebody has no name, is not known, or comes twice.
pub open spec fn cut(v: RealmView, b: VxFlo, c: Seq<VxFlo>) -> bool {
    ||| path_of(b.blob()) is None
    ||| chain(v, b, c) && parents_of(c.last().blob()).len() > 0 && {
        let p = parents_of(c.last().blob())[0];
        ||| blob_in(v, p) is None
        ||| path_of((blob_in(v, p)->Some_0).blob()) is None
        ||| followed(c, p)
    }
}
pub open spec fn no_path(v: RealmView, b: VxFlo) -> bool { exists|c: Seq<VxFlo>| #[trigger] cut(v, b, c) }
pub open spec fn has_path(v: RealmView, b: VxFlo, s: Seq<char>) -> bool { exists|c: Seq<VxFlo>| #[trigger] is_full(v, b, s, c) }
impl RealmView {
//@fn rv RealmView::get_blob_path_family ret=r retty=Option<&VxFlo>
//@ spec
    ensures match r { Some(f) => blob_in(*self, *id) == Some(*f), None => blob_in(*self, *id) is None }, // [V01]
//@end
//@fn rv RealmView::get_full_path_id ret=r retty=VResult<String>
//@ spec
    ensures match r { Ok(s) => blob_in(*self, *id) is Some && has_path(*self, blob_in(*self, *id)->Some_0, s@), Err(_) => blob_in(*self, *id) is None || no_path(*self, blob_in(*self, *id)->Some_0) }, // [V01]
//@end
//@fn rv RealmView::get_full_path_blob ret=r retty=VResult<String> fmt=1
//@ spec
    ensures match r { Ok(s) => has_path(*self, *b, s@), Err(_) => no_path(*self, *b) }, // [V01]
//@ entry
    proof { reveal_strlit("/"); reveal_strlit(""); }
    let ghost mut c: Seq<VxFlo> = seq![*b];
    proof { if path_of(b.blob()) is None { assert(cut(*self, *b, c)); } else { lemma_one(*b); } }
//@ loop 0
    invariant "/"@ =~= seq!['/'], ""@ =~= Seq::<char>::empty(), path_of(b.blob()) is Some,
        chain(*self, *b, c), full@ == crate::full(c), parents@ == parents_of(c.last().blob()), all_followed(c, seen@), seen@.subset_of(known(*self)), // [V01]
    ensures parents@.len() == 0,
    decreases known(*self).len() - seen@.len(), // [V01]
//@ loopstart 0
    let ghost s0 = seen@; let ghost p0 = parents@[0]; let ghost full0 = full@; let ghost next = blob_in(*self, p0);
    proof { if followed(c, p0) || next is None || path_of((next->Some_0).blob()) is None { assert(cut(*self, *b, c)); } }
//@ loopend 0
    proof { lemma_more(*self, *b, c, s0, p0, next->Some_0); c = c.push(next->Some_0); assert(full@ =~= seq!['/'] + path_of((next->Some_0).blob())->Some_0 + full0); }
//@ afterloop 0
    proof { assert(is_full(*self, *b, full@, c)); }
//@end
//@fn rv RealmView::get_root_page ret=r retty=Option<&VxFlo>
//@ spec
    ensures match r { Some(f) => self.pages.storage@.dom().contains(self.pages.root) && *f == self.pages.storage@[self.pages.root], None => !self.pages.storage@.dom().contains(self.pages.root) }, // [V01]
//@end
//@fn rv RealmView::get_root_tag ret=r retty=Option<&VxFlo>
//@ spec
    ensures match r { Some(f) => self.tags.storage@.dom().contains(self.tags.root) && *f == self.tags.storage@[self.tags.root], None => !self.tags.storage@.dom().contains(self.tags.root) }, // [V01]
//@end
//@fn rv RealmView::get_page_from_path ret=r retty=VResult<&VxFlo>
//@ spec
    ensures
        match r { Ok(f) => lookup(self.pages, split_at(trim_start(path@, '/'), '/'), seq![self.pages.root]) == Some(*f), Err(_) => lookup(self.pages, split_at(trim_start(path@, '/'), '/'), seq![self.pages.root]) is None }, // [V01]
//@end
}
} // verus!
fn main() {}
