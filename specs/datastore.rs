//@include prelude.rs
//@file ds flarch/src/data_storage.rs
//@file fl flarch/src/data_storage/libc.rs
//@sub /PathBuf::new\(\)/ => /vx_no_path()/
//@sub /\.clone\(\)/ => /.dup()/
//@sub /\.vx_map_err\(\|[^|]*\|\s*\{\s*StorageError::Underlying\([^()]*(?:\([^()]*\))?\)\s*\}\)/ => //
//@sub /\.vx_map_err\(\|[^|]*\|\s*StorageError::Underlying\([^()]*(?:\([^()]*\))?\)\)/ => //
//@sub /StorageError/ => /VErr/
//@sub /Arc<Mutex<HashMap<String, String>>>/ => /VxShared/
//@sub /Arc::new\(Mutex::new\(HashMap::new\(\)\)\)/ => /VxShared::vx_new()/
//@sub /Arc::clone\(&([^()]*)\)/ => /\1.dup()/
verus! {
// ------------------------------------------------------------------ what is trusted here
/// Every Clone of fledger is derived: a faithful copy.
pub trait Dup: Sized { fn dup(&self) -> (r: Self) ensures r == *self; }
impl<T> Dup for T { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
/// The bytes of a text; no two texts have the same.
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub axiom fn axiom_utf8(s: Seq<char>, t: Seq<char>) ensures utf8(s) == utf8(t) ==> s == t;
/// Where a file is: the names of the directories, and its own.
#[verifier::external_body]
pub struct PathBuf { x: u8 }
impl View for PathBuf { type V = Seq<Seq<char>>; uninterp spec fn view(&self) -> Seq<Seq<char>>; }
#[verifier::external_body]
pub fn vx_no_path() -> (r: PathBuf) ensures r@ == Seq::<Seq<char>>::empty() { unimplemented!() }
pub open spec fn yaml() -> Seq<char> { seq!['.', 'y', 'a', 'm', 'l'] }
pub open spec fn dot() -> Seq<char> { seq!['.'] }
impl PathBuf {
    /// For a relative name.
    #[verifier::external_body]
    pub fn push(&mut self, name: String) ensures final(self)@ == old(self)@.push(name@) { unimplemented!() }
    /// For a name which ends with ".yaml".
    #[verifier::external_body]
    pub fn with_extension(&self, ext: &str) -> (r: PathBuf)
        ensures forall|d: Seq<Seq<char>>, n: Seq<char>| #![trigger d.push(n + yaml())] self@ == d.push(n + yaml()) ==> r@ == d.push(n + dot() + ext@),
    { unimplemented!() }
}

pub trait Shown { spec fn shown(&self) -> Seq<char>; }
impl Shown for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl<'a> Shown for &'a str { open spec fn shown(&self) -> Seq<char> { (**self)@ } }
#[verifier::external_body]
pub fn vx_fmt1<A: Shown>(a: &str, x: &A, b: &str) -> (r: String) ensures r@ == a@ + x.shown() + b@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_fmt2<A: Shown, B: Shown>(a: &str, x: &A, b: &str, y: &B, c: &str) -> (r: String) ensures r@ == a@ + x.shown() + b@ + y.shown() + c@ { unimplemented!() }

/// The files of the system, as they were one after the other: a stop of the node leaves one of these.
#[verifier::external_body]
pub tracked struct Fs { x: u8 }
pub type Files = Map<Seq<Seq<char>>, Seq<u8>>;
impl Fs {
    pub uninterp spec fn hist(&self) -> Seq<Files>;
    pub open spec fn now(&self) -> Files { self.hist().last() }
    pub open spec fn wf(&self) -> bool { self.hist().len() > 0 }
}
/// `b` comes after `a`, and in between only the file at `p` is touched.
pub open spec fn touched(a: Fs, b: Fs, p: Seq<Seq<char>>) -> bool {
    &&& a.hist().len() <= b.hist().len()
    &&& forall|i: int| 0 <= i < a.hist().len() ==> #[trigger] b.hist()[i] == a.hist()[i]
    &&& forall|i: int, q: Seq<Seq<char>>| a.hist().len() <= i < b.hist().len() && q != p ==> #[trigger] same_at(a.now(), b.hist()[i], q)
}
pub open spec fn same_at(a: Files, b: Files, q: Seq<Seq<char>>) -> bool { a.contains_key(q) == b.contains_key(q) && (a.contains_key(q) ==> a[q] == b[q]) }
#[verifier::external_body]
pub struct File { x: u8 }
impl File { pub uninterp spec fn at(&self) -> Seq<Seq<char>>; }
/// Creates the file, or empties it.
#[verifier::external_body]
pub fn vx_create(Tracked(fs): Tracked<&mut Fs>, p: &PathBuf) -> (r: VResult<File>)
    requires old(fs).wf(),
    ensures final(fs).wf(), touched(*old(fs), *final(fs), p@), r matches Ok(f) ==> f.at() == p@ && final(fs).now().contains_key(p@) && final(fs).now()[p@] == Seq::<u8>::empty(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_open(Tracked(fs): Tracked<&Fs>, p: &PathBuf) -> (r: VResult<File>) ensures r matches Ok(f) ==> f.at() == p@ { unimplemented!() }
impl File {
    /// Any part of it may be there in between, and when it fails.
    #[verifier::external_body]
    pub fn vx_write(self, Tracked(fs): Tracked<&mut Fs>, b: &[u8]) -> (r: VResult<()>)
        requires old(fs).wf(),
        ensures final(fs).wf(), touched(*old(fs), *final(fs), self.at()),
            r is Ok && old(fs).now().contains_key(self.at()) ==> final(fs).now().contains_key(self.at()) && final(fs).now()[self.at()] == old(fs).now()[self.at()] + b@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_read(self, Tracked(fs): Tracked<&Fs>, s: &mut String) -> (r: VResult<()>)
        ensures r is Ok && fs.now().contains_key(self.at()) ==> exists|t: Seq<char>| #[trigger] utf8(t) == fs.now()[self.at()] && final(s)@ == old(s)@ + t,
    { unimplemented!() }
}
/// The one file takes the place of the other at once.
#[verifier::external_body]
pub fn vx_rename(Tracked(fs): Tracked<&mut Fs>, p: &PathBuf, q: &PathBuf) -> (r: VResult<()>)
    requires old(fs).wf(),
    ensures final(fs).wf(),
        r is Err ==> final(fs).hist() == old(fs).hist(),
        r is Ok ==> old(fs).now().contains_key(p@) && final(fs).hist() == old(fs).hist().push(old(fs).now().remove(p@).insert(q@, old(fs).now()[p@])),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_remove(Tracked(fs): Tracked<&mut Fs>, p: PathBuf) -> (r: VResult<()>)
    requires old(fs).wf(),
    ensures final(fs).wf(),
        r is Err ==> final(fs).hist() == old(fs).hist(),
        r is Ok ==> final(fs).hist() == old(fs).hist().push(old(fs).now().remove(p@)),
{ unimplemented!() }
impl PathBuf {
    #[verifier::external_body]
    pub fn vx_exists(&self, Tracked(fs): Tracked<&Fs>) -> (r: bool) ensures r == fs.now().contains_key(self@) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_bytes_of(s: &str) -> (r: &[u8]) ensures r@ == utf8(s@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_no_text() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
/// The directory of the storage: created if it is not there.
#[verifier::external_body]
pub fn vx_dir(p: &PathBuf) { unimplemented!() }

// ------------------------------------------------------------------ where a value is
/// The file of a key.
pub open spec fn place(d: Seq<Seq<char>>, base: Seq<char>, key: Seq<char>) -> Seq<Seq<char>> { d.push(stem(base, key) + yaml()) }
pub open spec fn stem(base: Seq<char>, key: Seq<char>) -> Seq<char> { if base.len() == 0 { "fledger_"@ + key } else { ""@ + base + "_"@ + key } }
/// A file which holds a value of some storage.
pub open spec fn holds_value(p: Seq<Seq<char>>) -> bool { p.len() > 0 && p.last().len() > 0 && p.last().last() == 'l' }
/// The values of a storage are in files of their own.
pub proof fn lemma_place(d: Seq<Seq<char>>, base: Seq<char>, k: Seq<char>, l: Seq<char>)
    ensures place(d, base, k) == place(d, base, l) ==> k == l, // [D01]
        holds_value(place(d, base, k)),
{
    assert(place(d, base, k).last() =~= stem(base, k) + yaml());
    assert(place(d, base, l).last() =~= stem(base, l) + yaml());
    if place(d, base, k) == place(d, base, l) {
        let a = stem(base, k) + yaml();
        let b = stem(base, l) + yaml();
        assert(a == b);
        assert(a.len() == b.len());
        assert(stem(base, k) =~= a.take(a.len() - 5));
        assert(stem(base, l) =~= b.take(b.len() - 5));
        let n = if base.len() == 0 { "fledger_"@.len() } else { (""@ + base + "_"@).len() };
        assert(k =~= stem(base, k).skip(n as int));
        assert(l =~= stem(base, l).skip(n as int));
    }
}
pub proof fn lemma_tmp(d: Seq<Seq<char>>, n: Seq<char>)
    ensures !holds_value(d.push(n + dot() + "tmp"@)),
{
    reveal_strlit("tmp");
    assert((n + dot() + "tmp"@).last() == 'p');
}
/// All a stop in between leaves: the old value or the new one of this key, and the others as they were.
pub open spec fn kept(a: Fs, b: Fs, p: Seq<Seq<char>>, v: Seq<u8>) -> bool {
    &&& a.hist().len() <= b.hist().len()
    &&& forall|i: int| 0 <= i < a.hist().len() ==> #[trigger] b.hist()[i] == a.hist()[i]
    &&& forall|i: int, q: Seq<Seq<char>>| a.hist().len() <= i < b.hist().len() && holds_value(q) ==>
        #[trigger] same_at(a.now(), b.hist()[i], q) || (q == p && b.hist()[i].contains_key(q) && b.hist()[i][q] == v)
}
pub open spec fn unchanged(a: Fs, b: Fs) -> bool { forall|q: Seq<Seq<char>>| holds_value(q) ==> #[trigger] same_at(a.now(), b.now(), q) }
/// Nothing of value is touched.
pub open spec fn still(a: Fs, b: Fs) -> bool {
    &&& 0 < a.hist().len() <= b.hist().len()
    &&& forall|i: int| 0 <= i < a.hist().len() ==> #[trigger] b.hist()[i] == a.hist()[i]
    &&& forall|i: int, q: Seq<Seq<char>>| a.hist().len() <= i < b.hist().len() && holds_value(q) ==> #[trigger] same_at(a.now(), b.hist()[i], q)
}
pub broadcast proof fn lemma_still(a: Fs, b: Fs, c: Fs, p: Seq<Seq<char>>)
    requires #[trigger] still(a, b), #[trigger] touched(b, c, p), !holds_value(p),
    ensures still(a, c),
{
    assert forall|i: int, q: Seq<Seq<char>>| a.hist().len() <= i < c.hist().len() && holds_value(q) implies #[trigger] same_at(a.now(), c.hist()[i], q) by {
        if i < b.hist().len() {
            assert(c.hist()[i] == b.hist()[i]);
            assert(same_at(a.now(), b.hist()[i], q));
        } else {
            assert(same_at(b.now(), c.hist()[i], q));
            if b.hist().len() > a.hist().len() { assert(same_at(a.now(), b.hist()[b.hist().len() - 1], q)); } else { assert(a.now() == b.now()); }
        }
    }
    assert forall|i: int| 0 <= i < a.hist().len() implies #[trigger] c.hist()[i] == a.hist()[i] by { assert(b.hist()[i] == a.hist()[i]); assert(c.hist()[i] == b.hist()[i]); }
}
pub broadcast proof fn lemma_still_kept(a: Fs, b: Fs, p: Seq<Seq<char>>, v: Seq<u8>)
    requires still(a, b),
    ensures #[trigger] kept(a, b, p, v), unchanged(a, b),
{
    assert forall|q: Seq<Seq<char>>| holds_value(q) implies #[trigger] same_at(a.now(), b.now(), q) by {
        if b.hist().len() > a.hist().len() { assert(same_at(a.now(), b.hist()[b.hist().len() - 1], q)); } else { assert(a.now() == b.now()); }
    }
}
/// What changes nothing of value, and then moves the new value to its place.
pub broadcast proof fn lemma_moved(a: Fs, b: Fs, c: Fs, t: Seq<Seq<char>>, p: Seq<Seq<char>>, v: Seq<u8>)
    requires still(a, b), !holds_value(t), b.now().contains_key(t), b.now()[t] == v, c.hist() == #[trigger] b.hist().push(b.now().remove(t).insert(p, v)),
    ensures #[trigger] kept(a, c, p, v),
{
    lemma_still_kept(a, b, p, v);
    let n = b.hist().len() as int;
    assert(c.hist()[n] == b.now().remove(t).insert(p, v));
    assert forall|i: int| 0 <= i < a.hist().len() implies #[trigger] c.hist()[i] == a.hist()[i] by { assert(b.hist()[i] == a.hist()[i]); assert(c.hist()[i] == b.hist()[i]); }
    assert forall|i: int, q: Seq<Seq<char>>| a.hist().len() <= i < c.hist().len() && holds_value(q) implies
        #[trigger] same_at(a.now(), c.hist()[i], q) || (q == p && c.hist()[i].contains_key(q) && c.hist()[i][q] == v) by {
        if i < n { assert(c.hist()[i] == b.hist()[i]); assert(same_at(a.now(), b.hist()[i], q)); } else { assert(same_at(a.now(), b.now(), q)); }
    }
}
/// What the clones of a temporary storage share. Behind a lock which is free whenever it is tried: it is only held within these methods.
#[verifier::external_body]
pub struct VxShared { x: u8 }
impl VxShared {
    /// Which one it is: all handles of the same one see the same values.
    pub uninterp spec fn which(&self) -> int;
    pub uninterp spec fn kv(&self) -> Map<Seq<char>, Seq<char>>;
    #[verifier::external_body]
    pub fn vx_new() -> (r: VxShared) ensures r.kv() == Map::<Seq<char>, Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_get(&self, key: &str) -> (r: Option<String>)
        ensures match r { Some(s) => self.kv().contains_key(key@) && s@ == self.kv()[key@], None => !self.kv().contains_key(key@) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_insert(&mut self, key: String, value: String) ensures final(self).which() == old(self).which(), final(self).kv() == old(self).kv().insert(key@, value@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_remove(&mut self, key: &str) ensures final(self).which() == old(self).which(), final(self).kv() == old(self).kv().remove(key@) { unimplemented!() }
}
pub trait VxOwn { fn vx_to_string(&self) -> (r: String) ensures r@ == self.chars(); spec fn chars(&self) -> Seq<char>; }
impl VxOwn for str { open spec fn chars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
//@struct ds DataStorageTemp
impl DataStorageTemp {
//@fn ds DataStorageTemp::new ret=r
//@ spec
        ensures r.kvs.kv() == Map::<Seq<char>, Seq<char>>::empty(), // [D01]
//@end
//@fn ds DataStorageTemp::new_box ret=r
//@ spec
        ensures r.kvs.kv() == Map::<Seq<char>, Seq<char>>::empty(), // [D01]
//@end
//@fn ds `<DataStorageTemp as DataStorage>::get` ret=r retty=VResult<String>
//@ sub ! /let mut kvs = self\s*\.kvs\s*\.try_lock\(\)\s*\?;/ => /let kvs = &self.kvs;/
//@ sub ! /kvs\.get_mut\(/ => /kvs.vx_get(/
//@ sub /""\.(?:vx_)?to_string\(\)|""\.into\(\)|String::new\(\)/ => /vx_no_text()/
//@ spec
        ensures r matches Ok(s) && s@ == (if self.kvs.kv().contains_key(key@) { self.kvs.kv()[key@] } else { Seq::empty() }), // [D01]
//@end
//@fn ds `<DataStorageTemp as DataStorage>::set` ret=r retty=VResult<()>
//@ sub ! /let mut kvs = self\s*\.kvs\s*\.try_lock\(\)\s*\?;/ => /let kvs = &mut self.kvs;/
//@ sub ! /kvs\.insert\(/ => /kvs.vx_insert(/
//@ spec
        ensures r is Ok, final(self).kvs.which() == old(self).kvs.which(), final(self).kvs.kv() == old(self).kvs.kv().insert(key@, value@), // [D01]
//@end
//@fn ds `<DataStorageTemp as DataStorage>::remove` ret=r retty=VResult<()>
//@ sub ! /let mut kvs = self\s*\.kvs\s*\.try_lock\(\)\s*\?;/ => /let kvs = &mut self.kvs;/
//@ sub ! /kvs\.remove\(/ => /kvs.vx_remove(/
//@ spec
        ensures r is Ok, final(self).kvs.which() == old(self).kvs.which(), final(self).kvs.kv() == old(self).kvs.kv().remove(key@), // [D01]
//@end
//@fn ds `<DataStorageTemp as DataStorage>::clone_box` ret=r retty=Box<DataStorageTemp>
//@ spec
        ensures r.kvs.which() == self.kvs.which(), r.kvs.kv() == self.kvs.kv(), // [D01]
//@end
}
//@struct fl DataStorageFile
impl DataStorageFile {
//@fn fl DataStorageFile::new ret=r
//@ sub ! /if !dir\.exists\(\) \{[\s\S]*?\}/ => /vx_dir(&dir);/
//@ spec
        ensures r.dir@ == Seq::<Seq<char>>::empty().push(root@), r.base == base, // [D01]
//@end
//@fn fl DataStorageFile::name fmt=1 ret=r
//@ spec
        ensures r@ == place(self.dir@, self.base@, key@), // [D01]
//@ exit
        proof {
            reveal_strlit(".yaml");
            assert(".yaml"@ =~= yaml());
            assert(self.base@.len() == 0 ==> name@ == self.dir@.push(stem(self.base@, key@) + yaml()));
            assert(self.base@.len() > 0 ==> name@ == self.dir@.push(stem(self.base@, key@) + yaml()));
        }
//@end
//@fn fl `<DataStorageFile as DataStorage>::get` retty=VResult<String> ret=r
//@ sub ! /&self, key/ => /&self, Tracked(fs): Tracked<&Fs>, key/
//@ sub ! /\.exists\(\)/ => /.vx_exists(Tracked(fs))/
//@ sub ! /File::open\(/ => /vx_open(Tracked(fs), /
//@ sub ! /\.read_to_string\(&mut / => /.vx_read(Tracked(fs), &mut /
//@ sub /String::new\(\)|""\.into\(\)|""\.(?:vx_)?to_string\(\)|""\.vx_nodes\(\)/ => /vx_no_text()/
//@ spec
        requires fs.wf(),
        ensures r matches Ok(s) ==> if fs.now().contains_key(place(self.dir@, self.base@, key@)) { utf8(s@) == fs.now()[place(self.dir@, self.base@, key@)] } else { s@.len() == 0 }, // [D01]
//@end
//@fn fl `<DataStorageFile as DataStorage>::set` retty=VResult<()> ret=r
//@ sub ! /&mut self, key/ => /&mut self, Tracked(fs): Tracked<&mut Fs>, key/
//@ sub ! /File::create\(/ => /vx_create(Tracked(&mut *fs), /
//@ sub ! /\.write_all\(value\.as_bytes\(\)\)/ => /.vx_write(Tracked(&mut *fs), vx_bytes_of(value))/
//@ sub ! /\brename\(/ => /vx_rename(Tracked(&mut *fs), /
//@ entry
        proof {
            broadcast use lemma_still, lemma_still_kept, lemma_moved;
            reveal_strlit("tmp");
            lemma_place(self.dir@, self.base@, key@, key@);
            lemma_tmp(self.dir@, stem(self.base@, key@));
            assert(still(*old(fs), *old(fs)));
            assert(forall|v: Seq<u8>| #[trigger] (Seq::<u8>::empty() + v) =~= v);
        }
//@ spec
        requires old(fs).wf(),
        ensures final(fs).wf(), *final(self) == *old(self),
            kept(*old(fs), *final(fs), place(old(self).dir@, old(self).base@, key@), utf8(value@)), // [D01]
            r is Err ==> unchanged(*old(fs), *final(fs)), // [D01]
            r is Ok ==> final(fs).now().contains_key(place(old(self).dir@, old(self).base@, key@)) && final(fs).now()[place(old(self).dir@, old(self).base@, key@)] == utf8(value@), // [D01]
//@end
//@fn fl `<DataStorageFile as DataStorage>::remove` retty=VResult<()> ret=r
//@ sub ! /&mut self, key/ => /&mut self, Tracked(fs): Tracked<&mut Fs>, key/
//@ sub ! /remove_file\(/ => /vx_remove(Tracked(&mut *fs), /
//@ spec
        requires old(fs).wf(),
        ensures final(fs).wf(), *final(self) == *old(self),
            r is Err ==> final(fs).hist() == old(fs).hist(), // [D01]
            r is Ok ==> final(fs).hist() == old(fs).hist().push(old(fs).now().remove(place(old(self).dir@, old(self).base@, key@))), // [D01]
//@end
//@fn fl `<DataStorageFile as DataStorage>::clone_box` retty=Box<DataStorageFile> ret=r
//@ spec
        ensures r.dir@ == self.dir@, r.base@ == self.base@, // [D01]
//@end
}
}
fn main() {}
