//@include prelude.rs
//@include ids.rs
//@include serial.rs
//@sub /\.clone\(\)/ => /.dup()/
//@sub /\+ Clone\b/ => /+ Dup/
//@sub /SignerError::\w+\.into\(\)/ => /vx_err()/
//@sub /#\[error[^\]]*\]/ => //
//@sub /#\[serde[^\]]*\]/ => //
//@file acc flcrypto/src/access.rs
//@file sg flcrypto/src/signer.rs
//@file ed flcrypto/src/signer_ed25519.rs
verus! {
// ------------------------------------------------------------------ what is trusted: ed25519-dalek
pub mod ed25519_dalek {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub struct VerifyingKey { x: u8 }
    #[verifier::external_body]
    pub struct SigningKey { x: u8 }
    #[verifier::external_body]
    pub struct Signature { x: u8 }
    pub uninterp spec fn sig_of(s: Seq<u8>) -> Signature;
    pub uninterp spec fn sig_bytes(s: Signature) -> Seq<u8>;
    pub uninterp spec fn key_bytes(k: VerifyingKey) -> Seq<u8>;
    pub uninterp spec fn pubkey(k: SigningKey) -> VerifyingKey;
    pub axiom fn axiom_key_bytes(a: VerifyingKey, b: VerifyingKey) ensures key_bytes(a) == key_bytes(b) ==> a == b;
    /// The signature is valid for this key and message.
    pub uninterp spec fn valid(k: VerifyingKey, msg: Seq<u8>, s: Signature) -> bool;
    impl VerifyingKey {
        #[verifier::external_body]
        pub fn verify_strict(&self, msg: &Bytes, s: &Signature) -> (r: Result<(), VErr>) ensures r is Ok <==> valid(*self, msg@, *s) { unimplemented!() }
        #[verifier::external_body]
        pub fn as_bytes(&self) -> (r: &[u8; 32]) ensures r@ == key_bytes(*self) { unimplemented!() }
    }
    impl SigningKey {
        #[verifier::external_body]
        pub fn sign(&self, msg: &Bytes) -> (r: Signature) ensures valid(pubkey(*self), msg@, r) { unimplemented!() }
        #[verifier::external_body]
        pub fn verifying_key(&self) -> (r: VerifyingKey) ensures r == pubkey(*self) { unimplemented!() }
    }
    impl Signature {
        #[verifier::external_body]
        pub fn to_bytes(&self) -> (r: [u8; 64]) ensures r@ == sig_bytes(*self), sig_of(r@) == *self { unimplemented!() }
    }
    impl From<[u8; 64]> for Signature {
        #[verifier::external_body]
        fn from(b: [u8; 64]) -> (r: Signature) ensures r == sig_of(b@) { unimplemented!() }
    }
}
/// `TryInto::<[u8; 64]>::try_into` on a slice: fails exactly for another length.
#[verifier::external_body]
pub fn vx_to64(s: &[u8]) -> (r: Result<[u8; 64], VErr>)
    ensures r is Ok <==> s@.len() == 64, r matches Ok(a) ==> a@ == s@,
{ unimplemented!() }
//@enum sg SignerError
impl From<SignerError> for VErr { #[verifier::external_body] fn from(e: SignerError) -> VErr { unimplemented!() } }
pub trait MapErr<T, E>: Sized {
    spec fn rv(&self) -> Result<T, E>;
    fn vx_map_err<E2, F: FnOnce(E) -> E2>(self, f: F) -> (r: Result<T, E2>)
        requires self.rv() matches Err(e) ==> call_requires(f, (e,)),
        ensures r is Ok <==> self.rv() is Ok, r matches Ok(x) ==> self.rv() == Ok::<T, E>(x);
}
impl<T, E> MapErr<T, E> for Result<T, E> {
    open spec fn rv(&self) -> Result<T, E> { *self }
    #[verifier::external_body]
    fn vx_map_err<E2, F: FnOnce(E) -> E2>(self, f: F) -> (r: Result<T, E2>) { unimplemented!() }
}

// ------------------------------------------------------------------ identifiers and keys
#[derive(PartialEq, Eq, Structural)]
pub struct KeyPairID(pub U256);
impl std::ops::Deref for KeyPairID { type Target = U256; fn deref(&self) -> (r: &U256) ensures *r == self.0 { &self.0 } }
impl KeyPairID {
    pub fn hash_domain_parts(domain: &str, parts: &[&[u8]]) -> (r: Self) ensures r.0 == dhash(domain@, views(parts@)) { KeyPairID(U256::hash_domain_parts(domain, parts)) }
    pub fn vx_from(u: U256) -> (r: Self) ensures r.0 == u { KeyPairID(u) }
}
#[derive(PartialEq, Eq, Structural)]
pub struct BadgeID(pub U256);
impl std::ops::Deref for BadgeID { type Target = U256; fn deref(&self) -> (r: &U256) ensures *r == self.0 { &self.0 } }

pub struct Signature(pub Bytes);
impl Signature {
//@fn sg Signature::bytes
//@ spec
    ensures *res == self.0,
//@end
    pub fn vx_from(v: Vec<u8>) -> (r: Self) ensures r.0@ == v@ { Signature(vx_bytes(v)) }
}
//@struct ed VerifierEd25519
//@  sub !/verifier:/ => /pub verifier:/
//@  sub /pub pub/ => /pub/
//@struct ed SignerEd25519
//@enum sg Verifier
//@enum sg Signer

impl VerifierEd25519 {
    pub open spec fn id(&self) -> KeyPairID { KeyPairID(dhash(ed_id_domain(), seq![ed25519_dalek::key_bytes(self.verifier)])) }
    pub open spec fn ok(&self, msg: Seq<u8>, sig: Seq<u8>) -> bool { sig.len() == 64 && ed25519_dalek::valid(self.verifier, msg, ed25519_dalek::sig_of(sig)) }
//@fn ed `<VerifierEd25519 as VerifierTrait>::verify`
//@ sub /TryInto::<\[u8; 64\]>::try_into\(/ => /vx_to64(/
//@ spec
    ensures res is Ok <==> self.ok(msg@, sig.0@), // [A05]
//@end
//@fn ed `<VerifierEd25519 as VerifierTrait>::get_id`
//@ spec
    ensures res == self.id(), // [A05]
//@end
}
pub open spec fn ed_id_domain() -> Seq<char> { "ican.re.fledg.flmodules.crypto.verifier_ed25519"@ }
impl SignerEd25519 {
    pub open spec fn vk(&self) -> VerifierEd25519 { VerifierEd25519 { verifier: ed25519_dalek::pubkey(self.keypair) } }
//@fn ed `<SignerEd25519 as SignerTrait>::sign`
//@ sub /\.to_vec\(\)\.into\(\)/ => /.to_sig()/
//@ sub /\.vx_to_vec\(\)\.into\(\)/ => /.to_sig()/
//@ spec
    ensures res matches Ok(s) ==> self.vk().ok(msg@, s.0@), // [A03]
//@end
//@fn ed `<SignerEd25519 as SignerTrait>::verifier`
//@ spec
    ensures res == Verifier::Ed25519(self.vk()),
//@end
//@fn ed `<SignerEd25519 as SignerTrait>::get_id`
//@ sub /\.into\(\)/ => /.into_kpid()/
//@ spec
    ensures res == self.vk().id(), // [A03]
//@end
}
pub trait ToSig: Sized { spec fn bs(&self) -> Seq<u8>; fn to_sig(self) -> (r: Signature) ensures r.0@ == self.bs(); }
impl ToSig for [u8; 64] { open spec fn bs(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn to_sig(self) -> (r: Signature) { unimplemented!() } }
impl U256 { pub fn into_kpid(self) -> (r: KeyPairID) ensures r.0 == self { KeyPairID(self) } }
// what enum_dispatch generates for the two enums
impl Verifier {
    pub open spec fn id(&self) -> KeyPairID { match self { Verifier::Ed25519(v) => v.id() } }
    pub open spec fn ok(&self, msg: Seq<u8>, sig: Seq<u8>) -> bool { match self { Verifier::Ed25519(v) => v.ok(msg, sig) } }
    pub fn verify(&self, msg: &Bytes, sig: &Signature) -> (res: VResult<()>) ensures res is Ok <==> self.ok(msg@, sig.0@) { match self { Verifier::Ed25519(v) => v.verify(msg, sig) } }
    pub fn get_id(&self) -> (res: KeyPairID) ensures res == self.id() { match self { Verifier::Ed25519(v) => v.get_id() } }
}
impl Signer {
    pub open spec fn vk(&self) -> Verifier { match self { Signer::Ed25519(s) => Verifier::Ed25519(s.vk()) } }
    pub fn sign(&self, msg: &Bytes) -> (res: VResult<Signature>) ensures res matches Ok(s) ==> self.vk().ok(msg@, s.0@) { match self { Signer::Ed25519(s) => s.sign(msg) } }
    pub fn verifier(&self) -> (res: Verifier) ensures res == self.vk() { match self { Signer::Ed25519(s) => s.verifier() } }
    pub fn get_id(&self) -> (res: KeyPairID) ensures res == self.vk().id() { match self { Signer::Ed25519(s) => s.get_id() } }
}

// ------------------------------------------------------------------ versions
//@enum acc VersionSpec derive=PartialEq,Eq,Structural
//@  sub !/<T: [^{]*>/ => /<T>/
//@struct acc BadgeLink
//@enum acc ConditionLink
//@struct acc Badge
//@enum acc Condition
//@struct acc ConditionSignature
impl<T> VersionSpec<T> {
    pub open spec fn vid(&self) -> T { match self { VersionSpec::Minimal(i, _) => *i, VersionSpec::Exact(i, _) => *i, VersionSpec::Maximal(i, _) => *i } }
    pub open spec fn takes(&self, version: u32) -> bool { match self { VersionSpec::Minimal(_, v) => version >= *v, VersionSpec::Exact(_, v) => version == *v, VersionSpec::Maximal(_, v) => version <= *v } }
//@fn acc `VersionSpec<T>::get_id`
//@ spec
    ensures res == self.vid(), // [A01]
//@end
//@fn acc `VersionSpec<T>::accepts`
//@ spec
    ensures res == self.takes(version), // [A01]
//@end
//@fn acc `VersionSpec<T>::id` as=vx_id
//@ spec
    ensures res == self.vid(), // [A01]
//@end
}
impl BadgeLink {
//@fn acc BadgeLink::fits_version
//@ spec
    ensures res == (ver.vid() == self.id && ver.takes(self.version)), // [A01]
//@end
}

// ------------------------------------------------------------------ what a condition demands
/// The condition is met when exactly the verifiers of f are met.
pub open spec fn holds(c: Condition, f: spec_fn(Verifier) -> bool) -> bool decreases c, 0int {
    match c {
        Condition::Verifier(v) => f(v),
        Condition::Badge(_, b) => holds(*b.condition, f),
        Condition::NofT(t, v) => met(v, f, v.len() as int) >= t,
        Condition::NotAvailable => false,
        Condition::Fail => false,
        Condition::Pass => true,
    }
}
/// How many of the first n parts are met.
pub open spec fn met(v: Vec<Condition>, f: spec_fn(Verifier) -> bool, n: int) -> int decreases v, n {
    if n <= 0 || n > v.len() { 0 } else { met(v, f, n - 1) + if holds(v[n - 1], f) { 1int } else { 0 } }
}
/// Some verifier of the condition is in f.
pub open spec fn some_ver(c: Condition, f: spec_fn(Verifier) -> bool) -> bool decreases c {
    match c {
        Condition::Verifier(v) => f(v),
        Condition::Badge(_, b) => some_ver(*b.condition, f),
        Condition::NofT(t, v) => exists|i: int| 0 <= i < v.len() && some_ver(#[trigger] v[i], f),
        Condition::NotAvailable => false,
        Condition::Fail => false,
        Condition::Pass => false,
    }
}
/// The key may sign for this condition.
pub open spec fn names(c: Condition, id: KeyPairID) -> bool decreases c {
    match c {
        Condition::Verifier(v) => v.id() == id,
        Condition::Badge(_, b) => names(*b.condition, id),
        Condition::NofT(t, v) => exists|i: int| 0 <= i < v.len() && names(#[trigger] v[i], id),
        Condition::NotAvailable => false,
        Condition::Fail => false,
        Condition::Pass => true,
    }
}
/// No list of parts has 2^32 or more entries.
pub open spec fn sized(c: Condition) -> bool decreases c {
    match c {
        Condition::Badge(_, b) => sized(*b.condition),
        Condition::NofT(t, v) => v.len() <= u32::MAX && forall|i: int| 0 <= i < v.len() ==> sized(#[trigger] v[i]),
        _ => true,
    }
}
pub open spec fn sig_present(s: Map<KeyPairID, Signature>, v: Verifier) -> bool { s.dom().contains(v.id()) }
pub open spec fn sig_good(s: Map<KeyPairID, Signature>, v: Verifier, d: U256) -> bool { s.dom().contains(v.id()) && v.ok(d.0@, s[v.id()].0@) }
pub open spec fn good(s: Map<KeyPairID, Signature>, d: U256) -> spec_fn(Verifier) -> bool { |v: Verifier| sig_good(s, v, d) }
pub open spec fn forged(s: Map<KeyPairID, Signature>, d: U256) -> spec_fn(Verifier) -> bool { |v: Verifier| sig_present(s, v) && !sig_good(s, v, d) }
pub open spec fn by(ids: Seq<&KeyPairID>) -> spec_fn(Verifier) -> bool { |v: Verifier| exists|i: int| 0 <= i < ids.len() && *(#[trigger] ids[i]) == v.id() }

pub proof fn lemma_met(v: Vec<Condition>, f: spec_fn(Verifier) -> bool, n: int)
    requires 0 <= n <= v.len(), ensures 0 <= met(v, f, n) <= n, decreases n,
{ if n > 0 { lemma_met(v, f, n - 1); } }
/// [A03] Meeting more verifiers never makes a condition fail.
pub proof fn lemma_mono(c: Condition, f: spec_fn(Verifier) -> bool, g: spec_fn(Verifier) -> bool)
    requires forall|v: Verifier| #[trigger] f(v) ==> g(v),
    ensures holds(c, f) ==> holds(c, g),
    decreases c, 0int,
{
    match c {
        Condition::Badge(_, b) => lemma_mono(*b.condition, f, g),
        Condition::NofT(t, v) => lemma_mono_met(v, f, g, v.len() as int),
        _ => {}
    }
}
pub proof fn lemma_mono_met(v: Vec<Condition>, f: spec_fn(Verifier) -> bool, g: spec_fn(Verifier) -> bool, n: int)
    requires forall|x: Verifier| #[trigger] f(x) ==> g(x),
    ensures met(v, f, n) <= met(v, g, n),
    decreases v, n,
{
    if n > 0 && n <= v.len() { lemma_mono_met(v, f, g, n - 1); assert(decreases_to!(v => v[n - 1])); lemma_mono(v[n - 1], f, g); }
}
/// [A03] Whoever is told that these keys can sign can produce signatures which are accepted, and
/// signatures by keys which cannot sign are never enough.
pub proof fn lemma_can_sign(c: Condition, ids: Seq<&KeyPairID>, s: Map<KeyPairID, Signature>, d: U256)
    ensures
        holds(c, by(ids)) && (forall|v: Verifier| #[trigger] by(ids)(v) ==> good(s, d)(v)) ==> holds(c, good(s, d)),
        !holds(c, by(ids)) && (forall|v: Verifier| #[trigger] good(s, d)(v) ==> by(ids)(v)) ==> !holds(c, good(s, d)),
{
    if forall|v: Verifier| #[trigger] by(ids)(v) ==> good(s, d)(v) { lemma_mono(c, by(ids), good(s, d)); }
    if forall|v: Verifier| #[trigger] good(s, d)(v) ==> by(ids)(v) { lemma_mono(c, good(s, d), by(ids)); }
}
/// A filter keeps as many as satisfy its predicate.
pub open spec fn kept(fwd: Seq<int>, n: int) -> int decreases n { if n <= 0 { 0 } else { kept(fwd, n - 1) + if fwd[n - 1] >= 0 { 1int } else { 0 } } }
pub proof fn lemma_kept(m: int, n: int, fwd: Seq<int>, bwd: Seq<int>, j: int)
    requires emb(m, n, fwd, bwd), increasing(bwd), 0 <= j <= m,
    ensures 0 <= kept(fwd, j) <= n, forall|i: int| 0 <= i < n ==> ((#[trigger] bwd[i]) < j <==> i < kept(fwd, j)),
    decreases j,
{
    if j > 0 {
        lemma_kept(m, n, fwd, bwd, j - 1);
        let k = kept(fwd, j - 1);
        if fwd[j - 1] >= 0 {
            let i = fwd[j - 1];
            assert(bwd[i] == j - 1);
            assert(i >= k);
            if i > k { assert(bwd[k] < bwd[i]); assert(bwd[k] >= j - 1); }
            assert forall|x: int| 0 <= x < n implies ((#[trigger] bwd[x]) < j <==> x < kept(fwd, j)) by { if x > i { assert(bwd[i] < bwd[x]); } if x < i { assert(bwd[x] < bwd[i]); } }
        } else {
            assert forall|x: int| 0 <= x < n implies ((#[trigger] bwd[x]) < j <==> x < kept(fwd, j)) by { if bwd[x] == j - 1 { assert(fwd[bwd[x]] == x); } }
        }
    }
}
pub proof fn lemma_kept_all(m: int, n: int, fwd: Seq<int>, bwd: Seq<int>)
    requires emb(m, n, fwd, bwd), increasing(bwd), ensures kept(fwd, m) == n,
{ lemma_kept(m, n, fwd, bwd, m); if kept(fwd, m) < n { assert(bwd[kept(fwd, m)] < m); } }
pub proof fn lemma_kept_met(v: Vec<Condition>, f: spec_fn(Verifier) -> bool, fwd: Seq<int>, n: int)
    requires 0 <= n <= v.len(), forall|i: int| 0 <= i < v.len() ==> (holds(#[trigger] v[i], f) <==> fwd[i] >= 0),
    ensures met(v, f, n) == kept(fwd, n), decreases n,
{ if n > 0 { lemma_kept_met(v, f, fwd, n - 1); assert(holds(v[n - 1], f) <==> fwd[n - 1] >= 0); } }

pub open spec fn agree(v: Vec<Condition>, f: spec_fn(Verifier) -> bool, fwd: Seq<int>) -> bool { forall|j: int| #![trigger holds(v[j], f)] #![trigger fwd[j]] 0 <= j < v.len() ==> (holds(v[j], f) <==> fwd[j] >= 0) }
/// Counting with a filter counts the parts which are met.
pub proof fn lemma_count_met(v: Vec<Condition>, f: spec_fn(Verifier) -> bool, r: Seq<&Condition>, fwd: Seq<int>, bwd: Seq<int>)
    requires filt(refs(v@), r, fwd, bwd), agree(v, f, fwd),
    ensures r.len() == met(v, f, v.len() as int),
{ lemma_kept_all(v.len() as int, r.len() as int, fwd, bwd); lemma_kept_met(v, f, fwd, v.len() as int); }
pub open spec fn by_signers(ss: Seq<&Signer>) -> spec_fn(Verifier) -> bool { |v: Verifier| exists|i: int| 0 <= i < ss.len() && (#[trigger] ss[i]).vk().id() == v.id() }
pub proof fn lemma_same(c: Condition, f: spec_fn(Verifier) -> bool, g: spec_fn(Verifier) -> bool)
    requires forall|v: Verifier| #[trigger] f(v) <==> g(v), ensures holds(c, f) == holds(c, g),
{ lemma_mono(c, f, g); lemma_mono(c, g, f); }
pub open spec fn same_at(a: Map<KeyPairID, Signature>, b: Map<KeyPairID, Signature>, k: KeyPairID) -> bool { a.dom().contains(k) == b.dom().contains(k) && (a.dom().contains(k) ==> a[k] == b[k]) }
pub open spec fn stranger(s: Seq<&Signer>, n: int, k: KeyPairID) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).vk().id() != k }
/// One signature was added, or nothing was done.
pub open spec fn signed(a: ConditionSignature, b: ConditionSignature, sig: Signer, d: U256, done: bool) -> bool {
    &&& b.condition == a.condition
    &&& forall|k: KeyPairID| #![trigger b.signatures@.dom().contains(k)] #![trigger same_at(a.signatures@, b.signatures@, k)] k != sig.vk().id() ==> same_at(a.signatures@, b.signatures@, k)
    &&& !done ==> b.signatures@ == a.signatures@
    &&& done ==> sig_good(b.signatures@, sig.vk(), d)
}
/// No part of the condition is missing.
pub open spec fn available(c: Condition) -> bool decreases c {
    match c {
        Condition::NotAvailable => false,
        Condition::NofT(t, v) => forall|i: int| 0 <= i < v.len() ==> available(#[trigger] v[i]),
        _ => true,
    }
}
/// Two keys with the same identifier are the same key.
pub proof fn lemma_id_one_key(a: Signer, ss: Seq<&Signer>)
    ensures forall|i: int| 0 <= i < ss.len() && (#[trigger] ss[i]).vk().id() == a.vk().id() ==> ss[i].vk() == a.vk(),
{
    assert forall|i: int| 0 <= i < ss.len() && (#[trigger] ss[i]).vk().id() == a.vk().id() implies ss[i].vk() == a.vk() by { lemma_id(ss[i].vk(), a.vk()); }
}
pub proof fn lemma_id(a: Verifier, b: Verifier) ensures a.id() == b.id() ==> a == b {
    let ka = match a { Verifier::Ed25519(v) => v.verifier }; let kb = match b { Verifier::Ed25519(v) => v.verifier };
    axiom_dhash(ed_id_domain(), seq![ed25519_dalek::key_bytes(ka)], ed_id_domain(), seq![ed25519_dalek::key_bytes(kb)]);
    ed25519_dalek::axiom_key_bytes(ka, kb);
    if a.id() == b.id() { assert(seq![ed25519_dalek::key_bytes(ka)][0] == seq![ed25519_dalek::key_bytes(kb)][0]); }
}
pub open spec fn is_link(l: ConditionLink, c: Condition) -> bool decreases c {
    match c {
        Condition::Verifier(v) => l == ConditionLink::Verifier(v.id()),
        Condition::Badge(s, _) => l == ConditionLink::Badge(s),
        Condition::NofT(t, v) => l is NofT && l->NofT_0 == t && l->NofT_1.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> is_link(#[trigger] l->NofT_1[i], v[i]),
        Condition::NotAvailable => false,
        Condition::Fail => l == ConditionLink::Fail,
        Condition::Pass => l == ConditionLink::Pass,
    }
}
/// The condition is the link with every identifier replaced by what it names.
pub open spec fn stands_for(c: Condition, l: ConditionLink) -> bool decreases c {
    match l {
        ConditionLink::Verifier(id) => c is Verifier && c->Verifier_0.id() == id,
        ConditionLink::Badge(s) => c is Badge && c->Badge_0 == s && c->Badge_1.id == s.vid() && s.takes(c->Badge_1.version),
        ConditionLink::NofT(t, ls) => c is NofT && c->NofT_0 == t && c->NofT_1.len() == ls.len() && forall|i: int| 0 <= i < ls.len() ==> stands_for(#[trigger] c->NofT_1[i], ls[i]),
        ConditionLink::Fail => c is Fail,
        ConditionLink::Pass => c is Pass,
    }
}
/// Without badges.
pub open spec fn plain(l: ConditionLink) -> bool decreases l {
    match l {
        ConditionLink::Badge(_) => false,
        ConditionLink::NofT(t, ls) => forall|i: int| 0 <= i < ls.len() ==> plain(#[trigger] ls[i]),
        _ => true,
    }
}
#[verifier::external_body]
pub fn vx_todo<T>() -> (r: T) requires false { unimplemented!() }
pub open spec fn msg_digest(c: Condition, m: Seq<u8>) -> U256 { dhash("flcrypto::ConditionSignature::sign"@, seq![chash(c).0@, m]) }
/// Everything a condition says goes into its hash.
pub open spec fn chash(c: Condition) -> U256 decreases c, 0int {
    match c {
        Condition::Verifier(v) => dhash("flcrypto::Condition::Verifier"@, seq![v.id().0.0@]),
        Condition::Badge(s, b) => dhash("flcrypto::Condition::Badge"@, seq![rmp_of(s), rmp_of(b)]),
        Condition::NofT(t, v) => dhash("flcrypto::Condition::NofT"@, seq![le_bytes(t as int, 4)] + chashes(v, v.len() as int)),
        Condition::NotAvailable => dhash("flcrypto::Condition::NotAvailable"@, seq![]),
        Condition::Pass => dhash("flcrypto::Condition::Pass"@, seq![]),
        Condition::Fail => dhash("flcrypto::Condition::Fail"@, seq![]),
    }
}
pub open spec fn chashes(v: Vec<Condition>, n: int) -> Seq<Seq<u8>> decreases v, n {
    if n <= 0 || n > v.len() { seq![] } else { chashes(v, n - 1).push(chash(v[n - 1]).0@) }
}
pub open spec fn bviews(s: Seq<Bytes>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn same_views(m: Seq<&[u8]>, p: Seq<Bytes>) -> bool { m.len() == p.len() && forall|i: int| 0 <= i < p.len() ==> (#[trigger] m[i])@ == p[i]@ }
pub proof fn lemma_bviews(s: Seq<Bytes>, b: Bytes) ensures bviews(s.push(b)) == bviews(s).push(b@) { assert(bviews(s.push(b)) =~= bviews(s).push(b@)); }

/// c is the link with every identifier replaced by what the two lookups answered for it.
pub open spec fn resolved<B: Fn(VersionSpec<BadgeID>) -> Option<BadgeLink>, V: Fn(KeyPairID) -> Option<Verifier>>(gb: B, gv: V, l: ConditionLink, c: Condition) -> bool decreases c {
    match l {
        ConditionLink::Verifier(id) => match c { Condition::Verifier(v) => call_ensures(gv, (id,), Some(v)), Condition::NotAvailable => call_ensures(gv, (id,), None), _ => false },
        ConditionLink::Badge(s) => match c {
            Condition::Badge(cs, b) => cs == s && exists|o: BadgeLink| #[trigger] call_ensures(gb, (s,), Some(o)) && b.id == o.id && b.version == o.version && resolved(gb, gv, o.condition, *b.condition),
            Condition::NotAvailable => call_ensures(gb, (s,), None),
            _ => false,
        },
        ConditionLink::NofT(t, ls) => c is NofT && c->NofT_0 == t && c->NofT_1.len() == ls.len() && forall|i: int| 0 <= i < ls.len() ==> resolved(gb, gv, ls[i], #[trigger] c->NofT_1[i]),
        ConditionLink::Fail => c is Fail,
        ConditionLink::Pass => c is Pass,
    }
}
impl ConditionLink {
#[verifier::exec_allows_no_decreases_clause]
//@fn acc ConditionLink::to_condition
//@ sub !/AsyncFn\(/ => /Fn(/
//@ sub /AsyncFn\(/ => /Fn(/
//@ spec
    requires forall|x: VersionSpec<BadgeID>| #[trigger] call_requires(*gb, (x,)), forall|x: KeyPairID| #[trigger] call_requires(*gv, (x,)),
    ensures resolved(*gb, *gv, *self, res), // [A04]
//@ closure 0 -> (r: Condition) ensures r == Condition::Verifier(v)
//@ loop 0
    invariant vx_it0.wf(), vx_it0.seq() == refs(vec@), conds@.len() == vx_it0.pos(),
        forall|x: VersionSpec<BadgeID>| #[trigger] call_requires(*gb, (x,)), forall|x: KeyPairID| #[trigger] call_requires(*gv, (x,)),
        forall|i: int| 0 <= i < conds@.len() ==> resolved(*gb, *gv, vec[i], #[trigger] conds@[i]),
    decreases vx_it0.left(),
//@end
}
impl Condition {
//@fn acc Condition::has_verifier
//@ spec
    ensures res == names(*self, *vid), // [A03]
    decreases *self,
//@ closure 0 -> (r: bool) requires decreases_to!(*self => *c) ensures r == names(*c, *vid)
//@end
//@fn acc Condition::hash
//@ sub /\.to_le_bytes\(\)/ => /.vx_le()/
//@ spec
    ensures res == chash(*self), // [A03]
    decreases *self,
//@ beforeloop 0
    proof { assert(bviews(parts@) =~= seq![le_bytes(*thr as int, 4)]); }
//@ loop 0
    invariant vx_it0.wf(), vx_it0.seq() == refs(conditions@), *self is NofT, *conditions == self->NofT_1,
        bviews(parts@) == seq![le_bytes(*thr as int, 4)] + chashes(*conditions, vx_it0.pos()),
    decreases vx_it0.left(),
//@ loopstart 0
    proof { assert(decreases_to!(*conditions => conditions[vx_it0.pos() - 1])); }
    let ghost vx_old = parts@;
//@ loopend 0
    proof { lemma_bviews(vx_old, parts@.last()); assert(parts@ == vx_old.push(parts@.last()));
        assert(bviews(parts@) =~= seq![le_bytes(*thr as int, 4)] + chashes(*conditions, vx_it0.pos())); }
//@ afterloop 0
    proof {
        assert forall|m: Seq<&[u8]>| #![trigger views(m)] same_views(m, parts@) implies views(m) == bviews(parts@) by { assert(views(m) =~= bviews(parts@)); }
    }
//@ closure 0 -> (r: &[u8]) ensures r@ == b@
//@end
//@fn acc Condition::can_sign
//@ spec
    ensures res == holds(*self, by(vids@)), // [A03]
    decreases *self,
//@ closure 0 -> (r: bool) ensures r == (**vx_p0 == verifier.id())
//@ closure 1 -> (r: bool) requires decreases_to!(*self => **c) ensures r == holds(**c, by(vids@))
//@ exit
    proof {
        if *self is NofT {
            let conditions = self->NofT_1;
            assert forall|r: Seq<&Condition>, fwd: Seq<int>, bwd: Seq<int>| #![trigger filt(refs(conditions@), r, fwd, bwd)]
                filt(refs(conditions@), r, fwd, bwd) && agree(conditions, by(vids@), fwd)
                implies r.len() == met(conditions, by(vids@), conditions.len() as int) by { lemma_count_met(conditions, by(vids@), r, fwd, bwd); }
        }
    }
//@end
//@fn acc Condition::can_signers
//@ closure 0 -> (r: KeyPairID) ensures r == s.vk().id()
//@ spec
    ensures res == holds(*self, by_signers(vids@)), // [A03]
//@ exit
    proof {
        assert forall|v: Verifier| #[trigger] by(refs(vids@))(v) <==> by_signers(vx_s)(v) by {
            if by_signers(vx_s)(v) { let i = choose|i: int| 0 <= i < vx_s.len() && (#[trigger] vx_s[i]).vk().id() == v.id(); assert(refs(vids@)[i] == &vids@[i]); }
            if by(refs(vids@))(v) { let i = choose|i: int| 0 <= i < refs(vids@).len() && *(#[trigger] refs(vids@)[i]) == v.id(); assert(refs(vids@)[i] == &vids@[i]); assert(vx_s[i].vk().id() == v.id()); }
        }
        lemma_same(*self, by(refs(vids@)), by_signers(vx_s));
    }
//@ entry
    let ghost vx_s = vids@;
//@end
//@fn acc Condition::to_link
//@ replace "todo!()"
vx_todo()
//@ spec
    requires available(*self),
    ensures is_link(res, *self), // [A04]
    decreases *self,
//@ closure 0 -> (r: ConditionLink) requires decreases_to!(*self => *cond), available(*cond) ensures is_link(r, *cond)
//@end
//@fn acc Condition::equal_link
//@ spec
    ensures res ==> stands_for(*self, *cond_link), // [A04]
        plain(*cond_link) && stands_for(*self, *cond_link) ==> res, // [A04]
    decreases *self,
//@ closure 0 -> (r: bool) requires decreases_to!(*self => *vx_p0.0) ensures r ==> stands_for(*vx_p0.0, *vx_p0.1), plain(*vx_p0.1) && stands_for(*vx_p0.0, *vx_p0.1) ==> r
//@end
}
impl ConditionSignature {
//@fn acc ConditionSignature::new
//@ spec
    ensures res.condition == condition, res.signatures@ == Map::<KeyPairID, Signature>::empty(), // [A03]
//@end
//@fn acc ConditionSignature::empty
//@ spec
    ensures res.condition == Condition::NotAvailable, res.signatures@ == Map::<KeyPairID, Signature>::empty(), // [A03]
//@end
//@fn acc ConditionSignature::verify_cond
//@ sub /self\.verify_cond\(cond, digest\)\?\s*\.vx_then\(\|\|\s*\{? ?correct \+= 1 ?\}?\);/ => /if self.verify_cond(cond, digest)? { correct += 1; }/
//@ spec
    requires sized(*cond),
    ensures
        res matches Ok(b) ==> b == holds(*cond, good(self.signatures@, *digest)), // [A02]
        res is Err <==> some_ver(*cond, forged(self.signatures@, *digest)), // [A02]
    decreases *cond,
//@ loop 0
    invariant vx_it0.wf(), vx_it0.seq() == refs(vec@), *cond is NofT, *vec == cond->NofT_1, vec.len() <= u32::MAX, sized(*cond),
        correct == met(*vec, good(self.signatures@, *digest), vx_it0.pos()), 0 <= correct <= vx_it0.pos(),
        forall|i: int| 0 <= i < vx_it0.pos() ==> !some_ver(#[trigger] vec[i], forged(self.signatures@, *digest)),
    decreases vx_it0.left(),
//@end
//@fn acc ConditionSignature::verify_digest
//@ spec
    requires sized(self.condition),
    ensures
        res matches Ok(b) ==> b == holds(self.condition, good(self.signatures@, *digest)), // [A02]
        res is Err <==> some_ver(self.condition, forged(self.signatures@, *digest)), // [A02]
//@end
//@fn acc ConditionSignature::digest
//@ spec
    ensures res == msg_digest(self.condition, msg@), // [A03]
//@end
//@fn acc ConditionSignature::verify_msg
//@ spec
    requires sized(self.condition),
    ensures
        res matches Ok(b) ==> b == holds(self.condition, good(self.signatures@, msg_digest(self.condition, msg@))), // [A02]
        res is Err <==> some_ver(self.condition, forged(self.signatures@, msg_digest(self.condition, msg@))), // [A02]
//@end
//@fn acc ConditionSignature::sign_digest
//@ spec
    ensures signed(*old(self), *final(self), *sig, *digest, res is Ok), // [A03]
        res is Ok ==> names(old(self).condition, sig.vk().id()), // [A03]
//@end
//@fn acc ConditionSignature::sign_msg
//@ spec
    ensures signed(*old(self), *final(self), *sig, msg_digest(old(self).condition, msg@), res is Ok), // [A03]
        res is Ok ==> names(old(self).condition, sig.vk().id()), // [A03]
//@end
//@fn acc ConditionSignature::signers_digest
//@ spec
    ensures final(self).condition == old(self).condition, // [A03]
        res is Ok ==> forall|i: int| 0 <= i < signers@.len() ==> names(old(self).condition, (#[trigger] signers@[i]).vk().id()) && sig_good(final(self).signatures@, signers@[i].vk(), *digest), // [A03]
        forall|k: KeyPairID| #![trigger final(self).signatures@.dom().contains(k)] stranger(signers@, signers@.len() as int, k) ==> same_at(old(self).signatures@, final(self).signatures@, k), // [A03]
//@ loop 0
    invariant vx_it0.wf(), vx_it0.seq() == refs(signers@), self.condition == old(self).condition,
        forall|i: int| 0 <= i < vx_it0.pos() ==> names(old(self).condition, (#[trigger] signers@[i]).vk().id()) && sig_good(self.signatures@, signers@[i].vk(), *digest),
        forall|k: KeyPairID| #![trigger self.signatures@.dom().contains(k)] stranger(signers@, vx_it0.pos(), k) ==> same_at(old(self).signatures@, self.signatures@, k),
    decreases vx_it0.left(),
//@ loopstart 0
    let ghost vx_old = self.signatures@;
    proof { lemma_id_one_key(**sig, signers@); assert(**sig == *signers@[vx_it0.pos() - 1]); }
//@ loopend 0
    proof {
        assert forall|k: KeyPairID| #![trigger self.signatures@.dom().contains(k)] stranger(signers@, vx_it0.pos(), k) implies same_at(old(self).signatures@, self.signatures@, k) by {
            assert(stranger(signers@, vx_it0.pos() - 1, k)); assert(signers@[vx_it0.pos() - 1].vk().id() != k);
            assert(same_at(old(self).signatures@, vx_old, k));
        }
    }
//@end
//@fn acc ConditionSignature::signers_msg
//@ spec
    ensures final(self).condition == old(self).condition, // [A03]
        res is Ok ==> forall|i: int| 0 <= i < signers@.len() ==> names(old(self).condition, (#[trigger] signers@[i]).vk().id()) && sig_good(final(self).signatures@, signers@[i].vk(), msg_digest(old(self).condition, msg@)), // [A03]
        forall|k: KeyPairID| #![trigger final(self).signatures@.dom().contains(k)] stranger(signers@, signers@.len() as int, k) ==> same_at(old(self).signatures@, final(self).signatures@, k), // [A03]
//@ loop 0
    invariant vx_it0.wf(), vx_it0.seq() == refs(signers@), self.condition == old(self).condition, digest == msg_digest(old(self).condition, msg@),
        forall|i: int| 0 <= i < vx_it0.pos() ==> names(old(self).condition, (#[trigger] signers@[i]).vk().id()) && sig_good(self.signatures@, signers@[i].vk(), msg_digest(old(self).condition, msg@)),
        forall|k: KeyPairID| #![trigger self.signatures@.dom().contains(k)] stranger(signers@, vx_it0.pos(), k) ==> same_at(old(self).signatures@, self.signatures@, k),
    decreases vx_it0.left(),
//@ loopstart 0
    let ghost vx_old = self.signatures@;
    proof { lemma_id_one_key(**sig, signers@); assert(**sig == *signers@[vx_it0.pos() - 1]); }
//@ loopend 0
    proof {
        assert forall|k: KeyPairID| #![trigger self.signatures@.dom().contains(k)] stranger(signers@, vx_it0.pos(), k) implies same_at(old(self).signatures@, self.signatures@, k) by {
            assert(stranger(signers@, vx_it0.pos() - 1, k)); assert(signers@[vx_it0.pos() - 1].vk().id() != k);
            assert(same_at(old(self).signatures@, vx_old, k));
        }
    }
//@end

}

// ------------------------------------------------------------------ lemmas over the contracts
/// The two conditions say the same, down to keys, thresholds and the order of the parts.
pub open spec fn alike(a: Condition, b: Condition) -> bool decreases a {
    match a {
        Condition::Verifier(v) => b is Verifier && v == b->Verifier_0,
        Condition::Badge(s, x) => b is Badge && s == b->Badge_0 && x == b->Badge_1,
        Condition::NofT(t, v) => b is NofT && b->NofT_0 == t && b->NofT_1.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> alike(#[trigger] v[i], b->NofT_1[i]),
        Condition::NotAvailable => b is NotAvailable,
        Condition::Pass => b is Pass,
        Condition::Fail => b is Fail,
    }
}
pub open spec fn dom_of(c: Condition) -> Seq<char> {
    match c {
        Condition::Verifier(v) => "flcrypto::Condition::Verifier"@,
        Condition::Badge(s, b) => "flcrypto::Condition::Badge"@,
        Condition::NofT(t, v) => "flcrypto::Condition::NofT"@,
        Condition::NotAvailable => "flcrypto::Condition::NotAvailable"@,
        Condition::Pass => "flcrypto::Condition::Pass"@,
        Condition::Fail => "flcrypto::Condition::Fail"@,
    }
}
pub open spec fn kind(c: Condition) -> int { match c { Condition::Verifier(_) => 0, Condition::Badge(_, _) => 1, Condition::NofT(_, _) => 2, Condition::NotAvailable => 3, Condition::Pass => 4, Condition::Fail => 5 } }
pub proof fn lemma_domains(a: Condition, b: Condition) ensures dom_of(a) == dom_of(b) ==> kind(a) == kind(b) {
    reveal_strlit("flcrypto::Condition::Verifier"); reveal_strlit("flcrypto::Condition::Badge"); reveal_strlit("flcrypto::Condition::NofT");
    reveal_strlit("flcrypto::Condition::NotAvailable"); reveal_strlit("flcrypto::Condition::Pass"); reveal_strlit("flcrypto::Condition::Fail");
    assert("flcrypto::Condition::Verifier"@.len() == 29 && "flcrypto::Condition::Badge"@.len() == 26 && "flcrypto::Condition::NofT"@.len() == 25
        && "flcrypto::Condition::NotAvailable"@.len() == 33 && "flcrypto::Condition::Pass"@.len() == 25 && "flcrypto::Condition::Fail"@.len() == 25);
    assert("flcrypto::Condition::NofT"@[21] != "flcrypto::Condition::Pass"@[21]);
    assert("flcrypto::Condition::NofT"@[21] != "flcrypto::Condition::Fail"@[21]);
    assert("flcrypto::Condition::Pass"@[21] != "flcrypto::Condition::Fail"@[21]);
}
pub open spec fn parts_of(c: Condition) -> Seq<Seq<u8>> {
    match c {
        Condition::Verifier(v) => seq![v.id().0.0@],
        Condition::Badge(s, b) => seq![rmp_of(s), rmp_of(b)],
        Condition::NofT(t, v) => seq![le_bytes(t as int, 4)] + chashes(v, v.len() as int),
        _ => seq![],
    }
}
pub proof fn lemma_chashes(v: Vec<Condition>, n: int)
    requires 0 <= n <= v.len(),
    ensures chashes(v, n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] chashes(v, n)[i] == chash(v[i]).0@,
    decreases n,
{ if n > 0 { lemma_chashes(v, n - 1); } }
/// [A03] Conditions which differ in any way hash differently, so a signature given under one
/// condition is no signature under another.
pub proof fn lemma_chash(a: Condition, b: Condition)
    ensures chash(a) == chash(b) ==> alike(a, b), // [A03]
    decreases a,
{
    if chash(a) == chash(b) {
        axiom_dhash(dom_of(a), parts_of(a), dom_of(b), parts_of(b));
        assert(chash(a) == dhash(dom_of(a), parts_of(a)));
        assert(chash(b) == dhash(dom_of(b), parts_of(b)));
        lemma_domains(a, b);
        match a {
            Condition::Verifier(v) => { let w = b->Verifier_0; assert(parts_of(a)[0] == parts_of(b)[0]); assert(v.id().0.0@ =~= w.id().0.0@); assert(v.id().0.0 =~= w.id().0.0); lemma_id(v, w); }
            Condition::Badge(s, x) => {
                assert(parts_of(a)[0] == parts_of(b)[0]); assert(parts_of(a)[1] == parts_of(b)[1]);
                axiom_rmp(s); axiom_rmp(b->Badge_0); axiom_rmp(x); axiom_rmp(b->Badge_1);
            }
            Condition::NofT(t, v) => {
                let w = b->NofT_1;
                lemma_chashes(v, v.len() as int); lemma_chashes(w, w.len() as int);
                assert(parts_of(a)[0] == parts_of(b)[0]); axiom_le(t as int, b->NofT_0 as int, 4);
                assert(parts_of(a).len() == v.len() + 1); assert(parts_of(b).len() == w.len() + 1);
                assert forall|i: int| 0 <= i < v.len() implies alike(#[trigger] v[i], w[i]) by {
                    assert(parts_of(a)[i + 1] == chashes(v, v.len() as int)[i]); assert(parts_of(b)[i + 1] == chashes(w, w.len() as int)[i]);
                    assert(chash(v[i]).0@ =~= chash(w[i]).0@); assert(chash(v[i]).0 =~= chash(w[i]).0);
                    assert(decreases_to!(a => v)); assert(decreases_to!(v => v[i]));
                    lemma_chash(v[i], w[i]);
                }
            }
            _ => {}
        }
    }
}
/// Lookups which answer with what they were asked for.
pub open spec fn honest<B: Fn(VersionSpec<BadgeID>) -> Option<BadgeLink>, V: Fn(KeyPairID) -> Option<Verifier>>(gb: B, gv: V) -> bool {
    &&& forall|s: VersionSpec<BadgeID>, o: BadgeLink| #[trigger] call_ensures(gb, (s,), Some(o)) ==> o.id == s.vid() && s.takes(o.version)
    &&& forall|id: KeyPairID, v: Verifier| #[trigger] call_ensures(gv, (id,), Some(v)) ==> v.id() == id
}
/// [A04] Resolving a link with honest lookups gives a condition standing for exactly this link, unless
/// something could not be found.
pub proof fn lemma_resolved<B: Fn(VersionSpec<BadgeID>) -> Option<BadgeLink>, V: Fn(KeyPairID) -> Option<Verifier>>(gb: B, gv: V, l: ConditionLink, c: Condition)
    requires resolved(gb, gv, l, c), honest(gb, gv), available(c),
    ensures stands_for(c, l), // [A04]
    decreases c,
{
    match l {
        ConditionLink::NofT(t, ls) => {
            let v = c->NofT_1;
            assert forall|i: int| 0 <= i < ls.len() implies stands_for(#[trigger] c->NofT_1[i], ls[i]) by { assert(resolved(gb, gv, ls[i], c->NofT_1[i])); assert(decreases_to!(c => v)); assert(decreases_to!(v => v[i])); lemma_resolved(gb, gv, ls[i], c->NofT_1[i]); }
        }
        _ => {}
    }
}
/// [A04] A condition stands for its own link.
pub proof fn lemma_own_link(c: Condition, l: ConditionLink)
    requires is_link(l, c), plain(l),
    ensures stands_for(c, l), // [A04]
    decreases c,
{
    match c {
        Condition::NofT(t, v) => { assert forall|i: int| 0 <= i < v.len() implies stands_for(#[trigger] c->NofT_1[i], l->NofT_1[i]) by { assert(is_link(l->NofT_1[i], v[i])); assert(plain(l->NofT_1[i])); assert(decreases_to!(c => v)); assert(decreases_to!(v => v[i])); lemma_own_link(v[i], l->NofT_1[i]); } }
        _ => {}
    }
}
/// [A04] Two conditions which stand for the same link without badges are alike: the same keys,
/// thresholds and parts.
pub proof fn lemma_stands_hash(a: Condition, b: Condition, l: ConditionLink)
    requires stands_for(a, l), stands_for(b, l), plain(l),
    ensures alike(a, b), // [A04]
    decreases a,
{
    match l {
        ConditionLink::Verifier(id) => { lemma_id(a->Verifier_0, b->Verifier_0); }
        ConditionLink::NofT(t, ls) => {
            let v = a->NofT_1;
            assert forall|i: int| 0 <= i < v.len() implies alike(#[trigger] v[i], b->NofT_1[i]) by { assert(stands_for(a->NofT_1[i], ls[i])); assert(stands_for(b->NofT_1[i], ls[i])); assert(plain(ls[i])); assert(decreases_to!(a => v)); assert(decreases_to!(v => v[i])); lemma_stands_hash(v[i], b->NofT_1[i], ls[i]); }
        }
        _ => {}
    }
}
}

