//@include prelude.rs
//@include ids.rs
//@file nc flmodules/src/nodeconfig.rs
//@file nd flnode/src/node.rs
//@sub /\.clone\(\)/ => /.dup()/
//@sub /STORAGE_CONFIG: &str/ => /STORAGE_CONFIG: &'static str/
//@sub /\b(?:serde_yaml::from_str|from_yaml)\(/ => /vx_from_yaml(/
//@sub /serde_yaml::to_string\(&self\)/ => /vx_to_yaml(self)/
//@sub /ConfigError/ => /VErr/
//@sub /names::Generator::default\(\)\.next\(\)/ => /vx_some_name()/
//@sub /"libc"\.(?:vx_)?to_string\(\)/ => /vx_own("libc")/
verus! {
// ------------------------------------------------------------------ what is trusted here
/// Every Clone of fledger is derived: a faithful copy.
pub trait Dup: Sized { fn dup(&self) -> (r: Self) ensures r == *self; }
impl<T> Dup for T { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
pub axiom fn axiom_vec_ext<T>(a: Vec<T>, b: Vec<T>) ensures a@ == b@ ==> a == b;
#[verifier::external_body]
pub fn vx_some_name() -> (r: Option<String>) ensures r is Some { unimplemented!() }
#[verifier::external_body]
pub fn vx_own(a: &str) -> (r: String) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_no_text() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
/// The set of modules: its bits.
#[derive(Copy, Clone)]
pub struct Modules { pub b: u32 }
#[derive(Copy, Clone)]
pub struct ModulesV2 { pub b: u32 }
pub uninterp spec fn stable() -> Modules;
pub const REQUESTS: u32 = 0x20;
/// All there are: 0x1 to 0x80.
pub open spec fn known(b: u32) -> bool { b & 0xff == b }
pub open spec fn with(b: u32, f: u32, on: bool) -> u32 { if on { b | f } else { b & !f } }
impl Modules {
    #[verifier::external_body]
    pub fn stable() -> (r: Modules) ensures r == stable() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_bits(b: u32) -> (r: Option<Modules>) ensures (r is Some) == known(b), r matches Some(m) ==> m.b == b { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&mut self, f: Modules, on: bool) ensures final(self).b == with(old(self).b, f.b, on) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_webproxy_requests() -> (r: Modules) ensures r.b == REQUESTS { unimplemented!() }
}
impl ModulesV2 {
    #[verifier::external_body]
    pub fn bits(&self) -> (r: u32) ensures r == self.b { unimplemented!() }
}
/// Ed25519, idealised: a signature is valid for the key, the text and what was signed only.
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct PublicKey { x: u8 }
#[verifier::external_body]
pub struct SecretKey { x: u8 }
#[verifier::external_body]
pub struct Signature { x: u8 }
pub struct KeyPair { pub pk: PublicKey, pub sk: SecretKey }
pub uninterp spec fn valid(k: PublicKey, msg: Seq<u8>, s: Signature) -> bool;
pub uninterp spec fn key_bytes(k: PublicKey) -> Seq<u8>;
pub uninterp spec fn pair_bytes(k: KeyPair) -> Seq<u8>;
pub uninterp spec fn sig_enc(s: Signature) -> Seq<u8>;
/// The two halves belong together.
pub uninterp spec fn is_pair(k: KeyPair) -> bool;
pub axiom fn axiom_key(a: PublicKey, b: PublicKey) ensures key_bytes(a).len() == 32, key_bytes(a) == key_bytes(b) ==> a == b;
pub axiom fn axiom_sig(a: Signature, b: Signature) ensures sig_enc(a) == sig_enc(b) ==> a == b;
pub axiom fn axiom_pair(a: KeyPair, b: KeyPair) ensures pair_bytes(a) == pair_bytes(b) ==> a == b;
#[verifier::external_body]
pub struct Seed { x: u8 }
#[verifier::external_body]
pub struct Noise { x: u8 }
impl Seed { #[verifier::external_body] pub fn default() -> (r: Seed) { unimplemented!() } }
impl Noise { #[verifier::external_body] pub fn default() -> (r: Noise) { unimplemented!() } }
impl PublicKey {
    pub const BYTES: usize = 32;
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == key_bytes(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_slice(b: &[u8]) -> (r: VResult<PublicKey>) ensures r matches Ok(k) ==> key_bytes(k) == b@, (exists|k: PublicKey| #[trigger] key_bytes(k) == b@) ==> r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn verify(&self, msg: &[u8], s: &Signature) -> (r: VResult<()>) ensures (r is Ok) == valid(*self, msg@, *s) { unimplemented!() }
}
impl Signature {
    #[verifier::external_body]
    pub fn from_slice(b: &[u8]) -> (r: VResult<Signature>) ensures r matches Ok(s) ==> sig_enc(s) == b@, (exists|s: Signature| #[trigger] sig_enc(s) == b@) ==> r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_to_vec(&self) -> (r: Vec<u8>) ensures r@ == sig_enc(*self) { unimplemented!() }
}
impl KeyPair {
    #[verifier::external_body]
    pub fn from_seed(s: Seed) -> (r: KeyPair) ensures is_pair(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == pair_bytes(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_slice(b: &[u8]) -> (r: VResult<KeyPair>) ensures r matches Ok(k) ==> pair_bytes(k) == b@, (exists|k: KeyPair| #[trigger] pair_bytes(k) == b@) ==> r is Ok { unimplemented!() }
}
pub open spec fn pub_of(sk: SecretKey) -> PublicKey { choose|p: PublicKey| is_pair(KeyPair { pk: p, sk }) }
impl SecretKey {
    #[verifier::external_body]
    pub fn sign(&self, msg: &[u8; 32], n: Option<Noise>) -> (r: Signature) ensures forall|p: PublicKey| #![trigger is_pair(KeyPair { pk: p, sk: *self })] is_pair(KeyPair { pk: p, sk: *self }) ==> valid(p, msg@, r) { unimplemented!() }
}
/// The identifier which has these bytes.
#[verifier::external_body]
pub fn vx_u256(a: [u8; 32]) -> (r: U256) ensures r.0@ == a@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_to32(v: Vec<u8>) -> (r: VResult<[u8; 32]>) ensures (r is Ok) == (v@.len() == 32), r matches Ok(a) ==> a@ == v@ { unimplemented!() }
pub uninterp spec fn hash_of(b: Seq<u8>) -> U256;
impl U256 { #[verifier::external_body] pub fn hash_data(b: &[u8]) -> (r: U256) ensures r == hash_of(b@) { unimplemented!() } }

pub trait VxOk<T>: Sized { spec fn okv(&self) -> Option<T>; fn vx_ok(self) -> (r: Option<T>) ensures r == self.okv(); }
impl<T, E> VxOk<T> for Result<T, E> { open spec fn okv(&self) -> Option<T> { match *self { Ok(x) => Some(x), Err(_) => None } } #[verifier::external_body] fn vx_ok(self) -> (r: Option<T>) { unimplemented!() } }
pub trait VxToVec { fn vx_to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.bytes_(); spec fn bytes_(&self) -> Seq<u8>; }
impl VxToVec for [u8] { open spec fn bytes_(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<u8>) { unimplemented!() } }
//@struct nc NodeInfo
//@struct nc NodeInfoV2
//@struct nc NodeConfig
//@struct nc NodeConfigV1
// ------------------------------------------------------------------ what is written and read
/// An empty text is no configuration.
pub axiom fn axiom_nothing() ensures unyaml::<NodeConfig>(Seq::<char>::empty()) is None;
/// What serde_yaml writes for a value, with its version.
pub uninterp spec fn yaml_of<T>(t: T) -> Seq<char>;
pub uninterp spec fn unyaml<T>(s: Seq<char>) -> Option<T>;
/// Assumed of serde and VersionedSerde: all is written but the identifier which replaces the one of the key.
pub axiom fn axiom_info(t: NodeInfo) ensures unyaml::<NodeInfo>(yaml_of(t)) == Some(NodeInfo { id: None, ..t });
pub axiom fn axiom_config(t: NodeConfig) ensures unyaml::<NodeConfig>(yaml_of(t)) == Some(NodeConfig { info: NodeInfo { id: None, ..t.info }, ..t });
#[verifier::external_body]
pub fn vx_to_yaml<T>(t: &T) -> (r: VResult<String>) ensures r is Ok && r->Ok_0@ == yaml_of(*t) { unimplemented!() }
#[verifier::external_body]
pub fn vx_from_yaml<T>(s: &str) -> (r: VResult<T>) ensures (r is Ok) == (unyaml::<T>(s@) is Some), r matches Ok(x) ==> unyaml::<T>(s@) == Some(x) { unimplemented!() }

// ------------------------------------------------------------------ identity
/// The identifier of a node: its key.
pub open spec fn id_of(i: NodeInfo) -> U256 { match i.id { Some(x) => x, None => if i.pubkey@.len() == 32 { bytes_id(i.pubkey@) } else { hash_of(i.pubkey@) } } }
pub uninterp spec fn bytes_id(b: Seq<u8>) -> U256;
pub axiom fn axiom_bytes_id(u: U256) ensures bytes_id(u.0@) == u;
/// The info is the one of the key pair.
pub open spec fn owns(c: NodeConfig, k: KeyPair) -> bool { is_pair(k) && pair_bytes(k) == c.keypair@ && c.info.pubkey@ == key_bytes(k.pk) }
pub open spec fn sound(c: NodeConfig) -> bool { exists|k: KeyPair| #[trigger] owns(c, k) }
pub broadcast proof fn lemma_sound(c: NodeConfig, k: KeyPair) requires #[trigger] is_pair(k), owns(c, k) ensures #[trigger] sound(c) {}
pub broadcast proof fn lemma_sound_too(a: NodeConfig, b: NodeConfig) requires #[trigger] sound(a), a.keypair == b.keypair, a.info.pubkey == b.info.pubkey ensures #[trigger] sound(b) { let k = choose|k: KeyPair| #[trigger] owns(a, k); assert(owns(b, k)); }
/// Written and read again, a node has the identity it had. // [I04]
pub proof fn lemma_again(c: NodeConfig)
    requires c.info.id is None,
    ensures unyaml::<NodeConfig>(yaml_of(c)) == Some(c), // [I04]
        unyaml::<NodeInfo>(yaml_of(c.info)) == Some(c.info), // [I04]
{
    axiom_config(c);
    axiom_info(c.info);
    assert(NodeConfig { info: NodeInfo { id: None, ..c.info }, ..c } == c);
}
impl NodeInfo {
//@fn nc NodeInfo::new ret=r
//@ spec
        ensures r.id is None, r.pubkey@ == key_bytes(pubkey), r.modules == stable(), // [I04]
//@end
//@fn nc NodeInfo::new_from_id_kp ret=r
//@ spec
        ensures r.id == Some(id), r.pubkey@ == key_bytes(pubkey), // [I04]
//@end
//@fn nc NodeInfo::get_id ret=r
//@ sub ! /<\[u8; PublicKey::BYTES\]>::try_from\(/ => /vx_to32(/
//@ sub ! /U256::from\(/ => /vx_u256(/
//@ entry
        proof { broadcast use lemma_bytes_id; }
//@ spec
        ensures r == id_of(*self), // [I04]
//@end
//@fn nc NodeInfo::verify ret=r
//@ entry
        proof { broadcast use lemma_inj; }
//@ spec
        ensures r == (exists|k: PublicKey, s: Signature| #[trigger] key_bytes(k) == self.pubkey@ && #[trigger] sig_enc(s) == sig_bytes@ && valid(k, msg@, s)), // [I04]
//@end
//@fn nc NodeInfo::decode ret=r retty=VResult<NodeInfo>
//@ spec
        ensures (r is Ok) == (unyaml::<NodeInfo>(data@) is Some), r matches Ok(i) ==> unyaml::<NodeInfo>(data@) == Some(i), // [I04]
//@end
//@fn nc NodeInfo::encode ret=r
//@ spec
        ensures r@ == yaml_of(*self), // [I04]
//@end
//@fn nc `<NodeInfo as PartialEq>::eq` ret=r
//@ sub ! /self\.get_id\(\) == other\.get_id\(\)/ => /vx_same(&self.get_id(), &other.get_id())/
//@ spec
        ensures r == (id_of(*self) == id_of(*other)), // [I04]
//@end
}
#[verifier::external_body]
pub fn vx_same(a: &U256, b: &U256) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
pub broadcast proof fn lemma_bytes_id(u: U256) ensures bytes_id(#[trigger] u.0@) == u { axiom_bytes_id(u); }
pub broadcast proof fn lemma_inj(a: PublicKey, b: PublicKey, s: Signature, t: Signature)
    ensures #[trigger] key_bytes(a) == #[trigger] key_bytes(b) ==> a == b, #[trigger] sig_enc(s) == #[trigger] sig_enc(t) ==> s == t,
{ axiom_key(a, b); axiom_sig(s, t); }
pub open spec fn v2_modules(m: ModulesV2) -> Modules { if known(m.b) { Modules { b: m.b } } else { stable() } }
impl ModulesV2 {
//@fn nc `<ModulesV2 as Into<Modules>>::into` ret=r as=vx_into_modules retty=Modules
//@ spec
        ensures r == v2_modules(self), // [I04]
//@end
}
pub open spec fn from_v2(o: NodeInfoV2) -> NodeInfo { NodeInfo { name: o.name, client: o.client, pubkey: o.pubkey, modules: v2_modules(o.modules), id: None } }
impl NodeInfo {
//@fn nc `<NodeInfo as From<NodeInfoV2>>::from` ret=r as=vx_from_v2 retty=NodeInfo
//@ sub ! /old\.modules\.into\(\)/ => /old.modules.vx_into_modules()/
//@ spec
        ensures r == from_v2(old), // [I04]
//@end
}
impl NodeConfig {
//@fn nc `<NodeConfig as From<NodeConfigV1>>::from` ret=r as=vx_from_v1 retty=NodeConfig
//@ sub ! /old\.info\.into\(\)/ => /NodeInfo::vx_from_v2(old.info)/
//@ spec
        ensures r.info == from_v2(old.info), r.keypair == old.keypair, // [I04]
//@end
//@fn nc NodeConfig::new ret=r
//@ entry
        proof { broadcast use lemma_sound; }
//@ spec
        ensures r.info.id is None, sound(r), // [I04]
//@end
//@fn nc NodeConfig::new_id ret=r
//@ entry
        proof { broadcast use lemma_sound; }
//@ spec
        ensures r.info.id == Some(id), sound(r), // [I04]
//@end
//@fn nc NodeConfig::encode ret=r
//@ spec
        ensures r@ == yaml_of(*self), // [I04]
//@end
//@fn nc NodeConfig::decode ret=r
//@ closure 0 -> (q: NodeConfig) ensures q.info.id is None && sound(q)
//@ spec
        ensures match unyaml::<NodeConfig>(data@) { Some(c) => r == c, None => r.info.id is None && sound(r) }, // [I04]
//@end
//@fn nc NodeConfig::sign ret=r
//@ entry
        proof { broadcast use lemma_pair; }
//@ spec
        requires sound(*self),
        ensures exists|k: PublicKey, s: Signature| #[trigger] key_bytes(k) == self.info.pubkey@ && #[trigger] sig_enc(s) == r@ && valid(k, hash@, s), // [I04]
//@end
//@fn nc `<NodeConfig as Clone>::clone` ret=r as=vx_clone retty=NodeConfig
//@ spec
        ensures r == *self, // [I04]
//@end
}
pub broadcast proof fn lemma_pair(a: KeyPair, b: KeyPair) ensures #[trigger] pair_bytes(a) == #[trigger] pair_bytes(b) ==> a == b { axiom_pair(a, b); }

// ------------------------------------------------------------------ where the configuration is kept
/// A storage (D01): `wrote` are the values which were stored in it.
#[verifier::external_body]
pub struct VxStorage { x: u8 }
pub uninterp spec fn wrote(s: VxStorage, key: Seq<char>, v: Seq<char>) -> bool;
impl VxStorage {
    pub uninterp spec fn got(&self, key: Seq<char>) -> VResult<Seq<char>>;
    #[verifier::external_body]
    pub fn get(&self, key: &str) -> (r: VResult<String>) ensures match r { Ok(s) => self.got(key@) == Ok::<Seq<char>, VErr>(s@), Err(_) => self.got(key@) is Err } { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&mut self, key: &str, v: &str) -> (r: VResult<()>) ensures r is Ok ==> wrote(*old(self), key@, v@) { unimplemented!() }
}
//@const nd STORAGE_CONFIG
pub struct Node { x: u8 }
/// The one which was stored, but for what this kind of node can do.
pub open spec fn resumes(c: NodeConfig, r: NodeConfig) -> bool {
    r.keypair == c.keypair && r.info == (NodeInfo { modules: Modules { b: with(c.info.modules.b, REQUESTS, true) }, ..c.info })
}
impl Node {
//@fn nd Node::get_config ret=r retty=VResult<NodeConfig>
//@ sub ! /storage: Box<dyn DataStorage>/ => /storage: VxStorage/
//@ entry
        proof { broadcast use lemma_sound_too; axiom_nothing(); }
//@ sub /#\[cfg\(target_family = "wasm"\)\]\s*let enable_webproxy_request = false;/ => //
//@ sub /#\[cfg\(target_family = "unix"\)\]/ => //
//@ sub /Modules::WEBPROXY_REQUESTS/ => /Modules::vx_webproxy_requests()/
//@ sub /""\.(?:vx_)?to_string\(\)|""\.into\(\)|String::new\(\)/ => /vx_no_text()/
//@ spec
        ensures r matches Ok(c) ==> wrote(storage, STORAGE_CONFIG@, yaml_of(c)), // [I04]
            r matches Ok(c) ==> (storage.got(STORAGE_CONFIG@) matches Ok(s) ==> (unyaml::<NodeConfig>(s) matches Some(o) ==> resumes(o, c))), // [I04]
            r matches Ok(c) ==> (storage.got(STORAGE_CONFIG@) matches Ok(s) && unyaml::<NodeConfig>(s) is Some) || c.info.id is None && sound(c), // [I04]
//@end
//@fn nd Node::set_config ret=r retty=VResult<()>
//@ sub ! /mut storage: Box<dyn DataStorage>/ => /mut storage: VxStorage/
//@ spec
        ensures r is Ok ==> wrote(storage, STORAGE_CONFIG@, config@), // [I04]
//@end
}
}
fn main() {}
