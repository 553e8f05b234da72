//@file msgs flmodules/src/router/messages.rs
verus! {
/// What serde_yaml writes for a value. Assumed: writing never fails, and reading gives back what was written.
pub uninterp spec fn yaml_of<T>(t: T) -> Seq<char>;
pub uninterp spec fn unyaml<T>(s: Seq<char>) -> Option<T>;
pub axiom fn axiom_yaml<T>(t: T) ensures unyaml::<T>(yaml_of(t)) == Some(t);
#[verifier::external_body]
pub fn vx_to_yaml<T>(t: &T) -> (r: VResult<String>) ensures r is Ok && r->Ok_0@ == yaml_of(*t) { unimplemented!() }
#[verifier::external_body]
pub fn vx_from_yaml<T>(s: &str) -> (r: VResult<T>) ensures (r is Ok) == (unyaml::<T>(s@) is Some), r matches Ok(x) ==> unyaml::<T>(s@) == Some(x) { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_eq(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_own(a: &str) -> (r: String) ensures r@ == a@ { unimplemented!() }
//@struct msgs NetworkWrapper
/// w is msg, packed for module.
pub open spec fn packs<T>(w: NetworkWrapper, module: Seq<char>, msg: T) -> bool { w.module@ == module && w.msg@ == yaml_of(msg) }
impl NetworkWrapper {
//@fn msgs NetworkWrapper::wrap_yaml
//@ spec
    ensures res is Ok && packs(res->Ok_0, module@, *msg), // [X01]
//@ sub /<T: Serialize>/ => /<T>/
//@ sub /module\.into\(\)/ => /vx_own(module)/
//@ sub /serde_yaml::to_string\(/ => /vx_to_yaml(/
//@end
//@fn msgs NetworkWrapper::unwrap_yaml
//@ spec
    ensures res == if self.module@ == module@ { unyaml::<T>(self.msg@) } else { None }, // [X01]
//@ sub /<T: DeserializeOwned>/ => /<T>/
//@ sub /self\.module == module/ => /vx_str_eq(&self.module, module)/
//@ sub /\b(?:serde_yaml::from_str|from_yaml)\(/ => /vx_from_yaml(/
//@end
}
}
