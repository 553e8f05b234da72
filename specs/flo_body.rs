//@include access_body.rs
//@sub /\.clone\(\)/ => /.dup()/
//@sub /\+ Clone\b/ => /+ Dup/
//@sub /(SignerError|FloError)::\w+\.into\(\)/ => /vx_err()/
//@sub /#\[serde[^\]]*\]/ => //
//@sub /type_name::<T>\(\)\.\w+\(\)/ => /vx_tyname::<T>()/
//@sub /type_name::<T>\(\)/ => /vx_tystr::<T>()/
//@sub /\.to_le_bytes\(\)/ => /.vx_le()/
//@sub /self\.flo_type\.as_ref\(\)/ => /vx_str_bytes(&self.flo_type)/
//@file fl flmodules/src/flo/flo.rs
//@file rl flmodules/src/flo/realm.rs
//@file co flmodules/src/dht_storage/core.rs
//@file cr flmodules/src/flo/crypto.rs
verus! {
pub uninterp spec fn tyname<T>() -> Seq<char>;
#[verifier::external_body]
pub fn vx_tyname<T>() -> (r: String) ensures r@ == tyname::<T>() { unimplemented!() }
#[verifier::external_body]
pub fn vx_tystr<T>() -> (r: &'static str) ensures r@ == tyname::<T>() { unimplemented!() }
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
pub fn vx_str_bytes(s: &String) -> (r: &[u8]) ensures r@ == utf8(s@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_str_ne(a: &String, b: &str) -> (r: bool) ensures r == (a@ != b@) { unimplemented!() }
pub trait VxRaw: Sized { spec fn raw(&self) -> Seq<u8>; }
#[verifier::external_body]
pub fn vx_bytes_eq<A: VxRaw, B: VxRaw>(a: &A, b: &B) -> (r: bool) ensures r == (a.raw() == b.raw()) { unimplemented!() }
impl VxRaw for FloID { open spec fn raw(&self) -> Seq<u8> { self.0.0@ } }
impl VxRaw for BadgeID { open spec fn raw(&self) -> Seq<u8> { self.0.0@ } }
impl FloID {
    pub fn hash_domain_parts(domain: &str, parts: &[&[u8]]) -> (r: Self) ensures r.0 == dhash(domain@, views(parts@)) { FloID(U256::hash_domain_parts(domain, parts)) }
}
impl RealmID { #[verifier::external_body] pub fn zero() -> (r: Self) { unimplemented!() } }
impl FloConfig { pub fn default() -> (r: Self) ensures r == (FloConfig { cuckoo: Cuckoo::None, force_id: None }) { FloConfig { cuckoo: Cuckoo::None, force_id: None } } }
//@enum co Cuckoo
//@struct co FloConfig
//@struct co RealmConfig
//@struct rl Realm
//@struct rl GlobalID
//@  sub /\(RealmID, FloID\)/ => /(pub RealmID, pub FloID)/
//@struct fl Flo
//@struct fl CondVersion
//@struct fl FloWrapper
//@struct fl UpdateDataSign
//@struct fl UpdateCondSign
impl GlobalID {
//@fn rl GlobalID::new
//@ spec
    ensures res.0 == realm, res.1 == flo,
//@end
}
pub open spec fn genesis_digest(f: Flo) -> U256 { dhash("flmodules::flo::cond_genesis"@, seq![utf8(f.flo_type@), rmp_of(f.flo_config), rmp_of(f.cond_genesis.cond), f.nonce.0@]) }
pub open spec fn id_of(f: Flo) -> FloID { FloID(dhash("ican.re.fledg.flmodules.flo.Flo"@, seq![match f.flo_config.force_id { Some(x) => x, None => genesis_digest(f) }.0@])) }
pub open spec fn update_digest(id: FloID, n: int, c: ConditionLink) -> U256 { dhash("flmodules::flo::cond_update"@, seq![id.0.0@, le_bytes(n, 4), rmp_of(c)]) }
pub open spec fn data_digest(id: FloID, data: Seq<u8>, version: int, conds: int) -> U256 { dhash("flmodules::flo::data"@, seq![id.0.0@, data, le_bytes(version, 4), le_bytes(conds, 8)]) }
pub open spec fn ddigest(f: Flo) -> U256 { data_digest(id_of(f), f.data@, f.data_version as int, f.cond_update.len() as int) }
/// The condition in force after n changes.
pub open spec fn cond_at(f: Flo, n: int) -> ConditionLink { if n <= 0 || n > f.cond_update.len() { f.cond_genesis.cond } else { f.cond_update[n - 1].cond } }
pub open spec fn latest(f: Flo) -> ConditionLink { cond_at(f, f.cond_update.len() as int) }
/// The signatures are by keys which the link demands, and enough of them.
pub open spec fn approved(s: ConditionSignature, l: ConditionLink, d: U256) -> bool { stands_for(s.condition, l) && holds(s.condition, good(s.signatures@, d)) }
pub open spec fn step_ok(f: Flo, i: int) -> bool { approved(f.cond_update[i].signatures, cond_at(f, i), update_digest(id_of(f), i + 1, f.cond_update[i].cond)) }
/// Every step was signed as the step before it demands.
pub open spec fn authentic(f: Flo) -> bool {
    &&& approved(f.cond_genesis.signatures, f.cond_genesis.cond, genesis_digest(f))
    &&& forall|i: int| 0 <= i < f.cond_update.len() ==> #[trigger] step_ok(f, i)
    &&& approved(f.data_signature, latest(f), ddigest(f))
}
pub open spec fn clean(s: ConditionSignature, d: U256) -> bool { !some_ver(s.condition, forged(s.signatures@, d)) }
pub open spec fn step_clean(f: Flo, i: int) -> bool { plain(cond_at(f, i)) && clean(f.cond_update[i].signatures, update_digest(id_of(f), i + 1, f.cond_update[i].cond)) }
/// No badges, and no signature which is present but wrong.
pub open spec fn all_clean(f: Flo) -> bool {
    &&& plain(f.cond_genesis.cond) && clean(f.cond_genesis.signatures, genesis_digest(f))
    &&& forall|i: int| 0 <= i < f.cond_update.len() ==> #[trigger] step_clean(f, i)
    &&& plain(latest(f)) && clean(f.data_signature, ddigest(f))
}
pub open spec fn step_sized(f: Flo, i: int) -> bool { sized(f.cond_update[i].signatures.condition) }
pub open spec fn flo_sized(f: Flo) -> bool {
    sized(f.cond_genesis.signatures.condition) && sized(f.data_signature.condition) && f.cond_update.len() < u32::MAX && forall|i: int| 0 <= i < f.cond_update.len() ==> #[trigger] step_sized(f, i)
}
/// The same Flo, apart from its data, version and data signature.
pub open spec fn same_history(a: Flo, b: Flo) -> bool {
    a.realm == b.realm && a.flo_type == b.flo_type && a.flo_config == b.flo_config && a.nonce == b.nonce && a.cond_genesis == b.cond_genesis && a.cond_update == b.cond_update
}
impl Flo {
//@fn fl Flo::new as=vx_new
//@ spec
    ensures res matches Ok(f) ==> f.realm == realm && f.data@ == rmp_of(*data_cache) && f.flo_type@ == tyname::<T>() && f.flo_config == flo_config && f.data_version == 0 && f.cond_update.len() == 0 // [F02]
        && f.nonce == nonce && f.cond_genesis.cond == cond && f.cond_genesis.signatures == cond_signature && f.data_signature == data_signature, // [F02]
//@end
//@fn fl Flo::new_signer
//@ spec
    requires available(cond),
    ensures res matches Ok(f) ==> f.realm == realm && f.data@ == rmp_of(*data_cache) && f.flo_type@ == tyname::<T>() && f.flo_config == flo_config && f.data_version == 0 && f.cond_update.len() == 0 // [F02]
        && is_link(f.cond_genesis.cond, cond), // [F02]
        res matches Ok(f) ==> signed_by_all(f, cond, signers@), // [F02]
//@ loop 0
    invariant vx_it0.wf(), vx_it0.seq() == refs(signers@), flo.cond_genesis.signatures.condition == cond, digest == genesis_digest(flo),
        flo.realm == realm, flo.data@ == rmp_of(*data_cache), flo.flo_type@ == tyname::<T>(), flo.flo_config == flo_config, flo.data_version == 0, flo.cond_update.len() == 0, is_link(flo.cond_genesis.cond, cond),
        forall|i: int| 0 <= i < vx_it0.pos() ==> names(cond, (#[trigger] signers@[i]).vk().id()) && sig_good(flo.cond_genesis.signatures.signatures@, signers@[i].vk(), digest),
    decreases vx_it0.left(),
//@ loopstart 0
    let ghost vx_old = flo.cond_genesis.signatures.signatures@;
    proof { lemma_id_one_key(**sig, signers@); assert(**sig == *signers@[vx_it0.pos() - 1]); }
//@ loopend 0
    proof {
        assert forall|i: int| 0 <= i < vx_it0.pos() implies names(cond, (#[trigger] signers@[i]).vk().id()) && sig_good(flo.cond_genesis.signatures.signatures@, signers@[i].vk(), digest) by {
            assert(same_at(vx_old, flo.cond_genesis.signatures.signatures@, signers@[i].vk().id()) || signers@[i].vk().id() == sig.vk().id());
        }
    }
//@end
//@fn fl Flo::new_realm
//@ sub !/\(\*f\.flo_id\(\)\)\.into\(\)/ => /RealmID(*f.flo_id())/
//@ sub /realm: &Realm/ => /realm: &Realm/
//@ spec
    requires available(cond),
    ensures res matches Ok(f) ==> f.realm.0 == id_of(f).0 && f.data@ == rmp_of(*realm) && f.data_version == 0, // [F02]
//@end
//@fn fl Flo::data
//@ spec
    ensures *res == self.data,
//@end
//@fn fl Flo::latest_cond_version
//@ spec
    ensures res.cond == latest(*self), // [F01]
//@end
//@fn fl Flo::cond
//@ spec
    ensures *res == latest(*self), // [F01]
//@end
//@fn fl Flo::version
//@ spec
    ensures res == self.data_version, // [F02]
//@end
//@fn fl Flo::flo_id
//@ spec
    ensures res == id_of(*self), // [F02]
//@end
//@fn fl Flo::global_id
//@ spec
    ensures res.0 == self.realm, res.1 == id_of(*self), // [F02]
//@end
//@fn fl Flo::realm_id
//@ spec
    ensures res == self.realm, // [F02]
//@end
//@fn fl Flo::flo_config
//@ spec
    ensures *res == self.flo_config,
//@end
//@fn fl Flo::calc_flo_id
//@ spec
    ensures res == FloID(dhash("ican.re.fledg.flmodules.flo.Flo"@, seq![hash.0@])), // [F02]
//@end
//@fn fl Flo::digest_cond_genesis
//@ spec
    ensures res == genesis_digest(*self), // [F01]
//@end
//@fn fl Flo::digest_cond_update
//@ spec
    ensures res == update_digest(*id, cond_version as int, *cond), // [F01]
//@end
//@fn fl Flo::digest_data
//@ spec
    ensures res == ddigest(*self), // [F01]
//@end
//@fn fl Flo::start_sign_data
//@ spec
    requires self.data_version < u32::MAX,
    ensures res matches Ok(u) && u.update == update && u.signature.condition == cond && u.signature.signatures@ == Map::<KeyPairID, Signature>::empty()
        && u.digest == data_digest(id_of(*self), rmp_of(update), self.data_version + 1, self.cond_update.len() as int), // [F02]
//@end
//@fn fl Flo::update_data
//@ spec
    requires self.data_version < u32::MAX, sized(update.signature.condition),
    ensures res matches Ok(f) ==> same_history(*self, f) && f.data@ == rmp_of(update.update) && f.data_version == self.data_version + 1 && f.data_signature == update.signature
        && holds(update.signature.condition, good(update.signature.signatures@, ddigest(f))), // [F02]
//@end
//@fn fl Flo::update_data_signers
//@ spec
    requires self.data_version < u32::MAX, sized(cond),
    ensures res matches Ok(f) ==> same_history(*self, f) && f.data@ == rmp_of(update) && f.data_version == self.data_version + 1 && f.data_signature.condition == cond
        && holds(cond, good(f.data_signature.signatures@, ddigest(f))), // [F02]
//@end
//@fn fl Flo::start_sign_cond
//@ spec
    requires available(cond_new), self.cond_update.len() < u32::MAX,
    ensures res matches Ok(u) && is_link(u.cond, cond_new) && u.signature_data.condition == cond_new && u.signature_cond.condition == cond_old
        && u.signature_data.signatures@ == Map::<KeyPairID, Signature>::empty() && u.signature_cond.signatures@ == Map::<KeyPairID, Signature>::empty()
        && u.digest_cond == update_digest(id_of(*self), self.cond_update.len() + 1, u.cond)
        && u.digest_data == data_digest(id_of(*self), self.data@, self.data_version as int, self.cond_update.len() + 1), // [F03]
//@ entry
    proof { assert forall|a: ConditionLink, b: ConditionLink, c: Condition| #![trigger is_link(a, c), is_link(b, c)] is_link(a, c) && is_link(b, c) implies a == b by { lemma_one_link(a, b, c); } }
//@end
//@fn fl Flo::update_cond
//@ spec
    ensures res matches Ok(f) && f.cond_update@ == self.cond_update@.push(CondVersion { cond: update.cond, signatures: update.signature_cond }) && f.data_signature == update.signature_data
        && f.data@ == self.data@ && f.data_version == self.data_version && f.realm == self.realm && f.flo_type == self.flo_type && f.flo_config == self.flo_config && f.nonce == self.nonce && f.cond_genesis == self.cond_genesis, // [F03]
//@end
//@fn fl Flo::update_cond_signers
//@ spec
    requires available(cond_new), self.cond_update.len() < u32::MAX,
    ensures res matches Ok(f) ==> cond_changed(*self, f, cond_new) && f.cond_update@.last().signatures.condition == cond_old && f.data_signature.condition == cond_new
        && all_signed(f.cond_update@.last().signatures, signers_old@, update_digest(id_of(*self), self.cond_update.len() + 1, f.cond_update@.last().cond))
        && all_signed(f.data_signature, signers_new@, ddigest(f)), // [F03]
//@ exit
    proof { if res is Ok { let f = res->Ok_0; assert(f.cond_update@.drop_last() =~= self.cond_update@); assert(genesis_digest(f) == genesis_digest(*self)); } }
//@end
//@fn fl Flo::verify
//@ spec
    requires flo_sized(*self),
    ensures res matches Ok(b) ==> b && authentic(*self), // [F01]
        authentic(*self) && all_clean(*self) ==> res is Ok, // [F01]
//@ loop 0
    invariant vx_it0.wf(), vx_it0.seq().len() == self.cond_update.len(), forall|i: int| 0 <= i < self.cond_update.len() ==> #[trigger] vx_it0.seq()[i] == (i as usize, &self.cond_update[i]), flo_sized(*self), self.cond_update.len() < u32::MAX,
        *prev_cond == cond_at(*self, vx_it0.pos()),
        approved(self.cond_genesis.signatures, self.cond_genesis.cond, genesis_digest(*self)),
        forall|i: int| 0 <= i < vx_it0.pos() ==> #[trigger] step_ok(*self, i),
    decreases vx_it0.left(),
//@ loopstart 0
    proof { let i = vx_it0.pos() - 1; assert(vx_it0.seq()[i] == (i as usize, &self.cond_update[i])); assert(step_sized(*self, i)); assert(authentic(*self) ==> step_ok(*self, i)); assert(all_clean(*self) ==> step_clean(*self, i)); }
//@end
//@fn fl Flo::sign_data
//@ spec
    ensures same_history(*old(self), *final(self)), final(self).data == old(self).data, final(self).data_version == old(self).data_version,
        res is Ok ==> final(self).data_signature.condition == cond && all_signed(final(self).data_signature, signers@, ddigest(*final(self))),
//@ loop 0
    invariant vx_it0.wf(), vx_it0.seq() == refs(signers@), self.data_signature.condition == cond, digest == ddigest(*self),
        same_history(*old(self), *self), self.data == old(self).data, self.data_version == old(self).data_version,
        forall|i: int| 0 <= i < vx_it0.pos() ==> names(cond, (#[trigger] signers@[i]).vk().id()) && sig_good(self.data_signature.signatures@, signers@[i].vk(), digest),
    decreases vx_it0.left(),
//@ loopstart 0
    let ghost vx_old = self.data_signature.signatures@;
    proof { lemma_id_one_key(**signer, signers@); assert(**signer == *signers@[vx_it0.pos() - 1]); }
//@ loopend 0
    proof {
        assert forall|i: int| 0 <= i < vx_it0.pos() implies names(cond, (#[trigger] signers@[i]).vk().id()) && sig_good(self.data_signature.signatures@, signers@[i].vk(), digest) by {
            assert(same_at(vx_old, self.data_signature.signatures@, signers@[i].vk().id()) || signers@[i].vk().id() == signer.vk().id());
        }
    }
//@end
}
/// One more condition; everything else but the data signature stays.
pub open spec fn cond_changed(a: Flo, b: Flo, c: Condition) -> bool {
    b.cond_update.len() == a.cond_update.len() + 1 && b.cond_update@.drop_last() == a.cond_update@ && is_link(b.cond_update@.last().cond, c)
    && b.data@ == a.data@ && b.data_version == a.data_version && b.realm == a.realm && b.flo_type == a.flo_type && b.flo_config == a.flo_config && b.nonce == a.nonce && b.cond_genesis == a.cond_genesis
}
/// The change e may make b out of a.
#[verifier::prophetic]
pub open spec fn did<T, E: FnOnce(&mut T)>(e: E, a: T, b: T) -> bool { exists|x: &mut T| #[trigger] call_ensures(e, (x,), ()) && *x == a && *final(x) == b }
impl<T> FloWrapper<T> {
    /// The decoded object is what the data says.
    pub open spec fn faithful(&self) -> bool { unrmp::<T>(self.flo.data@) == Some(self.object) }
//@fn fl `FloWrapper<T>::from_type`
//@ spec
    requires available(cond),
    ensures res matches Ok(w) ==> w.faithful() && w.object == object && w.flo.realm == realm && w.flo.data_version == 0 && signed_by_all(w.flo, cond, signers@), // [F04]
//@end
//@fn fl `FloWrapper<T>::from_type_cuckoo`
//@ spec
    requires available(cond),
    ensures res matches Ok(w) ==> w.faithful() && w.object == object && w.flo.realm == realm && w.flo.data_version == 0 && w.flo.flo_config.cuckoo == cuckoo && signed_by_all(w.flo, cond, signers@), // [F04]
//@end
//@fn fl `FloWrapper<T>::from_type_config`
//@ spec
    requires available(cond),
    ensures res matches Ok(w) ==> w.faithful() && w.object == object && w.flo.realm == realm && w.flo.data_version == 0 && w.flo.flo_config == config && signed_by_all(w.flo, cond, signers@), // [F04]
//@ exit
    proof { axiom_rmp(object); }
//@end
//@fn fl `FloWrapper<T>::from_force_id`
//@ spec
    ensures res matches Ok(w) ==> w.faithful() && w.object == object && w.flo.realm == realm && id_of(w.flo) == FloID(dhash("ican.re.fledg.flmodules.flo.Flo"@, seq![force_id.0@])), // [F04]
//@ exit
    proof { axiom_rmp(object); }
//@end
//@fn fl `FloWrapper<T>::cache`
//@ spec
    ensures *res == self.object, // [F04]
//@end
//@fn fl `FloWrapper<T>::flo`
//@ spec
    ensures *res == self.flo, // [F04]
//@end
//@fn fl `FloWrapper<T>::cond`
//@ spec
    ensures *res == latest(self.flo), // [F04]
//@end
//@fn fl `FloWrapper<T>::data`
//@ spec
    ensures *res == self.flo.data, // [F04]
//@end
//@fn fl `FloWrapper<T>::version`
//@ spec
    ensures res == self.flo.data_version, // [F04]
//@end
//@fn fl `FloWrapper<T>::flo_id`
//@ spec
    ensures res == id_of(self.flo), // [F04]
//@end
//@fn fl `FloWrapper<T>::global_id`
//@ spec
    ensures res.0 == self.flo.realm, res.1 == id_of(self.flo), // [F04]
//@end
//@fn fl `FloWrapper<T>::realm_id`
//@ spec
    ensures res == self.flo.realm, // [F04]
//@end
//@fn fl `FloWrapper<T>::edit`
//@ sub /impl FnOnce\(&mut T\)/ => /E/
//@ sub /fn edit\(/ => /fn edit<E: FnOnce(&mut T)>(/
//@ spec
    requires forall|x: &mut T| #[trigger] call_requires(edit, (x,)),
    ensures did(edit, self.object, res), // [F04]
//@end
//@fn fl `FloWrapper<T>::start_sign_data`
//@ spec
    requires self.flo.data_version < u32::MAX,
    ensures res matches Ok(u) && u.update == update && u.signature.condition == cond
        && u.digest == data_digest(id_of(self.flo), rmp_of(update), self.flo.data_version + 1, self.flo.cond_update.len() as int), // [F04]
//@end
//@fn fl `FloWrapper<T>::edit_data_signers`
//@ sub /impl FnOnce\(&mut T\)/ => /E/
//@ sub /fn edit_data_signers\(/ => /fn edit_data_signers<E: FnOnce(&mut T)>(/
//@ spec
    requires self.flo.data_version < u32::MAX, sized(cond), forall|x: &mut T| #[trigger] call_requires(edit, (x,)),
    ensures res matches Ok(w) ==> w.faithful() && did(edit, self.object, w.object) && same_history(self.flo, w.flo) && w.flo.data_version == self.flo.data_version + 1 && w.flo.data_signature.condition == cond
        && holds(cond, good(w.flo.data_signature.signatures@, ddigest(w.flo))), // [F04]
//@ exit
    proof { if res is Ok { axiom_rmp(res->Ok_0.object); } }
//@end
//@fn fl `FloWrapper<T>::update_data`
//@ sub /\bself\.dup\(\)/ => /(*self).dup()/
//@ spec
    requires old(self).flo.data_version < u32::MAX, sized(update.signature.condition),
    ensures *final(self) == *old(self), res matches Ok(w) ==> w.faithful() && w.object == update.update && same_history(old(self).flo, w.flo) && w.flo.data_version == old(self).flo.data_version + 1
        && w.flo.data_signature == update.signature && holds(update.signature.condition, good(update.signature.signatures@, ddigest(w.flo))), // [F04]
//@ exit
    proof { if res is Ok { axiom_rmp(res->Ok_0.object); } }
//@end
//@fn fl `FloWrapper<T>::update_cond`
//@ sub /\bself\.dup\(\)/ => /(*self).dup()/
//@ spec
    ensures *final(self) == *old(self), res matches Ok(w) ==> w.object == old(self).object && w.flo.data@ == old(self).flo.data@ && w.flo.data_version == old(self).flo.data_version && w.flo.cond_update.len() == old(self).flo.cond_update.len() + 1, // [F04]
//@end
//@fn fl `FloWrapper<T>::update_cond_signers`
//@ spec
    requires available(cond_new), old(self).flo.cond_update.len() < u32::MAX,
    ensures *final(self) == *old(self), res matches Ok(f) ==> cond_changed(old(self).flo, f, cond_new), // [F04]
//@end
//@fn fl `FloWrapper<T>::verify`
//@ spec
    requires flo_sized(self.flo),
    ensures res is Ok ==> authentic(self.flo), // [F01]
//@end
//@fn fl `<FloWrapper<T> as TryFrom<Flo>>::try_from`
//@ sub !/flo\.flo_type != flo_type/ => /vx_str_ne(&flo.flo_type, flo_type)/
//@ sub /FloError::WrongContent\([^;]*\)\.into\(\)\)/ => /vx_err())/
//@ spec
    ensures res matches Ok(w) ==> w.faithful() && w.flo == flo, // [F04]
        res is Ok <==> flo.flo_type@ == tyname::<T>() && unrmp::<T>(flo.data@) is Some, // [F04]
//@end
}
// ------------------------------------------------------------------ lemmas over the contracts
/// What a Vec holds is all there is to it (capacities are not observable).
pub axiom fn axiom_vec_ext<T>(a: Vec<T>, b: Vec<T>) ensures a@ == b@ ==> a == b;
/// A condition has only one link.
pub proof fn lemma_one_link(a: ConditionLink, b: ConditionLink, c: Condition)
    requires is_link(a, c), is_link(b, c), ensures a == b, decreases c,
{
    match c {
        Condition::NofT(t, v) => {
            assert forall|i: int| 0 <= i < v.len() implies a->NofT_1[i] == b->NofT_1[i] by { assert(is_link(a->NofT_1[i], v[i])); assert(is_link(b->NofT_1[i], v[i])); assert(decreases_to!(c => v)); assert(decreases_to!(v => v[i])); lemma_one_link(a->NofT_1[i], b->NofT_1[i], v[i]); }
            assert(a->NofT_1@ =~= b->NofT_1@); axiom_vec_ext(a->NofT_1, b->NofT_1);
        }
        _ => {}
    }
}
/// [F02] Updating the data keeps the identifier, and an authentic Flo stays authentic when the signers
/// named by its condition signed the new data.
pub proof fn lemma_update_data(a: Flo, b: Flo)
    requires same_history(a, b),
    ensures id_of(b) == id_of(a), latest(b) == latest(a), // [F02]
        authentic(a) && approved(b.data_signature, latest(a), ddigest(b)) ==> authentic(b), // [F02]
{
    assert forall|i: int| authentic(a) && 0 <= i < b.cond_update.len() implies #[trigger] step_ok(b, i) by { assert(step_ok(a, i)); }
}
/// [F03] A changed condition keeps the identifier, data and version, and an authentic Flo stays authentic
/// when the old condition's signers signed the new condition.
pub proof fn lemma_update_cond(a: Flo, b: Flo, c: Condition)
    requires cond_changed(a, b, c),
    ensures id_of(b) == id_of(a), latest(b) == b.cond_update@.last().cond, // [F03]
        authentic(a) && approved(b.cond_update@.last().signatures, latest(a), update_digest(id_of(a), a.cond_update.len() + 1, latest(b))) && approved(b.data_signature, latest(b), ddigest(b)) ==> authentic(b), // [F03]
{
    let n = a.cond_update.len() as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] b.cond_update[i] == a.cond_update[i] by { assert(b.cond_update@.drop_last()[i] == b.cond_update@[i]); }
    assert forall|i: int| authentic(a) && approved(b.cond_update@.last().signatures, latest(a), update_digest(id_of(a), n + 1, latest(b))) && 0 <= i < n + 1 implies #[trigger] step_ok(b, i) by { if i < n { assert(step_ok(a, i)); } }
}
/// [F01] The data signature is bound to the identifier, the data, the version and the number of conditions:
/// whatever differs in one of them needs another signature.
pub proof fn lemma_data_digest(a: Flo, b: Flo)
    requires a.cond_update.len() < u32::MAX, b.cond_update.len() < u32::MAX,
    ensures ddigest(a) == ddigest(b) ==> id_of(a) == id_of(b) && a.data@ == b.data@ && a.data_version == b.data_version && a.cond_update.len() == b.cond_update.len(), // [F01]
{
    let p = seq![id_of(a).0.0@, a.data@, le_bytes(a.data_version as int, 4), le_bytes(a.cond_update.len() as int, 8)];
    let q = seq![id_of(b).0.0@, b.data@, le_bytes(b.data_version as int, 4), le_bytes(b.cond_update.len() as int, 8)];
    axiom_dhash("flmodules::flo::data"@, p, "flmodules::flo::data"@, q);
    if ddigest(a) == ddigest(b) {
        assert(p[0] == q[0] && p[1] == q[1] && p[2] == q[2] && p[3] == q[3]);
        axiom_le(a.data_version as int, b.data_version as int, 4); axiom_le(a.cond_update.len() as int, b.cond_update.len() as int, 8);
        assert(id_of(a).0.0@ =~= id_of(b).0.0@); assert(id_of(a).0.0 =~= id_of(b).0.0);
    }
}
/// [F01] The identifier is bound to type, configuration, first condition and nonce, unless one was forced.
pub proof fn lemma_flo_id(a: Flo, b: Flo)
    ensures id_of(a) == id_of(b) && a.flo_config.force_id is None && b.flo_config.force_id is None ==>
        utf8(a.flo_type@) == utf8(b.flo_type@) && a.flo_config == b.flo_config && a.cond_genesis.cond == b.cond_genesis.cond && a.nonce == b.nonce, // [F01]
{
    if id_of(a) == id_of(b) && a.flo_config.force_id is None && b.flo_config.force_id is None {
        axiom_dhash("ican.re.fledg.flmodules.flo.Flo"@, seq![genesis_digest(a).0@], "ican.re.fledg.flmodules.flo.Flo"@, seq![genesis_digest(b).0@]);
        assert(seq![genesis_digest(a).0@][0] == seq![genesis_digest(b).0@][0]);
        assert(genesis_digest(a).0 =~= genesis_digest(b).0);
        let p = seq![utf8(a.flo_type@), rmp_of(a.flo_config), rmp_of(a.cond_genesis.cond), a.nonce.0@];
        let q = seq![utf8(b.flo_type@), rmp_of(b.flo_config), rmp_of(b.cond_genesis.cond), b.nonce.0@];
        axiom_dhash("flmodules::flo::cond_genesis"@, p, "flmodules::flo::cond_genesis"@, q);
        assert(p[0] == q[0] && p[1] == q[1] && p[2] == q[2] && p[3] == q[3]);
        axiom_rmp(a.flo_config); axiom_rmp(b.flo_config); axiom_rmp(a.cond_genesis.cond); axiom_rmp(b.cond_genesis.cond);
        assert(a.nonce.0 =~= b.nonce.0);
    }
}
pub open spec fn all_signed(s: ConditionSignature, signers: Seq<&Signer>, d: U256) -> bool { forall|i: int| 0 <= i < signers.len() ==> names(s.condition, (#[trigger] signers[i]).vk().id()) && sig_good(s.signatures@, signers[i].vk(), d) }
pub open spec fn signed_by_all(f: Flo, c: Condition, signers: Seq<&Signer>) -> bool {
    f.cond_genesis.signatures.condition == c && f.data_signature.condition == c && all_signed(f.cond_genesis.signatures, signers, genesis_digest(f)) && all_signed(f.data_signature, signers, ddigest(f))
}
}
