//! A01-A05 and F01-F04: conditions and signatures, and the Flos they protect.
use crate::storage::rnd_u256;
use crate::{Case, Res};
use base64::prelude::*;
use bytes::Bytes;
use flarch::nodeids::U256;
use flcrypto::access::{Badge, BadgeID, BadgeLink, Condition, ConditionLink, ConditionSignature, VersionSpec};
use flcrypto::signer::{KeyPairID, Signature, Signer, SignerTrait, Verifier, VerifierTrait};
use flcrypto::signer_ed25519::SignerEd25519;
use flcrypto::tofrombytes::ToFromBytes;
use flmodules::dht_storage::core::{Cuckoo, FloConfig};
use flmodules::flo::flo::{Flo, FloWrapper};
use flmodules::flo::realm::RealmID;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::LazyLock;

static SIGNERS: LazyLock<Vec<Signer>> = LazyLock::new(|| (0..6).map(|_| SignerEd25519::new()).collect());

fn rnd_version(c: &mut Case) -> u32 {
    match c.range(0, 4) {
        0 => 0,
        1 => u32::MAX - c.range(0, 1) as u32,
        _ => c.range(0, 5) as u32,
    }
}
fn rnd_spec(c: &mut Case, id: BadgeID) -> VersionSpec<BadgeID> {
    let v = rnd_version(c);
    match c.range(0, 2) {
        0 => VersionSpec::Minimal(id, v),
        1 => VersionSpec::Exact(id, v),
        _ => VersionSpec::Maximal(id, v),
    }
}
fn takes(s: &VersionSpec<BadgeID>, v: u32) -> bool {
    match s {
        VersionSpec::Minimal(_, x) => v >= *x,
        VersionSpec::Exact(_, x) => v == *x,
        VersionSpec::Maximal(_, x) => v <= *x,
    }
}
fn near(c: &mut Case, v: u32) -> u32 {
    match c.range(0, 3) {
        0 => v,
        1 => v.saturating_sub(1),
        2 => v.saturating_add(1),
        _ => rnd_version(c),
    }
}
fn ver_of(s: &VersionSpec<BadgeID>) -> u32 {
    match s {
        VersionSpec::Minimal(_, x) | VersionSpec::Exact(_, x) | VersionSpec::Maximal(_, x) => *x,
    }
}

pub fn a01(c: &mut Case) -> Res {
    for _ in 0..40 {
        let id = BadgeID::from(rnd_u256(c));
        let s = rnd_spec(c, id.clone());
        let v = near(c, ver_of(&s));
        c.log(format!("{s:?} version {v}"));
        c.check(s.accepts(v) == takes(&s, v), "accepts", || format!("{s:?} accepts({v}) says {}", s.accepts(v)))?;
        c.check(s.get_id() == id && s.id() == id, "spec-id", || format!("{s:?} gives another id"))?;
        let same = c.chance(60);
        let bl = BadgeLink { id: if same { id } else { BadgeID::from(rnd_u256(c)) }, version: v, condition: ConditionLink::Pass };
        let want = same && takes(&s, v);
        c.count(if want { "fits" } else { "doesn't fit" });
        c.check(bl.fits_version(s.clone()) == want, "fits", || format!("{bl:?} fits {s:?}: should be {want}"))?;
    }
    Ok(())
}

fn rnd_cond(c: &mut Case, depth: usize, na: bool) -> Condition {
    match c.range(0, if depth == 0 { 8 } else { 16 }) {
        0..=5 => Condition::Verifier(SIGNERS[c.range(0, 5)].verifier()),
        6 => Condition::Pass,
        7 => Condition::Fail,
        8 => if na { Condition::NotAvailable } else { Condition::Verifier(SIGNERS[c.range(0, 5)].verifier()) },
        9 | 10 => {
            let id = BadgeID::from(rnd_u256(c));
            let s = rnd_spec(c, id.clone());
            let version = if c.chance(80) { ver_of(&s) } else { rnd_version(c) };
            Condition::Badge(s, Badge { id, version, condition: Box::new(rnd_cond(c, depth - 1, na)) })
        }
        _ => {
            let n = c.range(0, 4);
            let v: Vec<Condition> = (0..n).map(|_| rnd_cond(c, depth - 1, na)).collect();
            let t = if c.chance(10) { u32::MAX - c.range(0, 1) as u32 } else { c.range(0, n + 1) as u32 };
            Condition::NofT(t, v)
        }
    }
}
/// What a key's signature is worth.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Sig {
    No,
    Good,
    Bad,
}
fn holds(c: &Condition, f: &dyn Fn(&KeyPairID) -> bool) -> bool {
    match c {
        Condition::Verifier(v) => f(&v.get_id()),
        Condition::Badge(_, b) => holds(&b.condition, f),
        Condition::NofT(t, v) => {
            let mut n: u64 = 0;
            for p in v {
                if holds(p, f) {
                    n += 1;
                }
            }
            n >= *t as u64
        }
        Condition::Pass => true,
        _ => false,
    }
}
fn some_ver(c: &Condition, f: &dyn Fn(&KeyPairID) -> bool) -> bool {
    match c {
        Condition::Verifier(v) => f(&v.get_id()),
        Condition::Badge(_, b) => some_ver(&b.condition, f),
        Condition::NofT(_, v) => v.iter().any(|p| some_ver(p, f)),
        _ => false,
    }
}
fn names(c: &Condition, id: &KeyPairID) -> bool {
    match c {
        Condition::Verifier(v) => &v.get_id() == id,
        Condition::Badge(_, b) => names(&b.condition, id),
        Condition::NofT(_, v) => v.iter().any(|p| names(p, id)),
        Condition::Pass => true,
        _ => false,
    }
}
fn show(c: &Condition) -> String {
    let n = |v: &Verifier| SIGNERS.iter().position(|s| s.get_id() == v.get_id()).map(|i| format!("k{i}")).unwrap_or("k?".into());
    match c {
        Condition::Verifier(v) => n(v),
        Condition::Badge(s, b) => format!("badge[{} v{} {}]", match s { VersionSpec::Minimal(_, v) => format!(">={v}"), VersionSpec::Exact(_, v) => format!("={v}"), VersionSpec::Maximal(_, v) => format!("<={v}") }, b.version, show(&b.condition)),
        Condition::NofT(t, v) => format!("{t}of({})", v.iter().map(show).collect::<Vec<_>>().join(",")),
        Condition::NotAvailable => "missing".into(),
        Condition::Pass => "pass".into(),
        Condition::Fail => "fail".into(),
    }
}
/// Puts a signature of some worth for every key into `cs`; `digest` is what has to be signed.
fn rnd_sigs(c: &mut Case, cs: &mut ConditionSignature, digest: &U256) -> BTreeMap<KeyPairIDo, Sig> {
    let mut m = BTreeMap::new();
    let bad = if c.chance(50) { 0 } else { 25 };
    let clean: u32 = *[0, 50, 100].get(c.range(0, 2)).unwrap();
    for (i, s) in SIGNERS.iter().enumerate() {
        let worth = if c.chance(bad) { Sig::Bad } else if c.chance(clean) { Sig::Good } else { Sig::No };
        let sig: Option<Signature> = match worth {
            Sig::No => None,
            Sig::Good => Some(s.sign(&digest.bytes()).unwrap()),
            Sig::Bad => Some(match c.range(0, 4) {
                0 => s.sign(&U256::hash_data(digest.as_ref()).bytes()).unwrap(),
                1 => SIGNERS[(i + 1) % 6].sign(&digest.bytes()).unwrap(),
                2 => {
                    let mut b = s.sign(&digest.bytes()).unwrap().bytes().to_vec();
                    let j = c.range(0, b.len() * 8 - 1);
                    b[j / 8] ^= 1 << (j % 8);
                    b.into()
                }
                3 => {
                    let mut b = s.sign(&digest.bytes()).unwrap().bytes().to_vec();
                    let l = c.range(0, 63);
                    b.truncate(l);
                    b.into()
                }
                _ => {
                    let mut b = s.sign(&digest.bytes()).unwrap().bytes().to_vec();
                    b.push(0);
                    b.into()
                }
            }),
        };
        if let Some(x) = sig {
            cs.signatures.insert(s.get_id(), x);
        }
        m.insert(KeyPairIDo(s.get_id()), worth);
    }
    m
}
#[derive(Clone, Debug, PartialEq, Eq)]
struct KeyPairIDo(KeyPairID);
impl PartialOrd for KeyPairIDo {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for KeyPairIDo {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.to_bytes().cmp(&o.0.to_bytes())
    }
}
fn compare(c: &Case, what: &str, cond: &Condition, w: &BTreeMap<KeyPairIDo, Sig>, got: anyhow::Result<bool>) -> Res {
    let good = |k: &KeyPairID| w.get(&KeyPairIDo(k.clone())) == Some(&Sig::Good);
    let bad = |k: &KeyPairID| w.get(&KeyPairIDo(k.clone())) == Some(&Sig::Bad);
    let (h, f) = (holds(cond, &good), some_ver(cond, &bad));
    let tell = || format!("{what} of {} with {:?}", show(cond), SIGNERS.iter().map(|s| w[&KeyPairIDo(s.get_id())]).collect::<Vec<_>>());
    match got {
        Ok(b) => {
            c.check(!f, "forged-accepted", || format!("{}: a wrong signature went unnoticed (answer {b})", tell()))?;
            c.check(b == h, if b { "accepted" } else { "refused" }, || format!("{} says {b}, should be {h}", tell()))
        }
        Err(e) => c.check(f, "error", || format!("{} fails with {e} without any wrong signature", tell())),
    }
}

pub fn a02(c: &mut Case) -> Res {
    for _ in 0..4 {
        let cond = rnd_cond(c, 3, true);
        let digest = rnd_u256(c);
        let mut cs = ConditionSignature::new(cond.clone());
        let w = rnd_sigs(c, &mut cs, &digest);
        c.log(show(&cond));
        c.count("digests");
        compare(c, "verify_digest", &cond, &w, cs.verify_digest(&digest))?;
        // Any condition with the same signatures.
        let other = rnd_cond(c, 2, true);
        compare(c, "verify_cond", &other, &w, cs.verify_cond(&other, &digest))?;
        // Messages: the same signature is no good for another message or another condition.
        let msg = Bytes::from((0..c.range(0, 5)).map(|_| c.range(0, 2) as u8).collect::<Vec<_>>());
        let mut cs = ConditionSignature::new(cond.clone());
        let mut signed = BTreeMap::new();
        for s in SIGNERS.iter() {
            let does = c.chance(60);
            let r = if does { cs.sign_msg(s, &msg).is_ok() } else { false };
            c.check(!does || r == names(&cond, &s.get_id()), "sign_msg", || format!("sign_msg by {} of {} says {r}", s.get_id(), show(&cond)))?;
            signed.insert(KeyPairIDo(s.get_id()), if r { Sig::Good } else { Sig::No });
        }
        compare(c, "verify_msg", &cond, &signed, cs.verify_msg(&msg))?;
        let mut m2 = msg.to_vec();
        m2.push(0);
        let spoiled: BTreeMap<_, _> = signed.iter().map(|(k, v)| (k.clone(), if *v == Sig::Good { Sig::Bad } else { *v })).collect();
        compare(c, "verify_msg of another message", &cond, &spoiled, cs.verify_msg(&m2.into()))?;
        let alt = change(c, &cond);
        if alt != cond {
            c.count("other conditions");
            let cs2 = ConditionSignature { condition: alt.clone(), signatures: cs.signatures.clone() };
            compare(c, "verify_msg under another condition", &alt, &spoiled, cs2.verify_msg(&msg))?;
        }
    }
    Ok(())
}

/// The condition with one thing changed somewhere.
fn change(c: &mut Case, x: &Condition) -> Condition {
    match x {
        Condition::Badge(s, b) if c.chance(70) => match c.range(0, 3) {
            0 => Condition::Badge(s.clone(), Badge { id: b.id.clone(), version: b.version ^ 1, condition: b.condition.clone() }),
            1 => Condition::Badge(rnd_spec(c, s.id()), b.clone()),
            2 => Condition::Badge(s.clone(), Badge { id: BadgeID::from(rnd_u256(c)), version: b.version, condition: b.condition.clone() }),
            _ => Condition::Badge(s.clone(), Badge { id: b.id.clone(), version: b.version, condition: Box::new(change(c, &b.condition)) }),
        },
        Condition::NofT(t, v) if c.chance(85) => match c.range(0, 5) {
            0 => Condition::NofT(t ^ 1, v.clone()),
            1 => Condition::NofT(t.wrapping_add(256), v.clone()),
            2 => Condition::NofT(*t, v.iter().take(v.len().saturating_sub(1)).cloned().collect()),
            3 => {
                let mut v = v.clone();
                v.push(rnd_cond(c, 1, false));
                Condition::NofT(*t, v)
            }
            4 => {
                let mut v = v.clone();
                v.reverse();
                Condition::NofT(*t, v)
            }
            _ => {
                let mut v = v.clone();
                if !v.is_empty() {
                    let i = c.range(0, v.len() - 1);
                    v[i] = change(c, &v[i].clone());
                }
                Condition::NofT(*t, v)
            }
        },
        _ => rnd_cond(c, 1, false),
    }
}

pub fn a03(c: &mut Case) -> Res {
    for _ in 0..6 {
        let cond = rnd_cond(c, 3, true);
        let mut who: Vec<&Signer> = SIGNERS.iter().filter(|_| c.rng.gen_bool(0.5)).collect();
        if c.chance(30) && !who.is_empty() {
            who.push(who[0]);
        }
        let ids: Vec<KeyPairID> = who.iter().map(|s| s.get_id()).collect();
        let refs: Vec<&KeyPairID> = ids.iter().collect();
        c.log(format!("{} by {:?}", show(&cond), ids.iter().map(|i| SIGNERS.iter().position(|s| &s.get_id() == i).unwrap()).collect::<Vec<_>>()));
        let want = holds(&cond, &|k| ids.contains(k));
        c.count(if want { "can sign" } else { "cannot sign" });
        c.check(cond.can_sign(&refs) == want, "can_sign", || format!("can_sign of {} should be {want}", show(&cond)))?;
        c.check(cond.can_signers(&who) == want, "can_signers", || format!("can_signers of {} should be {want}", show(&cond)))?;
        for s in SIGNERS.iter() {
            c.check(cond.has_verifier(&s.get_id()) == names(&cond, &s.get_id()), "has_verifier", || format!("has_verifier({}) of {}", s.get_id(), show(&cond)))?;
        }
        // If they can sign, then signing makes the signature complete.
        let d = rnd_u256(c);
        let msg: Bytes = d.bytes();
        let digest = c.chance(50);
        let mut cs = ConditionSignature::new(cond.clone());
        let able: Vec<&Signer> = who.iter().cloned().filter(|s| names(&cond, &s.get_id())).collect();
        // Whatever was signed before: it is this message which counts.
        if c.chance(30) {
            let other = rnd_u256(c);
            let some: Vec<&Signer> = able.iter().cloned().filter(|_| c.rng.gen_bool(0.5)).collect();
            let _ = if c.chance(50) { cs.signers_digest(&some, &other) } else { cs.signers_msg(&some, &other.bytes()) };
            c.count("signed before");
        }
        let r = if digest { cs.signers_digest(&able, &d) } else { cs.signers_msg(&able, &msg) };
        c.check(r.is_ok(), "signers", || format!("signing {} by keys it names fails: {r:?}", show(&cond)))?;
        let keys: HashSet<KeyPairID> = able.iter().map(|s| s.get_id()).collect();
        c.check(cs.condition == cond && cs.signatures.keys().cloned().collect::<HashSet<_>>() == keys, "signed-by", || "the signatures are not by those who signed".into())?;
        let ok = if digest { cs.verify_digest(&d) } else { cs.verify_msg(&msg) };
        c.check(matches!(ok, Ok(b) if b == want), "signed", || format!("{} signed by those who can: {ok:?}, should be {want}", show(&cond)))?;
        // A stranger cannot sign, and spoils nothing.
        let stranger = &SIGNERS[c.range(0, 5)];
        if !names(&cond, &stranger.get_id()) {
            let before = cs.clone();
            let r = if digest { cs.sign_digest(stranger, &d) } else { cs.sign_msg(stranger, &msg) };
            c.check(r.is_err() && cs == before, "stranger", || format!("{} was signed by a stranger", show(&cond)))?;
            let r = if digest { cs.signers_digest(&[stranger], &d) } else { cs.signers_msg(&[stranger], &msg) };
            c.check(r.is_err() && cs == before, "stranger", || format!("{} was signed by a stranger", show(&cond)))?;
            c.count("strangers");
        }
        let alt = change(c, &cond);
        c.check((alt.hash() == cond.hash()) == (alt == cond), "hash", || format!("hash of {} and {}: same {}", show(&alt), show(&cond), alt.hash() == cond.hash()))?;
    }
    Ok(())
}
use rand::Rng;

fn stands(c: &Condition, l: &ConditionLink) -> bool {
    match (c, l) {
        (Condition::Verifier(v), ConditionLink::Verifier(id)) => &v.get_id() == id,
        (Condition::Badge(cs, b), ConditionLink::Badge(s)) => cs == s && b.id == s.id() && takes(s, b.version),
        (Condition::NofT(t, v), ConditionLink::NofT(lt, ls)) => t == lt && v.len() == ls.len() && v.iter().zip(ls).all(|(c, l)| stands(c, l)),
        (Condition::Pass, ConditionLink::Pass) | (Condition::Fail, ConditionLink::Fail) => true,
        _ => false,
    }
}
fn plain(l: &ConditionLink) -> bool {
    match l {
        ConditionLink::Badge(_) => false,
        ConditionLink::NofT(_, v) => v.iter().all(plain),
        _ => true,
    }
}
fn link(c: &Condition) -> ConditionLink {
    match c {
        Condition::Verifier(v) => ConditionLink::Verifier(v.get_id()),
        Condition::Badge(s, _) => ConditionLink::Badge(s.clone()),
        Condition::NofT(t, v) => ConditionLink::NofT(*t, v.iter().map(link).collect()),
        Condition::NotAvailable => panic!("not available"),
        Condition::Pass => ConditionLink::Pass,
        Condition::Fail => ConditionLink::Fail,
    }
}
pub fn a04(c: &mut Case) -> Res {
    for _ in 0..8 {
        let cond = rnd_cond(c, 3, false);
        c.log(show(&cond));
        let l = link(&cond);
        c.check(cond.to_link() == l, "to_link", || format!("{} has link {:?}", show(&cond), cond.to_link()))?;
        let mut alt = cond.clone();
        for _ in 0..c.range(0, 2) {
            alt = change(c, &alt);
        }
        let (got, want) = (alt.equal_link(&l), stands(&alt, &l));
        c.count(if got { "equal" } else { "different" });
        c.check(!got || want, "equal_link", || format!("{} passes for {}", show(&alt), show(&cond)))?;
        c.check(got || !want || !plain(&l), "unequal_link", || format!("{} does not pass for {}", show(&alt), show(&cond)))?;
        // Looking up the parts of the link again. Badges by number so that cycles cannot occur.
        let hide = if c.chance(50) { None } else { Some(SIGNERS[c.range(0, 5)].get_id()) };
        let hide_badges = c.chance(15);
        let badges = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
        collect(&cond, &mut badges.borrow_mut());
        let want = lookup(&l, &badges.borrow(), &hide, hide_badges);
        let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
        let got = {
            let (badges, hide) = (&badges, &hide);
            rt.block_on(l.to_condition(
                &|s: VersionSpec<BadgeID>| async move { find_badge(&badges.borrow(), &s, hide_badges) },
                &|id: KeyPairID| async move { find_key(&id, hide) },
            ))
        };
        c.check(got == want, "to_condition", || format!("the link of {} is looked up as {}, should be {}", show(&cond), show(&got), show(&want)))?;
    }
    Ok(())
}
fn collect(c: &Condition, o: &mut Vec<BadgeLink>) {
    match c {
        Condition::Badge(_, b) => {
            o.push(BadgeLink { id: b.id.clone(), version: b.version, condition: link(&b.condition) });
            collect(&b.condition, o);
        }
        Condition::NofT(_, v) => v.iter().for_each(|x| collect(x, o)),
        _ => {}
    }
}
fn find_badge(b: &[BadgeLink], s: &VersionSpec<BadgeID>, hide: bool) -> Option<BadgeLink> {
    b.iter().find(|b| !hide && b.id == s.id() && takes(s, b.version)).cloned()
}
fn find_key(id: &KeyPairID, hide: &Option<KeyPairID>) -> Option<Verifier> {
    SIGNERS.iter().find(|s| &s.get_id() == id && Some(id) != hide.as_ref()).map(|s| s.verifier())
}
fn lookup(l: &ConditionLink, b: &[BadgeLink], hide: &Option<KeyPairID>, hb: bool) -> Condition {
    match l {
        ConditionLink::Verifier(id) => find_key(id, hide).map(Condition::Verifier).unwrap_or(Condition::NotAvailable),
        ConditionLink::Badge(s) => match find_badge(b, s, hb) {
            Some(x) => Condition::Badge(s.clone(), Badge { id: x.id.clone(), version: x.version, condition: Box::new(lookup(&x.condition, b, hide, hb)) }),
            None => Condition::NotAvailable,
        },
        ConditionLink::NofT(t, v) => Condition::NofT(*t, v.iter().map(|l| lookup(l, b, hide, hb)).collect()),
        ConditionLink::Pass => Condition::Pass,
        ConditionLink::Fail => Condition::Fail,
    }
}

pub fn a05(c: &mut Case) -> Res {
    for _ in 0..4 {
        let (i, j) = (c.range(0, 5), c.range(0, 5));
        let (s, t) = (&SIGNERS[i], &SIGNERS[j]);
        let m = Bytes::from((0..c.range(0, 70)).map(|_| c.rng.gen()).collect::<Vec<u8>>());
        let sig = s.sign(&m).unwrap();
        c.log(format!("key {i} signs {} bytes, key {j} checks", m.len()));
        c.check(t.verifier().verify(&m, &sig).is_ok() == (i == j), "verify", || format!("a signature of key {i} is {:?} for key {j}", t.verifier().verify(&m, &sig).is_ok()))?;
        c.check((s.get_id() == t.get_id()) == (i == j) && s.get_id() == s.verifier().get_id(), "get_id", || "identifiers of keys are mixed up".into())?;
        let mut b = sig.bytes().to_vec();
        match c.range(0, 2) {
            0 => {
                let k = c.range(0, 511);
                b[k / 8] ^= 1 << (k % 8);
            }
            1 => b.truncate(c.range(0, 63)),
            _ => b.extend((0..c.range(1, 3)).map(|_| 0u8)),
        }
        let l = b.len();
        c.check(s.verifier().verify(&m, &b.into()).is_err(), "spoiled", || format!("a spoiled signature of length {l} is accepted"))?;
        let mut m2 = m.to_vec();
        if m2.is_empty() || c.chance(30) {
            m2.push(0);
        } else {
            let k = c.range(0, m2.len() - 1);
            m2[k] ^= 1;
        }
        c.check(s.verifier().verify(&m2.into(), &sig).is_err(), "other-message", || "the signature is accepted for another message".into())?;
        // A key which anybody can hand in accepts no byte string for everything.
        let small = |i: usize| -> Vec<u8> {
            let h = ["0100000000000000000000000000000000000000000000000000000000000000", "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "0000000000000000000000000000000000000000000000000000000000000000", "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05", "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a"][i];
            (0..32).map(|k| u8::from_str_radix(&h[2 * k..2 * k + 2], 16).unwrap()).collect()
        };
        let (a, r) = (c.range(0, 4), c.range(0, 4));
        if let Ok(v) = serde_json::from_value::<flcrypto::signer_ed25519::VerifierEd25519>(json!({ "verifier": BASE64_STANDARD.encode(small(a)) })) {
            let mut sig = small(r);
            sig.extend([0u8; 32]);
            let sig: Signature = sig.into();
            let n = (0..24u8).filter(|i| v.verify(&Bytes::from(vec![*i, c.rng.gen()]), &sig).is_ok()).count();
            c.count("weak keys");
            c.check(n == 0, "weak-key", || format!("a key of small order accepts one byte string as the signature of {n} of 24 messages"))?;
        }
        let back: Verifier = serde_json::from_value(serde_json::to_value(s.verifier()).unwrap()).unwrap();
        c.check(back == s.verifier() && back.get_id() == s.get_id() && back.verify(&m, &sig).is_ok(), "read-back", || "a key which was written and read is another one".into())?;
        c.count("signatures");
    }
    Ok(())
}

// ------------------------------------------------------------------ Flos
/// A condition without badges which these keys can meet, and their keys.
fn flo_cond(c: &mut Case) -> (Condition, Vec<&'static Signer>) {
    loop {
        let x = rnd_cond(c, 2, false);
        if !plain(&link(&x)) {
            continue;
        }
        let who: Vec<&Signer> = SIGNERS.iter().filter(|s| names(&x, &s.get_id()) && c.rng.gen_bool(0.8)).collect();
        if holds(&x, &|k| who.iter().any(|s| &s.get_id() == k)) {
            return (x, who);
        }
    }
}
fn verified(f: &Flo) -> bool {
    matches!(f.verify(), Ok(true))
}
/// A Flo which was created and changed by those who may.
struct Good {
    flo: Flo,
    cond: Condition,
    who: Vec<&'static Signer>,
    versions: u32,
    conds: usize,
}
fn good_flo(c: &mut Case) -> Result<Good, crate::Fail> {
    let (cond, who) = flo_cond(c);
    let cfg = FloConfig { cuckoo: if c.chance(50) { Cuckoo::None } else { Cuckoo::Duration(c.range(0, 9) as u32) }, force_id: if c.chance(25) { Some(rnd_u256(c)) } else { None } };
    let realm = RealmID::from(rnd_u256(c));
    let data = format!("d{}", c.range(0, 1000));
    c.log(format!("new Flo with {} signed by {} keys", show(&cond), who.len()));
    let flo = match Flo::new_signer(realm, cond.clone(), &data, cfg, &who) {
        Ok(f) => f,
        Err(e) => return c.fail("new", format!("Creating a Flo with {} fails: {e}", show(&cond))),
    };
    c.check(verified(&flo), "new-verify", || format!("a new Flo with {} does not verify: {:?}", show(&cond), flo.verify()))?;
    let mut g = Good { flo, cond, who, versions: 0, conds: 0 };
    for _ in 0..c.range(0, 3) {
        step(c, &mut g)?;
    }
    Ok(g)
}
/// One legitimate change, checked for what it must and must not touch.
fn step(c: &mut Case, g: &mut Good) -> Res {
    let id = g.flo.flo_id();
    let old = g.flo.clone();
    if c.chance(50) {
        let data = format!("u{}", c.range(0, 1000));
        c.log(format!("update data by {} keys", g.who.len()));
        let r = g.flo.update_data_signers(g.cond.clone(), data.clone(), &g.who);
        let f = match r {
            Ok(f) => f,
            Err(e) => return c.fail("update", format!("Updating a Flo with {} fails: {e}", show(&g.cond))),
        };
        g.versions += 1;
        c.check(f.data() == &data.to_rmp_bytes() && f.version() == g.versions && f.cond() == old.cond(), "update-data", || format!("after update {}: version {} data {:?}", g.versions, f.version(), f.data()))?;
        g.flo = f;
        c.count("data updates");
    } else {
        let (cond, who) = flo_cond(c);
        c.log(format!("update condition to {} by {} keys", show(&cond), who.len()));
        let f = match g.flo.update_cond_signers(g.cond.clone(), cond.clone(), &g.who, &who) {
            Ok(f) => f,
            Err(e) => return c.fail("update-cond", format!("Changing the condition of a Flo to {} fails: {e}", show(&cond))),
        };
        g.conds += 1;
        c.check(f.data() == old.data() && f.version() == g.versions && f.cond() == &link(&cond), "update-cond", || format!("after changing the condition: version {} cond {:?}", f.version(), f.cond()))?;
        g.flo = f;
        g.cond = cond;
        g.who = who;
        c.count("condition updates");
    }
    c.check(g.flo.flo_id() == id, "id", || "the identifier has changed".into())?;
    c.check(g.flo.realm_id() == old.realm_id() && g.flo.flo_type() == old.flo_type() && g.flo.flo_config() == old.flo_config(), "kept", || "an update changed realm, type or configuration".into())?;
    c.check(verified(&g.flo), "update-verify", || format!("an updated Flo with {} does not verify: {:?}", show(&g.cond), g.flo.verify()))
}
fn to_json(f: &Flo) -> Value {
    serde_json::to_value(f).unwrap()
}
fn fields(v: &mut Value) -> &mut serde_json::Map<String, Value> {
    v.as_object_mut().unwrap().values_mut().next().unwrap().as_object_mut().unwrap()
}
fn from_json(v: Value) -> Option<Flo> {
    serde_json::from_value(v).ok()
}

/// Everything which was signed is protected: no change to an authentic Flo goes unnoticed.
pub fn f01(c: &mut Case) -> Res {
    let g = good_flo(c)?;
    let other = good_flo(c)?;
    for _ in 0..6 {
        let mut v = to_json(&g.flo);
        let o = fields(&mut to_json(&other.flo)).clone();
        let f = fields(&mut v);
        let n = f["cond_update"].as_array().unwrap().len();
        let open = |x: &Condition| holds(x, &|_| false);
        // Changes which no signature has to notice because none is needed.
        let last_open = open(&g.cond);
        let must_fail;
        let what;
        match c.range(0, 11) {
            0 => {
                what = "the data";
                f["data"] = json!("a474686973");
                must_fail = !last_open;
            }
            1 => {
                what = "the version";
                f["data_version"] = json!(g.versions as u64 + c.range(1, 3) as u64);
                must_fail = !last_open;
            }
            2 => {
                what = "the type";
                f["flo_type"] = json!("other");
                must_fail = if g.flo.flo_config().force_id.is_some() { !cond_is_open(&f["cond_genesis"]["cond"]) } else { !conds_open(f) };
            }
            3 => {
                what = "the nonce";
                f["nonce"] = serde_json::to_value(rnd_u256(c)).unwrap();
                must_fail = if g.flo.flo_config().force_id.is_some() { !cond_is_open(&f["cond_genesis"]["cond"]) } else { !conds_open(f) };
            }
            4 => {
                what = "the configuration";
                f["flo_config"] = serde_json::to_value(FloConfig { cuckoo: Cuckoo::Duration(77), force_id: g.flo.flo_config().force_id }).unwrap();
                must_fail = if g.flo.flo_config().force_id.is_some() { !cond_is_open(&f["cond_genesis"]["cond"]) } else { !conds_open(f) };
            }
            5 => {
                what = "the data signature (of another Flo)";
                f["data_signature"] = o["data_signature"].clone();
                must_fail = !(open(&other.cond) && link(&other.cond) == link(&g.cond)) && other.flo != g.flo;
            }
            6 => {
                what = "the data signature (signed by nobody)";
                f["data_signature"] = serde_json::to_value(ConditionSignature::new(g.cond.clone())).unwrap();
                must_fail = !last_open;
            }
            7 => {
                what = "the data signature's condition";
                let mut cs: ConditionSignature = serde_json::from_value(f["data_signature"].clone()).unwrap();
                cs.condition = change(c, &g.cond);
                must_fail = link(&cs.condition) != link(&g.cond);
                f["data_signature"] = serde_json::to_value(cs).unwrap();
            }
            8 if n > 0 => {
                what = "the condition changes (the last one dropped)";
                f["cond_update"].as_array_mut().unwrap().pop();
                must_fail = !last_open || prev_link(f) != link(&g.cond);
            }
            9 if n > 0 => {
                what = "a condition (replaced by one of the attacker's)";
                let i = c.range(0, n - 1);
                let l = ConditionLink::Verifier(SIGNERS[c.range(0, 5)].get_id());
                let same = f["cond_update"][i]["cond"] == serde_json::to_value(&l).unwrap();
                f["cond_update"][i]["cond"] = serde_json::to_value(&l).unwrap();
                must_fail = !same;
            }
            10 if n > 1 => {
                what = "the order of the condition changes";
                let a = f["cond_update"].as_array_mut().unwrap();
                a.swap(0, 1);
                let first = cond_is_open(&a[0]["cond"]) && cond_is_open(&a[1]["cond"]);
                must_fail = a[0] != a[1] && !(first && cond_is_open(&f["cond_genesis"]["cond"]));
            }
            11 => {
                what = "the first condition";
                let l = ConditionLink::Verifier(SIGNERS[c.range(0, 5)].get_id());
                must_fail = f["cond_genesis"]["cond"] != serde_json::to_value(&l).unwrap();
                f["cond_genesis"]["cond"] = serde_json::to_value(&l).unwrap();
            }
            _ => {
                what = "nothing";
                must_fail = false;
            }
        }
        c.log(format!("changing {what}, must fail: {must_fail}"));
        c.count(if must_fail { "forgeries" } else { "not counted" });
        if let Some(x) = from_json(v) {
            c.check(!must_fail || !verified(&x), "forged", || format!("a Flo with {} verifies after changing {what}", show(&g.cond)))?;
            c.check(what != "nothing" || verified(&x), "unforged", || "an unchanged Flo does not verify".into())?;
        } else {
            c.count("unreadable");
        }
    }
    // Somebody who may not changes the condition.
    let mut cond = rnd_cond(c, 1, false);
    if !plain(&link(&cond)) {
        cond = Condition::Pass;
    }
    let few: Vec<&Signer> = g.who.iter().cloned().filter(|_| c.rng.gen_bool(0.5)).collect();
    let who: Vec<&Signer> = SIGNERS.iter().filter(|s| names(&cond, &s.get_id())).collect();
    let claimed = if c.chance(50) { g.cond.clone() } else { change(c, &g.cond) };
    let few: Vec<&Signer> = few.into_iter().filter(|s| names(&claimed, &s.get_id())).collect();
    if let Ok(f) = g.flo.update_cond_signers(claimed.clone(), cond.clone(), &few, &who) {
        let by = |k: &KeyPairID| few.iter().any(|s| &s.get_id() == k);
        let enough = link(&claimed) == link(&g.cond) && holds(&g.cond, &by);
        let new = holds(&cond, &|k| who.iter().any(|s| &s.get_id() == k));
        c.log(format!("condition {} to {} claiming {} by {} keys", show(&g.cond), show(&cond), show(&claimed), few.len()));
        c.count(if enough && new { "allowed changes" } else { "refused changes" });
        c.check(verified(&f) == (enough && new), if enough && new { "refused" } else { "taken-over" }, || format!("a change of the condition from {} to {}, signed by {} keys as {}, verifies: {}", show(&g.cond), show(&cond), few.len(), show(&claimed), verified(&f)))?;
    }
    Ok(())
}
fn cond_is_open(l: &Value) -> bool {
    let l: ConditionLink = serde_json::from_value(l.clone()).unwrap();
    link_open(&l)
}
fn link_open(l: &ConditionLink) -> bool {
    match l {
        ConditionLink::Pass => true,
        ConditionLink::NofT(t, v) => v.iter().filter(|x| link_open(x)).count() as u64 >= *t as u64,
        _ => false,
    }
}
/// No signature is needed for anything.
fn conds_open(f: &serde_json::Map<String, Value>) -> bool {
    cond_is_open(&f["cond_genesis"]["cond"]) && f["cond_update"].as_array().unwrap().iter().all(|x| cond_is_open(&x["cond"]))
}
fn prev_link(f: &serde_json::Map<String, Value>) -> ConditionLink {
    let v = f["cond_update"].as_array().unwrap().last().map(|x| x["cond"].clone()).unwrap_or(f["cond_genesis"]["cond"].clone());
    serde_json::from_value(v).unwrap()
}

pub fn f02(c: &mut Case) -> Res {
    let mut g = good_flo(c)?;
    for _ in 0..3 {
        step(c, &mut g)?;
        // An update which is not signed well enough is refused as a whole.
        let few: Vec<&Signer> = g.who.iter().cloned().filter(|_| c.rng.gen_bool(0.5)).collect();
        let enough = holds(&g.cond, &|k| few.iter().any(|s| &s.get_id() == k));
        let before = g.flo.clone();
        let r = g.flo.update_data_signers(g.cond.clone(), "few".to_string(), &few);
        c.count(if enough { "enough" } else { "not enough" });
        c.check(r.is_ok() == enough, if enough { "refused" } else { "accepted" }, || format!("an update of {} by {} keys: {:?}", show(&g.cond), few.len(), r.is_ok()))?;
        c.check(before == g.flo, "touched", || "the old Flo has changed".into())?;
        // An update prepared for another version or another Flo is refused unless nobody has to sign.
        let stranger = SIGNERS.iter().find(|s| !names(&g.cond, &s.get_id()));
        if let Some(s) = stranger {
            let r = g.flo.update_data_signers(g.cond.clone(), "x".to_string(), &[s]);
            c.check(r.is_err(), "stranger", || format!("a stranger updated {}", show(&g.cond)))?;
        }
        if let Ok(u) = g.flo.start_sign_data(g.cond.clone(), "late".to_string()) {
            let open = holds(&g.cond, &|_| false);
            let ok = g.flo.update_data(u).is_ok();
            c.check(ok == open, "unsigned", || format!("an unsigned update of {} is accepted: {ok}", show(&g.cond)))?;
        }
        // Signatures for one version are not good for the next.
        if let Ok(u) = g.flo.start_sign_data(Condition::Pass, "pass".to_string()) {
            let next = match g.flo.update_data_signers(g.cond.clone(), "between".to_string(), &g.who) {
                Ok(n) => n,
                Err(e) => return c.fail("update", format!("update fails {e}")),
            };
            c.check(next.update_data(u).is_err(), "stale", || "an update prepared for an older version is accepted".into())?;
            let (cc, ww) = flo_cond(c);
            let Ok(u) = g.flo.start_sign_data(Condition::Pass, "pass".to_string()) else { return Ok(()) };
            if let Ok(n) = g.flo.update_cond_signers(g.cond.clone(), cc, &g.who, &ww) {
                c.check(n.update_data(u).is_err(), "stale-cond", || "an update prepared before the condition changed is accepted".into())?;
            }
            let other = good_flo(c)?;
            let Ok(u) = g.flo.start_sign_data(Condition::Pass, "pass".to_string()) else { return Ok(()) };
            if other.flo.flo_id() != g.flo.flo_id() {
                c.check(other.flo.update_data(u).is_err(), "other-flo", || "an update prepared for another Flo is accepted".into())?;
            }
        }
    }
    Ok(())
}

pub fn f03(c: &mut Case) -> Res {
    let mut g = good_flo(c)?;
    for _ in 0..4 {
        step(c, &mut g)?;
        let stranger = SIGNERS.iter().find(|s| !names(&g.cond, &s.get_id()));
        if let Some(s) = stranger {
            let before = g.flo.clone();
            let (cc, ww) = flo_cond(c);
            let mut who = g.who.clone();
            let at = c.range(0, who.len());
            who.insert(at, s);
            let r = g.flo.update_cond_signers(g.cond.clone(), cc, &who, &ww);
            c.check(r.is_err() && before == g.flo, "stranger", || format!("a stranger changed the condition {}", show(&g.cond)))?;
            c.count("strangers");
        }
        // Without enough signatures the change is refused by everybody who verifies.
        let (cc, ww) = flo_cond(c);
        let few: Vec<&Signer> = g.who.iter().cloned().filter(|_| c.rng.gen_bool(0.5)).collect();
        let enough = holds(&g.cond, &|k| few.iter().any(|s| &s.get_id() == k));
        if let Ok(f) = g.flo.update_cond_signers(g.cond.clone(), cc.clone(), &few, &ww) {
            c.count(if enough { "enough" } else { "not enough" });
            c.check(verified(&f) == enough, if enough { "refused" } else { "taken-over" }, || format!("changing {} by {} keys verifies: {}", show(&g.cond), few.len(), verified(&f)))?;
            c.check(f.data() == g.flo.data() && f.version() == g.flo.version() && f.flo_id() == g.flo.flo_id() && f.cond() == &link(&cc), "cond", || "changing the condition changed something else".into())?;
        }
        if let Ok(u) = g.flo.start_sign_cond(g.cond.clone(), cc.clone()) {
            if let Ok(f) = g.flo.update_cond(u) {
                let open = holds(&g.cond, &|_| false) && holds(&cc, &|_| false);
                c.check(verified(&f) == open, "unsigned", || format!("an unsigned change of {} to {} verifies: {}", show(&g.cond), show(&cc), verified(&f)))?;
                c.check(f.cond() == &link(&cc) && f.data() == g.flo.data() && f.version() == g.flo.version(), "cond", || "changing the condition changed something else".into())?;
            }
        }
    }
    Ok(())
}

pub fn f04(c: &mut Case) -> Res {
    let (mut cond, mut who) = flo_cond(c);
    let realm = RealmID::from(rnd_u256(c));
    let data: Vec<String> = (0..c.range(0, 3)).map(|i| format!("x{i}")).collect();
    let force = rnd_u256(c);
    let w = FloWrapper::from_force_id(realm.clone(), data.clone(), force);
    let Ok(w) = w else { return c.fail("force_id", "from_force_id fails") };
    c.check(w.flo_id() == Flo::calc_flo_id(&force) && w.cache() == &data && w.realm_id() == realm, "force_id", || "a forced identifier is not used".into())?;
    let r = match c.range(0, 2) {
        0 => FloWrapper::from_type(realm.clone(), cond.clone(), data.clone(), &who),
        1 => FloWrapper::from_type_cuckoo(realm.clone(), cond.clone(), Cuckoo::Duration(1), data.clone(), &who),
        _ => FloWrapper::from_type_config(realm.clone(), cond.clone(), FloConfig { cuckoo: Cuckoo::None, force_id: Some(force) }, data.clone(), &who),
    };
    let mut w = match r {
        Ok(w) => w,
        Err(e) => return c.fail("new", format!("Creating a Flo with {} fails: {e}", show(&cond))),
    };
    let mut want = data;
    let (mut version, id) = (0, w.flo_id());
    for i in 0..c.range(1, 5) {
        let before = w.clone();
        match c.range(0, 4) {
            0 | 1 => {
                let few: Vec<&Signer> = if c.chance(70) { who.clone() } else { who.iter().cloned().filter(|_| c.rng.gen_bool(0.5)).collect() };
                let enough = holds(&cond, &|k| few.iter().any(|s| &s.get_id() == k));
                let r = w.edit_data_signers(cond.clone(), |d| d.push(format!("e{i}")), &few);
                c.log(format!("edit by {} keys: {}", few.len(), r.is_ok()));
                c.check(r.is_ok() == enough, if enough { "refused" } else { "accepted" }, || format!("an edit of {} by {} keys: {}", show(&cond), few.len(), r.is_ok()))?;
                if let Ok(n) = r {
                    w = n;
                    want.push(format!("e{i}"));
                    version += 1;
                }
            }
            2 => {
                let u = w.start_sign_data(cond.clone(), vec![format!("s{i}")]);
                let Ok(u) = u else { return c.fail("start", "start_sign_data fails") };
                let open = holds(&cond, &|_| false);
                let r = w.update_data(u);
                c.log(format!("unsigned update: {}", r.is_ok()));
                c.check(r.is_ok() == open, "unsigned", || format!("an unsigned update of {}: {}", show(&cond), r.is_ok()))?;
                if let Ok(n) = r {
                    w = n;
                    want = vec![format!("s{i}")];
                    version += 1;
                }
            }
            3 => {
                let (cc, ww) = flo_cond(c);
                let r = w.update_cond_signers(cond.clone(), cc.clone(), &who, &ww);
                c.log("new condition");
                let Ok(f) = r else { return c.fail("update-cond", "changing the condition fails") };
                c.check(w == before, "touched", || "changing the condition changed the old Flo".into())?;
                let Ok(n) = FloWrapper::<Vec<String>>::try_from(f) else { return c.fail("try_from", "the changed Flo cannot be read") };
                w = n;
                cond = cc;
                who = ww;
            }
            _ => {
                let u = w.start_sign_cond(cond.clone(), Condition::Pass);
                let Ok(u) = u else { return c.fail("start", "start_sign_cond fails") };
                let Ok(n) = w.update_cond(u) else { return c.fail("update-cond", "update_cond fails") };
                c.check(n.cache() == &want && n.version() == version && n.cond() == &ConditionLink::Pass, "cond", || "changing the condition changed something else".into())?;
            }
        }
        let dec = Vec::<String>::from_rmp_bytes("x", w.data());
        c.check(matches!(&dec, Ok(d) if d == w.cache()), "cache", || format!("the object {:?} is not what the data says: {dec:?}", w.cache()))?;
        c.check(w.cache() == &want, "object", || format!("the object is {:?}, should be {want:?}", w.cache()))?;
        c.check(w.version() == version && w.flo().version() == version, "version", || format!("the version is {}, should be {version}", w.version()))?;
        c.check(w.flo_id() == id && w.flo().flo_id() == id && w.realm_id() == realm && w.global_id() == w.flo().global_id() && w.cond() == &link(&cond), "ids", || "the identifiers or the condition are wrong".into())?;
        c.check(w.global_id().flo_id() == &id && w.global_id().realm_id() == &realm, "ids", || "the global identifier is wrong".into())?;
        c.check(w.verify().is_ok_and(|b| b), "verify", || format!("does not verify: {:?}", w.verify()))?;
        let spec = rnd_spec(c, BadgeID::from(*id.clone()));
        let other = BadgeID::from(rnd_u256(c));
        let spec = if c.chance(50) { spec } else { rnd_spec(c, other) };
        let fit = spec.id().to_bytes() == id.to_bytes() && takes(&spec, version);
        c.check(w.fits_version(&spec) == fit, "fits", || format!("fits_version({spec:?}) should be {fit}"))?;
        match FloWrapper::<Vec<String>>::try_from(w.flo().clone()) {
            Ok(r) => c.check(r == w, "try_from", || "reading the Flo gives another object".into())?,
            Err(e) => return c.fail("try_from", format!("the Flo cannot be read: {e}")),
        }
        c.check(FloWrapper::<String>::try_from(w.flo().clone()).is_err(), "wrong-type", || "a Flo is read as another type".into())?;
        c.check(FloWrapper::<Vec<kin_a::Text>>::try_from(w.flo().clone()).is_err(), "wrong-type", || "a Flo is read as a list of something else".into())?;
        c.check(FloWrapper::<std::collections::VecDeque<String>>::try_from(w.flo().clone()).is_err(), "wrong-type", || "a Flo is read as another kind of list".into())?;
        kin(c, &realm)?;
        let mut v = to_json(w.flo());
        fields(&mut v)["data"] = json!("c1");
        if let Some(f) = from_json(v) {
            c.check(FloWrapper::<Vec<String>>::try_from(f).is_err(), "bad-data", || "unreadable data is accepted".into())?;
        }
        c.count("steps");
    }
    Ok(())
}

// Types which are encoded in the same way and have similar names.
mod kin_a {
    #[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
    pub struct Text(pub String);
    #[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
    pub struct TextLong(pub String);
    #[allow(non_camel_case_types)]
    #[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
    pub struct TEXT(pub String);
}
mod kin_b {
    #[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
    pub struct Text(pub String);
}
fn kin(c: &mut Case, realm: &RealmID) -> Res {
    macro_rules! all {
        ($a:ty, $mk:expr, $($b:ty),*) => {{
            let Ok(w) = FloWrapper::<$a>::from_force_id(realm.clone(), $mk("t".to_string()), rnd_u256(c)) else { return c.fail("kin", "from_force_id fails") };
            c.check(FloWrapper::<$a>::try_from(w.flo().clone()).is_ok_and(|r| r == w), "kin", || "a Flo is not read as its own type".into())?;
            $(c.check(FloWrapper::<$b>::try_from(w.flo().clone()).is_err(), "wrong-type",
                || format!("a Flo of type {} is read as {}", std::any::type_name::<$a>(), std::any::type_name::<$b>()))?;)*
        }};
    }
    use {kin_a::{TextLong, TEXT}, kin_a::Text as Ta, kin_b::Text as Tb};
    all!(Ta, kin_a::Text, Tb, TextLong, TEXT, String);
    all!(Tb, kin_b::Text, Ta, TextLong, TEXT, String);
    all!(TextLong, kin_a::TextLong, Ta, Tb, TEXT, String);
    all!(String, |s| s, Ta, Tb);
    all!(Vec<Ta>, |s| vec![kin_a::Text(s)], Vec<Tb>, Vec<TEXT>, Vec<String>);
    all!(Option<Tb>, |s| Some(kin_b::Text(s)), Option<Ta>, Tb, Vec<Tb>);
    Ok(())
}
