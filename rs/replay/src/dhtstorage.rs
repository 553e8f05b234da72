//! V02: what is read from the storage of a node, and how a condition is resolved with it.
use crate::{Case, Res};
use flarch::{broker::Broker, data_storage::DataStorageTemp, nodeids::U256};
use flcrypto::{
    access::{BadgeID, Condition, ConditionLink, VersionSpec},
    signer::{KeyPairID, Signer, SignerTrait, Verifier, VerifierTrait},
    signer_ed25519::SignerEd25519,
};
use flmodules::{
    dht_storage::{
        broker::DHTStorage,
        core::{Cuckoo, DHTConfig, RealmConfig},
    },
    flo::{
        crypto::{BadgeCond, FloBadge, FloVerifier},
        flo::{Flo, FloID, FloWrapper},
        realm::{FloRealm, GlobalID, RealmID},
    },
};
use std::cell::RefCell;
use std::time::Duration;

const KEYS: usize = 4;
thread_local! {
    static SIGNERS: RefCell<Vec<Signer>> = const { RefCell::new(vec![]) };
}
fn verifiers() -> Vec<Verifier> {
    SIGNERS.with(|s| {
        let mut s = s.borrow_mut();
        while s.len() < KEYS {
            s.push(SignerEd25519::new());
        }
        s.iter().map(|s| s.verifier()).collect()
    })
}

#[derive(Clone, Debug)]
enum Link {
    Key(usize),
    Badge(usize, u32, u32),
    NofT(u32, Vec<Link>),
    Pass,
    Fail,
}
fn rnd_link(c: &mut Case, badges: usize, depth: usize) -> Link {
    match c.range(0, 9) {
        0 => Link::Pass,
        1 => Link::Fail,
        2 | 3 | 4 => Link::Key(c.range(0, KEYS - 1)),
        5 | 6 if badges > 0 => Link::Badge(c.range(0, badges - 1), c.range(0, 2) as u32, c.range(0, 3) as u32),
        7 | 8 | 9 if depth > 0 => {
            let l: Vec<Link> = (0..c.range(0, 3)).map(|_| rnd_link(c, badges, depth - 1)).collect();
            Link::NofT(c.range(0, l.len() + 1) as u32, l)
        }
        _ => Link::Key(c.range(0, KEYS - 1)),
    }
}
impl Link {
    fn spec(id: &BadgeID, kind: u32, v: u32) -> VersionSpec<BadgeID> {
        match kind {
            0 => VersionSpec::Minimal(id.clone(), v),
            1 => VersionSpec::Exact(id.clone(), v),
            _ => VersionSpec::Maximal(id.clone(), v),
        }
    }
    fn link(&self, keys: &[KeyPairID], ids: &[BadgeID]) -> ConditionLink {
        match self {
            Link::Key(k) => ConditionLink::Verifier(keys[*k].clone()),
            Link::Badge(b, kind, v) => ConditionLink::Badge(Link::spec(&ids[*b], *kind, *v)),
            Link::NofT(n, l) => ConditionLink::NofT(*n, l.iter().map(|l| l.link(keys, ids)).collect()),
            Link::Pass => ConditionLink::Pass,
            Link::Fail => ConditionLink::Fail,
        }
    }
}
/// What is stored.
struct World {
    keys: Vec<Verifier>,
    key_ids: Vec<KeyPairID>,
    /// Which verifier is found under the ID of this one, in the first realm.
    found: Vec<Option<usize>>,
    ids: Vec<BadgeID>,
    badges: Vec<Option<(u32, Link)>>,
}
impl World {
    fn badge(&self, b: usize, kind: u32, v: u32, inside: &[usize]) -> Option<&(u32, Link)> {
        self.badges[b].as_ref().filter(|_| !inside.contains(&b)).filter(|(has, _)| match kind {
            0 => *has >= v,
            1 => *has == v,
            _ => *has <= v,
        })
    }
    /// How much is looked up, and how much of it is missing.
    fn cost(&self, l: &Link, inside: &[usize]) -> (usize, usize) {
        match l {
            Link::Key(k) => (1, self.found[*k].is_none() as usize),
            Link::Badge(b, ..) if inside.contains(b) => (0, 0),
            Link::Badge(b, kind, v) => {
                let (mut n, mut m) = (1, self.badges[*b].is_none() as usize);
                if let Some((_, cond)) = self.badge(*b, *kind, *v, inside) {
                    let c = self.cost(cond, &[inside, &[*b]].concat());
                    n += c.0;
                    m += c.1;
                }
                (n, m)
            }
            Link::NofT(_, l) => l.iter().map(|l| self.cost(l, inside)).fold((0, 0), |a, b| (a.0 + b.0, a.1 + b.1)),
            _ => (0, 0),
        }
    }
    fn same(&self, l: &Link, inside: &[usize], got: &Condition) -> bool {
        match (l, got) {
            (Link::Key(k), Condition::Verifier(v)) => self.found[*k] == Some(*k) && *v == self.keys[*k],
            (Link::Key(k), Condition::NotAvailable) => self.found[*k] != Some(*k),
            (Link::Badge(b, kind, v), Condition::NotAvailable) => self.badge(*b, *kind, *v, inside).is_none(),
            (Link::Badge(b, kind, v), Condition::Badge(spec, badge)) => match self.badge(*b, *kind, *v, inside) {
                Some((version, cond)) => {
                    *spec == Link::spec(&self.ids[*b], *kind, *v)
                        && badge.id == self.ids[*b]
                        && badge.version == *version
                        && self.same(cond, &[inside, &[*b]].concat(), &badge.condition)
                }
                None => false,
            },
            (Link::NofT(n, l), Condition::NofT(m, g)) => n == m && l.len() == g.len() && l.iter().zip(g).all(|(l, g)| self.same(l, inside, g)),
            (Link::Pass, Condition::Pass) | (Link::Fail, Condition::Fail) => true,
            _ => false,
        }
    }
    /// Whether these keys fulfill the condition.
    fn passes(&self, l: &Link, inside: &[usize], signed: &[bool]) -> bool {
        match l {
            Link::Key(k) => self.found[*k] == Some(*k) && signed[*k],
            Link::Badge(b, kind, v) => self
                .badge(*b, *kind, *v, inside)
                .is_some_and(|(_, cond)| self.passes(cond, &[inside, &[*b]].concat(), signed)),
            Link::NofT(n, l) => l.iter().filter(|l| self.passes(l, inside, signed)).count() >= *n as usize,
            Link::Pass => true,
            Link::Fail => false,
        }
    }
}

async fn storage(timeout: u64) -> DHTStorage {
    let mut conf = DHTConfig::default(U256::zero());
    conf.timeout = timeout;
    DHTStorage::start(DataStorageTemp::new_box(), conf, Broker::new(), Broker::new()).await.unwrap()
}
/// Waits as long as needed for what is there, but not if nothing comes for what is missing.
const LONG: u64 = 3000;
const SHORT: u64 = 40;

pub fn v02(c: &mut Case) -> Res {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_time().build().unwrap();
    let res = match c.range(0, 2) {
        0 => rt.block_on(reading(c)),
        _ => rt.block_on(converting(c)),
    };
    rt.shutdown_background();
    res
}

fn realm(name: &str) -> FloRealm {
    FloRealm::new(name, Condition::Pass, RealmConfig { max_space: 1 << 30, max_flo_size: 1 << 20 }, &[]).unwrap()
}
fn badge(rid: &RealmID, cond: ConditionLink) -> FloBadge {
    FloBadge::from_type(rid.clone(), Condition::Pass, BadgeCond::new(cond), &[]).unwrap()
}
fn next(b: &FloBadge, cond: ConditionLink) -> FloBadge {
    b.edit_data_signers(Condition::Pass, |d| *d = BadgeCond::new(cond), &[]).unwrap()
}

async fn reading(c: &mut Case) -> Res {
    let mut ds = storage(20_000).await;
    let realms = [realm("a"), realm("b")];
    let rids: Vec<RealmID> = realms.iter().map(|r| r.realm_id()).collect();
    for r in &realms {
        ds.store_flo(r.flo().clone()).unwrap();
    }
    let got = ds.get_realm_ids().await;
    let all = |a: &[RealmID]| a.len() == 2 && rids.iter().all(|r| a.contains(r));
    c.check(got.as_ref().is_ok_and(|g| all(g)), "realms", || format!("two realms were stored, but the storage has {:?}", got.as_ref().map(|g| g.len())))?;
    // The same ID in two realms, with something else in it.
    let forced = U256::rnd();
    let ver = verifiers();
    let mut twins = vec![];
    for (i, rid) in rids.iter().enumerate() {
        let f = FloVerifier::from_force_id(rid.clone(), ver[i].clone(), forced).unwrap();
        ds.store_flo(f.flo().clone()).unwrap();
        twins.push(f);
    }
    let mut lone = vec![];
    for rid in &rids {
        let f = FloVerifier::from_force_id(rid.clone(), ver[2].clone(), U256::rnd()).unwrap();
        ds.store_flo(f.flo().clone()).unwrap();
        lone.push(f);
    }
    let mut flos: Vec<FloBadge> = vec![];
    let mut cuckoos: Vec<Vec<FloID>> = vec![];
    for step in 0..c.range(2, 14) {
        match c.range(0, 6) {
            0 | 1 if flos.len() < 5 => {
                let b = badge(&rids[c.range(0, 1)], ConditionLink::NofT(step as u32, vec![]));
                c.log(format!("store Flo {}", flos.len()));
                ds.store_flo(b.flo().clone()).unwrap();
                flos.push(b);
                cuckoos.push(vec![]);
            }
            2 | 3 if !flos.is_empty() => {
                let i = c.range(0, flos.len() - 1);
                flos[i] = next(&flos[i], ConditionLink::NofT(step as u32, vec![]));
                c.log(format!("store Flo {i} in version {}", flos[i].version()));
                ds.store_flo(flos[i].flo().clone()).unwrap();
                if c.chance(80) {
                    let got = ds.get_flo::<BadgeCond>(&flos[i].global_id()).await;
                    let got = got.map(|g| g.version()).map_err(|e| e.to_string());
                    c.check(got == Ok(flos[i].version()), "stale", || format!("version {} of a Flo was stored, then {got:?} was read", flos[i].version()))?;
                    c.count("read after a change");
                }
            }
            4 if !flos.is_empty() => {
                let i = c.range(0, flos.len() - 1);
                let f = FloBadge::from_type_cuckoo(flos[i].realm_id(), Condition::Pass, Cuckoo::Parent(flos[i].flo_id()), BadgeCond::new(ConditionLink::Pass), &[]).unwrap();
                c.log(format!("store a cuckoo of {i}"));
                cuckoos[i].push(f.flo_id());
                ds.store_flo(f.flo().clone()).unwrap();
            }
            5 if flos.len() > 1 => {
                // The answer to one must not be taken for the answer to the other.
                let (i, j) = (c.range(0, flos.len() - 1), c.range(0, flos.len() - 1));
                c.log(format!("read {i} and {j} at once"));
                let (mut d1, mut d2) = (ds.clone(), ds.clone());
                let ids = [flos[i].global_id(), flos[j].global_id()];
                let (a, b) = tokio::join!(d1.get_flo::<BadgeCond>(&ids[0]), d2.get_flo::<BadgeCond>(&ids[1]));
                for (k, g) in [(i, a), (j, b)] {
                    c.check(g.as_ref().is_ok_and(|g| g.flo() == flos[k].flo()), "other-flo", || format!("reading Flo {k} gave {:?}", g.as_ref().map(|g| g.global_id() == flos[k].global_id()).map_err(|e| e.to_string())))?;
                }
                let (a, b) = tokio::join!(d1.get_cuckoos(&ids[0]), d2.get_cuckoos(&ids[1]));
                for (k, g) in [(i, a), (j, b)] {
                    let ok = g.as_ref().is_ok_and(|g| g.len() == cuckoos[k].len() && cuckoos[k].iter().all(|i| g.contains(i)));
                    c.check(ok, "other-cuckoos", || format!("asking for the cuckoos of Flo {k}, which has {}, gave {:?}", cuckoos[k].len(), g.as_ref().map(|g| g.len()).map_err(|e| e.to_string())))?;
                }
                c.count("reads at once");
            }
            _ => {
                c.log("read the same ID in two realms at once");
                let (mut d1, mut d2) = (ds.clone(), ds.clone());
                let ids: Vec<GlobalID> = twins.iter().map(|t| t.global_id()).collect();
                let (a, b) = tokio::join!(d1.get_flo::<Verifier>(&ids[0]), d2.get_flo::<Verifier>(&ids[1]));
                for (k, g) in [(0, a), (1, b)] {
                    c.check(g.as_ref().is_ok_and(|g| g.flo() == twins[k].flo()), "other-realm", || format!("the Flo asked in realm {k} is of another realm or missing: {:?}", g.as_ref().map(|g| g.realm_id() == rids[k]).map_err(|e| e.to_string())))?;
                }
                // What is not stored does not become something else while waiting for it.
                let (i, r) = (c.range(0, 1), c.range(0, 1));
                c.log(format!("wait for what is only stored in realm {i}, while {} is read", if r == 0 { "it" } else { "another Flo" }));
                let missing = rids[1 - i].global_id(lone[i].flo_id());
                let id = if r == 0 { lone[i].global_id() } else { twins[i].global_id() };
                let wait = Duration::from_millis(30);
                let (a, b) = tokio::join!(d1.get_flo_timeout::<Verifier>(&missing, 30), d2.get_flo::<Verifier>(&id));
                c.check(a.is_err(), "not-stored", || "a Flo which is not stored was read".into())?;
                c.check(b.is_ok(), "other-realm", || "a Flo which is stored was not read".into())?;
                let (a, b) = tokio::join!(tokio::time::timeout(wait, d1.get_cuckoos(&missing)), d2.get_cuckoos(&id));
                c.check(a.is_err(), "not-stored", || "cuckoos of a Flo which is not stored were read".into())?;
                c.check(b.is_ok(), "other-cuckoos", || "the cuckoos of a Flo which is stored were not read".into())?;
                if let Some(f) = flos.first() {
                    let got = ds.get_flo::<Verifier>(&f.global_id()).await;
                    c.check(got.is_err(), "type", || "a badge was given out as a verifier".into())?;
                }
            }
        }
    }
    let want: Vec<&Flo> = flos.iter().map(|f| f.flo()).chain(twins.iter().chain(&lone).map(|f| f.flo())).chain(realms.iter().map(|f| f.flo())).collect();
    let n: usize = want.len() + cuckoos.iter().map(|c| c.len()).sum::<usize>();
    for _ in 0..5 {
        if let Ok(got) = ds.get_flos().await {
            let missing = want.iter().filter(|w| !got.contains(w)).count();
            return c.check(missing == 0 && got.len() == n, "flos", || format!("{n} Flos are stored, and the storage gives {}, without {missing} of them", got.len()));
        }
    }
    c.fail("flos", "the Flos of the storage cannot be read")
}

async fn converting(c: &mut Case) -> Res {
    let keys = verifiers();
    let key_ids: Vec<KeyPairID> = keys.iter().map(|k| k.get_id()).collect();
    let rids: Vec<FloRealm> = vec![realm("a"), realm("b")];
    let (rid, other) = (rids[0].realm_id(), rids[1].realm_id());
    let mut flos: Vec<Flo> = rids.iter().map(|r| r.flo().clone()).collect();
    let mut w = World { keys: keys.clone(), key_ids, found: vec![], ids: vec![], badges: vec![] };
    for k in 0..KEYS {
        let of: U256 = *w.key_ids[k].clone();
        let stored = match c.range(0, 9) {
            0..=6 => Some(k),
            7 => Some(c.range(0, KEYS - 1)),
            _ => None,
        };
        c.log(format!("key {k}: {stored:?} is stored"));
        if let Some(s) = stored {
            flos.push(FloWrapper::<Verifier>::from_force_id(rid.clone(), keys[s].clone(), of).unwrap().flo().clone());
        }
        if c.chance(30) {
            flos.push(FloVerifier::new(other.clone(), keys[k].clone()).flo().clone());
        }
        w.found.push(stored);
    }
    let n = c.range(0, 4);
    let first: Vec<FloBadge> = (0..n).map(|_| badge(&rid, ConditionLink::Pass)).collect();
    w.ids = first.iter().map(|b| (*b.flo_id()).into()).collect();
    for (i, b) in first.into_iter().enumerate() {
        let cond = rnd_link(c, n, 2);
        let mut b = b;
        for _ in 0..c.range(0, 1) {
            b = next(&b, ConditionLink::Fail);
        }
        b = next(&b, cond.link(&w.key_ids, &w.ids));
        let is_there = c.chance(90);
        c.log(format!("badge {i} in version {}: {cond:?}{}", b.version(), if is_there { "" } else { ", not stored" }));
        if is_there {
            flos.push(b.flo().clone());
            w.badges.push(Some((b.version(), cond)));
        } else {
            w.badges.push(None);
        }
    }
    let mut conds: Vec<Link> = vec![];
    for _ in 0..4 {
        let l = rnd_link(c, n, 2);
        let cost = w.cost(&l, &[]);
        if cost.0 <= 60 && cost.1 <= 2 {
            conds.push(l);
        }
    }
    for timeout in [SHORT, LONG] {
        let mut ds = storage(timeout).await;
        for f in &flos {
            ds.store_flo(f.clone()).unwrap();
        }
        let mut wrong = None;
        for l in &conds {
            let link = l.link(&w.key_ids, &w.ids);
            // Storing all of it is not part of the time.
            let _ = ds.get_flo_timeout::<Verifier>(&flos[0].global_id(), LONG).await;
            let got = match tokio::time::timeout(Duration::from_secs(15), ds.convert(&link, &rid)).await {
                Ok(got) => got,
                Err(_) if timeout == SHORT => {
                    return c.fail("endless", format!("the condition {l:?} is never resolved"));
                }
                Err(_) => continue,
            };
            c.count("conditions");
            if !w.same(l, &[], &got) {
                wrong = Some(("condition", format!("the condition {l:?} is resolved to {}", show(&got, &w))));
                break;
            }
            let signed: Vec<bool> = (0..KEYS).map(|k| c.chance(50) && w.found[k].is_some()).collect();
            let ids: Vec<&KeyPairID> = (0..KEYS).filter(|k| signed[*k]).map(|k| &w.key_ids[k]).collect();
            let can = got.can_sign(&ids);
            if can != w.passes(l, &[], &signed) {
                wrong = Some(("signers", format!("the condition {l:?} with the keys {signed:?} gives {can}")));
                break;
            }
        }
        match wrong {
            None => return Ok(()),
            Some((key, what)) if timeout == LONG => return c.fail(key, what),
            // Perhaps it was only too slow.
            _ => c.count("asked again"),
        }
    }
    Ok(())
}
fn show(c: &Condition, w: &World) -> String {
    match c {
        Condition::Verifier(v) => format!("Key({:?})", w.keys.iter().position(|k| k == v)),
        Condition::Badge(v, b) => format!("Badge({:?} in version {} of {:?}: {})", w.ids.iter().position(|i| *i == b.id), b.version, w.ids.iter().position(|i| *i == v.get_id()), show(&b.condition, w)),
        Condition::NofT(n, l) => format!("NofT({n}, [{}])", l.iter().map(|l| show(l, w)).collect::<Vec<_>>().join(", ")),
        Condition::NotAvailable => "NotAvailable".into(),
        Condition::Pass => "Pass".into(),
        Condition::Fail => "Fail".into(),
    }
}
