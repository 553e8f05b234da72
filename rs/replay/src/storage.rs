//! S01-S05: the storage of a realm, driven through its public functions.
use crate::{Case, Fail, Res};
use flarch::nodeids::U256;
use flcrypto::access::Condition;
use flcrypto::tofrombytes::ToFromBytes;
use flmodules::dht_router::kademlia::KNode;
use flmodules::dht_storage::core::{Cuckoo, DHTConfig, FloConfig, FloMeta, RealmConfig, RealmStorage};
use flmodules::flo::flo::{Flo, FloID};
use flmodules::flo::realm::{FloRealm, RealmID};
use rand::Rng;
use std::collections::{BTreeMap, BTreeSet};

type Snap = BTreeMap<U256, (Flo, Vec<FloID>)>;

pub fn rnd_u256(c: &mut Case) -> U256 {
    let b: [u8; 32] = c.rng.gen();
    u256(b)
}
pub fn u256(b: [u8; 32]) -> U256 {
    use std::str::FromStr;
    let s: String = b.iter().map(|x| format!("{x:02x}")).collect();
    U256::from_str(&s).expect("64 hex digits")
}
pub fn depth(a: &U256, b: &U256) -> usize {
    let (a, b) = (a.to_bytes(), b.to_bytes());
    let mut n = 0;
    for i in 0..256 {
        if (a[i / 8] ^ b[i / 8]) >> (7 - i % 8) & 1 == 1 {
            break;
        }
        n += 1;
    }
    n.min(255)
}
/// What a stored Flo takes: the same fields as the storage keeps, encoded the same way.
fn stored_size(f: &Flo, cuckoos: &[FloID]) -> u64 {
    let now: i64 = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as i64;
    (f.clone(), cuckoos.to_vec(), now, 0i64, 0i64, 0i64).size() as u64
}
fn snap(s: &RealmStorage) -> Snap {
    s.get_all_flo_cuckoos().into_iter().map(|(f, c)| (*f.flo_id(), (f, c))).collect()
}
fn total(s: &Snap) -> u64 {
    s.values().map(|(f, c)| stored_size(f, c)).sum()
}
fn sh(u: &U256) -> String {
    format!("{u}")[..6].to_string()
}

struct World {
    our: U256,
    realm: FloRealm,
    rid: RealmID,
    /// versions[i][v]
    flos: Vec<Vec<Flo>>,
    cfg: RealmConfig,
}

fn flo(c: &mut Case, w: &World, near: usize, cuckoo: Cuckoo) -> Flo {
    // The ID is a hash, so a wanted distance has to be found by trying.
    let len = if c.chance(20) { c.range(0, 2000) } else { c.range(0, 60) };
    let data = "x".repeat(len);
    let mut best: Option<(usize, U256)> = None;
    for _ in 0..40 {
        let h = rnd_u256(c);
        let d = depth(&w.our, &Flo::calc_flo_id(&h));
        let dist = d.abs_diff(near);
        if best.map(|(b, _)| dist < b).unwrap_or(true) {
            best = Some((dist, h));
        }
        if dist == 0 {
            break;
        }
    }
    let cond = if c.chance(80) { Condition::Pass } else { Condition::Fail };
    Flo::new_signer(w.rid.clone(), cond, &data, FloConfig { cuckoo, force_id: best.map(|b| b.1) }, &[]).unwrap()
}
fn bump(c: &mut Case, f: &Flo) -> Option<Flo> {
    let len = if c.chance(25) { c.range(0, 3000) } else { c.range(0, 60) };
    f.update_data_signers(Condition::Pass, "y".repeat(len), &[]).ok()
}

fn world(c: &mut Case) -> World {
    let our = rnd_u256(c);
    let max_space = match c.range(0, 5) {
        0 => c.range(0, 1200) as u64,
        1 => c.range(800, 3000) as u64,
        2 | 3 => c.range(3, 9) as u64 * 550,
        4 => c.range(5000, 30000) as u64,
        _ => 1 << 40,
    };
    let cfg = RealmConfig { max_space, max_flo_size: 1000 };
    let want = c.range(0, 4);
    let mut realm;
    let mut tries = 0;
    loop {
        realm = FloRealm::new("root", Condition::Pass, cfg.clone(), &[]).unwrap();
        tries += 1;
        if depth(&our, &realm.flo_id()) == want || tries > 30 {
            break;
        }
    }
    let rid = realm.realm_id();
    let mut w = World { our, realm, rid, flos: vec![], cfg };
    let n = if c.chance(70) { c.range(7, 16) } else { c.range(1, 7) };
    for _ in 0..n {
        let near = c.range(0, 4);
        let cuckoo = match c.range(0, 5) {
            0 | 1 if !w.flos.is_empty() => {
                let p = c.range(0, w.flos.len() - 1);
                Cuckoo::Parent(w.flos[p][0].flo_id())
            }
            2 => Cuckoo::Duration(c.range(0, 100) as u32),
            _ => Cuckoo::None,
        };
        let mut vs = vec![flo(c, &w, near, cuckoo)];
        for _ in 0..c.range(0, 3) {
            // Now and then another Flo with the same version.
            let from = if c.chance(30) { c.range(0, vs.len() - 1) } else { vs.len() - 1 };
            match bump(c, &vs[from]) {
                Some(f) => vs.push(f),
                None => break,
            }
        }
        w.flos.push(vs);
    }
    // The realm can be updated as well.
    let mut vs = vec![w.realm.flo().clone()];
    if c.chance(40) {
        if let Ok(r) = w.realm.edit_data_signers(Condition::Pass, |r| r.set_service("http", RealmID::rnd().to_bytes_id()), &[]) {
            vs.push(r.flo().clone());
        }
    }
    w.flos.push(vs);
    w
}
trait ToID {
    fn to_bytes_id(&self) -> FloID;
}
impl ToID for RealmID {
    fn to_bytes_id(&self) -> FloID {
        (**self).into()
    }
}

struct Which {
    s01: bool,
    s02: bool,
    s03: bool,
    s04: bool,
    s05: bool,
}

fn always(c: &Case, w: &World, st: &RealmStorage, n: &Snap, k: &Which) -> Res {
    if k.s01 {
        let t = total(n);
        c.check(st.size == t, "size", || format!("the storage counts {} bytes, but its Flos take {t}", st.size))?;
        c.check(
            st.size <= w.cfg.max_space || n.keys().all(|i| *i == *w.rid),
            "limit",
            || format!("{} bytes are stored, but only {} are allowed", st.size, w.cfg.max_space),
        )?;
        c.check(st.flo_count() == n.len() && st.get_all_flo_cuckoos().len() == n.len(), "count", || {
            format!("flo_count() is {}, but there are {} Flos", st.flo_count(), n.len())
        })?;
        let mut by: BTreeMap<usize, usize> = BTreeMap::new();
        for i in n.keys() {
            *by.entry(depth(&w.our, i)).or_insert(0) += 1;
        }
        let want: Vec<usize> = by.values().cloned().collect();
        let got: Vec<usize> = st.flo_distribution().into_iter().filter(|x| *x > 0).collect();
        c.check(want == got, "distribution", || format!("Flos by distance: stored {want:?}, counted {got:?}"))?;
    }
    for (i, (f, cu)) in n {
        let g = st.get_flo_cuckoo(&(*i).into());
        c.check(g.as_ref().map(|g| &g.0 == f && &g.1 == cu) == Some(true), "lookup", || format!("{} is not found under its ID", sh(i)))?;
        if k.s03 {
            let s: BTreeSet<_> = cu.iter().map(|x| **x).collect();
            c.check(s.len() == cu.len(), "duplicate-cuckoo", || format!("cuckoo listed twice in {}", sh(i)))?;
            let ids = st.get_cuckoo_ids(&(*i).into());
            c.check(ids.as_ref() == Some(cu), "cuckoo-ids", || format!("get_cuckoo_ids of {} is {ids:?}", sh(i)))?;
        }
    }
    if k.s05 {
        let mut m: Vec<(U256, u32, u32)> = st.get_flo_metas().into_iter().map(|m| (*m.id, m.version, m.cuckoos)).collect();
        m.sort();
        let want: Vec<(U256, u32, u32)> = n.iter().map(|(i, (f, cu))| (*i, f.version(), cu.len() as u32)).collect();
        c.check(m == want, "metas", || format!("announced {m:?}, stored {want:?}"))?;
    }
    Ok(())
}

fn run(c: &mut Case, k: Which) -> Res {
    let w = world(c);
    let mut st = RealmStorage::new(DHTConfig::default(w.our), w.realm.clone()).unwrap();
    c.log(format!("our={} realm={} space={} flos={}", sh(&w.our), sh(&w.rid), w.cfg.max_space, w.flos.len()));
    let n0 = snap(&st);
    c.check(n0.len() == 1 && n0.contains_key(&*w.rid), "realm", || "a new storage doesn't hold exactly its realm".into())?;
    if st.size <= w.cfg.max_space {
        always(c, &w, &st, &n0, &k)?;
    }
    let ops = c.range(1, if c.thorough { 80 } else { 40 });
    for _ in 0..ops {
        let o = snap(&st);
        let osize = st.size;
        match c.range(0, 9) {
            0 => {
                let p = c.range(0, w.flos.len() - 1);
                let pid = w.flos[p][0].flo_id();
                let m = c.range(0, 4);
                let ids: Vec<FloID> = (0..m)
                    .map(|_| {
                        let i = c.range(0, w.flos.len() - 1);
                        if c.chance(30) { rnd_u256(c).into() } else { w.flos[i][0].flo_id() }
                    })
                    .collect();
                let before: u64 = total(&o);
                // The caller of store_cuckoo_ids does not ask for the limit to be enforced: only the accounting counts.
                c.log(format!("store_cuckoo_ids({}, {})", sh(&pid), ids.len()));
                if k.s04 || k.s01 {
                    // keep within the limit, so that the limit can be checked after every step
                    let growth: u64 = ids.len() as u64 * 80;
                    if before + growth > w.cfg.max_space {
                        continue;
                    }
                }
                st.store_cuckoo_ids(&pid, ids.clone());
                let n = snap(&st);
                c.check(n.len() == o.len(), "cuckoo-frame", || "store_cuckoo_ids changed the set of Flos".into())?;
                for (i, (f, cu)) in &o {
                    let (nf, ncu) = match n.get(i) {
                        Some(x) => x,
                        None => return c.fail("cuckoo-frame", "store_cuckoo_ids dropped a Flo"),
                    };
                    c.check(nf == f, "cuckoo-frame", || "store_cuckoo_ids changed a Flo".into())?;
                    if k.s03 {
                        let mut want = cu.clone();
                        if *i == *pid {
                            for x in &ids {
                                if !want.contains(x) {
                                    want.push(x.clone());
                                }
                            }
                        }
                        let a: BTreeSet<_> = want.iter().map(|x| **x).collect();
                        let b: BTreeSet<_> = ncu.iter().map(|x| **x).collect();
                        c.check(a == b, "cuckoos", || format!("cuckoos of {}: {} instead of {}", sh(i), b.len(), a.len()))?;
                    }
                }
                let within = st.size <= w.cfg.max_space;
                if within {
                    always(c, &w, &st, &n, &k)?;
                } else if k.s01 {
                    c.check(st.size == total(&n), "size", || format!("the storage counts {} bytes, but its Flos take {}", st.size, total(&n)))?;
                }
                c.count("store_cuckoo_ids");
            }
            1 | 2 if k.s05 => {
                let mut l: Vec<FloMeta> = vec![];
                for _ in 0..c.range(0, 6) {
                    let i = c.range(0, w.flos.len() - 1);
                    let id = if c.chance(15) { rnd_u256(c).into() } else { w.flos[i][0].flo_id() };
                    let (mut v, mut cu) = o.get(&*id).map(|(f, cu)| (f.version() as i64, cu.len() as i64)).unwrap_or((0, 0));
                    v += c.range(0, 2) as i64 - 1;
                    cu += c.range(0, 2) as i64 - 1;
                    if c.chance(3) {
                        v = u32::MAX as i64;
                    }
                    if c.chance(3) {
                        cu = u32::MAX as i64;
                    }
                    l.push(FloMeta { id, version: v.max(0) as u32, cuckoos: cu.max(0) as u32 });
                }
                let want: BTreeSet<U256> = l
                    .iter()
                    .filter(|m| match o.get(&*m.id) {
                        None => true,
                        Some((f, cu)) => f.version() < m.version || (cu.len() as u32) < m.cuckoos,
                    })
                    .map(|m| *m.id)
                    .collect();
                let r = st.sync_available(&l);
                c.log(format!("sync_available({} metas)", l.len()));
                c.check(r.is_some() == !want.is_empty(), "sync-none", || format!("sync_available is {:?} for {} wanted", r.is_some(), want.len()))?;
                let got: BTreeSet<U256> = r.unwrap_or_default().into_iter().map(|i| *i).collect();
                c.check(got == want, "sync", || format!("asks for {got:?} instead of {want:?}"))?;
                c.count("sync_available");
            }
            _ => {
                let i = c.range(0, w.flos.len() - 1);
                let v = c.range(0, w.flos[i].len() - 1);
                let f = w.flos[i][v].clone();
                let id = f.flo_id();
                let d = depth(&w.our, &id);
                let r = st.upsert_flo(f.clone());
                let n = snap(&st);
                c.log(format!("upsert({} v{} d{} size{} {:?}) -> {r} stored={} size={}", sh(&id), f.version(), d, f.size(), f.flo_config().cuckoo_parent().map(|p| sh(p)), n.contains_key(&*id), st.size));
                c.count("upsert_flo");
                if o.keys().any(|k| !n.contains_key(k)) {
                    c.count("evictions");
                }
                always(c, &w, &st, &n, &k)?;
                let too_big = f.size() as u64 * 3 > w.cfg.max_space;
                if k.s02 {
                    for (j, (g, _)) in &n {
                        match o.get(j) {
                            None => c.check(*j == *id && *g == f, "appeared", || format!("{} was never stored", sh(j)))?,
                            Some((og, _)) => c.check(g == og || (*j == *id && *g == f && f.version() > og.version()), "version", || {
                                format!("{} went from version {} to {}", sh(j), og.version(), g.version())
                            })?,
                        }
                    }
                    if let (Some((og, _)), Some((ng, _))) = (o.get(&*id), n.get(&*id)) {
                        if og.version() < f.version() && !too_big {
                            c.check(*ng == f, "not-updated", || format!("version {} did not replace version {}", f.version(), og.version()))?;
                        }
                    }
                    let news = !too_big && o.get(&*id).map(|(g, _)| g.version() < f.version()).unwrap_or(true);
                    c.check(r == news, "return", || format!("upsert_flo returned {r}, the version is new: {news}"))?;
                }
                if k.s03 && !too_big {
                    for (j, (_, cu)) in &n {
                        let (_, ocu) = match o.get(j) {
                            Some(x) => x,
                            None => {
                                c.check(cu.is_empty(), "cuckoos", || "a new Flo has cuckoos".into())?;
                                continue;
                            }
                        };
                        let mut want: BTreeSet<U256> = ocu.iter().map(|x| **x).collect();
                        if f.flo_config().cuckoo_parent().map(|p| **p) == Some(*j) {
                            want.insert(*id);
                        }
                        let got: BTreeSet<U256> = cu.iter().map(|x| **x).collect();
                        c.check(want == got, "cuckoos", || format!("{} has {} cuckoos instead of {}", sh(j), got.len(), want.len()))?;
                    }
                }
                if k.s04 {
                    let gone: Vec<U256> = o.keys().filter(|j| !n.contains_key(j)).cloned().collect();
                    for e in &gone {
                        c.check(*e != *w.rid, "realm-dropped", || "the realm has been dropped".into())?;
                        for j in n.keys() {
                            c.check(*j == *w.rid || depth(&w.our, e) <= depth(&w.our, j), "order", || {
                                format!("dropped {} at depth {} but kept {} at depth {}", sh(e), depth(&w.our, e), sh(j), depth(&w.our, j))
                            })?;
                        }
                    }
                    let is_cuckoo = f.flo_config().cuckoo_parent().is_some();
                    let fs = stored_size(&f, &[]);
                    if !o.contains_key(&*id) && !is_cuckoo && !too_big && osize <= w.cfg.max_space {
                        for e in &gone {
                            c.check(depth(&w.our, e) < d, "displaced", || format!("a Flo at depth {d} took the place of one at depth {}", depth(&w.our, e)))?;
                        }
                        let above: u64 = o.iter().filter(|(j, _)| **j != *w.rid && depth(&w.our, j) < d).map(|(_, (g, cu))| stored_size(g, cu)).sum();
                        if osize + fs <= w.cfg.max_space {
                            c.check(n.contains_key(&*id) && gone.is_empty(), "refused", || "there is space, but the Flo has not been stored or something was dropped".into())?;
                        } else if fs <= above {
                            c.check(n.contains_key(&*id), "refused", || format!("a Flo at depth {d} was not stored, but {above} bytes are further away"))?;
                            c.count("displaced");
                        } else {
                            c.check(gone.is_empty(), "needless", || "Flos were dropped for one which is not stored".into())?;
                        }
                    }
                    if too_big {
                        c.check(n == o && !r, "too-big", || "a Flo which is too big changed the storage".into())?;
                    }
                    // No more is dropped than needed: the last one to go still was over the limit.
                    if let Some(small) = gone.iter().map(|e| stored_size(&o[e].0, &o[e].1)).min() {
                        c.check(st.size + small.max(1) + 80 > w.cfg.max_space || gone.len() > 1 || gone.contains(&*id), "too-much", || {
                            format!("dropped {small} bytes, but {} of {} are now used", st.size, w.cfg.max_space)
                        })?;
                    }
                }
            }
        }
    }
    let _ = KNode::get_depth;
    Ok(())
}

const NO: Which = Which { s01: false, s02: false, s03: false, s04: false, s05: false };
pub fn s01(c: &mut Case) -> Res {
    run(c, Which { s01: true, ..NO })
}
pub fn s02(c: &mut Case) -> Res {
    run(c, Which { s02: true, ..NO })
}
pub fn s03(c: &mut Case) -> Res {
    run(c, Which { s03: true, ..NO })
}
pub fn s04(c: &mut Case) -> Res {
    run(c, Which { s04: true, ..NO })
}
pub fn s05(c: &mut Case) -> Res {
    run(c, Which { s05: true, ..NO })
}
#[allow(dead_code)]
fn _unused(_: Fail) {}
