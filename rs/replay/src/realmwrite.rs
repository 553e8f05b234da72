//! V03: what is written through a view of a realm, and what another view of it shows.
use crate::{Case, Res};
use flarch::{broker::Broker, data_storage::DataStorageTemp, nodeids::U256};
use flcrypto::{
    access::Condition,
    signer::{Signer, SignerTrait},
    signer_ed25519::SignerEd25519,
};
use flmodules::{
    dht_storage::{
        broker::DHTStorage,
        core::{Cuckoo, DHTConfig, RealmConfig},
        realm_view::*,
    },
    flo::{blob::*, crypto::FloVerifier, flo::FloID, realm::FloRealm},
};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::str::FromStr;

const KEYS: usize = 3;
thread_local! {
    static SIGNERS: RefCell<Vec<Signer>> = const { RefCell::new(vec![]) };
}
fn keys() -> Vec<Signer> {
    SIGNERS.with(|s| {
        let mut s = s.borrow_mut();
        while s.len() < KEYS {
            s.push(SignerEd25519::new());
        }
        s.clone()
    })
}
/// So many of these keys are needed.
#[derive(Clone, Debug, PartialEq)]
struct Owner(usize, Vec<usize>);
impl Owner {
    fn rnd(c: &mut Case) -> Owner {
        if c.chance(60) {
            return Owner(c.range(1, 2), (0..KEYS).collect());
        }
        let mut ks = (0..KEYS).filter(|_| c.chance(50)).collect::<Vec<_>>();
        if ks.is_empty() {
            ks.push(c.range(0, KEYS - 1));
        }
        Owner(c.range(1, ks.len()), ks)
    }
    fn cond(&self) -> Condition {
        let vs = self.1.iter().map(|&k| Condition::Verifier(keys()[k].verifier())).collect::<Vec<_>>();
        if vs.len() == 1 {
            vs[0].clone()
        } else {
            Condition::NofT(self.0 as u32, vs)
        }
    }
    fn may(&self, by: &[usize]) -> bool {
        self.1.iter().filter(|k| by.contains(k)).count() >= self.0
    }
    /// Nobody else signs.
    fn only(&self, by: &[usize]) -> bool {
        by.iter().all(|k| self.1.contains(k))
    }
}
#[derive(Clone, Debug, PartialEq)]
struct Page {
    owner: Owner,
    version: u32,
    path: String,
    index: Vec<u8>,
    parents: Vec<BlobID>,
    children: Vec<BlobID>,
    cuckoo: Cuckoo,
}
fn short(id: &BlobID) -> String {
    format!("{id}").chars().take(6).collect()
}
fn seen(c: &Case, who: &str, id: &BlobID, f: Option<&FloBlobPage>, m: &Page) -> Res {
    let Some(f) = f else { return c.fail("missing", format!("{who}: the page {} is not there", short(id))) };
    c.check(&f.blob_id() == id, "id", || format!("{who}: {} is under the identifier of {}", short(&f.blob_id()), short(id)))?;
    c.check(f.version() == m.version, "version", || format!("{who}: page {} has version {} instead of {}", short(id), f.version(), m.version))?;
    c.check(f.get_path() == Some(&m.path), "path", || format!("{who}: page {} has the name {:?} instead of {:?}", short(id), f.get_path(), m.path))?;
    c.check(f.get_data("index.html").map(|b| b.to_vec()) == Some(m.index.clone()), "index", || format!("{who}: page {} has another content", short(id)))?;
    let l = |v: &[BlobID]| v.iter().map(short).collect::<Vec<_>>().join(" ");
    c.check(f.get_parents() == m.parents, "parents", || format!("{who}: page {} has the parents [{}] instead of [{}]", short(id), l(&f.get_parents()), l(&m.parents)))?;
    c.check(f.get_children() == m.children, "children", || format!("{who}: page {} has the children [{}] instead of [{}]", short(id), l(&f.get_children()), l(&m.children)))?;
    c.check(f.flo().flo_config().cuckoo == m.cuckoo, "cuckoo", || format!("{who}: page {} has another cuckoo", short(id)))
}

pub fn v03(c: &mut Case) -> Res {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_time().build().unwrap();
    let res = rt.block_on(writing(c));
    rt.shutdown_background();
    res
}

const NAMES: &[&str] = &["root", "a", "b", "blog", "", "ü"];

async fn writing(c: &mut Case) -> Res {
    let mut conf = DHTConfig::default(U256::zero());
    conf.timeout = 20_000;
    let mut ds = DHTStorage::start(DataStorageTemp::new_box(), conf, Broker::new(), Broker::new()).await.unwrap();
    let ks = keys();
    let by = |l: &[usize]| l.iter().map(|&k| ks[k].clone()).collect::<Vec<_>>();
    if c.chance(30) {
        // Another realm without services, which is no place for pages.
        let other = FloRealm::new("x", Condition::Pass, RealmConfig { max_space: 1 << 20, max_flo_size: 1 << 16 }, &[]).unwrap();
        ds.store_flo(other.into()).unwrap();
    }
    let conf = RealmConfig { max_space: 1 << 30, max_flo_size: 1 << 20 };
    let (ro, po, to) = (Owner::rnd(c), Owner::rnd(c), Owner::rnd(c));
    let (pn, tn) = (NAMES[c.range(0, NAMES.len() - 1)], NAMES[c.range(0, NAMES.len() - 1)]);
    let cuckoo = if c.chance(50) { Cuckoo::Duration(100_000) } else { Cuckoo::None };
    c.log(format!("realm of {ro:?}, page {pn:?} of {po:?} {cuckoo:?}, tag {tn:?} of {to:?}"));
    let b = RealmViewBuilder::new(ds.clone(), "r".into(), ro.cond(), by(&ro.1)).config(conf);
    let b = if cuckoo == Cuckoo::None && c.chance(50) {
        b.root_http(pn.into(), "<p>root".into(), None, po.cond(), by(&po.1))
    } else {
        b.root_http_cuckoo(pn.into(), "<p>root".into(), None, po.cond(), cuckoo.clone(), by(&po.1))
    };
    let b = if c.chance(50) { b.root_tag(tn.into(), None, to.cond(), by(&to.1)) } else { b.root_tag_cuckoo(tn.into(), None, to.cond(), Cuckoo::Duration(7), by(&to.1)) };
    let mut rv = match b.build().await {
        Ok(rv) => rv,
        Err(e) => return c.fail("build", format!("building a realm: {e:?}")),
    };
    let rid = rv.realm.realm_id();
    let root = rv.pages.root.clone();
    let mut pages: HashMap<BlobID, Page> = HashMap::new();
    let mut order = vec![root.clone()];
    pages.insert(root.clone(), Page { owner: po, version: 0, path: pn.into(), index: b"<p>root".to_vec(), parents: vec![], children: vec![], cuckoo });
    let mut tags: HashMap<BlobID, (String, Vec<BlobID>)> = HashMap::new();
    match rv.get_root_tag() {
        Some(t) => tags.insert(rv.tags.root.clone(), (t.values().get("name").cloned().unwrap_or_default(), t.get_parents())),
        None => return c.fail("root-tag", "a new realm has no root tag"),
    };
    let mut services: HashMap<String, FloID> = HashMap::new();
    services.insert("http".into(), (*root).into());
    services.insert("tag".into(), (*rv.tags.root).into());
    let mut realm_version = 1;
    for k in &ks {
        ds.store_flo(FloVerifier::new(rid.clone(), k.verifier()).into()).unwrap();
    }
    let mut other = match RealmView::new_from_id(ds.clone(), rid.clone()).await {
        Ok(v) => v,
        Err(e) => return c.fail("view", format!("a view of the new realm: {e:?}")),
    };
    for _ in 0..c.range(1, 12) {
        let most = if c.chance(50) { 100 } else { 60 };
        let l = (0..KEYS).filter(|_| c.chance(most)).collect::<Vec<_>>();
        let l = if l.is_empty() { vec![c.range(0, KEYS - 1)] } else { l };
        let signers = by(&l);
        let signers = signers.iter().collect::<Vec<_>>();
        // What exactly is done if somebody signs who needn't is not looked at.
        let clear = |o: &Owner| !o.may(&l) || o.only(&l);
        match c.range(0, 9) {
            0..=3 => {
                let parent = match c.range(0, 5) {
                    0 => None,
                    1 => Some(BlobID::from_str(&format!("{:064x}", c.range(1, 9))).unwrap()),
                    _ => Some(order[c.range(0, order.len() - 1)].clone()),
                };
                if parent.as_ref().and_then(|p| pages.get(p)).map(|p| !clear(&p.owner)).unwrap_or(false) {
                    continue;
                }
                let owner = Owner(c.range(1, l.len()), l.clone());
                let path = NAMES[c.range(0, NAMES.len() - 1)];
                let index = format!("<p>{}", c.range(0, 1000));
                let cuckoo = match c.range(0, 3) {
                    0 => Cuckoo::Duration(100_000),
                    1 => Cuckoo::Parent((*order[c.range(0, order.len() - 1)]).into()),
                    _ => Cuckoo::None,
                };
                c.log(format!("create {path:?} in {:?}, {cuckoo:?}, signed by {l:?}", parent.as_ref().map(short)));
                let f = if cuckoo == Cuckoo::None && c.chance(50) {
                    rv.create_http(path, index.clone(), parent.clone(), owner.cond(), &signers).await
                } else {
                    rv.create_http_cuckoo(path, index.clone(), parent.clone(), owner.cond(), cuckoo.clone(), &signers).await
                };
                let f = match f {
                    Ok(f) => f,
                    Err(e) => return c.fail("create", format!("creating a page: {e:?}")),
                };
                let id = f.blob_id();
                c.check(!pages.contains_key(&id), "twice", || format!("two new pages have the same identifier {}", short(&id)))?;
                let m = Page { owner, version: 0, path: path.into(), index: index.into_bytes(), parents: parent.iter().cloned().collect(), children: vec![], cuckoo };
                seen(c, "what was created", &id, Some(&f), &m)?;
                c.check(f.realm_id() == rid, "realm", || "a page was created in another realm".into())?;
                pages.insert(id.clone(), m);
                order.push(id.clone());
                if let Some(p) = parent.as_ref().and_then(|p| pages.get_mut(p)) {
                    if p.owner.may(&l) {
                        p.children.push(id);
                        p.version += 1;
                        c.count("linked");
                    }
                }
                c.count("created");
            }
            4..=6 => {
                let unknown = c.chance(8);
                let id = if unknown { BlobID::from_str(&format!("{:064x}", c.range(1, 9))).unwrap() } else { order[c.range(0, order.len() - 1)].clone() };
                let before = pages.get(&id).map(|p| p.parents.clone()).unwrap_or_default();
                let mut after = before.clone();
                let mut new = pages.get(&id).cloned();
                let what = c.range(0, 5);
                let target = order[c.range(0, order.len() - 1)].clone();
                match what {
                    0 | 4 if target != id => after = vec![target.clone()],
                    1 | 5 if target != id && !after.contains(&target) => after.push(target.clone()),
                    2 => after.retain(|p| p != &target),
                    _ => {}
                }
                let path = format!("n{}", c.range(0, 5));
                let touched = before.iter().chain(after.iter()).filter_map(|p| pages.get(p)).all(|p| clear(&p.owner));
                if !touched || new.as_ref().map(|p| !clear(&p.owner)).unwrap_or(false) || after.contains(&id) {
                    continue;
                }
                c.log(format!("update {} to {path:?} with the parents [{}], signed by {l:?}", short(&id), after.iter().map(short).collect::<Vec<_>>().join(" ")));
                let (p2, a2) = (path.clone(), after.clone());
                let res = rv.update_page(&id, |b| { b.set_path(p2); if a2 != before { b.set_parents(a2) } }, &signers).await;
                let may = new.as_ref().map(|p| p.owner.may(&l)).unwrap_or(false);
                match (res, may) {
                    (Err(_), false) => c.count("refused"),
                    (Ok(_), false) => return c.fail("not-refused", format!("page {} was changed by who may not", short(&id))),
                    (Err(e), true) => return c.fail("refused", format!("changing page {}: {e:?}", short(&id))),
                    (Ok(f), true) => {
                        let m = new.as_mut().unwrap();
                        m.version += 1;
                        m.path = path;
                        m.parents = after.clone();
                        seen(c, "what was changed", &id, Some(&f), m)?;
                        pages.insert(id.clone(), m.clone());
                        let (b, a) = (before.iter().cloned().collect::<HashSet<_>>(), after.iter().cloned().collect::<HashSet<_>>());
                        for (k, is) in b.difference(&a).map(|k| (k, false)).chain(a.difference(&b).map(|k| (k, true))) {
                            if let Some(p) = pages.get_mut(k).filter(|p| p.owner.may(&l)) {
                                p.children.retain(|x| x != &id);
                                if is {
                                    p.children.push(id.clone());
                                }
                                p.version += 1;
                                c.count("relinked");
                            }
                        }
                        c.count("changed");
                    }
                }
            }
            7 => {
                let parent = if c.chance(50) { None } else { Some(rv.tags.root.clone()) };
                let name = NAMES[c.range(0, NAMES.len() - 1)];
                let owner = Owner(1, l.clone());
                c.log(format!("tag {name:?} in {:?}", parent.as_ref().map(short)));
                let f = if c.chance(50) { rv.create_tag(name, parent.clone(), owner.cond(), &signers) } else { rv.create_tag_cuckoo(name, parent.clone(), owner.cond(), Cuckoo::Duration(5), &signers) };
                match f {
                    Ok(f) => tags.insert(f.blob_id(), (name.into(), parent.into_iter().collect())),
                    Err(e) => return c.fail("create-tag", format!("creating a tag: {e:?}")),
                };
            }
            8 => {
                if !clear(&ro) {
                    continue;
                }
                let id = order[c.range(0, order.len() - 1)].clone();
                let name = ["http", "tag", "x"][c.range(0, 2)];
                c.log(format!("service {name} is {}, signed by {l:?}", short(&id)));
                let before = rv.realm.clone();
                let res = match name {
                    "http" if c.chance(50) => rv.set_realm_http(id.clone(), &signers).await,
                    "tag" if c.chance(50) => rv.set_realm_tag(id.clone(), &signers).await,
                    _ => rv.set_realm_service(name, id.clone(), &signers).await,
                };
                c.check(res.is_ok() == ro.may(&l), "service", || format!("setting a service gives {res:?}"))?;
                if res.is_ok() {
                    services.insert(name.into(), (*id).into());
                    realm_version += 1;
                } else {
                    c.check(rv.realm == before, "service-refused", || "a refused service changed the realm".into())?;
                }
            }
            _ => {
                let id = order[c.range(0, order.len() - 1)].clone();
                c.log(format!("fetch {}", short(&id)));
                let before = other.pages.storage.keys().cloned().collect::<Vec<_>>();
                if let Err(e) = other.fetch_page(id.clone()).await {
                    return c.fail("fetch", format!("fetching a page: {e:?}"));
                }
                c.check(before.iter().all(|k| other.pages.storage.contains_key(k)), "lost", || "fetching a page loses another one".into())?;
                seen(c, "the page which was fetched", &id, other.pages.storage.get(&id), &pages[&id])?;
                let told = ds.get_cuckoos(&rid.global_id((*id).into())).await.unwrap_or_default();
                let told = told.into_iter().map(|i| BlobID::from(*i)).collect::<HashSet<_>>();
                let have = other.pages.cuckoos.get(&id).cloned().unwrap_or_default();
                c.check(have.iter().cloned().collect::<HashSet<_>>() == told && have.len() == told.len(), "cuckoos", || format!("{} cuckoos of {} instead of {}", have.len(), short(&id), told.len()))?;
                for k in &told {
                    if let Some(m) = pages.get(k) {
                        seen(c, "a cuckoo which was fetched", k, other.pages.storage.get(k), m)?;
                        c.count("cuckoos");
                    }
                }
                match other.pages.get_cuckoos(id.clone()).await {
                    Ok(l) => {
                        let l = l.into_iter().map(|f| f.blob_id()).collect::<Vec<_>>();
                        c.check(l.first() == Some(&id) && l.len() == have.len() + 1 && l[1..].iter().all(|k| have.contains(k)), "get-cuckoos", || format!("a page and its cuckoos are {} instead of {}", l.len(), have.len() + 1))?;
                    }
                    Err(e) => return c.fail("get-cuckoos", format!("{e:?}")),
                }
                c.count("fetched");
            }
        }
        // The view itself, and what is stored.
        c.check(rv.pages.storage.len() == pages.len(), "pages", || format!("the view has {} pages instead of {}", rv.pages.storage.len(), pages.len()))?;
        for id in &order {
            seen(c, "the view", id, rv.pages.storage.get(id), &pages[id])?;
        }
        same_tags(c, &rv, &tags)?;
    }
    for id in &order {
        match ds.get_flo::<BlobPage>(&rid.global_id((**id).into())).await {
            Ok(f) => {
                seen(c, "the storage", id, Some(&f), &pages[id])?;
                c.check(f.verify().is_ok(), "signed", || format!("page {} is stored without its signatures", short(id)))?;
                let cond = rv.get_cond(&f).await;
                c.check(cond == pages[id].owner.cond(), "condition", || format!("page {} has the condition {cond:?}", short(id)))?;
            }
            Err(e) => return c.fail("not-stored", format!("page {} is not stored: {e:?}", short(id))),
        }
    }
    let known = other.pages.storage.keys().cloned().collect::<Vec<_>>();
    if let Err(e) = other.update_all().await {
        return c.fail("update", format!("updating a view: {e:?}"));
    }
    for id in &known {
        if let Some(m) = pages.get(id) {
            seen(c, "the updated view", id, other.pages.storage.get(id), m)?;
        }
    }
    let r: HashMap<String, FloID> = services.clone();
    for (who, realm) in [("the view", &rv.realm), ("the updated view", &other.realm)] {
        c.check(realm.cache().get_services() == &r && realm.version() == realm_version && realm.realm_id() == rid, "realm", || format!("{who}: the realm has the services {:?} in version {} instead of {r:?} in version {realm_version}", realm.cache().get_services(), realm.version()))?;
    }
    // A new view starts with what the services of the realm are.
    let view = if c.chance(50) { RealmView::new_first(ds.clone()).await } else { RealmView::new_from_id(ds.clone(), rid.clone()).await };
    match view {
        Ok(v) => {
            c.check(v.realm.realm_id() == rid && FloID::from(*v.pages.root) == r["http"] && FloID::from(*v.tags.root) == r["tag"], "new-view", || "a new view doesn't start at the services of the realm".into())?;
            seen(c, "a new view", &v.pages.root, v.get_root_page(), &pages[&v.pages.root])?;
            for (k, f) in &v.pages.storage {
                c.check(&f.blob_id() == k, "new-view", || format!("{} is under the identifier of {}", short(&f.blob_id()), short(k)))?;
            }
        }
        Err(e) => return c.fail("new-view", format!("a new view: {e:?}")),
    }
    Ok(())
}

fn same_tags(c: &Case, rv: &RealmView, tags: &HashMap<BlobID, (String, Vec<BlobID>)>) -> Res {
    c.check(rv.tags.storage.len() == tags.len(), "tags", || format!("the view has {} tags instead of {}", rv.tags.storage.len(), tags.len()))?;
    for (id, (name, parents)) in tags {
        let t = rv.tags.storage.get(id);
        c.check(t.map(|t| &t.blob_id() == id && t.values().get("name") == Some(name) && &t.get_parents() == parents).unwrap_or(false), "tag", || format!("tag {} is not what was created", short(id)))?;
    }
    Ok(())
}
