//! V01: finding blobs by their path, and the path of a blob.
use crate::gossip::rt;
use crate::{Case, Res};
use flarch::{broker::Broker, data_storage::DataStorageTemp, nodeids::U256};
use flcrypto::access::Condition;
use flmodules::{
    dht_storage::{broker::DHTStorage, core::{DHTConfig, RealmConfig}, realm_view::*},
    flo::{blob::*, realm::FloRealm},
};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::str::FromStr;

#[derive(Debug, Clone, Default, PartialEq)]
struct Model {
    path: Option<String>,
    parents: Vec<BlobID>,
    children: Vec<BlobID>,
    data: HashMap<String, Vec<u8>>,
}
impl std::fmt::Display for Model {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?} parents {} children {} data {}", self.path, list(&self.parents), list(&self.children), self.data.len())
    }
}
fn list(l: &[BlobID]) -> String {
    format!("[{}]", l.iter().map(|i| format!("{:02x}", i.to_bytes()[31])).collect::<Vec<_>>().join(" "))
}
pub fn id(i: usize) -> BlobID {
    BlobID::from_str(&format!("{:064x}", i)).unwrap()
}

const NAMES: &[&str] = &["root", "a", "b", "blog", "", "dahu", "a b", "ü", "A"];

fn change<B: BlobFamily + BlobPath>(c: &mut Case, b: &mut B, m: &mut Model, ids: usize) {
    let i = id(c.range(0, ids));
    match c.range(0, 11) {
        0 | 1 => {
            let n = NAMES[c.range(0, NAMES.len() - 1)];
            c.log(format!("set_path {n:?}"));
            b.set_path(n.into());
            m.path = Some(n.into());
        }
        2 | 3 => {
            c.log(format!("add_parent {}", list(&[i.clone()])));
            b.add_parent(i.clone());
            m.parents.push(i);
        }
        4 => {
            c.log(format!("rm_parent {}", list(&[i.clone()])));
            b.rm_parent(&i);
            m.parents.retain(|p| p != &i);
        }
        5 | 6 | 7 => {
            c.log(format!("add_child {}", list(&[i.clone()])));
            b.add_child(i.clone());
            m.children.push(i);
        }
        8 => {
            c.log(format!("rm_child {}", list(&[i.clone()])));
            b.rm_child(&i);
            m.children.retain(|p| p != &i);
        }
        9 => {
            let l: Vec<BlobID> = (0..c.range(0, 3)).map(|_| id(c.range(0, ids))).collect();
            if c.chance(50) {
                c.log(format!("set_parents {}", list(&l)));
                b.set_parents(l.clone());
                m.parents = l;
            } else {
                c.log(format!("set_children {}", list(&l)));
                b.set_children(l.clone());
                m.children = l;
            }
        }
        _ => {
            let k = ["index.html", "x", "parents"][c.range(0, 2)];
            let v = vec![7u8; c.range(0, 4)];
            c.log(format!("set_data {k:?}"));
            b.set_data(k.into(), v.clone().into());
            m.data.insert(k.into(), v);
        }
    }
}
fn same<B: BlobFamily + BlobPath>(c: &Case, b: &B, m: &Model) -> Res {
    let got = Model {
        path: b.get_path().cloned(),
        parents: b.get_parents(),
        children: b.get_children(),
        data: ["index.html", "x", "parents"].iter().filter_map(|k| b.get_data(k).map(|v| (k.to_string(), v.to_vec()))).collect(),
    };
    c.check(&got == m, "blob", || format!("the blob is {got} instead of {m}"))
}

thread_local! { static VIEW: RefCell<Option<(tokio::runtime::Runtime, RealmView)>> = const { RefCell::new(None) }; }
fn view() -> RealmView {
    VIEW.with(|v| {
        let mut v = v.borrow_mut();
        if v.is_none() {
            let rt = rt();
            let rv = rt.block_on(async {
                let mut conf = DHTConfig::default(U256::zero());
                conf.timeout = 100_000;
                let ds = DHTStorage::start(DataStorageTemp::new_box(), conf, Broker::new(), Broker::new()).await.unwrap();
                RealmViewBuilder::new(ds, "r".into(), Condition::Pass, vec![])
                    .root_http("root".into(), "".into(), None, Condition::Pass, vec![])
                    .root_tag("root".into(), None, Condition::Pass, vec![])
                    .build()
                    .await
                    .unwrap()
            });
            *v = Some((rt, rv));
        }
        v.as_ref().unwrap().1.clone()
    })
}

pub fn v01(c: &mut Case) -> Res {
    if c.chance(25) {
        let mut b = Blob::new("x");
        let mut m = Model::default();
        for _ in 0..c.range(1, 25) {
            change(c, &mut b, &mut m, 4);
            same(c, &b, &m)?;
            c.count("changes");
        }
        return Ok(());
    }
    let mut rv = view();
    rv.pages.storage.clear();
    rv.pages.cuckoos.clear();
    rv.tags.storage.clear();
    let n = c.range(1, 9);
    let realm = FloRealm::new("r", Condition::Pass, RealmConfig { max_space: 1000, max_flo_size: 1000 }, &[]).unwrap().realm_id();
    // A tree, which is then changed so that it can be anything.
    let mut models: HashMap<BlobID, Model> = HashMap::new();
    let mut pages: Vec<BlobID> = vec![];
    for i in 0..n {
        let most = if c.chance(60) { 3 } else { NAMES.len() - 1 };
        let name = NAMES[c.range(0, most)];
        let mut m = Model { path: Some(name.to_string()), ..Default::default() };
        let is_page = i == 0 || c.chance(75);
        if i > 0 && c.chance(90) {
            m.parents.push(id(c.range(0, i - 1)));
        }
        if is_page && i > 0 && !m.parents.is_empty() {
            if let Some(p) = models.get_mut(&m.parents[0]) {
                p.children.push(id(i));
            }
        }
        if is_page {
            pages.push(id(i));
        }
        models.insert(id(i), m);
    }
    for i in 0..n {
        let bid = id(i);
        let mut m = models[&bid].clone();
        if c.chance(20) {
            for _ in 0..c.range(1, 3) {
                let mut b = Blob::new("x");
                change(c, &mut b, &mut m, n);
            }
            m.data.clear();
        }
        let parents = (m.parents.clone(), c.chance(50));
        if pages.contains(&bid) {
            let p = FloBlobPage::new(realm.clone(), Condition::Pass, m.path.as_deref().unwrap_or("zz"), format!("{i}").into(), if parents.1 { parents.0.first().cloned() } else { None }, &[]).unwrap();
            let m2 = m.clone();
            let none = c.chance(6);
            let p = p.edit_data_signers(Condition::Pass, |b| { b.set_parents(m2.parents); b.set_children(m2.children); if none { b.values_mut().clear(); } }, &[]).unwrap();
            if none { m.path = None; }
            let shown = m.clone();
            m.data.insert("index.html".into(), format!("{i}").into_bytes());
            same(c, &p, &m)?;
            c.log(format!("page {i:02x}: {shown}"));
            if c.chance(95) { rv.pages.storage.insert(bid.clone(), p); } else { c.log("which is not here"); models.remove(&bid); pages.retain(|p| p != &bid); continue; }
        } else {
            let t = FloBlobTag::new(realm.clone(), Condition::Pass, m.path.as_deref().unwrap_or("zz"), None, &[]).unwrap();
            let m2 = m.clone();
            // The name of a new tag is not its path.
            if c.chance(20) { m.path = None; }
            let path = m.path.clone();
            let t = t.edit_data_signers(Condition::Pass, |b| { if let Some(p) = path { b.set_path(p) } b.set_parents(m2.parents); b.set_children(m2.children); }, &[]).unwrap();
            same(c, &t, &m)?;
            c.log(format!("tag {i:02x}: {m}"));
            rv.tags.storage.insert(bid.clone(), t);
        }
        models.insert(bid, m);
    }
    for _ in 0..c.range(0, 4) {
        let (k, v) = (id(c.range(0, n)), id(c.range(0, n)));
        c.log(format!("cuckoo {} of {}", list(&[v.clone()]), list(&[k.clone()])));
        rv.pages.cuckoos.entry(k).or_default().push(v);
    }
    let root = if c.chance(85) { 0 } else { c.range(0, n) };
    rv.pages.root = id(root);
    rv.tags.root = id(c.range(0, n));
    c.log(format!("root {root:02x}"));

    // Every page and tag has the path of its parents.
    let full = |b: &BlobID| -> Option<String> {
        let mut seen = HashSet::new();
        let mut m = models.get(b)?;
        let mut f = format!("/{}", m.path.clone()?);
        while let Some(p) = m.parents.first() {
            if !seen.insert(p.clone()) {
                return None;
            }
            m = models.get(p)?;
            f = format!("/{}{f}", m.path.clone()?);
        }
        Some(f)
    };
    for i in 0..=n {
        let (got, want) = (rv.get_full_path_id(&id(i)), full(&id(i)));
        c.check(got.as_ref().ok() == want.as_ref(), "full", || format!("the full path of {i:02x} is {got:?} instead of {want:?}"))?;
        if let Some(p) = rv.pages.storage.get(&id(i)) {
            let got = rv.get_full_path_blob(p);
            c.check(got.as_ref().ok() == want.as_ref(), "full", || format!("the full path of the page {i:02x} is {got:?} instead of {want:?}"))?;
        }
        if let Some(p) = rv.tags.storage.get(&id(i)) {
            let got = rv.get_full_path_blob(p);
            c.check(got.as_ref().ok() == want.as_ref(), "full", || format!("the full path of the tag {i:02x} is {got:?} instead of {want:?}"))?;
        }
        let b = rv.get_blob_path_family(&id(i)).map(|b| (b.get_path().cloned(), b.get_parents(), b.get_children()));
        let m = models.get(&id(i)).map(|m| (m.path.clone(), m.parents.clone(), m.children.clone()));
        c.check(b == m, "blob", || format!("the blob {i:02x} is another one"))?;
        c.count(if want.is_some() { "full paths" } else { "no full paths" });
    }
    // Every path is looked up part by part.
    let page = |b: &BlobID| -> Option<&Model> { pages.contains(b).then(|| models.get(b)).flatten() };
    let look = |path: &str| -> Option<BlobID> {
        let mut curr = vec![rv.pages.root.clone()];
        let parts: Vec<&str> = path.trim_start_matches('/').split('/').collect();
        for (i, part) in parts.iter().enumerate() {
            let mut ids = vec![];
            for b in &curr {
                ids.push(b.clone());
                ids.extend(rv.pages.cuckoos.get(b).cloned().unwrap_or_default());
            }
            let hit = ids.into_iter().find(|b| page(b).is_some_and(|m| m.path.as_deref() == Some(part)))?;
            if i + 1 == parts.len() {
                return Some(hit);
            }
            curr = page(&hit)?.children.clone();
        }
        None
    };
    let rootp = rv.get_root_page().map(|f| f.flo_id());
    c.check(rootp == rv.pages.storage.get(&rv.pages.root).map(|f| f.flo_id()), "root", || "another root page".into())?;
    let roott = rv.get_root_tag().map(|f| f.flo_id());
    c.check(roott == rv.tags.storage.get(&rv.tags.root).map(|f| f.flo_id()), "root", || "another root tag".into())?;
    let mut paths: Vec<String> = (0..n).filter_map(|i| full(&id(i))).collect();
    for _ in 0..6 {
        // Down from the root.
        let mut p = String::new();
        let mut cur = rv.pages.root.clone();
        for d in 0..c.range(1, 5) {
            if let (true, Some(cs)) = (c.chance(30), rv.pages.cuckoos.get(&cur)) {
                cur = cs[c.range(0, cs.len() - 1)].clone();
            }
            let Some(m) = page(&cur) else { break };
            if d > 0 || c.chance(40) { p += "/"; }
            p += m.path.as_deref().unwrap_or("");
            if m.children.is_empty() { break; }
            cur = m.children[c.range(0, m.children.len() - 1)].clone();
        }
        if c.chance(10) { p += "/"; }
        if c.chance(10) { p = format!("/{p}"); }
        paths.push(p);
    }
    for _ in 0..3 {
        paths.push((0..c.range(1, 3)).map(|_| NAMES[c.range(0, NAMES.len() - 1)]).collect::<Vec<_>>().join("/"));
    }
    for p in &paths {
        let want = look(p);
        let got = rv.pages.get_path(p).ok().map(|f| f.flo_id());
        let want_id = want.as_ref().map(|w| rv.pages.storage[w].flo_id());
        c.check(got == want_id, "path", || format!("{p:?} is {:?} instead of {:?}", got.map(|g| rv.pages.storage.iter().find(|(_, f)| f.flo_id() == g).map(|(k, _)| list(&[k.clone()]))), want.as_ref().map(|w| list(&[w.clone()]))))?;
        let got = rv.get_page_from_path(p).ok().map(|f| f.flo_id());
        c.check(got == want_id, "path", || format!("the page of {p:?} is another one"))?;
        c.count(if want.is_some() { "found" } else { "not found" });
        // A new page at this path.
        let new = ["new", "x y", "ö", ""][c.range(0, 3)];
        let q = format!("{}{}/{new}", if p.starts_with('/') { "" } else { "/" }, p);
        let want = if new.is_empty() { None } else { look(&q[..q.len() - new.len() - 1]).map(|w| (rv.pages.storage[&w].flo_id(), new.to_string())) };
        let got = rv.get_page_parent_remaining(&q).ok().map(|(f, r)| (f.flo_id(), r));
        c.check(got == want, "parent", || format!("the parent and rest of {q:?} are {got:?} instead of {want:?}"))?;
    }
    Ok(())
}
