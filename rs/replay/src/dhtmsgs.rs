//! S06, S07: what the storage of a node takes in, asks for and answers, and what is left of it after a restart.
use crate::gossip::{drain, quiet, rt};
use crate::storage::rnd_u256;
use crate::{Case, Res};
use flarch::{
    broker::Broker,
    data_storage::{DataStorage, DataStorageTemp},
    nodeids::{NodeID, U256},
};
use flcrypto::access::Condition;
use flmodules::{
    dht_router::broker::{BrokerDHTRouter, DHTRouterIn, DHTRouterOut},
    dht_storage::{
        broker::{DHTStorage, DHTStorageIn, DHTStorageOut},
        core::{Cuckoo, DHTConfig, FloConfig, FloCuckoo, FloMeta, RealmConfig, RealmStorage},
        intern::{MessageClosest, MessageDest, MessageNeighbour},
    },
    flo::{
        flo::{Flo, FloID},
        realm::{FloRealm, GlobalID, RealmID},
    },
    router::messages::NetworkWrapper,
    timer::{BrokerTimer, TimerMessage},
};
use serde::Serialize;
use std::collections::BTreeMap;
use tokio::sync::mpsc::UnboundedReceiver;

const MODULE: &str = "DHTStorage";

fn sh(u: &U256) -> String {
    format!("{u}")[..6].to_string()
}
fn wrap<T: Serialize>(m: &T) -> NetworkWrapper {
    NetworkWrapper::wrap_yaml(MODULE, m).unwrap()
}
/// Short, and the same for the same Flo only.
fn of_flo(f: &Flo) -> String {
    format!("{}/{}v{}#{}", sh(&f.realm_id()), sh(&f.flo_id()), f.version(), sh(&U256::hash_data(serde_yaml::to_string(f).unwrap().as_bytes())))
}
fn of_fc(f: &FloCuckoo) -> String {
    let mut c: Vec<String> = f.1.iter().map(|x| sh(x)).collect();
    c.sort();
    format!("{}+{c:?}", of_flo(&f.0))
}
fn of_gid(g: &GlobalID) -> String {
    format!("{}/{}", sh(g.realm_id()), sh(g.flo_id()))
}
fn list(v: impl Iterator<Item = String>) -> String {
    let mut v: Vec<String> = v.collect();
    v.sort();
    format!("{v:?}")
}
fn of_closest(m: &MessageClosest) -> String {
    match m {
        MessageClosest::StoreFlo(f) => format!("StoreFlo {}", of_flo(f)),
        MessageClosest::ReadFlo(r) => format!("ReadFlo in {}", sh(r)),
        MessageClosest::GetCuckooIDs(r) => format!("GetCuckooIDs in {}", sh(r)),
        MessageClosest::StoreCuckooID(g) => format!("StoreCuckooID {}", of_gid(g)),
    }
}
fn of_dest(m: &MessageDest) -> String {
    match m {
        MessageDest::FloValue(f) => format!("FloValue {}", of_fc(f)),
        MessageDest::UnknownFlo(g) => format!("UnknownFlo {}", of_gid(g)),
        MessageDest::CookooIDs(g, v) => format!("CuckooIDs {} {}", of_gid(g), list(v.iter().map(|x| sh(x)))),
    }
}
fn of_neighbour(m: &MessageNeighbour) -> String {
    match m {
        MessageNeighbour::RequestRealmIDs => "RequestRealmIDs".into(),
        MessageNeighbour::AvailableRealmIDs(v) => format!("AvailableRealmIDs {}", list(v.iter().map(|x| sh(x)))),
        MessageNeighbour::RequestFloMetas(r) => format!("RequestFloMetas {}", sh(r)),
        MessageNeighbour::AvailableFlos(r, v) => format!("AvailableFlos {} {}", sh(r), list(v.iter().map(|m| format!("{}v{}c{}", sh(&m.id), m.version, m.cuckoos)))),
        MessageNeighbour::RequestFlos(r, v) => format!("RequestFlos {} {}", sh(r), list(v.iter().map(|x| sh(x)))),
        MessageNeighbour::Flos(v) => format!("Flos {}", list(v.iter().map(of_fc))),
    }
}
fn of_out(m: &DHTStorageOut) -> String {
    match m {
        DHTStorageOut::FloValue(f) => format!("told FloValue {}", of_fc(f)),
        DHTStorageOut::FloValues(v) => format!("told FloValues {}", list(v.iter().map(of_fc))),
        DHTStorageOut::RealmIDs(v) => format!("told RealmIDs {}", list(v.iter().map(|x| sh(x)))),
        DHTStorageOut::CuckooIDs(g, v) => format!("told CuckooIDs {} {}", of_gid(g), list(v.iter().map(|x| sh(x)))),
        DHTStorageOut::ValueMissing(g) => format!("told ValueMissing {}", of_gid(g)),
    }
}
fn closest(dst: &U256, m: &MessageClosest) -> String {
    format!("closest {}: {}", sh(dst), of_closest(m))
}
fn direct(dst: &U256, m: &MessageDest) -> String {
    format!("direct {}: {}", sh(dst), of_dest(m))
}
fn neighbour(dst: &U256, m: &MessageNeighbour) -> String {
    format!("neighbour {}: {}", sh(dst), of_neighbour(m))
}

/// The module under test.
struct Node {
    router: BrokerDHTRouter,
    sent: UnboundedReceiver<DHTRouterIn>,
    timer: BrokerTimer,
    b: DHTStorage,
    told: UnboundedReceiver<DHTStorageOut>,
}
impl Node {
    async fn new(ds: Box<dyn DataStorage + Send>, cfg: DHTConfig) -> Result<Node, String> {
        let mut router: BrokerDHTRouter = Broker::new();
        let sent = router.get_tap_in().await.map_err(|e| format!("{e}"))?.0;
        let timer = Broker::new();
        let mut b = DHTStorage::start(ds, cfg, timer.clone(), router.clone()).await.map_err(|e| format!("{e}"))?;
        let told = b.broker.get_tap_out().await.map_err(|e| format!("{e}"))?.0;
        quiet().await;
        Ok(Node { router, sent, timer, b, told })
    }
    fn from(&mut self, m: DHTRouterOut) -> Result<(), String> {
        self.router.emit_msg_out(m).map_err(|e| format!("the storage is gone: {e}"))
    }
    fn ask(&mut self, m: DHTStorageIn) -> Result<(), String> {
        self.b.broker.emit_msg_in(m).map_err(|e| format!("the storage is gone: {e}"))
    }
    async fn outs(&mut self) -> Vec<String> {
        quiet().await;
        let mut v: Vec<String> = drain(&mut self.sent)
            .into_iter()
            .map(|m| match &m {
                DHTRouterIn::MessageBroadcast(w) => w.unwrap_yaml(MODULE).map(|m| format!("all: {}", of_neighbour(&m))),
                DHTRouterIn::MessageClosest(d, w) => w.unwrap_yaml(MODULE).map(|m| closest(d, &m)),
                DHTRouterIn::MessageDirect(d, w) => w.unwrap_yaml(MODULE).map(|m| direct(d, &m)),
                DHTRouterIn::MessageNeighbour(d, w) => w.unwrap_yaml(MODULE).map(|m| neighbour(d, &m)),
            }
            .unwrap_or(format!("unreadable {m:?}")))
            .collect();
        v.extend(drain(&mut self.told).iter().map(of_out));
        v.sort();
        v
    }
}

/// What it should do.
struct Model {
    realms: BTreeMap<RealmID, RealmStorage>,
    cfg: DHTConfig,
}
impl Model {
    fn accepts(&self, r: &RealmID) -> bool {
        self.cfg.realms.is_empty() || self.cfg.realms.contains(r)
    }
    fn upsert(&mut self, f: &Flo) -> bool {
        if let Some(s) = self.realms.get_mut(&f.realm_id()) {
            return s.upsert_flo(f.clone());
        }
        match FloRealm::try_from(f.clone()) {
            Ok(r) if self.accepts(&f.realm_id()) => {
                self.realms.insert(f.realm_id(), RealmStorage::new(self.cfg.clone(), r).unwrap());
                true
            }
            _ => false,
        }
    }
    fn store(&mut self, f: &Flo) -> Vec<String> {
        let mut out = vec![];
        if self.upsert(f) {
            out.push(closest(&f.flo_id(), &MessageClosest::StoreFlo(f.clone())));
        }
        if let Some(p) = f.flo_config().cuckoo_parent() {
            out.push(closest(p, &MessageClosest::StoreCuckooID(f.global_id())));
        }
        out
    }
    fn cuckoos(&mut self, r: &RealmID, parent: &FloID, ids: &[FloID]) {
        if let Some(s) = self.realms.get_mut(r) {
            s.store_cuckoo_ids(parent, ids.to_vec());
        }
    }
    fn get(&self, g: &GlobalID) -> Option<FloCuckoo> {
        self.realms.get(g.realm_id()).and_then(|s| s.get_flo_cuckoo(g.flo_id()))
    }
    fn ids(&self) -> Vec<RealmID> {
        self.realms.keys().cloned().collect()
    }
    fn all(&self) -> Vec<FloCuckoo> {
        self.realms.values().flat_map(|s| s.get_all_flo_cuckoos()).collect()
    }
}

pub fn s06(c: &mut Case) -> Res {
    match rt().block_on(run(c, false)) {
        Ok(r) => r,
        Err(e) => c.fail("storage", e),
    }
}
pub fn s07(c: &mut Case) -> Res {
    match rt().block_on(run(c, true)) {
        Ok(r) => r,
        Err(e) => c.fail("storage", e),
    }
}

async fn run(c: &mut Case, restarts: bool) -> Result<Res, String> {
    // Some realms, and Flos in them.
    let mut flos: Vec<Flo> = vec![];
    let mut realms: Vec<RealmID> = vec![];
    for _ in 0..c.range(1, 3) {
        let max_space = [1500, 5000, 1 << 30][c.range(0, 2)];
        let r = FloRealm::new("r", Condition::Pass, RealmConfig { max_space, max_flo_size: 1000 }, &[]).unwrap();
        realms.push(r.realm_id());
        flos.push(r.flo().clone());
        if c.chance(30) {
            if let Ok(u) = r.edit_data_signers(Condition::Pass, |r| r.set_service("http", (*r_id(&realms)).into()), &[]) {
                flos.push(u.flo().clone());
            }
        }
    }
    let nr = flos.len();
    let lone = if c.chance(20) { Some(RealmID::from(rnd_u256(c))) } else { None };
    for _ in 0..c.range(1, 8) {
        let rid = match &lone {
            Some(l) if c.chance(20) => l.clone(),
            _ => realms[c.range(0, realms.len() - 1)].clone(),
        };
        let cuckoo = match c.range(0, 3) {
            0 | 1 => Cuckoo::Parent(flos[c.range(0, flos.len() - 1)].flo_id()),
            2 => Cuckoo::Duration(10),
            _ => Cuckoo::None,
        };
        let data = "x".repeat([3, 40, 400][c.range(0, 2)]);
        let f = Flo::new_signer(rid, Condition::Pass, &data, FloConfig { cuckoo, force_id: None }, &[]).unwrap();
        flos.push(f.clone());
        if c.chance(50) {
            if let Ok(u) = f.update_data_signers(Condition::Pass, data + "y", &[]) {
                flos.push(u);
            }
        }
    }
    let mut cfg = DHTConfig::default(rnd_u256(c));
    if c.chance(60) {
        cfg.realms = realms.iter().filter(|_| c.chance(60)).cloned().collect();
        if c.chance(20) {
            cfg.realms.push(RealmID::from(rnd_u256(c)));
        }
    }
    c.log(format!(
        "{} holds only {:?}; the Flos are {:?}",
        sh(&cfg.our_id),
        cfg.realms.iter().map(|r| sh(r)).collect::<Vec<_>>(),
        flos.iter().map(of_flo).collect::<Vec<_>>()
    ));
    let ds: Box<dyn DataStorage + Send> = Box::new(DataStorageTemp::new());
    let mut n = Node::new(ds.clone_box(), cfg.clone()).await?;
    let mut m = Model { realms: BTreeMap::new(), cfg: cfg.clone() };
    let peers: Vec<NodeID> = (0..3).map(|_| rnd_u256(c)).collect();
    for _ in 0..c.range(3, 40) {
        // Often the realms, as there is nothing without them.
        let f = if c.chance(25) { flos[c.range(0, nr - 1)].clone() } else { flos[c.range(0, flos.len() - 1)].clone() };
        let g = if c.chance(85) {
            f.global_id()
        } else {
            GlobalID::new(realms[c.range(0, realms.len() - 1)].clone(), if c.chance(50) { f.flo_id() } else { rnd_u256(c).into() })
        };
        let p = peers[c.range(0, 2)];
        let ids: Vec<FloID> = flos.iter().filter(|_| c.chance(30)).map(|f| f.flo_id()).collect();
        let mut want: Vec<String> = vec![];
        let say = |c: &mut Case, s: String| c.log(s);
        match c.range(0, 17) {
            0..=2 => {
                say(c, format!("the application stores {}", of_flo(&f)));
                n.ask(DHTStorageIn::StoreFlo(f.clone()))?;
                want = m.store(&f);
            }
            3 => {
                say(c, format!("the application reads {}", of_gid(&g)));
                n.ask(DHTStorageIn::ReadFlo(g.clone()))?;
                want.push(match m.get(&g) {
                    Some(fc) => of_out(&DHTStorageOut::FloValue(fc)),
                    None => closest(g.flo_id(), &MessageClosest::ReadFlo(g.realm_id().clone())),
                });
            }
            4 => {
                say(c, format!("the application asks for the cuckoos of {}", of_gid(&g)));
                n.ask(DHTStorageIn::ReadCuckooIDs(g.clone()))?;
                want.extend(m.get(&g).map(|fc| of_out(&DHTStorageOut::CuckooIDs(g.clone(), fc.1))));
                want.push(closest(g.flo_id(), &MessageClosest::GetCuckooIDs(g.realm_id().clone())));
            }
            5 => match c.range(0, 4) {
                0 => {
                    say(c, "the application asks for everything".into());
                    n.ask(DHTStorageIn::GetFlos)?;
                    want.push(of_out(&DHTStorageOut::FloValues(m.all())));
                }
                1 => {
                    say(c, "the application asks for the realms".into());
                    n.ask(DHTStorageIn::GetRealms)?;
                    want.push(of_out(&DHTStorageOut::RealmIDs(m.ids())));
                }
                2 => {
                    say(c, "the application asks for a sync".into());
                    n.ask(DHTStorageIn::SyncFromNeighbors)?;
                    want.push(format!("all: {}", of_neighbour(&MessageNeighbour::RequestRealmIDs)));
                }
                3 => {
                    say(c, "a minute passes".into());
                    for _ in 0..60 {
                        n.timer.emit_msg_out(TimerMessage::Second).map_err(|e| format!("{e}"))?;
                    }
                    n.timer.emit_msg_out(TimerMessage::Minute).map_err(|e| format!("{e}"))?;
                    want.push(format!("all: {}", of_neighbour(&MessageNeighbour::RequestRealmIDs)));
                }
                _ => {
                    say(c, "the application tells its realms".into());
                    n.ask(DHTStorageIn::PropagateFlos)?;
                    if !m.realms.is_empty() {
                        want.push(format!("all: {}", of_neighbour(&MessageNeighbour::AvailableRealmIDs(m.ids()))));
                    }
                }
            },
            6 => {
                let r = realms[c.range(0, realms.len() - 1)].clone();
                say(c, format!("the system realm is {}", sh(&r)));
                n.from(DHTRouterOut::SystemRealm(r.clone()))?;
                if !m.cfg.realms.contains(&r) {
                    m.cfg.realms.push(r);
                }
            }
            7..=9 => {
                // A message which is passed on, or ends here.
                let (key, msg): (U256, _) = match c.range(0, 3) {
                    0 => (*f.flo_id(), MessageClosest::StoreFlo(f.clone())),
                    1 => (**g.flo_id(), MessageClosest::ReadFlo(g.realm_id().clone())),
                    2 => (**g.flo_id(), MessageClosest::GetCuckooIDs(g.realm_id().clone())),
                    _ => {
                        let parent = flos[c.range(0, flos.len() - 1)].flo_id();
                        (*parent, MessageClosest::StoreCuckooID(g.clone()))
                    }
                };
                let (mut w, here) = (wrap(&msg), c.chance(50));
                let lost = c.chance(5);
                if lost {
                    w.module = "DHTRouter".into();
                }
                say(c, format!("{} {} asks {}: {}", if lost { "not for us, " } else { "" }, sh(&p), sh(&key), of_closest(&msg)));
                n.from(if here { DHTRouterOut::MessageClosest(p, peers[0], key, w) } else { DHTRouterOut::MessageRouting(p, peers[0], peers[1], key, w) })?;
                if !lost {
                    match msg {
                        MessageClosest::StoreFlo(f) => want = m.store(&f),
                        MessageClosest::ReadFlo(r) => {
                            want.extend(m.get(&GlobalID::new(r, key.into())).map(|fc| direct(&p, &MessageDest::FloValue(fc))))
                        }
                        MessageClosest::GetCuckooIDs(r) => {
                            let g = GlobalID::new(r, key.into());
                            want.extend(m.get(&g).map(|fc| direct(&p, &MessageDest::CookooIDs(g, fc.1))))
                        }
                        MessageClosest::StoreCuckooID(g) => m.cuckoos(g.realm_id(), &key.into(), &[g.flo_id().clone()]),
                    }
                }
            }
            10 | 11 => {
                let msg = match c.range(0, 3) {
                    0 | 1 => MessageDest::FloValue((f.clone(), ids.clone())),
                    2 => MessageDest::UnknownFlo(g.clone()),
                    _ => MessageDest::CookooIDs(g.clone(), ids.clone()),
                };
                say(c, format!("{} answers {}", sh(&p), of_dest(&msg)));
                n.from(DHTRouterOut::MessageDest(p, peers[0], wrap(&msg)))?;
                want.push(match msg {
                    MessageDest::FloValue(fc) => {
                        m.upsert(&fc.0);
                        m.cuckoos(&fc.0.realm_id(), &fc.0.flo_id(), &fc.1);
                        of_out(&DHTStorageOut::FloValue(fc))
                    }
                    MessageDest::UnknownFlo(g) => of_out(&DHTStorageOut::ValueMissing(g)),
                    MessageDest::CookooIDs(g, v) => of_out(&DHTStorageOut::CuckooIDs(g, v)),
                });
            }
            _ => {
                let rid = g.realm_id().clone();
                let msg = match c.range(0, 6) {
                    0 => MessageNeighbour::RequestRealmIDs,
                    1 => MessageNeighbour::AvailableRealmIDs(realms.iter().filter(|_| c.chance(70)).cloned().collect()),
                    2 => MessageNeighbour::RequestFloMetas(rid.clone()),
                    3 => MessageNeighbour::AvailableFlos(
                        rid.clone(),
                        flos.iter().filter_map(|f| c.chance(40).then(|| FloMeta { id: f.flo_id(), version: c.range(0, 2) as u32, cuckoos: c.range(0, 2) as u32 })).collect(),
                    ),
                    4 => MessageNeighbour::RequestFlos(rid.clone(), ids.clone()),
                    _ => {
                        let n = c.range(0, 4);
                        MessageNeighbour::Flos(
                            (0..n)
                                .map(|_| {
                                    let f = flos[c.range(0, flos.len() - 1)].clone();
                                    (f, flos.iter().filter(|_| c.chance(20)).map(|f| f.flo_id()).collect())
                                })
                                .collect(),
                        )
                    }
                };
                say(c, format!("the neighbour {} sends {}", sh(&p), of_neighbour(&msg)));
                n.from(DHTRouterOut::MessageNeighbour(p, wrap(&msg)))?;
                let mut reply = vec![];
                match msg {
                    MessageNeighbour::RequestRealmIDs => reply.extend((!m.realms.is_empty()).then(|| MessageNeighbour::AvailableRealmIDs(m.ids()))),
                    MessageNeighbour::AvailableRealmIDs(v) => {
                        for r in v.into_iter().filter(|r| m.accepts(r)) {
                            if !m.realms.contains_key(&r) {
                                c.count("new_realm");
                                reply.push(MessageNeighbour::RequestFlos(r.clone(), vec![(*r).into()]));
                            }
                            reply.push(MessageNeighbour::RequestFloMetas(r));
                        }
                    }
                    MessageNeighbour::RequestFloMetas(r) => reply.extend(m.realms.get(&r).map(|s| MessageNeighbour::AvailableFlos(r.clone(), s.get_flo_metas()))),
                    MessageNeighbour::AvailableFlos(r, v) => {
                        reply.extend(m.realms.get(&r).and_then(|s| s.sync_available(&v)).map(|v| MessageNeighbour::RequestFlos(r.clone(), v)))
                    }
                    MessageNeighbour::RequestFlos(r, v) => {
                        let have: Vec<FloCuckoo> = v.into_iter().filter_map(|i| m.get(&GlobalID::new(r.clone(), i))).collect();
                        if !have.is_empty() {
                            reply.push(MessageNeighbour::Flos(have));
                        }
                    }
                    MessageNeighbour::Flos(v) => {
                        for (f, ids) in v {
                            m.upsert(&f);
                            m.cuckoos(&f.realm_id(), &f.flo_id(), &ids);
                        }
                    }
                }
                want.extend(reply.iter().map(|r| neighbour(&p, r)));
            }
        }
        want.sort();
        let got = n.outs().await;
        if !restarts && got != want {
            return Ok(c.fail("answers", format!("{got:?} instead of {want:?}")));
        }
        if restarts && c.chance(25) {
            c.log("restart");
            c.count("restarts");
            n = Node::new(ds.clone_box(), cfg.clone()).await?;
            m.cfg = cfg.clone();
            n.outs().await;
            let sizes: BTreeMap<String, (u64, usize, u64)> =
                n.b.stats.borrow().realm_stats.iter().map(|(r, s)| (sh(r), (s.size, s.flos, s.config.max_space))).collect();
            let want: BTreeMap<String, (u64, usize, u64)> = m.realms.iter().map(|(r, s)| (sh(r), (s.size, s.flo_count(), s.realm_config().max_space))).collect();
            if sizes != want {
                return Ok(c.fail("restart", format!("after the restart, the realms have (size, Flos, limit) {sizes:?} instead of {want:?}")));
            }
        }
        n.ask(DHTStorageIn::GetFlos)?;
        let got = n.outs().await;
        let want = vec![of_out(&DHTStorageOut::FloValues(m.all()))];
        if got != want {
            return Ok(c.fail(if restarts { "restart" } else { "content" }, format!("the storage holds {got:?} instead of {want:?}")));
        }
        for (r, s) in &m.realms {
            if s.get_all_flo_cuckoos().iter().any(|(f, _)| f.realm_id() != *r) {
                return Ok(c.fail("realm", "a Flo is in the storage of another realm".to_string()));
            }
        }
        c.count("steps");
    }
    Ok(Ok(()))
}
fn r_id(v: &[RealmID]) -> RealmID {
    v[v.len() - 1].clone()
}
