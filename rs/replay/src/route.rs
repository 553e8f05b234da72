//! K05: what the routing module does with its messages.
use crate::gossip::{drain, quiet, rt};
use crate::kad::at_depth;
use crate::storage::rnd_u256;
use crate::{Case, Res};
use flarch::{
    broker::Broker,
    nodeids::{NodeID, U256},
};
use flmodules::{
    dht_router::{
        broker::{BrokerDHTRouter, DHTRouter, DHTRouterIn, DHTRouterOut},
        intern::ModuleMessage,
        kademlia::{Config, Kademlia},
    },
    flo::realm::RealmID,
    network::signal::FledgerConfig,
    nodeconfig::NodeInfo,
    router::{broker::BrokerRouter, messages::{NetworkWrapper, RouterIn, RouterOut}},
    timer::{BrokerTimer, TimerMessage},
};
use std::collections::BTreeSet;
use tokio::sync::mpsc::UnboundedReceiver;

const MODULE: &str = "DHTRouter";

fn sh(u: &U256) -> String {
    format!("{u}")[..6].to_string()
}
fn wrap(m: &ModuleMessage) -> NetworkWrapper {
    NetworkWrapper::wrap_yaml(MODULE, m).unwrap()
}
fn rnd_msg(c: &mut Case) -> NetworkWrapper {
    NetworkWrapper {
        module: ["", "DHTRouter", "DHTStorage", "a: b"][c.range(0, 3)].into(),
        msg: format!("{} {}", ["", "hello", "- x\n", "\u{85}\u{2028}", "\"\\'"][c.range(0, 4)], c.range(0, 999)),
    }
}
fn set(v: &[NodeID]) -> BTreeSet<NodeID> {
    v.iter().cloned().collect()
}

struct Router {
    timer: BrokerTimer,
    net: BrokerRouter,
    sent: UnboundedReceiver<RouterIn>,
    b: BrokerDHTRouter,
    told: UnboundedReceiver<DHTRouterOut>,
}
impl Router {
    async fn new(cfg: Config) -> Result<Router, String> {
        let timer = Broker::new();
        let mut net: BrokerRouter = Broker::new();
        let sent = net.get_tap_in().await.map_err(|e| format!("{e}"))?.0;
        let mut b = DHTRouter::start(cfg, timer.clone(), net.clone()).await.map_err(|e| format!("{e}"))?.broker;
        let told = b.get_tap_out().await.map_err(|e| format!("{e}"))?.0;
        quiet().await;
        Ok(Router { timer, net, sent, b, told })
    }
    fn from_net(&mut self, m: RouterOut) -> Result<(), String> {
        self.net.emit_msg_out(m).map_err(|e| format!("the router is gone: {e}"))
    }
    fn ask(&mut self, m: DHTRouterIn) -> Result<(), String> {
        self.b.emit_msg_in(m).map_err(|e| format!("the router is gone: {e}"))
    }
    fn tick(&mut self) -> Result<(), String> {
        self.timer.emit_msg_out(TimerMessage::Second).map_err(|e| format!("the timer is gone: {e}"))
    }
    /// What goes to other nodes, unpacked.
    fn packets(&mut self) -> Result<Vec<(NodeID, ModuleMessage)>, String> {
        drain(&mut self.sent)
            .into_iter()
            .map(|m| {
                let RouterIn::NetworkWrapperToNetwork(dst, w) = m;
                Ok((dst, w.unwrap_yaml(MODULE).ok_or(format!("unreadable message {w:?}"))?))
            })
            .collect()
    }
}

pub fn k05(c: &mut Case) -> Res {
    rt().block_on(async {
        let r = if c.chance(25) { mesh(c).await } else { single(c).await };
        match r {
            Ok(r) => r,
            Err(e) => c.fail("router", e),
        }
    })
}

async fn single(c: &mut Case) -> Result<Res, String> {
    let root = rnd_u256(c);
    let ping_interval = c.range(1, 4) as u32;
    let cfg = Config { root, k: c.range(1, 3), ping_interval, ping_timeout: ping_interval + c.range(0, 5) as u32 };
    let mut kd = Kademlia::new(cfg);
    let mut connected: Vec<NodeID> = vec![];
    let mut r = Router::new(cfg).await?;
    let maxd = c.range(1, 6);
    let mut pool: Vec<U256> = vec![root];
    for _ in 0..c.range(1, 12) {
        let d = c.range(0, maxd);
        pool.push(at_depth(c, &root, d));
    }
    c.log(format!("root {} nodes {:?}", sh(&root), pool.iter().skip(1).map(sh).collect::<Vec<_>>()));
    for _ in 0..c.range(5, 40) {
        let x = pool[c.range(0, pool.len() - 1)];
        let key = if c.chance(85) { pool[c.range(0, pool.len() - 1)] } else { rnd_u256(c) };
        let orig = pool[c.range(0, pool.len() - 1)];
        let some: Vec<NodeID> = pool.iter().filter(|_| c.chance(40)).cloned().collect();
        let w = rnd_msg(c);
        // What is to be sent and told, in any order.
        let mut sent: Vec<(NodeID, ModuleMessage)> = vec![];
        let mut told: Vec<DHTRouterOut> = vec![];
        // A message which goes on to one of some hops.
        let mut hop: Option<(Vec<NodeID>, ModuleMessage, bool)> = None;
        let hops = |kd: &Kademlia, connected: &Vec<NodeID>, key: &U256, last: Option<&U256>| if connected.contains(key) { vec![*key] } else { kd.route_closest(key, last) };
        match c.range(0, 15) {
            0 => {
                c.log(format!("nodes {:?} are available", some.iter().map(sh).collect::<Vec<_>>()));
                r.from_net(RouterOut::NodeInfoAvailable(some.iter().map(|i| NodeInfo::new_from_id(*i)).collect()))?;
                kd.add_nodes(some);
            }
            1 => {
                c.log(format!("nodes {:?} are connected", some.iter().map(sh).collect::<Vec<_>>()));
                r.from_net(RouterOut::NodeIDsConnected(some.clone().into()))?;
                kd.add_nodes(some.clone());
                connected = some;
            }
            2 => {
                c.log(format!("connected to {}", sh(&x)));
                r.from_net(RouterOut::Connected(x))?;
                kd.add_node(x);
            }
            3 => {
                c.log(format!("disconnected from {}", sh(&x)));
                r.from_net(RouterOut::Disconnected(x))?;
                kd.node_disconnected(&x);
            }
            4 => {
                let id = if c.chance(50) { Some(RealmID::from(rnd_u256(c))) } else { None };
                c.log(format!("system realm {id:?}"));
                r.from_net(RouterOut::SystemConfig(FledgerConfig { system_realm: id.clone() }))?;
                told.extend(id.map(DHTRouterOut::SystemRealm));
            }
            5 => {
                c.log("tick");
                r.tick()?;
                let t = kd.tick();
                sent.extend(t.ping.iter().map(|i| (*i, ModuleMessage::Ping)));
                sent.extend(kd.active_nodes().into_iter().map(|i| (i, ModuleMessage::ConnectedIDsRequest)));
            }
            6 | 7 => match c.range(0, 3) {
                0 => {
                    c.log("broadcast");
                    r.ask(DHTRouterIn::MessageBroadcast(w.clone()))?;
                    sent.extend(set(&kd.active_nodes()).into_iter().map(|i| (i, ModuleMessage::Neighbour(w.clone()))));
                }
                1 => {
                    c.log(format!("to the neighbour {}", sh(&x)));
                    r.ask(DHTRouterIn::MessageNeighbour(x, w.clone()))?;
                    sent.push((x, ModuleMessage::Neighbour(w)));
                }
                2 => {
                    c.log(format!("to the closest of {}", sh(&key)));
                    r.ask(DHTRouterIn::MessageClosest(key, w.clone()))?;
                    hop = Some((hops(&kd, &connected, &key, None), ModuleMessage::Closest(root, key, w), false));
                }
                _ => {
                    c.log(format!("to {}", sh(&key)));
                    r.ask(DHTRouterIn::MessageDirect(key, w.clone()))?;
                    hop = Some((hops(&kd, &connected, &key, None), ModuleMessage::Direct(root, key, w), false));
                }
            },
            n => {
                let m = match n {
                    8 => ModuleMessage::Ping,
                    9 => ModuleMessage::Pong,
                    10 => ModuleMessage::ConnectedIDsRequest,
                    11 => ModuleMessage::ConnectedIDsReply(some.clone()),
                    12 => ModuleMessage::Neighbour(w.clone()),
                    13 => ModuleMessage::Closest(orig, key, w.clone()),
                    _ => ModuleMessage::Direct(orig, key, w.clone()),
                };
                let mut nw = wrap(&m);
                let lost = c.chance(8);
                if lost {
                    match c.range(0, 2) {
                        0 => nw.module = "DHTStorage".into(),
                        1 => nw.msg = "nothing of it".into(),
                        _ => nw.module += " ",
                    }
                }
                c.log(format!("from {}: {}{m:?}", sh(&x), if lost { "unreadable " } else { "" }));
                r.from_net(RouterOut::NetworkWrapperFromNetwork(x, nw))?;
                if !lost {
                    match m {
                        ModuleMessage::Ping => sent.push((x, ModuleMessage::Pong)),
                        ModuleMessage::Pong => {}
                        ModuleMessage::ConnectedIDsRequest => sent.push((x, ModuleMessage::ConnectedIDsReply(kd.active_nodes()))),
                        ModuleMessage::ConnectedIDsReply(some) => kd.add_nodes(some),
                        ModuleMessage::Neighbour(w) => told.push(DHTRouterOut::MessageNeighbour(x, w)),
                        ModuleMessage::Closest(orig, key, w) => {
                            let h = hops(&kd, &connected, &key, Some(&x));
                            if h.is_empty() {
                                told.push(if key == root { DHTRouterOut::MessageDest(orig, x, w) } else { DHTRouterOut::MessageClosest(orig, x, key, w) });
                            } else {
                                hop = Some((h, ModuleMessage::Closest(orig, key, w), true));
                            }
                        }
                        ModuleMessage::Direct(orig, key, w) => {
                            if key == root {
                                told.push(DHTRouterOut::MessageDest(orig, x, w));
                            } else {
                                hop = Some((hops(&kd, &connected, &key, Some(&x)), ModuleMessage::Direct(orig, key, w), false));
                            }
                        }
                    }
                }
                if kd.node_active(&x) {
                    told.push(DHTRouterOut::NodeList(kd.active_nodes()));
                }
            }
        }
        quiet().await;
        let mut got_sent = r.packets()?;
        let mut got_told = drain(&mut r.told);
        if let Some((h, m, tell)) = hop {
            if h.is_empty() {
                c.count("no hop");
            } else {
                let Some(i) = got_sent.iter().position(|(d, g)| *g == m && h.contains(d)) else {
                    return Ok(c.fail("hop", format!("{got_sent:?} instead of {m:?} to one of {:?}", h.iter().map(sh).collect::<Vec<_>>())));
                };
                let (next, _) = got_sent.remove(i);
                c.count("hop");
                if let (true, ModuleMessage::Closest(orig, key, w)) = (tell, m) {
                    told.push(DHTRouterOut::MessageRouting(orig, x, next, key, w));
                }
            }
        }
        // Lists of nodes are sets, and the order does not count.
        fn tidy(v: &mut Vec<NodeID>) {
            v.sort();
        }
        for m in got_told.iter_mut().chain(told.iter_mut()) {
            if let DHTRouterOut::NodeList(v) = m {
                tidy(v);
            }
        }
        for (_, m) in got_sent.iter_mut().chain(sent.iter_mut()) {
            if let ModuleMessage::ConnectedIDsReply(v) = m {
                tidy(v);
            }
        }
        let text = |v: &Vec<(NodeID, ModuleMessage)>| {
            let mut v: Vec<String> = v.iter().map(|(d, m)| format!("{} {m:?}", sh(d))).collect();
            v.sort();
            v
        };
        let said = |v: &Vec<DHTRouterOut>| {
            let mut v: Vec<String> = v.iter().map(|m| format!("{m:?}")).collect();
            v.sort();
            v
        };
        if text(&got_sent) != text(&sent) {
            return Ok(c.fail("sent", format!("{:?} sent instead of {:?}", text(&got_sent), text(&sent))));
        }
        if said(&got_told) != said(&told) {
            return Ok(c.fail("told", format!("{:?} told instead of {:?}", said(&got_told), said(&told))));
        }
        c.count("steps");
    }
    Ok(Ok(()))
}

/// Some nodes, all with the real module, and messages between them.
async fn mesh(c: &mut Case) -> Result<Res, String> {
    let n = c.range(2, 8);
    let first = rnd_u256(c);
    let mut ids = vec![first];
    while ids.len() < n {
        let d = c.range(0, 5);
        let x = at_depth(c, &first, d);
        ids.push(x);
    }
    let mut nodes = vec![];
    for id in &ids {
        nodes.push(Router::new(Config { root: *id, k: c.range(1, 3), ping_interval: 2, ping_timeout: 1000 }).await?);
    }
    // Who is connected to whom: some of the links fail.
    let miss = [0, 20, 50][c.range(0, 2)];
    let mut link = BTreeSet::new();
    for i in 0..n {
        for j in 0..i {
            if !c.chance(miss) {
                link.insert((i, j));
                link.insert((j, i));
            }
        }
    }
    for i in 0..n {
        let to: Vec<NodeID> = (0..n).filter(|j| link.contains(&(i, *j))).map(|j| ids[j]).collect();
        nodes[i].from_net(RouterOut::NodeIDsConnected(to.into()))?;
    }
    quiet().await;
    // Messages travel until there are none.
    let mut hops = 0;
    for t in 0..6 {
        if t < 3 {
            for x in nodes.iter_mut() {
                x.tick()?;
            }
        } else {
            for x in nodes.iter_mut() {
                drain(&mut x.told);
            }
            hops = 0;
            let (i, j) = (c.range(0, n - 1), c.range(0, n - 1));
            let w = rnd_msg(c);
            c.log(format!("{} sends to {}", sh(&ids[i]), sh(&ids[j])));
            nodes[i].ask(DHTRouterIn::MessageDirect(ids[j], w.clone()))?;
            loop_net(&mut nodes, &ids, &link, &mut hops).await?;
            for (k, x) in nodes.iter_mut().enumerate() {
                let got: Vec<_> = drain(&mut x.told).into_iter().filter(|m| matches!(m, DHTRouterOut::MessageDest(..))).collect();
                if k != j && !got.is_empty() {
                    return Ok(c.fail("stray", format!("{} gets {got:?}", sh(&ids[k]))));
                }
                if k == j && i != j {
                    let ok = match &got[..] {
                        [] => !link.contains(&(i, j)),
                        [DHTRouterOut::MessageDest(orig, _, m)] => *orig == ids[i] && *m == w,
                        _ => false,
                    };
                    c.count(if got.is_empty() { "dropped" } else { "arrived" });
                    if !ok {
                        return Ok(c.fail("arrives", format!("{} gets {got:?}", sh(&ids[k]))));
                    }
                }
            }
            if hops > 300 * n {
                return Ok(c.fail("loop", format!("{hops} hops")));
            }
            continue;
        }
        loop_net(&mut nodes, &ids, &link, &mut hops).await?;
    }
    Ok(Ok(()))
}
async fn loop_net(nodes: &mut Vec<Router>, ids: &[NodeID], link: &BTreeSet<(usize, usize)>, hops: &mut usize) -> Result<(), String> {
    let start = *hops;
    loop {
        quiet().await;
        let mut any = false;
        for i in 0..nodes.len() {
            for m in drain(&mut nodes[i].sent) {
                let RouterIn::NetworkWrapperToNetwork(dst, w) = m;
                any = true;
                *hops += 1;
                if let Some(j) = ids.iter().position(|x| *x == dst).filter(|j| link.contains(&(i, *j))) {
                    nodes[j].from_net(RouterOut::NetworkWrapperFromNetwork(ids[i], w))?;
                }
            }
        }
        if !any || *hops > start + 400 * nodes.len() {
            return Ok(());
        }
    }
}
