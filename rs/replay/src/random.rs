//! The random connections: the lists of nodes, and what the module does with them.
use crate::gossip::{drain, quiet, rt};
use crate::storage::rnd_u256;
use crate::{Case, Res};
use flarch::{
    broker::Broker,
    nodeids::{NodeID, NodeIDs},
};
use flmodules::{
    network::broker::{NetworkIn, NetworkOut},
    nodeconfig::NodeInfo,
    random_connections::{
        broker::{RandomBroker, RandomIn, RandomOut},
        core::RandomStats,
        nodes::{NodeTime, Nodes},
    },
    router::messages::NetworkWrapper,
    timer::{Timer, TimerMessage},
};
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

const MODULE: &str = flmodules::network::broker::MODULE_NAME;
/// As sent on the network.
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
enum ModuleMessage {
    Module(NetworkWrapper),
    DropConnection,
}

fn need(n: usize) -> usize {
    if n < 2 {
        n
    } else {
        ((n as f64).ln() * 2.0).ceil() as usize
    }
}
fn ids(n: &Nodes) -> Vec<NodeID> {
    n.0.iter().map(|n| n.id).collect()
}
fn unique(v: &[NodeID]) -> bool {
    v.iter().collect::<BTreeSet<_>>().len() == v.len()
}
fn apart(s: &RandomStats) -> Result<(), String> {
    let (a, b, k) = (ids(&s.connected), ids(&s.connecting), &s.known.0);
    if !unique(&a) || !unique(&b) || !unique(k) {
        return Err("a node is there twice".into());
    }
    if a.iter().any(|x| b.contains(x)) {
        return Err("a node is connected and connecting".into());
    }
    if a.iter().chain(b.iter()).any(|x| !k.contains(x)) {
        return Err("a node in use is not known".into());
    }
    Ok(())
}
fn minus(a: &[NodeID], b: &[NodeID]) -> Vec<NodeID> {
    a.iter().filter(|x| !b.contains(x)).cloned().collect()
}
fn plus(a: &[NodeID], b: &[NodeID]) -> Vec<NodeID> {
    let mut r = a.to_vec();
    for x in b {
        if !r.contains(x) {
            r.push(*x);
        }
    }
    r
}
fn set(v: &[NodeID]) -> BTreeSet<NodeID> {
    v.iter().cloned().collect()
}

/// The lists: every operation does what it says with each of them.
pub fn r01(c: &mut Case) -> Res {
    if c.n % 3 == 0 {
        return rt().block_on(module(c, 1));
    }
    lists(c, 1)
}
pub fn r02(c: &mut Case) -> Res {
    match c.n % 3 {
        0 => rt().block_on(module(c, 2)),
        1 => lists(c, 2),
        _ => ages(c),
    }
}
pub fn r03(c: &mut Case) -> Res {
    rt().block_on(module(c, 3))
}

fn lists(c: &mut Case, focus: u8) -> Res {
    let n = c.range(1, 60);
    let all: Vec<NodeID> = (0..n).map(|_| rnd_u256(c)).collect();
    let mut s = RandomStats::new();
    for _ in 0..c.range(1, 30) {
        let start = c.range(0, n - 1);
        let len = c.range(0, (n - start).min(10));
        let mut some: Vec<NodeID> = all[start..start + len].to_vec();
        let o = s.clone();
        let (a, b, k) = (ids(&o.connected), ids(&o.connecting), o.known.0.clone());
        let free = minus(&minus(&k, &a), &b);
        let total = a.len() + b.len();
        let want;
        match c.range(0, 6) {
            0 => {
                if c.chance(20) && !some.is_empty() {
                    some.push(some[0]);
                }
                c.log(format!("list {some:?}"));
                s.new_list(NodeIDs(some.clone()));
                want = (a, b, plus(&k, &some));
            }
            1 => {
                c.log(format!("connect {some:?}"));
                s.connect(NodeIDs(some.clone()));
                want = (plus(&a, &some), minus(&b, &some), plus(&k, &some));
            }
            2 => {
                c.log(format!("disconnect {some:?}"));
                if c.chance(50) {
                    s.disconnect(NodeIDs(some.clone()));
                } else {
                    s.failure(&NodeIDs(some.clone()));
                }
                want = (minus(&a, &some), minus(&b, &some), minus(&k, &some));
            }
            3 => {
                c.log(format!("connecting {some:?}"));
                s.connecting(NodeIDs(some.clone()));
                want = (minus(&a, &some), plus(&b, &some), plus(&k, &some));
            }
            4 => {
                c.log("tick");
                s.tick();
                let older = |x: &Nodes, y: &Nodes| x.0.len() == y.0.len() && x.0.iter().zip(&y.0).all(|(x, y)| x.id == y.id && x.ticks == y.ticks + 1);
                c.check(older(&s.connected, &o.connected) && older(&s.connecting, &o.connecting), "tick", || format!("{:?} after {:?}", s.connected, o.connected))?;
                want = (a, b, k);
            }
            5 => {
                let m = c.range(0, 12);
                c.log(format!("choose {m}"));
                let got = s.choose_new(m).0;
                c.check(focus != 2 || got.len() == m.min(free.len()), "choose", || format!("{} of {m} chosen, there are {}", got.len(), free.len()))?;
                c.check(focus != 1 || unique(&got) && got.iter().all(|x| free.contains(x)), "choose", || format!("chooses {got:?} out of {free:?}"))?;
                want = (a, plus(&b, &got), k);
            }
            _ => {
                c.log("fill up");
                let got = s.fill_up().0;
                let miss = ((need(k.len()) + 1) / 2).saturating_sub(total);
                c.check(focus != 2 || got.len() == miss.min(free.len()), "fill", || format!("{} chosen, {miss} are missing, there are {}", got.len(), free.len()))?;
                c.check(focus != 1 || unique(&got) && got.iter().all(|x| free.contains(x)), "choose", || format!("chooses {got:?} out of {free:?}"))?;
                c.count(if got.is_empty() { "nothing missing" } else { "filled up" });
                want = (a, plus(&b, &got), k);
            }
        }
        c.check(s.nodes_needed() == need(s.known.0.len()), "need", || format!("{} needed of {}", s.nodes_needed(), s.known.0.len()))?;
        if focus == 1 {
            if let Err(e) = apart(&s) {
                return c.fail("lists", format!("{e}: {s:?}"));
            }
            let got = (ids(&s.connected), ids(&s.connecting), s.known.0.clone());
            c.check(set(&got.0) == set(&want.0) && set(&got.1) == set(&want.1) && set(&got.2) == set(&want.2), "lists", || format!("{got:?} instead of {want:?}"))?;
        }
    }
    Ok(())
}

/// Which nodes are the oldest.
fn ages(c: &mut Case) -> Res {
    let n = c.range(0, 10);
    let top = [1, 3, 20, u32::MAX as usize - 1][c.range(0, 3)];
    let o = Nodes((0..n).map(|_| NodeTime { id: rnd_u256(c), ticks: c.range(0, top) as u32 }).collect());
    let mut s = o.clone();
    let m = c.range(0, 12);
    let t = if c.chance(50) && n > 0 { o.0[c.range(0, n - 1)].ticks } else { c.range(0, top) as u32 };
    c.log(format!("{:?}, {m} nodes, {t} ticks", o.0.iter().map(|n| n.ticks).collect::<Vec<_>>()));
    let age = |x: &NodeID| o.0.iter().find(|n| n.id == *x).map(|n| n.ticks);
    let aged: Vec<NodeID> = o.0.iter().filter(|n| n.ticks >= t).map(|n| n.id).collect();
    let known = |v: &[NodeID]| unique(v) && v.iter().all(|x| age(x).is_some());
    // out is gone, and nothing else.
    let cut = |c: &Case, s: &Nodes, out: &[NodeID]| {
        c.check(known(out), "cut", || format!("removes {out:?}"))?;
        let left: Vec<NodeTime> = s.0.clone();
        c.check(left.len() + out.len() == o.0.len() && left.iter().all(|x| o.0.contains(x) && !out.contains(&x.id)) && unique(&ids(s)), "cut", || format!("{out:?} are removed from {:?}, {:?} are left", o, s))
    };
    let first = |c: &Case, s: &Nodes, out: &[NodeID], m: usize, oldest: bool| {
        c.check(out.len() == m.min(o.0.len()), "count", || format!("{} instead of {m} are removed", out.len()))?;
        cut(c, s, out)?;
        let (a, b): (Vec<u32>, Vec<u32>) = (out.iter().map(|x| age(x).unwrap()).collect(), s.0.iter().map(|x| x.ticks).collect());
        let bad = a.iter().any(|x| b.iter().any(|y| if oldest { x < y } else { x > y }));
        c.check(!bad, "oldest", || format!("removed nodes have {a:?} ticks, the ones which are left {b:?}"))
    };
    match c.range(0, 8) {
        0 => {
            let r = s.remove_oldest_n(m).0;
            first(c, &s, &r, m, true)
        }
        1 => {
            let r = s.remove_newest_n(m).0;
            first(c, &s, &r, m, false)
        }
        2 => {
            let r = s.keep_newest_n(m).0;
            first(c, &s, &r, n.saturating_sub(m), true)
        }
        3 => {
            let r = s.keep_oldest_n(m).0;
            first(c, &s, &r, n.saturating_sub(m), false)
        }
        4 => {
            let r = s.oldest_ticks(t).0;
            c.check(unique(&r) && set(&r) == set(&aged) && s == o, "aged", || format!("{r:?} instead of {aged:?}"))
        }
        5 => {
            let r = s.remove_oldest_ticks(t).0;
            c.check(unique(&r) && set(&r) == set(&aged), "aged", || format!("{r:?} instead of {aged:?}"))?;
            cut(c, &s, &r)
        }
        6 => c.check(s.count_expired(t) == aged.len(), "expired", || format!("{} instead of {}", s.count_expired(t), aged.len())),
        7 => {
            let some: Vec<NodeID> = ids(&o).into_iter().filter(|_| c.chance(50)).chain(std::iter::once(NodeID::zero())).collect();
            let r = s.remove_missing(&NodeIDs(some.clone())).0;
            c.check(set(&r) == set(&minus(&ids(&o), &some)), "missing", || format!("{r:?} are missing"))?;
            cut(c, &s, &r)
        }
        _ => {
            let rising = c.chance(50);
            let r = s.sorted(rising);
            let ok = r.0.windows(2).all(|w| if rising { w[0].ticks <= w[1].ticks } else { w[0].ticks >= w[1].ticks });
            c.check(ok && r.0.len() == n && r.0.iter().all(|x| o.0.contains(x)) && unique(&ids(&r)) && s == o, "sorted", || format!("{r:?}"))
        }
    }
}

struct Model {
    connected: Vec<NodeID>,
    connecting: Vec<NodeID>,
    known: Vec<NodeID>,
    infos: BTreeSet<NodeID>,
}
impl Model {
    fn gone(&mut self, x: NodeID) {
        self.connected.retain(|y| *y != x);
        self.connecting.retain(|y| *y != x);
        self.known.retain(|y| *y != x);
    }
    fn joined(&mut self, x: NodeID) {
        self.connecting.retain(|y| *y != x);
        self.connected = plus(&self.connected, &[x]);
        self.known = plus(&self.known, &[x]);
    }
    fn free(&self) -> Vec<NodeID> {
        minus(&minus(&self.known, &self.connected), &self.connecting)
    }
    fn total(&self) -> usize {
        self.connected.len() + self.connecting.len()
    }
    /// These are asked for: they must be free, and as many as said.
    fn asked(&mut self, c: &Case, focus: u8, asked: &[NodeID], lo: usize, hi: usize) -> Res {
        let free = self.free();
        c.check(focus != 1 || unique(asked) && asked.iter().all(|x| free.contains(x)), "asked", || format!("asks to connect to {asked:?}, free are {free:?}, connected {:?}, connecting {:?}", self.connected, self.connecting))?;
        c.check(focus != 2 || lo.min(free.len()) <= asked.len() && asked.len() <= hi, "count", || {
            format!("asks for {} new connections instead of {lo} to {hi}, with {} of {} nodes in use, {} needed", asked.len(), self.total(), self.known.len(), need(self.known.len()))
        })?;
        self.connecting = plus(&self.connecting, asked);
        Ok(())
    }
    fn missing(&self) -> usize {
        ((need(self.known.len()) + 1) / 2).saturating_sub(self.total())
    }
}

async fn module(c: &mut Case, focus: u8) -> Res {
    let n = c.range(1, 30);
    let all: Vec<NodeID> = (0..n).map(|_| rnd_u256(c)).collect();
    let me = if c.chance(80) { all[0] } else { rnd_u256(c) };
    let timer = Timer::simul();
    let mut tick = timer.broker.clone();
    let mut net: Broker<NetworkIn, NetworkOut> = Broker::new();
    let (mut sent, _) = net.get_tap_in().await.unwrap();
    let Ok(mut r) = RandomBroker::start(me, timer.broker.clone(), net.clone()).await else { return c.fail("start", "cannot start") };
    let (mut told, _) = r.broker.get_tap_out().await.unwrap();
    quiet().await;
    drain(&mut sent);
    drain(&mut told);
    let mut m = Model { connected: vec![], connecting: vec![], known: vec![], infos: BTreeSet::new() };
    // Not all cases connect the nodes they ask for.
    let eager = c.range(0, 100) as u32;
    let mut ticks = 0;
    for _ in 0..c.range(5, 60) {
        let x = all[c.range(0, n - 1)];
        let text = format!("{}", c.range(0, 1000));
        let w = NetworkWrapper { module: "Test".into(), msg: text };
        let mut news = false;
        let mut extra: Vec<NodeID> = vec![];
        let mut forward: Option<NodeID> = None;
        let mut deliver = false;
        let mut fill = None;
        match c.range(0, 11) {
            0 | 1 => {
                let some: Vec<NodeID> = all.iter().filter(|_| c.chance(40)).cloned().collect();
                c.log(format!("the server lists {some:?}"));
                net.emit_msg_out(NetworkOut::NodeListFromWS(some.iter().map(|x| NodeInfo::new_from_id(*x)).collect())).unwrap();
                let others: Vec<NodeID> = some.into_iter().filter(|x| *x != me).collect();
                m.known = plus(&m.known, &others);
                m.infos.extend(others);
                fill = Some(false);
            }
            2 | 3 | 4 => {
                let y = if c.rng.gen_range(0..100) < eager && !m.connecting.is_empty() { m.connecting[c.range(0, m.connecting.len() - 1)] } else { x };
                c.log(format!("connected: {y}"));
                net.emit_msg_out(NetworkOut::Connected(y)).unwrap();
                m.joined(y);
                news = true;
            }
            5 => {
                c.log(format!("disconnected: {x}"));
                net.emit_msg_out(NetworkOut::Disconnected(x)).unwrap();
                m.gone(x);
                fill = Some(false);
                news = true;
            }
            6 => {
                c.log(format!("failed: {x}"));
                r.broker.emit_msg_in(RandomIn::NodeFailure(x)).unwrap();
                m.gone(x);
                fill = Some(false);
                news = true;
                extra.push(x);
            }
            7 | 8 => {
                let y = if c.chance(50) && !m.connected.is_empty() { m.connected[c.range(0, m.connected.len() - 1)] } else { x };
                c.log(format!("send to {y}"));
                r.broker.emit_msg_in(RandomIn::NetworkWrapperToNetwork(y, w.clone())).unwrap();
                if m.connected.contains(&y) {
                    forward = Some(y);
                    c.count("forwarded");
                } else {
                    m.gone(y);
                    news = true;
                    c.count("not connected");
                }
            }
            9 => {
                let kind = c.range(0, 3);
                c.log(format!("{x} sends, kind {kind}"));
                let msg = match kind {
                    0 | 1 => NetworkWrapper::wrap_yaml(MODULE, &ModuleMessage::Module(w.clone())).unwrap(),
                    2 => NetworkWrapper::wrap_yaml(MODULE, &ModuleMessage::DropConnection).unwrap(),
                    _ if c.chance(50) => NetworkWrapper::wrap_yaml("Other", &ModuleMessage::DropConnection).unwrap(),
                    _ => NetworkWrapper { module: MODULE.into(), msg: ["garbled: [", "{}", "Module: {}", ""][c.range(0, 3)].into() },
                };
                net.emit_msg_out(NetworkOut::MessageFromNode(x, msg)).unwrap();
                match kind {
                    0 | 1 => {
                        m.joined(x);
                        deliver = true;
                        c.count("delivered");
                    }
                    2 => {
                        m.gone(x);
                        extra.push(x);
                        fill = Some(false);
                        c.count("dropped");
                    }
                    _ => c.count("garbled"),
                }
            }
            _ => {
                c.log("tick");
                ticks += 1;
                tick.emit_msg_out(TimerMessage::Second).unwrap();
                fill = Some(true);
                news = true;
                c.count("ticks");
            }
        }
        quiet().await;
        let (net_out, rnd_out) = (drain(&mut sent), drain(&mut told));
        let asked: Vec<NodeID> = net_out.iter().filter_map(|o| if let NetworkIn::Connect(x) = o { Some(*x) } else { None }).collect();
        match fill {
            None => m.asked(c, focus, &asked, 0, 0)?,
            Some(t) => {
                let half = m.missing();
                // Once every 10 ticks, one more than half.
                let one = t && ticks % 10 == 0 && m.total() + half.min(m.free().len()) < need(m.known.len());
                m.asked(c, focus, &asked, half + if one { 1 } else { 0 }, half + if one { 1 } else { 0 })?;
                c.count(if asked.is_empty() { "enough" } else { "asked" });
            }
        }
        let cut: Vec<NodeID> = net_out.iter().filter_map(|o| if let NetworkIn::Disconnect(x) = o { Some(*x) } else { None }).collect();
        if focus == 3 {
            c.check(cut == extra, "disconnect", || format!("disconnects {cut:?} instead of {extra:?}"))?;
            let msgs: Vec<&NetworkIn> = net_out.iter().filter(|o| !matches!(o, NetworkIn::Connect(_) | NetworkIn::Disconnect(_))).collect();
            let good = match (&forward, msgs.as_slice()) {
                (None, []) => true,
                (Some(y), [NetworkIn::MessageToNode(d, p)]) => d == y && p.unwrap_yaml::<ModuleMessage>(MODULE) == Some(ModuleMessage::Module(w.clone())),
                _ => false,
            };
            c.check(good, "forward", || format!("sends {msgs:?}, expected is a message to {forward:?}"))?;
            let got: Vec<&RandomOut> = rnd_out.iter().filter(|o| matches!(o, RandomOut::NetworkWrapperFromNetwork(..))).collect();
            let want = RandomOut::NetworkWrapperFromNetwork(x, w.clone());
            c.check(if deliver { got == [&want] } else { got.is_empty() }, "deliver", || format!("delivers {got:?}"))?;
            let mut heard = (false, false);
            for o in &rnd_out {
                match o {
                    RandomOut::NodeIDsConnected(l) => {
                        heard.0 = true;
                        c.check(set(&l.0) == set(&m.connected) && unique(&l.0), "announce", || format!("says {l:?} are connected instead of {:?}", m.connected))?;
                    }
                    RandomOut::NodeInfosConnected(l) => {
                        heard.1 = true;
                        let got: BTreeSet<NodeID> = l.iter().map(|i| i.get_id()).collect();
                        c.check(got == m.connected.iter().filter(|x| m.infos.contains(x)).cloned().collect(), "announce", || format!("gives the infos of {got:?}, connected are {:?}", m.connected))?;
                    }
                    _ => {}
                }
            }
            c.check(!news || heard == (true, true), "announce", || format!("the list of the connected nodes is not given: {rnd_out:?}"))?;
        }
        if fill == Some(true) {
            let s = r.stats.borrow().clone();
            if focus == 1 {
                if let Err(e) = apart(&s) {
                    return c.fail("lists", format!("{e}: {s:?}"));
                }
                c.check(set(&ids(&s.connected)) == set(&m.connected) && set(&ids(&s.connecting)) == set(&m.connecting) && set(&s.known.0) == set(&m.known), "lists", || {
                    format!("{s:?}, should be connected {:?}, connecting {:?}, known {:?}", m.connected, m.connecting, m.known)
                })?;
                c.check(!s.known.0.contains(&me) || m.known.contains(&me), "self", || "knows itself".into())?;
            }
        }
    }
    Ok(())
}
use rand::Rng;
