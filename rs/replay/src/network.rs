//! N01-N06: the signalling server, the network module, and the websockets.
use crate::gossip::{drain, quiet, rt};
use crate::storage::rnd_u256;
use crate::{Case, Res};
use flarch::{
    broker::Broker,
    nodeids::{NodeID, U256},
    web_rtc::{
        messages::{ConnectionStateMap, PeerInfo, PeerMessage},
        node_connection::{Direction, NCInput, NCOutput},
        websocket::{WSClientIn, WSClientOut, WSServerIn, WSServerOut},
        WebRTCConnIn, WebRTCConnOut,
    },
};
use flmodules::{
    network::{
        broker::{Network, NetworkIn, NetworkOut},
        signal::{FledgerConfig, MessageAnnounce, NodeStat, SignalConfig, SignalIn, SignalOut, SignalServer, WSSignalMessageFromNode, WSSignalMessageToNode, SIGNAL_VERSION},
    },
    nodeconfig::{NodeConfig, NodeInfo},
    router::messages::NetworkWrapper,
    timer::{Timer, TimerMessage},
};
use futures::{SinkExt, StreamExt};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::time::Duration;
use tokio::sync::mpsc::UnboundedReceiver;
use tokio_tungstenite::tungstenite::Message;

pub fn rnd_pm(c: &mut Case) -> PeerMessage {
    let s: String = ["", "v=0\r\no=- 1", "{\"a\":\"\\\"\"}", "é\u{2028}\u{7f}"][c.range(0, 3)].into();
    match c.range(0, 3) {
        0 => PeerMessage::Init,
        1 => PeerMessage::Offer(s),
        2 => PeerMessage::Answer(s),
        _ => PeerMessage::IceCandidate(s),
    }
}

// ------------------------------------------------------------------ the signalling server
pub fn n01(c: &mut Case) -> Res {
    rt().block_on(signal(c, 1))
}
pub fn n02(c: &mut Case) -> Res {
    rt().block_on(signal(c, 2))
}
pub fn n03(c: &mut Case) -> Res {
    rt().block_on(signal(c, 3))
}

#[derive(Default, Clone)]
struct Conn {
    challenge: Option<U256>,
    id: Option<NodeID>,
    ttl: Option<u16>,
}
type Out = Vec<(usize, WSSignalMessageToNode)>;

struct Sig {
    b: Broker<SignalIn, SignalOut>,
    told: UnboundedReceiver<SignalOut>,
    conns: BTreeMap<usize, Conn>,
}
impl Sig {
    fn registered(&self) -> BTreeMap<NodeID, usize> {
        self.conns.iter().filter_map(|(i, c)| c.id.map(|id| (id, *i))).collect()
    }
    fn remove(&mut self, i: usize) {
        self.conns.insert(i, Conn::default());
    }
    /// What comes out when this goes in.
    async fn put(&mut self, m: SignalIn) -> Result<(Out, Vec<SignalOut>), String> {
        self.b.emit_msg_in(m).map_err(|e| format!("the server is gone: {e}"))?;
        quiet().await;
        let (mut out, mut rest) = (vec![], vec![]);
        for o in drain(&mut self.told) {
            match o {
                SignalOut::WSServer(WSServerIn::Message(i, s)) => out.push((i, serde_json::from_str(&s).map_err(|e| format!("unreadable {s}: {e}"))?)),
                o => rest.push(o),
            }
        }
        Ok((out, rest))
    }
}

fn listed(l: &[NodeInfo]) -> BTreeSet<NodeID> {
    l.iter().map(|i| i.get_id()).collect()
}

async fn signal(c: &mut Case, focus: u8) -> Res {
    let minutes = [0u16, 1, 2, 3, 5, 65535][c.range(0, 5)];
    let max = if c.chance(50) { None } else { Some(c.range(0, 4)) };
    let config = SignalConfig { ttl_minutes: minutes, system_realm: None, max_list_len: max };
    c.log(format!("server with {minutes} minutes, lists of {max:?}"));
    let mut b = SignalServer::new(config).await.unwrap();
    let (told, _) = b.get_tap_out().await.unwrap();
    let mut s = Sig { b, told, conns: BTreeMap::new() };
    let nodes: Vec<NodeConfig> = (0..c.range(2, 5)).map(|_| NodeConfig::new()).collect();
    let mut seen: BTreeSet<U256> = BTreeSet::new();
    // The challenges of all connections, also of those which are gone.
    let mut given: BTreeMap<usize, U256> = BTreeMap::new();
    let mut next = if c.chance(10) { 1000 } else { 0 };
    // The first ones come in properly.
    let eager = c.range(1, 5);
    for step in 0..c.range(6, 40) {
        let idx: Vec<usize> = s.conns.keys().cloned().collect();
        let i = if idx.is_empty() || c.chance(3) { next + 7 } else { idx[c.range(0, idx.len() - 1)] };
        let left: Vec<usize> = given.keys().filter(|k| !idx.contains(k)).cloned().collect();
        let i = if !left.is_empty() && c.chance(10) { left[c.range(0, left.len() - 1)] } else { i };
        let node = nodes[c.range(0, nodes.len() - 1)].clone();
        let what = if step < 2 * eager { step % 2 } else { c.range(0, 9) };
        match what {
            0 => {
                c.log(format!("connection {next}"));
                let (out, rest) = s.put(SignalIn::WSServer(WSServerOut::NewConnection(next))).await.or_else(|e| c.fail("gone", e))?;
                let ch = match &out[..] {
                    [(i, WSSignalMessageToNode::Challenge(v, ch))] if *i == next && *v == SIGNAL_VERSION => Some(*ch),
                    _ => None,
                };
                let Some(ch) = ch else { return c.fail("challenge", format!("connection {next} gets {out:?}")) };
                if focus == 1 {
                    c.check(rest.is_empty(), "new", || format!("{rest:?} for a new connection"))?;
                    c.check(seen.insert(ch), "challenge-again", || format!("challenge {ch} was used before"))?;
                }
                given.insert(next, ch);
                s.conns.insert(next, Conn { challenge: Some(ch), id: None, ttl: Some(minutes) });
                next += c.range(1, 2);
            }
            1 | 2 | 3 => {
                let i = if step < 2 * eager { *idx.last().unwrap() } else { i };
                let mine = s.conns.get(&i).and_then(|x| x.challenge);
                let any = seen.iter().nth(c.range(0, seen.len().max(1) - 1)).cloned();
                let (mut info, mut sig);
                let how = if step < 2 * eager { 0 } else { c.range(0, 9) };
                let ch = match how {
                    1 | 2 => any.or(mine),
                    3 => Some(rnd_u256(c)),
                    _ => mine.or(given.get(&i).cloned()).or(any),
                }
                .unwrap_or(U256::zero());
                info = node.info.clone();
                sig = node.sign(ch.to_bytes());
                let mut valid = mine == Some(ch);
                match how {
                    4 => {
                        info.pubkey = nodes.iter().map(|n| n.info.pubkey.clone()).find(|p| *p != info.pubkey).unwrap_or(vec![1; 32]);
                        valid = false;
                    }
                    5 => {
                        info.pubkey = vec![c.range(0, 255) as u8; c.range(0, 70)];
                        valid = false;
                    }
                    6 => {
                        if c.chance(50) {
                            sig.truncate(c.range(0, 63));
                        } else {
                            let k = c.range(0, 63);
                            sig[k] ^= 1 << c.range(0, 7);
                        }
                        valid = false;
                    }
                    _ => {}
                }
                let said = if how == 3 || c.chance(80) { ch } else { rnd_u256(c) };
                let ma = MessageAnnounce { version: SIGNAL_VERSION, challenge: said, node_info: info.clone(), signature: sig };
                let mut text = serde_json::to_value(WSSignalMessageFromNode::Announce(ma)).unwrap();
                let victim = nodes[c.range(0, nodes.len() - 1)].info.get_id();
                if how == 7 {
                    // The id is not part of the message: another one cannot be claimed.
                    fn claim(v: &mut serde_json::Value, id: &serde_json::Value) {
                        if let Some(o) = v.as_object_mut() {
                            o.values_mut().for_each(|x| claim(x, id));
                            if o.contains_key("pubkey") {
                                o.insert("id".into(), id.clone());
                                o.insert("_id".into(), id.clone());
                            }
                        }
                    }
                    claim(&mut text, &serde_json::to_value(victim).unwrap());
                }
                let id = match <[u8; 32]>::try_from(info.pubkey.clone()) {
                    Ok(a) => U256::from(a),
                    Err(_) => U256::zero(),
                };
                c.log(format!("{i} announces {id} (kind {how}, {})", if valid { "right" } else { "wrong" }));
                c.count(if valid { "announced" } else { "forged" });
                let before = s.registered();
                if let Some(t) = s.conns.get_mut(&i).and_then(|x| x.ttl.as_mut()) {
                    *t = minutes;
                }
                let (out, rest) = s.put(SignalIn::WSServer(WSServerOut::Message(i, text.to_string()))).await.or_else(|e| c.fail("gone", e))?;
                if !valid {
                    if focus == 1 {
                        c.check(out.is_empty() && rest.is_empty(), "forged", || format!("an announcement without the right signature gives {out:?} {rest:?}"))?;
                    }
                    continue;
                }
                s.conns.get_mut(&i).unwrap().challenge = None;
                let old = before.get(&id).cloned();
                if let Some(o) = old {
                    s.conns.get_mut(&o).unwrap().id = None;
                }
                s.conns.get_mut(&i).unwrap().id = Some(id);
                let now = s.registered();
                if focus == 1 {
                    c.check(rest == vec![SignalOut::NewNode(id)], "announced", || format!("{rest:?} instead of the new node {id}"))?;
                    c.check(out.iter().any(|o| *o == (i, WSSignalMessageToNode::SystemConfig(FledgerConfig { system_realm: None }))), "config", || format!("{i} does not get the configuration: {out:?}"))?;
                    if let Some(o) = old {
                        c.count("replaced");
                        c.check(out.iter().any(|(j, m)| *j == o && matches!(m, WSSignalMessageToNode::Error(_))), "replaced", || format!("{o} is not told that it is replaced"))?;
                    }
                    for (j, m) in &out {
                        let ok = match m {
                            WSSignalMessageToNode::SystemConfig(_) => *j == i,
                            WSSignalMessageToNode::Error(_) => Some(*j) == old,
                            WSSignalMessageToNode::ListIDsReply(_) => now.values().any(|x| x == j),
                            _ => false,
                        };
                        c.check(ok, "announce-out", || format!("{j} gets {m:?}"))?;
                    }
                }
                if focus != 2 {
                    for (_, j) in now.iter().filter(|(_, j)| **j != i) {
                        let lists: Vec<_> = out.iter().filter_map(|(k, m)| if let (true, WSSignalMessageToNode::ListIDsReply(l)) = (k == j, m) { Some(l) } else { None }).collect();
                        c.check(lists.len() == 1, "news", || format!("{j} is not told once about {id}: {out:?}"))?;
                        c.check(listed(lists[0]) == now.keys().cloned().collect(), "news-list", || format!("{j} is told {:?} instead of {:?}", listed(lists[0]), now.keys()))?;
                    }
                }
            }
            4 | 5 => {
                if let Some(t) = s.conns.get_mut(&i).and_then(|x| x.ttl.as_mut()) {
                    *t = minutes;
                }
                c.log(format!("{i} asks for the list"));
                let (out, rest) = s.put(SignalIn::WSServer(WSServerOut::Message(i, serde_json::to_string(&WSSignalMessageFromNode::ListIDsRequest).unwrap()))).await.or_else(|e| c.fail("gone", e))?;
                let now = s.registered();
                if focus == 3 {
                    let want = max.unwrap_or(now.len()).min(now.len());
                    match &out[..] {
                        [(j, WSSignalMessageToNode::ListIDsReply(l))] if *j == i && rest.is_empty() => {
                            let ids = listed(l);
                            c.check(l.len() == want && ids.len() == want, "list-length", || format!("{} nodes instead of {want}", l.len()))?;
                            c.check(ids.iter().all(|x| now.contains_key(x)), "list", || format!("{ids:?} instead of some of {:?}", now.keys()))?;
                        }
                        _ => return c.fail("list-reply", format!("{i} asks for the list: {out:?} {rest:?}")),
                    }
                }
            }
            6 | 7 => {
                let pick = |c: &mut Case| nodes[c.range(0, nodes.len() - 1)].info.get_id();
                let mut pi = PeerInfo { id_init: pick(c), id_follow: pick(c), message: rnd_pm(c) };
                let me = s.conns.get(&i).and_then(|x| x.id);
                if let (Some(me), true) = (me, c.chance(60)) {
                    if c.chance(50) {
                        pi.id_init = me;
                    } else {
                        pi.id_follow = me;
                    }
                }
                if let Some(t) = s.conns.get_mut(&i).and_then(|x| x.ttl.as_mut()) {
                    *t = minutes;
                }
                c.log(format!("{i} sets up {} with {}", pi.id_init, pi.id_follow));
                let (out, rest) = s.put(SignalIn::WSServer(WSServerOut::Message(i, serde_json::to_string(&WSSignalMessageFromNode::PeerSetup(pi.clone())).unwrap()))).await.or_else(|e| c.fail("gone", e))?;
                if focus == 2 {
                    let now = s.registered();
                    let other = me.and_then(|me| if pi.id_init == me { Some(pi.id_follow) } else if pi.id_follow == me { Some(pi.id_init) } else { None });
                    let want: Out = other.and_then(|o| now.get(&o)).map(|j| (*j, WSSignalMessageToNode::PeerSetup(pi.clone()))).into_iter().collect();
                    c.count(if want.is_empty() { "refused" } else { "relayed" });
                    c.check(out == want && rest.is_empty(), "relay", || format!("{out:?} {rest:?} instead of {want:?}"))?;
                }
            }
            8 => {
                if c.chance(40) {
                    c.log(format!("{i} is gone"));
                    let (out, rest) = s.put(SignalIn::WSServer(WSServerOut::Disconnection(i))).await.or_else(|e| c.fail("gone", e))?;
                    c.check(focus != 3 || out.is_empty() && rest.is_empty(), "left", || format!("{out:?} {rest:?} when a connection closes"))?;
                    s.remove(i);
                } else {
                    if let Some(t) = s.conns.get_mut(&i).and_then(|x| x.ttl.as_mut()) {
                        *t = minutes;
                    }
                    let st = vec![NodeStat { id: rnd_u256(c), version: "v".into(), ping_ms: 1, ping_rx: 2 }];
                    let text = match c.range(0, 3) {
                        0 => "{}".to_string(),
                        1 => "{\"Announce\":{}}".to_string(),
                        2 => "ListIDs".to_string(),
                        _ => serde_json::to_string(&WSSignalMessageFromNode::NodeStats(st.clone())).unwrap(),
                    };
                    let stats = text.contains("NodeStats");
                    c.log(format!("{i} sends {text}"));
                    let (out, rest) = s.put(SignalIn::WSServer(WSServerOut::Message(i, text))).await.or_else(|e| c.fail("gone", e))?;
                    let want: Vec<SignalOut> = if stats { vec![SignalOut::NodeStats(st)] } else { vec![] };
                    c.check(focus != 2 || out.is_empty() && rest == want, "other", || format!("{out:?} {rest:?}"))?;
                }
            }
            _ => {
                c.log("a minute passes");
                let (out, rest) = s.put(SignalIn::Timer).await.or_else(|e| c.fail("gone", e))?;
                c.check(focus != 3 || out.is_empty() && rest.is_empty(), "minute", || format!("{out:?} {rest:?} when a minute passes"))?;
                for i in idx {
                    let mut gone = false;
                    if let Some(t) = s.conns.get_mut(&i).and_then(|x| x.ttl.as_mut()) {
                        *t = t.saturating_sub(1);
                        gone = *t == 0;
                    }
                    if gone {
                        c.count("idle");
                        s.remove(i);
                    }
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ the network module
pub fn n04(c: &mut Case) -> Res {
    rt().block_on(network(c, 4))
}
/// A connected node sends a text which is nested deeply.
pub fn deep() -> bool {
    rt().block_on(async {
        let cfg = NodeConfig::new();
        let (ws, mut rtc) = (Broker::new(), Broker::new());
        let mut net = Network::start(cfg.clone(), ws, rtc.clone(), &mut Timer::simul()).await.unwrap();
        let (mut told, _) = net.broker.get_tap_out().await.unwrap();
        let x = NodeConfig::new().info.get_id();
        rtc.emit_msg_out(WebRTCConnOut::Message(x, NCOutput::Connected(Direction::Incoming))).unwrap();
        quiet().await;
        drain(&mut told);
        rtc.emit_msg_out(WebRTCConnOut::Message(x, NCOutput::Text("- ".repeat(100000)))).unwrap();
        quiet().await;
        drain(&mut told).is_empty()
    })
}

pub fn n05(c: &mut Case) -> Res {
    if c.n == 0 && !crate::survives("network") {
        return c.fail("deep-yaml", "100000 times \"- \" as text of a connected node overflows the stack and ends the process");
    }
    rt().block_on(network(c, 5))
}

async fn network(c: &mut Case, focus: u8) -> Res {
    let cfg = NodeConfig::new();
    let me = cfg.info.get_id();
    let mut ws: Broker<WSClientIn, WSClientOut> = Broker::new();
    let mut rtc: Broker<WebRTCConnIn, WebRTCConnOut> = Broker::new();
    let (mut to_ws, _) = ws.get_tap_in().await.unwrap();
    let (mut to_rtc, _) = rtc.get_tap_in().await.unwrap();
    let mut timer = Timer::simul();
    let mut net = match Network::start(cfg.clone(), ws.clone(), rtc.clone(), &mut timer).await {
        Ok(n) => n,
        Err(e) => return c.fail("start", format!("{e}")),
    };
    let (mut told, _) = net.broker.get_tap_out().await.unwrap();
    quiet().await;
    drain(&mut to_ws);
    drain(&mut to_rtc);
    drain(&mut told);
    let all: Vec<NodeID> = (0..c.range(1, 4)).map(|_| rnd_u256(c)).collect();
    // Incoming and outgoing: none, setup, connected.
    let mut st: HashMap<(NodeID, bool), u8> = HashMap::new();
    let mut ticks = 0;
    for _ in 0..c.range(5, 50) {
        let x = all[c.range(0, all.len() - 1)];
        let out = c.chance(50);
        let dir = if out { Direction::Outgoing } else { Direction::Incoming };
        let at = |st: &HashMap<(NodeID, bool), u8>, d: bool| st.get(&(x, d)).cloned().unwrap_or(0);
        let linked = |st: &HashMap<(NodeID, bool), u8>| at(st, true) == 2 || at(st, false) == 2;
        let was = linked(&st);
        let mut want_rtc: Vec<WebRTCConnIn> = vec![];
        let mut want_ws: Vec<WSSignalMessageFromNode> = vec![];
        let mut want_net: Vec<NetworkOut> = vec![];
        let mut text = None;
        let mut announce = None;
        match c.range(0, 13) {
            0 | 1 => {
                c.log(format!("connected {x} ({dir})"));
                rtc.emit_msg_out(WebRTCConnOut::Message(x, NCOutput::Connected(dir))).unwrap();
                st.insert((x, out), 2);
            }
            2 => {
                c.log(format!("disconnected {x} ({dir})"));
                rtc.emit_msg_out(WebRTCConnOut::Message(x, NCOutput::Disconnected(dir))).unwrap();
                st.insert((x, out), 0);
            }
            3 => {
                c.log(format!("connect to {x}"));
                net.broker.emit_msg_in(NetworkIn::Connect(x)).unwrap();
                if !was {
                    want_rtc.push(WebRTCConnIn::Connect(x));
                    st.insert((x, true), 1);
                }
            }
            4 => {
                c.log(format!("disconnect from {x}"));
                net.broker.emit_msg_in(NetworkIn::Disconnect(x)).unwrap();
                if was {
                    want_rtc.push(WebRTCConnIn::Message(x, NCInput::Disconnect));
                    st.insert((x, true), 0);
                    st.insert((x, false), 0);
                }
            }
            5 => {
                let (a, b) = match c.range(0, 3) {
                    0 => (x, rnd_u256(c)),
                    1 => (x, me),
                    2 => (me, x),
                    _ => (x, x),
                };
                let pi = PeerInfo { id_init: a, id_follow: b, message: rnd_pm(c) };
                c.log(format!("setup of {a} with {b}"));
                ws.emit_msg_out(WSClientOut::Message(serde_json::to_string(&WSSignalMessageToNode::PeerSetup(pi.clone())).unwrap())).unwrap();
                if a == me || b == me {
                    let o = a == me;
                    st.insert((x, o), 1);
                    want_rtc.push(WebRTCConnIn::Message(x, NCInput::Setup(if o { Direction::Outgoing } else { Direction::Incoming }, pi.message)));
                }
            }
            6 | 7 => {
                let w = NetworkWrapper { module: ["Test", "Network", ""][c.range(0, 2)].into(), msg: ["", "x", "a: b\n- c", "é\u{1}\u{85}", "\"'", "null"][c.range(0, 5)].into() };
                c.log(format!("send {w:?} to {x}"));
                net.broker.emit_msg_in(NetworkIn::MessageToNode(x, w.clone())).unwrap();
                if !was {
                    want_rtc.push(WebRTCConnIn::Connect(x));
                    st.insert((x, true), 1);
                }
                text = Some(w);
            }
            8 | 9 => {
                let w = NetworkWrapper { module: ["Test", "Network", "Random"][c.range(0, 2)].into(), msg: ["", "x", "a: b", "---\nSignalOut: Disconnect\n", "---\nSignalIn:\n  Message: x\n"][c.range(0, 4)].into() };
                let own = w.module == "Network" && w.msg.contains("Signal");
                let (s, good) = if c.chance(75) { (serde_yaml::to_string(&w).unwrap(), true) } else { (["", "x", "module: a", "{", "- 1"][c.range(0, 4)].to_string(), false) };
                c.log(format!("{x} sends {s:?}"));
                rtc.emit_msg_out(WebRTCConnOut::Message(x, NCOutput::Text(s))).unwrap();
                if good && !own {
                    want_net.push(NetworkOut::MessageFromNode(x, w));
                }
            }
            10 => {
                let pm = rnd_pm(c);
                c.log(format!("{x} has a setup message ({dir})"));
                rtc.emit_msg_out(WebRTCConnOut::Message(x, NCOutput::Setup(dir, pm.clone()))).unwrap();
                let (id_init, id_follow) = if out { (me, x) } else { (x, me) };
                want_ws.push(WSSignalMessageFromNode::PeerSetup(PeerInfo { id_init, id_follow, message: pm }));
            }
            11 => match c.range(0, 5) {
                0 => {
                    let l = vec![NodeInfo::new_from_id(x)];
                    let l: Vec<NodeInfo> = l.into_iter().map(|i| serde_json::from_str(&serde_json::to_string(&i).unwrap()).unwrap()).collect();
                    c.log("a list");
                    ws.emit_msg_out(WSClientOut::Message(serde_json::to_string(&WSSignalMessageToNode::ListIDsReply(l.clone())).unwrap())).unwrap();
                    want_net.push(NetworkOut::NodeListFromWS(l));
                }
                1 => {
                    let f = FledgerConfig { system_realm: None };
                    c.log("the configuration");
                    ws.emit_msg_out(WSClientOut::Message(serde_json::to_string(&WSSignalMessageToNode::SystemConfig(f.clone())).unwrap())).unwrap();
                    want_net.push(NetworkOut::SystemConfig(f));
                }
                2 => {
                    c.log("an error");
                    ws.emit_msg_out(WSClientOut::Message(serde_json::to_string(&WSSignalMessageToNode::Error("e".into())).unwrap())).unwrap();
                    want_net.push(NetworkOut::Error("e".into()));
                }
                3 => {
                    let ch = rnd_u256(c);
                    c.log(format!("challenge {ch}"));
                    ws.emit_msg_out(WSClientOut::Message(serde_json::to_string(&WSSignalMessageToNode::Challenge(SIGNAL_VERSION, ch)).unwrap())).unwrap();
                    announce = Some(ch);
                    want_ws.push(WSSignalMessageFromNode::ListIDsRequest);
                }
                4 => {
                    c.log("noise");
                    ws.emit_msg_out([WSClientOut::Message("{".into()), WSClientOut::Disconnect, WSClientOut::Connected, WSClientOut::Error("e".into())][c.range(0, 3)].clone()).unwrap();
                }
                _ => {
                    c.log(format!("state of {x}"));
                    rtc.emit_msg_out(WebRTCConnOut::Message(x, NCOutput::State(dir.clone(), ConnectionStateMap::default()))).unwrap();
                    quiet().await;
                    let o = drain(&mut told);
                    c.check(matches!(&o[..], [NetworkOut::ConnectionState(s)] if s.id == x && s.dir == dir), "state", || format!("{o:?}"))?;
                }
            },
            12 => {
                let ns = vec![NodeStat { id: x, version: "v".into(), ping_ms: 3, ping_rx: 4 }];
                c.log("stats");
                net.broker.emit_msg_in(NetworkIn::StatsToWS(ns.clone())).unwrap();
                want_ws.push(WSSignalMessageFromNode::NodeStats(ns));
            }
            _ => {
                let k = c.range(1, 70);
                c.log(format!("{k} seconds"));
                for _ in 0..k {
                    timer.broker.emit_msg_out(TimerMessage::Second).unwrap();
                    ticks += 1;
                    if ticks % 60 == 0 {
                        want_ws.push(WSSignalMessageFromNode::ListIDsRequest);
                    }
                }
                quiet().await;
            }
        }
        quiet().await;
        let is = linked(&st);
        let (o_net, o_ws, mut o_rtc) = (drain(&mut told), drain(&mut to_ws), drain(&mut to_rtc));
        let notice = |m: &NetworkOut| matches!(m, NetworkOut::Connected(_) | NetworkOut::Disconnected(_));
        if focus == 4 {
            let got: Vec<_> = o_net.iter().filter(|m| notice(m)).cloned().collect();
            let want: Vec<_> = match (was, is) {
                (false, true) => vec![NetworkOut::Connected(x)],
                (true, false) => vec![NetworkOut::Disconnected(x)],
                _ => vec![],
            };
            c.count(["same", "changed"][want.len()]);
            c.check(got == want, "notice", || format!("{got:?} instead of {want:?}"))?;
        } else {
            let got: Vec<_> = o_net.iter().filter(|m| !notice(m)).cloned().collect();
            c.check(got == want_net, "up", || format!("{got:?} instead of {want_net:?}"))?;
            if let Some(w) = text {
                c.count("sent");
                match o_rtc.pop() {
                    Some(WebRTCConnIn::Message(y, NCInput::Text(s))) if y == x && serde_yaml::from_str::<NetworkWrapper>(&s).ok() == Some(w.clone()) => {}
                    m => return c.fail("sent", format!("{m:?} instead of {w:?} to {x}")),
                }
            }
            let mut o_ws: Vec<WSSignalMessageFromNode> = o_ws.into_iter().filter_map(|m| if let WSClientIn::Message(s) = m { serde_json::from_str(&s).ok() } else { None }).collect();
            if let Some(ch) = announce {
                match o_ws.first().cloned() {
                    Some(WSSignalMessageFromNode::Announce(ma)) if ma.challenge == ch && ma.node_info.get_id() == me && cfg.info.verify(&ch.to_bytes(), &ma.signature) => {
                        o_ws.remove(0);
                    }
                    m => return c.fail("announce", format!("{m:?} as reply to the challenge {ch}")),
                }
            }
            c.check(o_ws == want_ws, "to-server", || format!("{o_ws:?} instead of {want_ws:?}"))?;
            c.check(o_rtc == want_rtc, "to-node", || format!("{o_rtc:?} instead of {want_rtc:?}"))?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ the websockets
pub fn n06(c: &mut Case) -> Res {
    if c.n % 12 == 11 {
        return closed(c);
    }
    rt_io().block_on(sockets(c))
}
fn rt_io() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}
fn port() -> u16 {
    std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port()
}
type Socket = tokio_tungstenite::WebSocketStream<tokio_tungstenite::MaybeTlsStream<tokio::net::TcpStream>>;

async fn hear(t: &mut UnboundedReceiver<WSServerOut>) -> Option<WSServerOut> {
    tokio::time::timeout(Duration::from_secs(4), t.recv()).await.ok().flatten()
}

async fn sockets(c: &mut Case) -> Res {
    use flarch::web_rtc::web_socket_server::WebSocketServer;
    let mut server = None;
    let mut p = 0;
    for _ in 0..20 {
        p = port();
        if let Ok(s) = WebSocketServer::new(p).await {
            server = Some(s);
            break;
        }
    }
    let Some(mut server) = server else { return Ok(()) };
    let (mut told, _) = server.get_tap_out().await.unwrap();
    let mut open: BTreeMap<usize, Socket> = BTreeMap::new();
    let mut used: BTreeSet<usize> = BTreeSet::new();
    let r = sockets_run(c, p, &mut server, &mut told, &mut open, &mut used).await;
    let _ = server.emit_msg_in(WSServerIn::Stop);
    drop(open);
    quiet().await;
    r
}

async fn sockets_run(c: &mut Case, p: u16, server: &mut Broker<WSServerIn, WSServerOut>, told: &mut UnboundedReceiver<WSServerOut>, open: &mut BTreeMap<usize, Socket>, used: &mut BTreeSet<usize>) -> Res {
    let first = c.range(1, 3);
    let mut silent: Vec<tokio::net::TcpStream> = vec![];
    for step in 0..c.range(6, 24) {
        let ids: Vec<usize> = open.keys().cloned().collect();
        let what = if step < first || ids.is_empty() { 0 } else { c.range(0, 9) };
        match what {
            0 => {
                if c.chance(35) {
                    use tokio::io::{AsyncReadExt, AsyncWriteExt};
                    c.log("somebody who speaks something else");
                    c.count("noise");
                    if let Ok(mut s) = tokio::net::TcpStream::connect(("127.0.0.1", p)).await {
                        let _ = s.write_all(["GET / HTTP/1.1\r\n\r\n", "\0\0\0\0\r\n\r\n", "hello\r\n\r\n"][c.range(0, 2)].as_bytes()).await;
                        let _ = s.shutdown().await;
                        let mut v = vec![];
                        let _ = tokio::time::timeout(Duration::from_secs(2), s.read_to_end(&mut v)).await;
                    }
                }
                if c.chance(25) {
                    c.log("somebody who connects and says nothing");
                    c.count("silent");
                    if let Ok(s) = tokio::net::TcpStream::connect(("127.0.0.1", p)).await {
                        silent.push(s);
                    }
                }
                let s = match tokio::time::timeout(Duration::from_secs(4), tokio_tungstenite::connect_async(format!("ws://127.0.0.1:{p}"))).await {
                    Ok(Ok((s, _))) => s,
                    e => return c.fail("connect", format!("cannot connect: {:?}", e.map(|r| r.map(|_| ())))),
                };
                match hear(told).await {
                    Some(WSServerOut::NewConnection(i)) => {
                        c.log(format!("connection {i}"));
                        c.check(used.insert(i), "number", || format!("number {i} was used before"))?;
                        open.insert(i, s);
                    }
                    m => return c.fail("new", format!("{m:?} for a new connection")),
                }
            }
            1 | 2 | 3 => {
                let i = ids[c.range(0, ids.len() - 1)];
                let t = format!("up {step}");
                c.log(format!("{i} sends {t}"));
                let _ = open.get_mut(&i).unwrap().send(Message::Text(t.clone().into())).await;
                let m = hear(told).await;
                c.count("up");
                c.check(m == Some(WSServerOut::Message(i, t.clone())), "up", || format!("{m:?} instead of {t} from {i}"))?;
            }
            4 | 5 | 6 | 7 => {
                let i = ids[c.range(0, ids.len() - 1)];
                let t = format!("down {step}");
                c.log(format!("send {t} to {i}"));
                if c.chance(30) {
                    // One which does not exist, or is gone.
                    let no = used.iter().rev().find(|j| !open.contains_key(*j)).cloned().unwrap_or(10000);
                    server.emit_msg_in(WSServerIn::Message(no, "nobody".into())).unwrap();
                }
                server.emit_msg_in(WSServerIn::Message(i, t.clone())).unwrap();
                c.count("down");
                let m = tokio::time::timeout(Duration::from_secs(4), open.get_mut(&i).unwrap().next()).await;
                let ok = matches!(&m, Ok(Some(Ok(Message::Text(s)))) if s.as_str() == t);
                c.check(ok, "down", || format!("{i} gets {m:?} instead of {t}"))?;
            }
            8 => {
                let i = ids[c.range(0, ids.len() - 1)];
                c.log(format!("close {i}"));
                server.emit_msg_in(WSServerIn::Close(i)).unwrap();
                let m = hear(told).await;
                c.check(m == Some(WSServerOut::Disconnection(i)), "closed", || format!("{m:?} after {i} was closed"))?;
                open.remove(&i);
            }
            _ => {
                let i = ids[c.range(0, ids.len() - 1)];
                c.log(format!("{i} leaves"));
                let mut s = open.remove(&i).unwrap();
                if c.chance(50) {
                    let _ = s.close(None).await;
                }
                drop(s);
                let m = hear(told).await;
                c.check(m == Some(WSServerOut::Disconnection(i)), "left", || format!("{m:?} after {i} left"))?;
            }
        }
    }
    // Nobody got what was for somebody else.
    for (i, mut s) in std::mem::take(open) {
        server.emit_msg_in(WSServerIn::Message(i, "last".into())).unwrap();
        let m = tokio::time::timeout(Duration::from_secs(4), s.next()).await;
        let ok = matches!(&m, Ok(Some(Ok(Message::Text(t)))) if t.as_str() == "last");
        c.check(ok, "other", || format!("{i} has got {m:?}"))?;
    }
    Ok(())
}

/// A server which closes its connections, and a client which leaves, do not stop the others.
fn closed(c: &mut Case) -> Res {
    let own = c.chance(50);
    c.log(if own { "a client leaves" } else { "a server closes the connection" });
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        rt_io().block_on(async {
            let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
            let url = format!("ws://127.0.0.1:{}", l.local_addr().unwrap().port());
            let count = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
            let count2 = count.clone();
            tokio::spawn(async move {
                while let Ok((s, _)) = l.accept().await {
                    count2.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    tokio::spawn(async move {
                        if let Ok(mut w) = tokio_tungstenite::accept_async(s).await {
                            let _ = w.next().await;
                            let _ = w.close(None).await;
                            while let Some(Ok(_)) = w.next().await {}
                        }
                    });
                }
            });
            let mut cl = flarch::web_rtc::web_socket_client::WebSocketClient::connect(&url).await.unwrap();
            tokio::time::sleep(Duration::from_millis(200)).await;
            let _ = cl.emit_msg_in(if own { WSClientIn::Disconnect } else { WSClientIn::Message("hi".into()) });
            // The client starts to listen after a second.
            for _ in 0..20 {
                tokio::time::sleep(Duration::from_millis(100)).await;
            }
            let _ = tx.send(count.load(std::sync::atomic::Ordering::SeqCst));
        });
    });
    c.count("closed");
    match rx.recv_timeout(Duration::from_secs(12)) {
        Err(_) => c.fail("stuck", "the runtime is stuck after the connection is closed"),
        Ok(n) => c.check((n == 1) == own, "again", || format!("{n} connections")),
    }
}
