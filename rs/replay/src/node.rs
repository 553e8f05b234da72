//! T01, T02: texts cut into packets and put together, and the two connections to a node.
use crate::gossip::{drain, quiet, rt};
use crate::network::rnd_pm;
use crate::storage::rnd_u256;
use crate::{Case, Res};
use flarch::{
    broker::Broker,
    nodeids::U256,
    web_rtc::{
        WebRTCConn, WebRTCConnIn, WebRTCConnOut,
        messages::{ConnectionStateMap, DataChannelState, PeerMessage, WebRTCInput, WebRTCOutput, WebRTCSpawner},
        node_connection::{Direction, NCInput, NCOutput, NodeConnection},
    },
};
use serde_json::Value;
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};
use tokio::sync::mpsc::UnboundedReceiver;

type Rtc = Broker<WebRTCInput, WebRTCOutput>;

/// A node connection with connections under our control.
struct Node {
    b: Broker<NCInput, NCOutput>,
    rtc: Vec<Rtc>,
    to: Vec<UnboundedReceiver<WebRTCInput>>,
    told: UnboundedReceiver<NCOutput>,
}
impl Node {
    async fn new() -> Node {
        let made: Arc<Mutex<Vec<Rtc>>> = Default::default();
        let m2 = made.clone();
        let spawner: WebRTCSpawner = Box::new(move || {
            let r: Rtc = Broker::new();
            m2.lock().unwrap().push(r.clone());
            Box::new(Box::pin(async move { Ok(r) }))
        });
        let mut b = NodeConnection::new(&spawner).await.unwrap();
        let mut rtc = std::mem::take(&mut *made.lock().unwrap());
        let mut to = vec![];
        for r in rtc.iter_mut() {
            to.push(r.get_tap_in().await.unwrap().0);
        }
        let told = b.get_tap_out().await.unwrap().0;
        quiet().await;
        Node { b, rtc, to, told }
    }
    /// Something comes from one of the connections.
    fn comes(&mut self, d: &Direction, m: WebRTCOutput) -> Result<(), String> {
        self.rtc[(*d == Direction::Outgoing) as usize].emit_msg_out(m).map_err(|e| format!("the connection is gone: {e}"))
    }
    fn ask(&mut self, m: NCInput) -> Result<(), String> {
        self.b.emit_msg_in(m).map_err(|e| format!("the connection is gone: {e}"))
    }
    /// What came out.
    async fn out(&mut self) -> Result<Vec<NCOutput>, String> {
        quiet().await;
        let all = drain(&mut self.told);
        for (i, t) in self.to.iter_mut().enumerate() {
            let got = drain(t);
            let want: Vec<WebRTCInput> = all
                .iter()
                .filter_map(|m| match (m, i) {
                    (NCOutput::Incoming(m), 0) | (NCOutput::Outgoing(m), 1) => Some(m.clone()),
                    _ => None,
                })
                .collect();
            if got != want {
                return Err(format!("connection {i} gets {} messages instead of {}, or others", got.len(), want.len()));
            }
        }
        Ok(all)
    }
}

fn rnd_dir(c: &mut Case) -> Direction {
    if c.chance(50) { Direction::Incoming } else { Direction::Outgoing }
}

const ODD: [&str; 16] = ["", " ", "null", "{}", "- a\n", "a: b", "\"", "\\", "\u{0}", "\u{7f}", "\u{85}", "\u{2028}", "\u{feff}", "\u{1f600}", "\r\n\t", "\u{d7ff}\u{e000}\u{fffe}\u{10ffff}"];

fn rnd_text(c: &mut Case) -> String {
    match c.range(0, 9) {
        0..=2 => (0..c.range(0, 4)).map(|_| ODD[c.range(0, ODD.len() - 1)]).collect(),
        3 | 4 => format!("text {}", c.range(0, 9999)),
        // Around the size of a packet, in characters or in bytes.
        n => {
            let len = [1usize, 2, 3][c.range(0, 2)] * 16384 + c.range(0, 3) - 1;
            let unit = ["a", "é", "\u{7f}", "\u{1f600}", "\n"][c.range(0, 4)];
            let len = if n < 8 { len } else { len / unit.len() };
            let mut s: String = if c.chance(30) { unit.repeat(len) } else { (0..len).map(|i| if i % 16384 < 2 { ["b", unit, "\u{2028}"][c.range(0, 2)] } else if i % 7 == 0 { unit } else { ["x", "y", "z", "1"][i / 16384 % 4] }).collect() };
            if c.chance(30) {
                s += ODD[c.range(0, ODD.len() - 1)];
            }
            s
        }
    }
}
fn short(s: &str) -> String {
    format!("{:?} ({} characters, {} bytes)", s.chars().take(20).collect::<String>(), s.chars().count(), s.len())
}

/// One packet, as it is written today.
#[derive(Debug)]
struct Pkt {
    id: Option<(Value, u64, u64)>,
    data: String,
}
fn read(s: &str) -> Result<Pkt, String> {
    let v: Value = serde_json::from_str(s).map_err(|e| format!("unreadable packet {}: {e}", short(s)))?;
    let n = |k: &str| v.get(k).and_then(Value::as_u64);
    Ok(Pkt {
        id: match (v.get("id"), n("part"), n("total")) {
            (Some(i), Some(p), Some(t)) => Some((i.clone(), p, t)),
            _ => None,
        },
        data: v.get("data").and_then(Value::as_str).ok_or(format!("no text in packet {}", short(s)))?.into(),
    })
}

/// The packets of one text, as the sender makes them.
async fn packets(a: &mut Node, t: &str) -> Result<Vec<String>, String> {
    a.ask(NCInput::Text(t.into()))?;
    a.out().await?
        .into_iter()
        .map(|m| match m {
            NCOutput::Outgoing(WebRTCInput::Text(s)) => Ok(s),
            m => Err(format!("{m} instead of a packet")),
        })
        .collect()
}

/// A remote node sends a text which is nested deeply.
pub fn deep() -> bool {
    rt().block_on(async {
        let mut b = Node::new().await;
        for s in ["- ", "[", "{\"a\":"] {
            if b.comes(&Direction::Incoming, WebRTCOutput::Text(s.repeat(100000))).is_err() || b.out().await.is_err() {
                return false;
            }
        }
        let t = "{\"data\":\"x\"}";
        b.comes(&Direction::Incoming, WebRTCOutput::Text(t.into())).is_ok() && b.out().await == Ok(vec![NCOutput::Text("x".into())])
    })
}

pub fn t01(c: &mut Case) -> Res {
    if c.n == 0 && !crate::survives("node") {
        return c.fail("deep", "100000 times \"- \", \"[\" or \"{\" as text of a remote node stops this node");
    }
    rt().block_on(async {
        match join(c).await {
            Ok(r) => r,
            Err(e) => c.fail("packets", e),
        }
    })
}
async fn join(c: &mut Case) -> Result<Res, String> {
    let (mut a, mut b) = (Node::new().await, Node::new().await);
    a.comes(&Direction::Outgoing, WebRTCOutput::Connected)?;
    a.out().await?;
    // The packets of some texts, all mixed.
    let mut waiting: Vec<(usize, String)> = vec![];
    let mut texts: Vec<(String, usize)> = vec![];
    for _ in 0..c.range(1, 5) {
        let t = rnd_text(c);
        let ps = packets(&mut a, &t).await?;
        c.log(format!("text {}: {} in {} packets", texts.len(), short(&t), ps.len()));
        if ps.is_empty() {
            return Ok(c.fail("no-packet", format!("nothing is sent for {}", short(&t))));
        }
        c.count(if ps.len() > 1 { "cut" } else { "whole" });
        waiting.extend(ps.iter().map(|p| (texts.len(), p.clone())));
        texts.push((t, ps.len()));
    }
    let some = waiting[c.range(0, waiting.len() - 1)].1.clone();
    let cut = waiting.iter().find(|w| texts[w.0].1 > 1).map(|w| w.1.clone()).unwrap_or(some.clone());
    while !waiting.is_empty() {
        let d = rnd_dir(c);
        if c.chance(15) {
            // Something else than a packet, or a packet of nobody.
            let id = read(&cut)?.id;
            let bad = match (c.range(0, 5), id) {
                (0, Some(_)) => {
                    let mut v: Value = serde_json::from_str(&cut).unwrap();
                    v["id"] = serde_json::to_value(rnd_u256(c)).unwrap();
                    v["part"] = [0, 1, 7, u64::MAX][c.range(0, 3)].into();
                    v["total"] = [0, 2, u64::MAX, u64::MAX / 24][c.range(0, 3)].into();
                    v.to_string()
                }
                (1, Some((_, _, total))) => {
                    // A part which cannot be.
                    let mut v: Value = serde_json::from_str(&cut).unwrap();
                    v["part"] = [total, total + 1, u64::MAX][c.range(0, 2)].into();
                    v.to_string()
                }
                (2, _) => some.chars().take(c.range(0, 40)).collect(),
                (n, _) => ["", "{}", "null", "{\"data\":1}", "[]", "\u{0}"][n].into(),
            };
            c.log(format!("something else: {}", short(&bad)));
            c.count("else");
            b.comes(&d, WebRTCOutput::Text(bad))?;
            b.out().await?;
            continue;
        }
        let (i, p) = waiting.swap_remove(c.range(0, waiting.len() - 1));
        texts[i].1 -= 1;
        c.log(format!("a packet of {i}, {} to come", texts[i].1));
        b.comes(&d, WebRTCOutput::Text(p))?;
        let got = b.out().await?;
        let want = if texts[i].1 == 0 { vec![NCOutput::Text(texts[i].0.clone())] } else { vec![] };
        if got != want {
            let show = |v: &Vec<NCOutput>| v.iter().map(|m| if let NCOutput::Text(s) = m { short(s) } else { m.to_string() }).collect::<Vec<_>>();
            return Ok(c.fail("text", format!("{:?} instead of {:?}", show(&got), show(&want))));
        }
    }
    Ok(Ok(()))
}

pub fn t02(c: &mut Case) -> Res {
    rt().block_on(async {
        match send(c).await {
            Ok(r) => r,
            Err(e) => c.fail("connection", e),
        }
    })
}
fn rnd_state(c: &mut Case) -> ConnectionStateMap {
    ConnectionStateMap {
        data_connection: [None, Some(DataChannelState::Connecting), Some(DataChannelState::Open), Some(DataChannelState::Closing), Some(DataChannelState::Closed)][c.range(0, 4)],
        delay_ms: c.range(0, 9) as u32,
        ..Default::default()
    }
}
fn to(d: &Direction, m: WebRTCInput) -> NCOutput {
    match d {
        Direction::Incoming => NCOutput::Incoming(m),
        Direction::Outgoing => NCOutput::Outgoing(m),
    }
}
async fn send(c: &mut Case) -> Result<Res, String> {
    let mut n = Node::new().await;
    let mut waiting: VecDeque<String> = VecDeque::new();
    // Incoming, outgoing
    let mut st: [Option<ConnectionStateMap>; 2] = [None, None];
    let open = |s: &Option<ConnectionStateMap>| matches!(s, Some(ConnectionStateMap { data_connection: Some(DataChannelState::Open), .. }));
    for _ in 0..c.range(3, 30) {
        let d = rnd_dir(c);
        let k = (d == Direction::Outgoing) as usize;
        let mut want = vec![];
        let mut flush = false;
        match c.range(0, 11) {
            0..=3 => {
                let t = if c.chance(8) { rnd_text(c) } else { format!("text {}", c.range(0, 99999)) };
                c.log(format!("send {}", short(&t)));
                n.ask(NCInput::Text(t.clone()))?;
                waiting.push_back(t);
                flush = true;
            }
            4 | 5 => {
                c.log(format!("{d} connected"));
                n.comes(&d, WebRTCOutput::Connected)?;
                st[k] = Some(ConnectionStateMap { data_connection: Some(DataChannelState::Open), ..Default::default() });
                want.push(NCOutput::Connected(d.clone()));
                flush = true;
            }
            6 => {
                let m = if c.chance(50) { WebRTCOutput::Disconnected } else { WebRTCOutput::Error("broken".into()) };
                c.log(format!("{d} {m:?}"));
                n.comes(&d, m)?;
                st[k] = None;
                want.push(to(&d, WebRTCInput::Reset));
                want.push(NCOutput::Disconnected(d.clone()));
            }
            7 => {
                let s = rnd_state(c);
                c.log(format!("{d} {:?}", s.data_connection));
                n.comes(&d, WebRTCOutput::State(s))?;
                st[k] = Some(s);
                want.push(NCOutput::State(d.clone(), s));
            }
            8 => {
                let pm = rnd_pm(c);
                c.log(format!("{d} setup {pm:?}"));
                if c.chance(50) {
                    n.comes(&d, WebRTCOutput::Setup(pm.clone()))?;
                    want.push(NCOutput::Setup(d.clone(), pm));
                } else {
                    n.ask(NCInput::Setup(d.clone(), pm.clone()))?;
                    if k == 1 && st[1].is_none() {
                        st[1] = Some(ConnectionStateMap::default());
                    }
                    want.push(to(&d, WebRTCInput::Setup(pm)));
                }
            }
            9 => {
                c.log("disconnect");
                n.ask(NCInput::Disconnect)?;
                want.push(NCOutput::Incoming(WebRTCInput::Disconnect));
                want.push(NCOutput::Outgoing(WebRTCInput::Disconnect));
            }
            10 => {
                c.log("states");
                n.ask(NCInput::GetStates)?;
                for (s, d) in [(&st[0], Direction::Incoming), (&st[1], Direction::Outgoing)] {
                    if let Some(s) = s {
                        want.push(NCOutput::State(d, *s));
                    }
                }
            }
            _ => {
                c.log("a packet comes in");
                n.comes(&d, WebRTCOutput::Text(serde_json::json!({"data": "hello"}).to_string()))?;
                want.push(NCOutput::Text("hello".into()));
            }
        }
        let mut got: VecDeque<NCOutput> = n.out().await?.into();
        let front: Vec<NCOutput> = (0..want.len()).filter_map(|_| got.pop_front()).collect();
        if front != want {
            return Ok(c.fail("notice", format!("{front:?} instead of {want:?}")));
        }
        let via = match (flush, open(&st[1]), open(&st[0])) {
            (true, true, _) => Some(Direction::Outgoing),
            (true, false, true) => Some(Direction::Incoming),
            _ => None,
        };
        if let Some(via) = via {
            while let Some(t) = waiting.pop_front() {
                c.count(if via == Direction::Outgoing { "outgoing" } else { "incoming" });
                let (mut all, mut part) = (String::new(), 0);
                loop {
                    let p = match got.pop_front() {
                        Some(NCOutput::Outgoing(WebRTCInput::Text(p))) if via == Direction::Outgoing => read(&p)?,
                        Some(NCOutput::Incoming(WebRTCInput::Text(p))) if via == Direction::Incoming => read(&p)?,
                        m => return Ok(c.fail("sent", format!("{:?} instead of part {part} of {} over {via}", m.map(|m| short(&format!("{m:?}"))), short(&t)))),
                    };
                    all += &p.data;
                    let last = match p.id {
                        None => true,
                        Some((_, p, n)) => {
                            if p != part {
                                return Ok(c.fail("order", format!("part {p} instead of {part}")));
                            }
                            part + 1 >= n
                        }
                    };
                    part += 1;
                    if last {
                        break;
                    }
                }
                if all != t {
                    return Ok(c.fail("sent", format!("{} instead of {}", short(&all), short(&t))));
                }
            }
        } else if !waiting.is_empty() {
            c.count("waits");
        }
        if let Some(m) = got.pop_front() {
            return Ok(c.fail("more", format!("{} on top", short(&format!("{m:?}")))));
        }
    }
    Ok(Ok(()))
}

/// C01: the connections to several nodes, each against a connection of its own.
pub fn c01(c: &mut Case) -> Res {
    rt().block_on(async {
        match several(c).await {
            Ok(r) => r,
            Err(e) => c.fail("connections", e),
        }
    })
}
struct Peer {
    id: U256,
    /// What the connection alone does.
    alone: Node,
    rtc: Vec<Rtc>,
    to: Vec<UnboundedReceiver<WebRTCInput>>,
}
async fn several(c: &mut Case) -> Result<Res, String> {
    let made: Arc<Mutex<Vec<Vec<Rtc>>>> = Default::default();
    // 0: works, 1: the first, 2: the second connection cannot be made
    let plan: Arc<Mutex<VecDeque<usize>>> = Default::default();
    let first: Arc<Mutex<bool>> = Arc::new(Mutex::new(true));
    let (m2, p2) = (made.clone(), plan.clone());
    let spawner: WebRTCSpawner = Box::new(move || {
        let mut first = first.lock().unwrap();
        let mut plan = p2.lock().unwrap();
        let how = plan.front().copied().unwrap_or(0);
        let mut m = m2.lock().unwrap();
        if *first {
            m.push(vec![]);
        }
        if how == if *first { 1 } else { 2 } {
            plan.pop_front();
            *first = true;
            return Box::new(Box::pin(async { Err(anyhow::anyhow!("no connection")) }));
        }
        if !*first {
            plan.pop_front();
        }
        *first = !*first;
        let r: Rtc = Broker::new();
        m.last_mut().unwrap().push(r.clone());
        Box::new(Box::pin(async move { Ok(r) }))
    });
    let mut b = WebRTCConn::new(spawner).await.map_err(|e| e.to_string())?;
    let mut told = b.get_tap_out().await.map_err(|e| e.to_string())?.0;
    quiet().await;
    let ids: Vec<U256> = (0..c.range(1, 4)).map(|_| rnd_u256(c)).collect();
    let mut peers: Vec<Peer> = vec![];
    for _ in 0..c.range(2, 25) {
        if peers.is_empty() || c.chance(65) {
            // Some messages at once.
            let mut fresh: Vec<usize> = vec![];
            let mut tries: Vec<Option<U256>> = vec![];
            let mut batch: Vec<(U256, NCInput)> = vec![];
            let mut all = vec![];
            for _ in 0..c.range(1, 4) {
                let id = ids[c.range(0, ids.len() - 1)];
                let (m, n) = match c.range(0, 9) {
                    0 | 1 => (WebRTCConnIn::Connect(id), NCInput::Setup(Direction::Outgoing, PeerMessage::Init)),
                    2 => (WebRTCConnIn::Disconnect(id), NCInput::Disconnect),
                    3 => (WebRTCConnIn::Message(id, NCInput::GetStates), NCInput::GetStates),
                    4 => (WebRTCConnIn::Message(id, NCInput::Disconnect), NCInput::Disconnect),
                    5 | 6 => {
                        let s = NCInput::Setup(rnd_dir(c), rnd_pm(c));
                        (WebRTCConnIn::Message(id, s.clone()), s)
                    }
                    _ => {
                        let t = NCInput::Text(format!("text {}", c.range(0, 99999)));
                        (WebRTCConnIn::Message(id, t.clone()), t)
                    }
                };
                c.log(format!("{m:?}"));
                let known = peers.iter().any(|p| p.id == id) || tries.contains(&Some(id));
                if !known && !matches!(m, WebRTCConnIn::Disconnect(_)) {
                    let how = if c.chance(12) { c.range(1, 2) } else { 0 };
                    plan.lock().unwrap().push_back(how);
                    if how == 0 {
                        tries.push(Some(id));
                        batch.push((id, n));
                    } else {
                        c.log("which cannot be made");
                        c.count("not made");
                        tries.push(None);
                    }
                } else if known {
                    batch.push((id, n));
                } else {
                    c.count("not connected");
                }
                all.push(m);
            }
            for m in all {
                b.emit_msg_in(m).map_err(|e| format!("the connections are gone: {e}"))?;
            }
            quiet().await;
            let new = std::mem::take(&mut *made.lock().unwrap());
            if new.len() != tries.len() {
                return Ok(c.fail("made", format!("{} connections are made instead of {}", new.len(), tries.len())));
            }
            for (t, rtc) in tries.iter().zip(new) {
                if let Some(id) = t {
                    if rtc.len() != 2 {
                        return Ok(c.fail("made", format!("{} connections for a node", rtc.len())));
                    }
                    let (alone, mut rtc) = (Node::new().await, rtc);
                    let mut to = vec![];
                    for r in rtc.iter_mut() {
                        to.push(r.get_tap_in().await.map_err(|e| e.to_string())?.0);
                    }
                    fresh.push(peers.len());
                    peers.push(Peer { id: *id, alone, rtc, to });
                    c.count("made");
                }
            }
            for (id, n) in batch {
                let p = peers.iter_mut().find(|p| p.id == id).unwrap();
                p.alone.ask(n)?;
            }
            let all = drain(&mut told);
            for (i, p) in peers.iter_mut().enumerate() {
                // What a connection was told before it could be watched is not seen.
                if let Some(r) = alike(c, p, &all, fresh.contains(&i)).await? {
                    return Ok(r);
                }
            }
            if let Some(WebRTCConnOut::Message(x, m)) = all.iter().find(|WebRTCConnOut::Message(x, _)| !peers.iter().any(|p| p.id == *x)) {
                return Ok(c.fail("name", format!("{m} comes from {x}, which has no connection")));
            }
        } else {
            let k = c.range(0, peers.len() - 1);
            let d = rnd_dir(c);
            let m = match c.range(0, 5) {
                0 | 1 => WebRTCOutput::Connected,
                2 => WebRTCOutput::Disconnected,
                3 => WebRTCOutput::Setup(rnd_pm(c)),
                4 => WebRTCOutput::State(rnd_state(c)),
                _ => WebRTCOutput::Text(serde_json::json!({"data": format!("hello {}", c.range(0, 999))}).to_string()),
            };
            c.log(format!("{d} connection of {}: {m:?}", peers[k].id));
            peers[k].rtc[(d == Direction::Outgoing) as usize].emit_msg_out(m.clone()).map_err(|e| format!("the connection is gone: {e}"))?;
            peers[k].alone.comes(&d, m)?;
            quiet().await;
            let all = drain(&mut told);
            for p in peers.iter_mut() {
                if let Some(r) = alike(c, p, &all, false).await? {
                    return Ok(r);
                }
            }
        }
    }
    Ok(Ok(()))
}
async fn alike(c: &mut Case, p: &mut Peer, all: &[WebRTCConnOut], fresh: bool) -> Result<Option<Res>, String> {
    let want = p.alone.out().await?;
    let got: Vec<NCOutput> = all.iter().filter_map(|WebRTCConnOut::Message(x, m)| (*x == p.id).then(|| m.clone())).collect();
    if got != want {
        return Ok(Some(c.fail("says", format!("{} says {got:?} instead of {want:?}", p.id))));
    }
    for (i, t) in p.to.iter_mut().enumerate() {
        let got = drain(t);
        let want: Vec<WebRTCInput> = want
            .iter()
            .filter_map(|m| match (m, i) {
                (NCOutput::Incoming(m), 0) | (NCOutput::Outgoing(m), 1) => Some(m.clone()),
                _ => None,
            })
            .collect();
        if !fresh && got != want {
            return Ok(Some(c.fail("hears", format!("connection {i} of {} hears {got:?} instead of {want:?}", p.id))));
        }
    }
    Ok(None)
}
