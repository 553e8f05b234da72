//! G01-G03: the store of events, and how nodes tell each other about them.
use crate::storage::rnd_u256;
use crate::{Case, Res};
use flarch::{
    broker::Broker,
    data_storage::{DataStorage, DataStorageTemp},
    nodeids::{NodeID, NodeIDs, U256},
};
use flmodules::{
    gossip_events::{
        broker::{Gossip, GossipIn, GossipOut},
        core::{Category, Event, EventsStorage},
        intern::ModuleMessage,
    },
    nodeconfig::NodeInfo,
    random_connections::broker::{RandomIn, RandomOut},
    router::messages::NetworkWrapper,
    timer::{Timer, TimerMessage},
};
use std::collections::{BTreeSet, HashMap};
use tokio::sync::mpsc::UnboundedReceiver;

/// Lets everything which was started come to rest.
pub async fn quiet() {
    for _ in 0..80 {
        tokio::task::yield_now().await;
    }
}
pub fn drain<T>(r: &mut UnboundedReceiver<T>) -> Vec<T> {
    let mut v = vec![];
    while let Ok(m) = r.try_recv() {
        v.push(m);
    }
    v
}
pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap()
}

const CATS: [(Category, usize, bool); 2] = [(Category::TextMessage, 50, false), (Category::NodeInfo, 100, true)];

fn rnd_event(c: &mut Case, nodes: &[NodeID], times: i64) -> Event {
    let text = c.chance(50);
    Event {
        category: if text { Category::TextMessage } else { Category::NodeInfo },
        src: nodes[c.range(0, nodes.len() - 1)],
        created: if c.chance(3) { [i64::MIN, i64::MAX, -1, 0][c.range(0, 3)] } else { c.range(0, times as usize) as i64 },
        msg: ["", "a", "ab", "a: b", "- x\n", "é\u{1}", "'\"\\", "  lead", "\r\n", "null", "~", "1"][c.range(0, 11)].into(),
    }
}
fn show(e: &Event) -> String {
    format!("{:?} of {} at {}: {:?}", e.category, e.src, e.created, e.msg)
}
type Store = HashMap<U256, Event>;

/// What has to be there after `e` came in: the ones which can stay (newest first) and how many; None if nothing changes.
fn stays(held: &Store, e: &Event) -> Option<(Store, usize)> {
    if held.values().any(|x| x == e) {
        return None;
    }
    let (_, max, unique) = CATS.into_iter().find(|x| x.0 == e.category).unwrap();
    let mut h: Store = held.iter().filter(|(_, x)| x.category == e.category).map(|(k, x)| (*k, x.clone())).collect();
    if unique {
        if h.values().any(|x| x.src == e.src && x.created > e.created) {
            return None;
        }
        h.retain(|_, x| x.src != e.src);
    }
    h.insert(e.get_id(), e.clone());
    let n = h.len().min(max);
    Some((h, n))
}
fn as_store(c: &Case, es: Vec<Event>) -> Result<Store, crate::Fail> {
    let n = es.len();
    let s: Store = es.into_iter().map(|e| (e.get_id(), e)).collect();
    c.check(s.len() == n, "twice", || "an event is there twice".into())?;
    Ok(s)
}
/// Compares what is there with what has to be; returns whether `e` was taken in.
fn judge(c: &Case, before: &Store, after: &Store, e: &Event) -> Result<bool, crate::Fail> {
    match stays(before, e) {
        None => {
            c.check(before == after, "changed", || format!("known or outdated: {}; but the events changed", show(e)))?;
            Ok(false)
        }
        Some((h, n)) => {
            for (k, x) in after.iter().filter(|(_, x)| x.category == e.category) {
                c.check(h.get(k) == Some(x), "intruder", || format!("after {}: there should be no {}", show(e), show(x)))?;
            }
            let got: Store = after.iter().filter(|(_, x)| x.category == e.category).map(|(k, x)| (*k, x.clone())).collect();
            c.check(got.len() == n, "number", || format!("after {}: {} events instead of {n}", show(e), got.len()))?;
            let oldest = got.values().map(|x| x.created).min();
            for x in h.values().filter(|x| !got.contains_key(&x.get_id())) {
                c.check(Some(x.created) <= oldest, "newest", || format!("after {}: {} is gone, but an older one is kept", show(e), show(x)))?;
            }
            for (k, x) in before.iter().filter(|(_, x)| x.category != e.category) {
                c.check(after.get(k) == Some(x), "other-category", || format!("after {}: {} is gone", show(e), show(x)))?;
            }
            Ok(got.contains_key(&e.get_id()))
        }
    }
}

pub fn g01(c: &mut Case) -> Res {
    let nn = if c.chance(30) { c.range(101, 130) } else { c.range(1, 12) };
    let nodes: Vec<NodeID> = (0..nn).map(|_| rnd_u256(c)).collect();
    let mut s = EventsStorage::new();
    let ops = if nn > 100 { 260 } else { 150 };
    let times = [5, 60, 1000][c.range(0, 2)];
    let mut before: Store = HashMap::new();
    for op in 0..ops {
        let e = if c.chance(15) && !before.is_empty() { let k = c.range(0, before.len() - 1); before.values().nth(k).unwrap().clone() } else { rnd_event(c, &nodes, times) };
        c.log(show(&e));
        let res = s.add_event(e.clone());
        let after = as_store(c, CATS.iter().flat_map(|x| s.events(x.0)).collect())?;
        let taken = judge(c, &before, &after, &e)?;
        c.count(if taken { "taken in" } else if stays(&before, &e).is_some() { "too old" } else { "known or outdated" });
        c.check(res == taken, "news", || format!("{} is reported as {} but it is {}", show(&e), if res { "news" } else { "nothing new" }, if taken { "there now" } else { "not there" }))?;
        if c.chance(5) || op + 1 == ops {
            let mut n = EventsStorage::new();
            let txt = s.get();
            c.check(txt.is_ok() && n.set(txt.as_ref().unwrap()).is_ok(), "restart", || "the events cannot be written and read back".into())?;
            c.check(n == s, "restart", || format!("after writing and reading back: {:?}", n))?;
            s = n;
        }
        before = after;
    }
    Ok(())
}

pub fn g02(c: &mut Case) -> Res {
    let nodes: Vec<NodeID> = (0..c.range(1, 8)).map(|_| if c.chance(50) { rnd_u256(c) } else { U256::from([c.range(0, 2) as u8; 32]) }).collect();
    let all: Vec<Event> = (0..40).map(|_| { let mut e = rnd_event(c, &nodes, 3); if c.chance(30) { e.created = [1 << 8, 1 << 16, 1 << 32, 1 << 56, 0x61, 0x6161][c.range(0, 5)]; } e }).collect();
    for a in &all {
        for b in &all {
            c.check((a.get_id() == b.get_id()) == (a == b), "id", || format!("same ID {} for: {} / {}", a.get_id(), show(a), show(b)))?;
        }
    }
    let mut s = EventsStorage::new();
    for e in &all {
        c.log(show(e));
        s.add_event(e.clone());
        let held = as_store(c, CATS.iter().flat_map(|x| s.events(x.0)).collect())?;
        for x in held.values().filter(|x| x.category == Category::NodeInfo) {
            let n = held.values().filter(|y| y.category == Category::NodeInfo && y.src == x.src).count();
            c.check(n == 1, "one-each", || format!("{n} events for {}", x.src))?;
        }
        let ids: BTreeSet<U256> = s.event_ids().into_iter().collect();
        c.check(ids == held.keys().cloned().collect() && s.event_ids().len() == held.len(), "ids", || format!("the list of IDs is {ids:?}"))?;
        for x in &all {
            let want = held.get(&x.get_id()).cloned();
            c.check(s.event(&x.get_id()) == want, "lookup", || format!("looking for {} gives {:?}", show(x), s.event(&x.get_id())))?;
            c.count(if want.is_some() { "found" } else { "not found" });
        }
        let n = c.range(0, 12);
        let mut some: Vec<U256> = (0..n).map(|_| all[c.range(0, all.len() - 1)].get_id()).collect();
        if c.chance(50) {
            some.push(rnd_u256(c));
        }
        let mut set: Vec<U256> = some.clone();
        set.sort();
        set.dedup();
        if c.chance(70) {
            some = set.clone();
        }
        let got = s.get_events_by_ids(some);
        let gids: BTreeSet<U256> = got.iter().map(|e| e.get_id()).collect();
        c.check(gids == set.iter().filter(|i| held.contains_key(i)).cloned().collect() && got.iter().all(|e| held.get(&e.get_id()) == Some(e)), "by-ids", || format!("asking for {set:?} gives {got:?}"))?;
    }
    Ok(())
}

fn unwrap(c: &Case, m: RandomIn) -> Result<(NodeID, ModuleMessage), crate::Fail> {
    match m {
        RandomIn::NetworkWrapperToNetwork(dst, w) => match w.unwrap_yaml("Gossip") {
            Some(m) => Ok((dst, m)),
            None => c.fail("garbled", format!("sends {w:?}")),
        },
        m => c.fail("garbled", format!("sends {m:?}")),
    }
}
fn set(v: &[U256]) -> BTreeSet<U256> {
    v.iter().cloned().collect()
}

/// Everyone connected but src and ourselves gets the IDs of the news which are not its own, and the news reach the application.
fn spread(c: &Case, me: NodeID, src: NodeID, nodes: &[NodeID], news: &[Event], net: &[(NodeID, ModuleMessage)], app: &[GossipOut]) -> Res {
    for n in nodes.iter().filter(|n| **n != src && **n != me) {
        let want: BTreeSet<U256> = news.iter().filter(|e| e.src != *n).map(|e| e.get_id()).collect();
        let told = net.iter().any(|(d, m)| d == n && matches!(m, ModuleMessage::KnownEventIDs(v) if set(v) == want));
        // An empty announcement need not be sent.
        c.check(told || want.is_empty(), "announce", || format!("{n} is not told about {want:?}: {net:?}"))?;
    }
    for (d, m) in net {
        let ok = nodes.contains(d) && *d != src && *d != me && matches!(m, ModuleMessage::KnownEventIDs(v) if set(v) == news.iter().filter(|e| e.src != *d).map(|e| e.get_id()).collect());
        c.check(ok, "announce", || format!("{d} is sent {m:?}"))?;
    }
    let want: Vec<GossipOut> = news.iter().map(|e| GossipOut::NewEvent(e.clone())).collect();
    c.check(app == want, "application", || format!("the application is told {app:?} instead of {want:?}"))
}

pub fn g03(c: &mut Case) -> Res {
    rt().block_on(g03_run(c))
}
async fn g03_run(c: &mut Case) -> Res {
    let me = rnd_u256(c);
    let disk = DataStorageTemp::new();
    let peers: Vec<NodeID> = (0..c.range(2, 7)).map(|_| rnd_u256(c)).collect();
    let many = c.chance(30);
    let mut srcs = peers.clone();
    srcs.push(me);
    if many {
        srcs.extend((0..110).map(|_| rnd_u256(c)).collect::<Vec<_>>());
    }
    let times = [4, 60][c.range(0, 1)];
    let mut pool: Vec<Event> = (0..40).map(|_| rnd_event(c, &srcs, times)).collect();
    let mut held: Store = HashMap::new();
    let mut first = true;
    for _life in 0..c.range(1, 3) {
        let mut rc: Broker<RandomIn, RandomOut> = Broker::new();
        let mut timer = Timer::simul();
        let (mut net, _) = rc.get_tap_in().await.unwrap();
        let g = Gossip::start(disk.clone_box(), NodeInfo::new_from_id(me), timer.broker.clone(), rc.clone()).await;
        let Ok(mut g) = g else { return c.fail("start", "cannot start") };
        let (mut app, _) = g.broker.get_tap_out().await.unwrap();
        quiet().await;
        drain(&mut net);
        drain(&mut app);
        // It announces itself when it starts.
        let now = as_store(c, CATS.iter().flat_map(|x| g.events(x.0)).collect())?;
        let own: Vec<&Event> = now.values().filter(|e| e.src == me && e.category == Category::NodeInfo).collect();
        c.check(own.len() <= 1, "start", || "more than one node info".into())?;
        let mut lost: Vec<&Event> = held.values().filter(|e| !now.contains_key(&e.get_id())).collect();
        lost.retain(|e| !(e.src == me && e.category == Category::NodeInfo));
        let full = held.values().filter(|e| e.category == Category::NodeInfo).count() >= 100;
        c.check(lost.is_empty() || (full && lost.len() == 1), "restart", || format!("lost in a restart: {}", lost.iter().map(|e| show(e)).collect::<Vec<_>>().join("; ")))?;
        c.check(now.values().all(|e| held.get(&e.get_id()) == Some(e) || (e.src == me && e.category == Category::NodeInfo)), "restart", || "an event appeared in a restart".into())?;
        c.check(!first || own.len() == 1, "start", || "the node info is not there".into())?;
        first = false;
        held = now;
        let mut nodes: Vec<NodeID> = vec![];
        let mut asked: Vec<U256> = vec![];
        let mut ticks = 0;
        for _ in 0..c.range(5, 40) {
            let src = peers[c.range(0, peers.len() - 1)];
            if c.chance(30) {
                pool.push(rnd_event(c, &srcs, times));
            }
            let mut some: Vec<Event> = (0..c.range(0, if many { 30 } else { 5 })).map(|_| if c.chance(50) { rnd_event(c, &srcs, times) } else { pool[c.range(0, pool.len() - 1)].clone() }).collect();
            if c.chance(10) && !some.is_empty() {
                some.push(some[0].clone());
            }
            let some_ids: Vec<U256> = some.iter().map(|e| e.get_id()).chain(if c.chance(30) { held.keys().take(3).cloned().collect::<Vec<_>>() } else { vec![] }).collect();
            let from = |m: &ModuleMessage| RandomOut::NetworkWrapperFromNetwork(src, NetworkWrapper::wrap_yaml("Gossip", m).unwrap());
            let op = c.range(0, 9);
            match op {
                0 | 1 => {
                    let e = if c.chance(60) { rnd_event(c, &srcs, times) } else { pool[c.range(0, pool.len() - 1)].clone() };
                    c.log(format!("add {}", show(&e)));
                    g.broker.emit_msg_in(GossipIn::AddEvent(e.clone())).unwrap();
                    some = vec![e];
                }
                2 => {
                    some = vec![];
                    let mut v: Vec<NodeID> = peers.iter().filter(|_| c.rng.gen_bool(0.5)).cloned().collect();
                    if c.chance(10) {
                        v.push(me);
                    }
                    c.log(format!("connected: {v:?}"));
                    rc.emit_msg_out(RandomOut::NodeIDsConnected(NodeIDs(v.clone()))).unwrap();
                    quiet().await;
                    let out: Vec<_> = drain(&mut net).into_iter().map(|m| unwrap(c, m)).collect::<Result<_, _>>()?;
                    let want: BTreeSet<U256> = v.iter().filter(|n| !nodes.contains(n) && **n != me).cloned().collect();
                    c.check(out.len() == want.len() && out.iter().all(|(d, m)| want.contains(d) && *m == ModuleMessage::RequestEventIDs), "new-nodes", || format!("new are {want:?}; sends {out:?}"))?;
                    nodes = v;
                }
                3 | 4 => {
                    c.log(format!("{src} sends {}", some.iter().map(show).collect::<Vec<_>>().join("; ")));
                    rc.emit_msg_out(from(&ModuleMessage::Events(some.clone()))).unwrap();
                }
                5 => {
                    some = vec![];
                    c.log(format!("{src} knows {some_ids:?}"));
                    rc.emit_msg_out(from(&ModuleMessage::KnownEventIDs(some_ids.clone()))).unwrap();
                    quiet().await;
                    let out: Vec<_> = drain(&mut net).into_iter().map(|m| unwrap(c, m)).collect::<Result<_, _>>()?;
                    let want: BTreeSet<U256> = some_ids.iter().filter(|i| !held.contains_key(i) && !asked.contains(i)).cloned().collect();
                    let ok = if want.is_empty() { out.is_empty() } else { out.len() == 1 && out[0].0 == src && matches!(&out[0].1, ModuleMessage::RequestEvents(v) if set(v) == want) };
                    c.check(ok, "request", || format!("should ask {src} for {want:?}; sends {out:?}"))?;
                    asked.extend(want);
                    c.count("announcements");
                }
                6 => {
                    some = vec![];
                    c.log(format!("{src} asks for {some_ids:?}"));
                    rc.emit_msg_out(from(&ModuleMessage::RequestEvents(some_ids.clone()))).unwrap();
                    quiet().await;
                    let out: Vec<_> = drain(&mut net).into_iter().map(|m| unwrap(c, m)).collect::<Result<_, _>>()?;
                    let want: BTreeSet<U256> = some_ids.iter().filter(|i| held.contains_key(i)).cloned().collect();
                    let ok = if want.is_empty() { out.is_empty() } else { out.len() == 1 && out[0].0 == src && matches!(&out[0].1, ModuleMessage::Events(v) if v.iter().map(|e| e.get_id()).collect::<BTreeSet<_>>() == want && v.iter().all(|e| held.get(&e.get_id()) == Some(e))) };
                    c.check(ok, "reply", || format!("should send {want:?} to {src}; sends {out:?}"))?;
                    c.count("requests");
                }
                7 => {
                    some = vec![];
                    c.log(format!("{src} asks for the list"));
                    rc.emit_msg_out(from(&ModuleMessage::RequestEventIDs)).unwrap();
                    quiet().await;
                    let out: Vec<_> = drain(&mut net).into_iter().map(|m| unwrap(c, m)).collect::<Result<_, _>>()?;
                    let ok = out.len() == 1 && out[0].0 == src && matches!(&out[0].1, ModuleMessage::KnownEventIDs(v) if set(v) == held.keys().cloned().collect() && v.len() == held.len());
                    c.check(ok, "list", || format!("should send the list to {src}; sends {out:?}"))?;
                }
                8 => {
                    some = vec![];
                    c.log("tick");
                    timer.broker.emit_msg_out(TimerMessage::Second).unwrap();
                    ticks += 1;
                    quiet().await;
                    let out: Vec<_> = drain(&mut net).into_iter().map(|m| unwrap(c, m)).collect::<Result<_, _>>()?;
                    if ticks >= 3 {
                        asked.clear();
                        c.check(out.iter().all(|(d, m)| nodes.contains(d) && *m == ModuleMessage::RequestEventIDs) && nodes.iter().all(|n| *n == me || out.iter().any(|(d, _)| d == n)), "tick", || format!("sends {out:?} to {nodes:?}"))?;
                        c.count("ticks");
                    } else {
                        c.check(out.is_empty(), "tick", || format!("sends {out:?}"))?;
                    }
                }
                _ => {
                    some = vec![];
                    c.log(format!("{src} sends something for another module, or garbled"));
                    let w = if c.chance(50) { NetworkWrapper::wrap_yaml("Other", &ModuleMessage::Events(vec![pool[0].clone()])).unwrap() } else { NetworkWrapper { module: "Gossip".into(), msg: ["Events: 5", "{}", "", "Events: {}"][c.range(0, 3)].into() } };
                    rc.emit_msg_out(RandomOut::NetworkWrapperFromNetwork(src, w)).unwrap();
                    quiet().await;
                    let out = drain(&mut net);
                    c.check(out.is_empty(), "foreign", || format!("sends {out:?}"))?;
                }
            }
            quiet().await;
            let after = as_store(c, CATS.iter().flat_map(|x| g.events(x.0)).collect())?;
            let out: Vec<_> = drain(&mut net).into_iter().map(|m| unwrap(c, m)).collect::<Result<_, _>>()?;
            let told = drain(&mut app);
            if op <= 1 || op == 3 || op == 4 {
                // What has come in may push out what came in before it: follow the real store.
                let mut s = EventsStorage::new();
                for e in held.values() {
                    s.add_event(e.clone());
                }
                let mut news = vec![];
                let mut b = held.clone();
                let mut sure = true;
                for e in &some {
                    s.add_event(e.clone());
                    let a = as_store(c, CATS.iter().flat_map(|x| s.events(x.0)).collect())?;
                    if let Some((h, n)) = stays(&b, e) {
                        // With the same age it is open which one stays.
                        sure &= h.len() == n || { let mut t: Vec<i64> = h.values().map(|x| x.created).collect(); t.sort(); t[0] != t[1] };
                    }
                    if judge(c, &b, &a, e)? {
                        news.push(e.clone());
                    }
                    b = a;
                    if op >= 3 {
                        asked.retain(|i| *i != e.get_id());
                    }
                }
                if sure {
                    c.check(after == b, "events", || format!("{} events instead of {}", after.len(), b.len()))?;
                    c.count(if news.is_empty() { "nothing new" } else { "news" });
                    if news.is_empty() {
                        c.check(told.is_empty() && out.iter().all(|(_, m)| matches!(m, ModuleMessage::KnownEventIDs(v) if v.is_empty())), "old-news", || format!("nothing is new, but it sends {out:?}, {told:?}"))?;
                    } else {
                        let from = if op <= 1 { me } else { src };
                        spread(c, me, from, &nodes, &news, &out, &told)?;
                    }
                } else {
                    c.count("ties");
                }
            } else {
                c.check(after == held, "events", || "the events changed".into())?;
                c.check(out.is_empty() && told.is_empty(), "more", || format!("also sends {out:?}, {told:?}"))?;
            }
            held = after;
        }
    }
    Ok(())
}
use rand::Rng;
