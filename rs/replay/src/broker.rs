//! B01, B02: what is put in a broker reaches its subsystems and the linked brokers.
use crate::gossip::{quiet, rt};
use crate::{Case, Res};
use flarch::broker::{Broker, Destination, SubsystemHandler};
use flarch::platform_async_trait;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{mpsc, Arc, Mutex};
use tokio::sync::mpsc::UnboundedReceiver;

/// A message: its number, and the way it took.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Msg(usize, Vec<usize>);
type Log = Arc<Mutex<Vec<Msg>>>;

struct Hand {
    nbr: usize,
    slow: bool,
    got: Log,
}
/// What the handler answers to this message.
fn answers(nbr: usize, m: &Msg) -> Vec<Msg> {
    (0..(m.0 + nbr) % 3).map(|i| Msg(m.0, vec![1000 + nbr, i])).collect()
}
#[platform_async_trait()]
impl SubsystemHandler<Msg, Msg> for Hand {
    async fn messages(&mut self, msgs: Vec<Msg>) -> Vec<Msg> {
        if self.slow {
            tokio::task::yield_now().await;
        }
        self.got.lock().unwrap().extend(msgs.iter().cloned());
        msgs.iter().flat_map(|m| answers(self.nbr, m)).collect()
    }
}

enum Tap {
    Asy(UnboundedReceiver<Msg>),
    Syn(mpsc::Receiver<Msg>),
}
impl Tap {
    /// What arrived, and whether the broker is still there.
    fn take(&mut self) -> (Vec<Msg>, bool) {
        let mut v = vec![];
        loop {
            match self {
                Tap::Asy(r) => match r.try_recv() {
                    Ok(m) => v.push(m),
                    Err(e) => return (v, e == tokio::sync::mpsc::error::TryRecvError::Empty),
                },
                Tap::Syn(r) => match r.try_recv() {
                    Ok(m) => v.push(m),
                    Err(e) => return (v, e == mpsc::TryRecvError::Empty),
                },
            }
        }
    }
}

enum Kind {
    TapIn(Tap),
    TapOut(Tap),
    Hand(usize, Log),
    TrIn(Log),
    TrOut(Log),
}
/// A subsystem, and what it should have got.
struct Sub {
    id: usize,
    kind: Kind,
    here: bool,
    ins: Vec<Msg>,
    /// Messages put in as outgoing, in order.
    outs: Vec<Msg>,
    /// What each handler answered, in order.
    said: BTreeMap<usize, Vec<Msg>>,
}

pub fn b01(c: &mut Case) -> Res {
    rt().block_on(async {
        let mut copies: Vec<Broker<Msg, Msg>> = vec![Broker::new()];
        let mut subs: Vec<Sub> = vec![];
        let mut hands = 0;
        let mut ids = BTreeSet::new();
        let mut next = 0;
        let len = c.range(5, 40);
        for _ in 0..len {
            let at = c.range(0, copies.len() - 1);
            match c.range(0, 99) {
                0..=24 if subs.len() < 9 => {
                    let b = &mut copies[at];
                    let (kind, id) = match c.range(0, 6) {
                        0 => b.get_tap_in().await.map(|(r, i)| (Kind::TapIn(Tap::Asy(r)), i)),
                        1 => b.get_tap_in_sync().await.map(|(r, i)| (Kind::TapIn(Tap::Syn(r)), i)),
                        2 => b.get_tap_out().await.map(|(r, i)| (Kind::TapOut(Tap::Asy(r)), i)),
                        3 => b.get_tap_out_sync().await.map(|(r, i)| (Kind::TapOut(Tap::Syn(r)), i)),
                        4 => {
                            let got = Log::default();
                            let h = Hand { nbr: hands, slow: c.chance(40), got: got.clone() };
                            hands += 1;
                            b.add_handler(Box::new(h)).await.map(|i| (Kind::Hand(hands - 1, got), i))
                        }
                        k => {
                            let got = Log::default();
                            let g = got.clone();
                            let f = Box::new(move |m: Msg| -> Option<Msg> {
                                g.lock().unwrap().push(m);
                                None
                            });
                            let o = Broker::<Msg, Msg>::new();
                            match (k, c.chance(50)) {
                                (5, true) => b.add_translator_i_ti(o, f).await.map(|i| (Kind::TrIn(got), i)),
                                (5, false) => b.add_translator_i_to(o, f).await.map(|i| (Kind::TrIn(got), i)),
                                (_, true) => b.add_translator_o_ti(o, f).await.map(|i| (Kind::TrOut(got), i)),
                                (_, false) => b.add_translator_o_to(o, f).await.map(|i| (Kind::TrOut(got), i)),
                            }
                        }
                    }
                    .expect("adding a subsystem");
                    let what = match &kind { Kind::TapIn(_) => "tap for incoming", Kind::TapOut(_) => "tap for outgoing", Kind::Hand(..) => "handler", Kind::TrIn(_) => "translator of incoming", Kind::TrOut(_) => "translator of outgoing" };
                    c.log(format!("copy {at}: add {what}, number {id}"));
                    c.check(ids.insert(id), "number", || format!("number {id} was given to a second subsystem"))?;
                    subs.push(Sub { id, kind, here: true, ins: vec![], outs: vec![], said: BTreeMap::new() });
                    c.count("subsystems");
                }
                0..=31 if !subs.is_empty() => {
                    let s = c.range(0, subs.len() - 1);
                    let id = if c.chance(90) { subs[s].id } else { 1000 };
                    c.log(format!("copy {at}: remove number {id}"));
                    copies[at].remove_subsystem(id).await.expect("removing");
                    subs.iter_mut().filter(|s| s.id == id).for_each(|s| s.here = false);
                }
                0..=36 if !subs.is_empty() => {
                    let s = c.range(0, subs.len() - 1);
                    if matches!(subs[s].kind, Kind::TapIn(_) | Kind::TapOut(_)) {
                        let s = subs.remove(s);
                        c.log(format!("nobody listens to number {} anymore", s.id));
                        c.count("taps dropped");
                    }
                }
                0..=42 if copies.len() < 4 => {
                    let n = copies[at].clone();
                    copies.push(n);
                    c.log(format!("copy of {at}"));
                }
                0..=46 if copies.len() > 1 => {
                    copies.remove(at);
                    c.log(format!("copy {at} dropped"));
                }
                0..=52 => quiet().await,
                k => {
                    let m = Msg(next, vec![]);
                    next += 1;
                    let dst = match c.range(0, 9) {
                        0 | 1 => Destination::NoTap,
                        2..=4 => Destination::Handled(if subs.is_empty() { 3 } else { subs[c.range(0, subs.len() - 1)].id }),
                        5 => Destination::Forwarded(vec![crate::storage::rnd_u256(c)]),
                        _ => Destination::All,
                    };
                    let incoming = k < 85;
                    c.log(format!("copy {at}: message {} {} for {dst:?}", m.0, if incoming { "in" } else { "out" }));
                    c.count("messages");
                    let all = dst == Destination::All && c.chance(50);
                    let settles = c.chance(20);
                    let b = &mut copies[at];
                    match (incoming, all, settles) {
                        (true, true, false) => b.emit_msg_in(m.clone()),
                        (true, false, false) => b.emit_msg_in_dest(dst.clone(), m.clone()),
                        (true, true, true) => b.settle_msg_in(m.clone()).await,
                        (true, false, true) => b.settle_msg_in_dest(dst.clone(), m.clone()).await,
                        (false, true, false) => b.emit_msg_out(m.clone()),
                        (false, false, false) => b.emit_msg_out_dest(dst.clone(), m.clone()),
                        (false, true, true) => b.settle_msg_out(m.clone()).await,
                        (false, false, true) => b.settle_msg_out_dest(dst.clone(), m.clone()).await,
                    }
                    .expect("putting a message in");
                    let tapped = dst != Destination::NoTap;
                    let mut said: Vec<(usize, Vec<Msg>)> = vec![];
                    for s in subs.iter_mut().filter(|s| s.here) {
                        match &s.kind {
                            Kind::TapIn(_) if incoming && tapped => s.ins.push(m.clone()),
                            Kind::TapOut(_) if !incoming && tapped => s.outs.push(m.clone()),
                            Kind::TrIn(_) if incoming => s.ins.push(m.clone()),
                            Kind::TrOut(_) if !incoming => s.outs.push(m.clone()),
                            Kind::Hand(n, _) if incoming && dst != Destination::Handled(s.id) => {
                                s.ins.push(m.clone());
                                said.push((*n, answers(*n, &m)));
                            }
                            _ => {}
                        }
                    }
                    for s in subs.iter_mut().filter(|s| s.here) {
                        if matches!(s.kind, Kind::TapOut(_) | Kind::TrOut(_)) {
                            for (n, a) in &said {
                                s.said.entry(*n).or_default().extend(a.iter().cloned());
                            }
                        }
                    }
                }
            }
        }
        let end = c.chance(30);
        if end {
            copies.clear();
            c.log("all copies dropped");
        }
        quiet().await;
        for s in subs.iter_mut() {
            let id = s.id;
            let (got, alive) = match &mut s.kind {
                Kind::TapIn(t) | Kind::TapOut(t) => t.take(),
                Kind::Hand(_, l) | Kind::TrIn(l) | Kind::TrOut(l) => (l.lock().unwrap().clone(), Arc::strong_count(l) > 1),
            };
            let here = s.here && !end;
            c.check(alive == here, "ends", || format!("number {id} is {} in the broker", if alive { "still" } else { "no longer" }))?;
            match &s.kind {
                Kind::TapIn(_) | Kind::Hand(..) | Kind::TrIn(_) => c.check(got == s.ins, "order", || format!("number {id} should have got {:?}, but got {got:?}", s.ins))?,
                Kind::TapOut(_) | Kind::TrOut(_) => {
                    let outs: Vec<_> = got.iter().filter(|m| m.1.is_empty()).cloned().collect();
                    c.check(outs == s.outs, "order", || format!("number {id} should have got {:?}, but got {outs:?}", s.outs))?;
                    for h in 0..hands {
                        let a: Vec<_> = got.iter().filter(|m| m.1.first() == Some(&(1000 + h))).cloned().collect();
                        let w = s.said.get(&h).cloned().unwrap_or_default();
                        c.check(a == w, "answers", || format!("number {id} should have got from handler {h} {w:?}, but got {a:?}"))?;
                    }
                }
            }
        }
        Ok(())
    })
}

/// A translator from one broker to another: for incoming or outgoing ones, to incoming or outgoing ones, without those whose number this divides.
#[derive(Clone, Debug)]
struct Edge {
    from: usize,
    to: usize,
    takes_in: bool,
    gives_in: bool,
    not: usize,
}
fn passes(e: &Edge, nbr: usize, m: &Msg) -> Option<Msg> {
    (m.0 % e.not != 0).then(|| Msg(m.0, m.1.iter().cloned().chain([nbr]).collect()))
}
/// Where it goes from here: (broker, incoming, message), and whether it came back to a broker it was already in.
fn travel(edges: &[Edge], at: usize, incoming: bool, trail: &[usize], m: &Msg, all: &mut Vec<(usize, bool, Msg, bool)>) {
    all.push((at, incoming, m.clone(), trail.contains(&at)));
    if trail.contains(&at) || all.len() > 600 {
        return;
    }
    let mut trail = trail.to_vec();
    trail.push(at);
    for (i, e) in edges.iter().enumerate().filter(|(_, e)| e.from == at && e.takes_in == incoming) {
        if let Some(m) = passes(e, i, m) {
            travel(edges, e.to, e.gives_in, &trail, &m, all);
        }
    }
}

pub fn b02(c: &mut Case) -> Res {
    rt().block_on(async {
        // Any graph, or a way which leads into a circle.
        let shape = if c.chance(30) { Some([0, 3, 4][c.range(0, 2)]) } else { None };
        let n = if shape.is_some() { c.range(3, 9) } else { c.range(2, 5) };
        let mut bs: Vec<Broker<Msg, Msg>> = (0..n).map(|_| Broker::new()).collect();
        let mut edges: Vec<Edge> = vec![];
        for step in 0..if shape.is_some() { n } else { c.range(1, 5) } {
            let (f, t) = match shape {
                Some(_) => (step, if step + 1 < n { step + 1 } else { c.range(0, n - 2) }),
                None => (c.range(0, n - 1), c.range(0, n - 1)),
            };
            if f == t && !c.chance(20) {
                continue;
            }
            let k = edges.len();
            let mk = |e: &Edge, i: usize| {
                let e = e.clone();
                Box::new(move |m: Msg| passes(&e, i, &m))
            };
            let other = bs[t].clone();
            let mut e = Edge { from: f, to: t, takes_in: false, gives_in: false, not: if shape.is_some() { 1000 } else { [2, 3, 1000][c.range(0, 2)] } };
            match shape.unwrap_or(c.range(0, 5)) {
                w @ 0..=3 => {
                    e.takes_in = w < 2;
                    e.gives_in = w % 2 == 0;
                    let g = mk(&e, k);
                    match w {
                        0 => bs[f].add_translator_i_ti(other, g).await,
                        1 => bs[f].add_translator_i_to(other, g).await,
                        2 => bs[f].add_translator_o_ti(other, g).await,
                        _ => bs[f].add_translator_o_to(other, g).await,
                    }
                    .expect("adding a translator");
                    edges.push(e);
                }
                w => {
                    // linked: what goes out comes in at the other, and back; direct: out to out, and in to in
                    let link = w == 4;
                    e.gives_in = link;
                    let back = Edge { from: t, to: f, takes_in: !link, gives_in: true, not: 1000 };
                    let (g, h) = (mk(&e, k), mk(&back, k + 1));
                    if link { bs[f].add_translator_link(other, g, h).await } else { bs[f].add_translator_direct(other, g, h).await }.expect("linking");
                    edges.push(e);
                    edges.push(back);
                }
            }
        }
        for (i, e) in edges.iter().enumerate() {
            c.log(format!("translator {i}: {} of broker {} to {} of broker {}, but not multiples of {}", if e.takes_in { "in" } else { "out" }, e.from, if e.gives_in { "in" } else { "out" }, e.to, e.not));
        }
        let mut taps = vec![];
        for b in bs.iter_mut() {
            taps.push((b.get_tap_in().await.unwrap().0, b.get_tap_out().await.unwrap().0));
        }
        let mut wanted: Vec<(Vec<Msg>, Vec<Msg>)> = vec![(vec![], vec![]); n];
        let mut got = wanted.clone();
        let mut on_way: Vec<(usize, bool, Msg)> = vec![];
        let mut starts = vec![];
        for m in 1..=c.range(1, 8) {
            let (at, incoming) = (if shape.is_some() && c.chance(60) { 0 } else { c.range(0, n - 1) }, if shape == Some(0) { !c.chance(20) } else { c.chance(50) });
            let m = Msg(m, vec![]);
            let mut all = vec![];
            travel(&edges, at, incoming, &[], &m, &mut all);
            if all.len() > 500 {
                continue;
            }
            c.log(format!("message {} {} broker {at}", m.0, if incoming { "in" } else { "out of" }));
            c.count("messages");
            if incoming { bs[at].emit_msg_in(m) } else { bs[at].emit_msg_out(m) }.expect("putting a message in");
            starts.push(at);
            for (b, i, m, back) in all {
                if i { wanted[b].0.push(m.clone()) } else { wanted[b].1.push(m.clone()) }
                if !back {
                    on_way.push((b, i, m));
                }
            }
            if c.chance(30) {
                quiet().await;
            }
        }
        let fetch = |taps: &mut Vec<(UnboundedReceiver<Msg>, UnboundedReceiver<Msg>)>, got: &mut Vec<(Vec<Msg>, Vec<Msg>)>| {
            for (t, g) in taps.iter_mut().zip(got.iter_mut()) {
                g.0.extend(crate::gossip::drain(&mut t.0));
                g.1.extend(crate::gossip::drain(&mut t.1));
            }
        };
        match c.range(0, 2) {
            0 => {
                // one after the other
                for s in starts.iter().collect::<BTreeSet<_>>() {
                    c.log(format!("settle broker {s}"));
                    let mut b = bs[*s].clone();
                    let t = tokio::spawn(async move { b.settle(vec![]).await });
                    for _ in 0..40 {
                        if t.is_finished() {
                            break;
                        }
                        quiet().await;
                    }
                    c.check(t.is_finished(), "settle", || format!("settling broker {s} doesn't end"))?;
                }
                fetch(&mut taps, &mut got);
                for (b, i, m) in &on_way {
                    let g = if *i { &got[*b].0 } else { &got[*b].1 };
                    c.check(g.contains(m), "settled", || format!("everything is settled, but {m:?} didn't arrive at broker {b}"))?;
                }
                c.count("settled");
            }
            1 => {
                // at the same time
                let mut ts = vec![];
                for _ in 0..c.range(2, 4) {
                    let s = c.range(0, n - 1);
                    c.log(format!("settle broker {s} at the same time"));
                    let mut b = bs[s].clone();
                    ts.push((s, tokio::spawn(async move { b.settle(vec![]).await })));
                }
                for _ in 0..40 {
                    if ts.iter().all(|t| t.1.is_finished()) {
                        break;
                    }
                    quiet().await;
                }
                for (s, t) in &ts {
                    c.check(t.is_finished(), "settle-together", || format!("settling broker {s} doesn't end when others are settled at the same time"))?;
                }
                c.count("settled together");
            }
            _ => {}
        }
        for _ in 0..6 {
            quiet().await;
        }
        fetch(&mut taps, &mut got);
        for (b, (w, g)) in wanted.iter_mut().zip(got.iter_mut()).enumerate() {
            for (w, g, what) in [(&mut w.0, &mut g.0, "in"), (&mut w.1, &mut g.1, "out")] {
                let twice = g.clone();
                w.sort();
                g.sort();
                c.check(w == g, "links", || format!("broker {b}, {what}: should have got {w:?}, but got {twice:?}"))?;
            }
        }
        Ok(())
    })
}
