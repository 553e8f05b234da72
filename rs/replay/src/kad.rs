//! K01-K04: distances, the table of known nodes, the choice of the next hop, and liveness.
use crate::storage::{depth, rnd_u256};
use crate::{Case, Res};
use flarch::nodeids::U256;
use flmodules::dht_router::kademlia::{Config, KNode, Kademlia};
use rand::Rng;
use std::collections::{BTreeMap, BTreeSet};

fn common(a: &U256, b: &U256) -> usize {
    let (a, b) = (a.to_bytes(), b.to_bytes());
    (0..256).find(|i| (a[i / 8] ^ b[i / 8]) >> (7 - i % 8) & 1 == 1).unwrap_or(256)
}
/// An ID which has exactly `d` bits in common with root.
pub fn at_depth(c: &mut Case, root: &U256, d: usize) -> U256 {
    let r = root.to_bytes();
    let x = rnd_u256(c).to_bytes();
    let mut o = [0u8; 32];
    for i in 0..256 {
        let (rb, xb) = (r[i / 8] >> (7 - i % 8) & 1, x[i / 8] >> (7 - i % 8) & 1);
        let b = if i < d { rb } else if i == d { 1 - rb } else { xb };
        o[i / 8] |= b << (7 - i % 8);
    }
    crate::storage::u256(o)
}
fn sh(u: &U256) -> String {
    format!("{u}")[..6].to_string()
}

pub fn k01(c: &mut Case) -> Res {
    for _ in 0..40 {
        let a = rnd_u256(c);
        let d = c.range(0, 256);
        let b = if d == 256 { a } else { at_depth(c, &a, d) };
        let want = d.min(255);
        let got = KNode::get_depth(&a, &b);
        c.count("distances");
        c.check(got == want, "depth", || format!("{a:?} and {b:?} share {d} bits, but the distance class is {got}"))?;
        c.check(KNode::get_depth(&b, &a) == want, "symmetry", || format!("the distance of {a:?} and {b:?} depends on the direction"))?;
    }
    Ok(())
}

struct Node {
    /// Ticks since it was last heard of, if it was in active use all the time.
    ticks: Option<u32>,
}

pub fn table(c: &mut Case, which: u8) -> Res {
    let root = rnd_u256(c);
    let (k, ping_interval) = (c.range(1, 4), c.range(1, 5) as u32);
    let ping_timeout = ping_interval + c.range(0, 8) as u32;
    let mut kd = Kademlia::new(Config { root, k, ping_interval, ping_timeout });
    let maxd = if c.chance(20) { 255 } else { c.range(1, 7) };
    let mut pool: Vec<U256> = vec![root];
    for _ in 0..c.range(1, 30) {
        let d = if c.chance(85) { c.range(0, maxd.min(6)) } else { c.range(0, maxd) };
        pool.push(at_depth(c, &root, d));
    }
    c.log(format!("root={} k={k} interval={ping_interval} timeout={ping_timeout} nodes={}", sh(&root), pool.len() - 1));
    let mut seen: BTreeMap<U256, Node> = BTreeMap::new();
    let ops = c.range(1, if c.thorough { 150 } else { 60 });
    for _ in 0..ops {
        let (oa, oc): (BTreeSet<U256>, BTreeSet<U256>) = (kd.active_nodes().into_iter().collect(), kd.cache_nodes().into_iter().collect());
        let o: BTreeSet<U256> = oa.union(&oc).cloned().collect();
        let i = c.range(0, pool.len() - 1);
        let mut id = pool[i];
        if c.chance(5) {
            id = rnd_u256(c);
        }
        let op = c.range(0, 11);
        match op {
            0 | 1 | 2 => {
                c.log(format!("add_node({} d{})", sh(&id), depth(&root, &id)));
                kd.add_node(id);
            }
            3 => {
                let l: Vec<U256> = (0..c.range(0, 5)).map(|_| pool[c.rng.gen_range(0..pool.len())]).collect();
                c.log(format!("add_nodes({:?})", l.iter().map(sh).collect::<Vec<_>>()));
                kd.add_nodes(l);
            }
            4 | 5 | 6 => {
                c.log(format!("node_active({} d{})", sh(&id), depth(&root, &id)));
                let r = kd.node_active(&id);
                let na: BTreeSet<U256> = kd.active_nodes().into_iter().collect();
                if which == 4 || which == 2 {
                    c.check(r == (na.contains(&id) && !oa.contains(&id)), "activated", || format!("node_active returned {r}"))?;
                    c.check(oa.is_subset(&na) && na.iter().all(|x| oa.contains(x) || *x == id), "active-frame", || "hearing from one node changed whether others are in use".into())?;
                }
                if na.contains(&id) {
                    seen.insert(id, Node { ticks: Some(0) });
                }
            }
            7 => {
                c.log(format!("remove_node({})", sh(&id)));
                kd.remove_node(&id);
                seen.remove(&id);
            }
            8 => {
                c.log(format!("node_disconnected({})", sh(&id)));
                kd.node_disconnected(&id);
                seen.remove(&id);
            }
            _ => {
                let t = kd.tick();
                c.log(format!("tick() ping={} deleted={}", t.ping.len(), t.deleted.len()));
                let del: BTreeSet<U256> = t.deleted.iter().cloned().collect();
                let ping: BTreeSet<U256> = t.ping.iter().cloned().collect();
                if which == 4 {
                    let n: BTreeSet<U256> = kd.active_nodes().into_iter().chain(kd.cache_nodes()).collect();
                    let want: BTreeSet<U256> = o.difference(&del).cloned().collect();
                    c.check(n == want, "tick-frame", || format!("{} nodes before, {} reported as dropped, {} left", o.len(), del.len(), n.len()))?;
                    c.check(del.is_subset(&o) && ping.is_subset(&o), "tick-unknown", || "an unknown node is pinged or dropped".into())?;
                    for a in &oa {
                        if let Some(Node { ticks: Some(s) }) = seen.get(a) {
                            let s = s + 1;
                            c.count("ticks of nodes in use");
                            c.check(del.contains(a) == (s >= ping_timeout), "timeout", || {
                                format!("a node which was heard of {s} ticks ago (timeout {ping_timeout}): dropped={}", del.contains(a))
                            })?;
                            c.check(ping.contains(a) == (s % ping_interval == 0), "ping", || {
                                format!("a node which was heard of {s} ticks ago (interval {ping_interval}): pinged={}", ping.contains(a))
                            })?;
                        }
                    }
                    // Candidates are tried: as many as needed to fill up a bucket are pinged or have been recently.
                    c.check(!oa.is_empty() || oc.is_empty() || ping_interval > 1 || !ping.is_empty(), "candidates", || "no candidate is ever pinged".into())?;
                }
                for a in &oa {
                    if let Some(n) = seen.get_mut(a) {
                        n.ticks = n.ticks.map(|t| t + 1);
                    }
                }
                for d in &del {
                    seen.remove(d);
                }
            }
        }
        let (act, cache) = (kd.active_nodes(), kd.cache_nodes());
        let (na, nc): (BTreeSet<U256>, BTreeSet<U256>) = (act.iter().cloned().collect(), cache.iter().cloned().collect());
        let n: BTreeSet<U256> = na.union(&nc).cloned().collect();
        for (id, s) in seen.iter_mut() {
            if !na.contains(id) {
                s.ticks = None;
            }
        }
        seen.retain(|id, _| n.contains(id));
        if which == 2 {
            c.check(na.len() + nc.len() == n.len() && act.len() == na.len() && cache.len() == nc.len(), "twice", || "a node is listed twice".into())?;
            c.check(!n.contains(&root), "self", || "the own ID is in the table".into())?;
            let b = kd.bucket_nodes();
            c.check(b.iter().flatten().cloned().collect::<Vec<_>>() == act, "buckets", || "bucket_nodes and active_nodes differ".into())?;
            let last = b.len() - 1;
            for (i, l) in b.iter().enumerate() {
                for x in l {
                    let d = depth(&root, x);
                    c.check(if i < last { d == i } else { d >= last }, "wrong-bucket", || format!("a node at distance {d} is in bucket {i} of {last}"))?;
                }
                if i < last {
                    c.check(l.len() <= k, "bucket-size", || format!("{} nodes in use in bucket {i}, k is {k}", l.len()))?;
                    let cs = cache.iter().filter(|x| depth(&root, x) == i).count();
                    c.check(cs <= 2 * k, "cache-size", || format!("{cs} candidates in bucket {i}, k is {k}"))?;
                }
            }
            match op {
                0..=3 => {
                    c.check(n.iter().all(|x| o.contains(x) || pool.contains(x) || *x == id), "appeared", || "a node appeared".into())?;
                    if op < 3 {
                        // An empty place is used.
                        let same = o.iter().filter(|x| depth(&root, x) == depth(&root, &id)).count();
                        c.check(id == root || same >= k || n.contains(&id), "not-added", || format!("{} is not in the table, which has {same} others at its distance", sh(&id)))?;
                        c.check(n.iter().all(|x| o.contains(x) || *x == id), "appeared", || "a node appeared".into())?;
                    }
                    let lost = o.difference(&n).count();
                    c.check(lost == 0 || b.len() > 1, "lost", || format!("adding a node lost {lost} others"))?;
                }
                4..=6 => c.check(n == o, "lost", || "hearing from a node changed the known nodes".into())?,
                7 | 8 => {
                    let want: BTreeSet<U256> = o.iter().filter(|x| **x != id).cloned().collect();
                    c.check(n == want, "remove", || format!("removing {}: {} nodes before, {} after, still there: {}", sh(&id), o.len(), n.len(), n.contains(&id)))?;
                    c.check(na == oa.iter().filter(|x| **x != id).cloned().collect(), "remove-active", || "removing a node put others out of use".into())?;
                }
                _ => c.check(n.is_subset(&o), "appeared", || "a tick added a node".into())?,
            }
        }
        if which == 4 && (op == 7 || op == 8) {
            c.check(!n.contains(&id), "disconnected", || format!("{} is still used after it went away", sh(&id)))?;
        }
        if which == 3 {
            for _ in 0..3 {
                let dst = match c.range(0, 3) {
                    0 => pool[c.rng.gen_range(0..pool.len())],
                    1 => rnd_u256(c),
                    _ => {
                        let d = c.range(0, 9);
                        at_depth(c, &root, d)
                    }
                };
                let dd = depth(&root, &dst);
                let same: BTreeSet<U256> = na.iter().filter(|x| depth(&root, x) == dd).cloned().collect();
                let set = |v: Vec<U256>| v.into_iter().collect::<BTreeSet<U256>>();
                c.check(set(kd.route_direct(&dst)) == same, "direct", || format!("route_direct to distance {dd} does not give the nodes there"))?;
                c.check(set(kd.get_nodes_depth(dd)) == same, "depth", || format!("get_nodes_depth({dd}) does not give the nodes there"))?;
                c.check(set(kd.route_closest(&dst, None)) == same, "first", || format!("the first hop to distance {dd} is not one of the nodes there"))?;
                let last = match c.range(0, 2) {
                    0 => pool[c.rng.gen_range(0..pool.len())],
                    1 => dst,
                    _ => {
                        let d = c.range(0, 9);
                        at_depth(c, &root, d)
                    }
                };
                let dl = depth(&root, &last);
                let r = set(kd.route_closest(&dst, Some(&last)));
                c.count("next hops");
                if !same.is_empty() {
                    c.check(r == same, "forward", || format!("there are {} nodes at the distance of the destination, but {} others are taken", same.len(), r.len()))?;
                } else if let Some(h) = r.iter().next() {
                    c.count("next hops on the other branch");
                    let dh = depth(&root, h);
                    let all: BTreeSet<U256> = na.iter().filter(|x| depth(&root, x) == dh).cloned().collect();
                    c.check(r == all, "other-branch", || format!("{} of the {} nodes at distance {dh}", r.len(), all.len()))?;
                    c.check(dh > dd && dh > dl, "loop", || format!("the message came from distance {dl} for {dd}, and now goes to {dh}"))?;
                    c.check(!na.iter().any(|x| (dd.max(dl) + 1..dh).contains(&depth(&root, x))), "nearest", || "a nearer distance has been left out".into())?;
                }
                for h in &r {
                    let ok = common(h, &dst) > common(&root, &dst) || (common(h, &dst) == common(&root, &dst) && common(h, &root) > common(&root, &last)) || dd == 255;
                    c.check(ok && *h != root, "progress", || format!("hop from {} via {} to {} makes no progress", sh(&last), sh(h), sh(&dst)))?;
                }
            }
        }
    }
    Ok(())
}
pub fn k02(c: &mut Case) -> Res {
    table(c, 2)
}
pub fn k03(c: &mut Case) -> Res {
    table(c, 3)
}
pub fn k04(c: &mut Case) -> Res {
    table(c, 4)
}
