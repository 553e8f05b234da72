//! X01: the router on top of the network, and how messages are packed for a module.
use crate::gossip::{drain, quiet, rt};
use crate::storage::rnd_u256;
use crate::{Case, Res};
use flarch::{
    broker::Broker,
    nodeids::{NodeID, U256},
};
use flmodules::{
    flo::realm::RealmID,
    network::{broker::{BrokerNetwork, NetworkIn, NetworkOut}, signal::FledgerConfig},
    nodeconfig::NodeInfo,
    random_connections::broker::{BrokerRandom, RandomIn, RandomOut},
    router::{broker::{RouterNetwork, RouterRandom}, messages::{NetworkWrapper, RouterIn, RouterOut}},
};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::{collections::BTreeMap, fmt::Debug};

fn sh(u: &U256) -> String {
    format!("{u}")[..6].to_string()
}
const NAMES: [&str; 8] = ["", "DHTRouter", "DHTStorage", "Gossip", "Network", "network", "Gossi", "a: b"];
fn rnd_str(c: &mut Case) -> String {
    ["", "x", "- x\n", "a: b", "null", "~", "0x10", "\u{85}\u{2028}", "\"\\'", "é\u{1}\u{7f}", "  lead", "1e3", "{", "|\n", "yes"][c.range(0, 14)].to_string() + ["", "", " t", "\n", "\r\n"][c.range(0, 4)]
}
fn rnd_wrap(c: &mut Case) -> NetworkWrapper {
    NetworkWrapper { module: NAMES[c.range(0, 7)].into(), msg: rnd_str(c) }
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
enum Msg {
    Unit,
    One(String),
    Two(U256, i64),
    Named { a: Option<u8>, b: Vec<String> },
    In(NetworkWrapper),
}
fn packed<T: Serialize + DeserializeOwned + PartialEq + Debug>(c: &mut Case, t: T) -> Res {
    let (a, b) = (NAMES[c.range(0, 7)], NAMES[c.range(0, 7)]);
    c.log(format!("{t:?} is packed for {a:?}"));
    let w = match NetworkWrapper::wrap_yaml(a, &t) {
        Ok(w) => w,
        Err(e) => return c.fail("pack", format!("{t:?} cannot be packed: {e}")),
    };
    match w.unwrap_yaml::<T>(a) {
        Some(u) if u == t => {}
        u => return c.fail("pack", format!("{t:?} for {a:?} is read as {u:?}")),
    }
    // What no module has packed is nothing, or something, and no more.
    let mut text: Vec<char> = if c.chance(30) { ["{}", "[]", "In: {}", "Two: []", "- {}", "{{}: {}}", "? {}", "One: {}", "Module: {}", "Unit: ~", "&a {}", "&a [*a]"][c.range(0, 11)].chars().collect() } else { w.msg.chars().collect() };
    for _ in 0..c.range(0, 3) {
        let i = c.range(0, text.len());
        match c.range(0, 2) {
            0 if i < text.len() => {
                text.remove(i);
            }
            1 => text.insert(i, ['{', '}', '[', ']', ':', '-', ' ', '\n', '~', '"'][c.range(0, 9)]),
            _ => text.truncate(i),
        }
    }
    let w2 = NetworkWrapper { module: a.into(), msg: text.into_iter().collect() };
    c.log(format!("{:?} is read", w2.msg));
    let _ = (w2.unwrap_yaml::<T>(a), w2.unwrap_yaml::<Msg>(a), w2.unwrap_yaml::<NodeInfo>(a));
    if a != b {
        c.count("other_module");
        if let Some(u) = w.unwrap_yaml::<T>(b) {
            return c.fail("pack", format!("{t:?} for {a:?} is read by {b:?} as {u:?}"));
        }
    }
    Ok(())
}

pub fn x01(c: &mut Case) -> Res {
    match c.range(0, 9) {
        0..=2 => {
            for _ in 0..10 {
                let (s, u) = (rnd_str(c), rnd_u256(c));
                match c.range(0, 4) {
                    0 => packed(c, Msg::Unit)?,
                    1 => packed(c, Msg::One(s))?,
                    2 => { let n = [i64::MIN, -1, 0, i64::MAX][c.range(0, 3)]; packed(c, Msg::Two(u, n))? }
                    3 => { let m = Msg::Named { a: [None, Some(0), Some(255)][c.range(0, 2)], b: vec![s, rnd_str(c)] }; packed(c, m)? }
                    _ => { let w = rnd_wrap(c); packed(c, Msg::In(w))? }
                }
            }
            Ok(())
        }
        3 => match rt().block_on(random(c)) {
            Ok(r) => r,
            Err(e) => c.fail("router", e),
        },
        _ => match rt().block_on(network(c)) {
            Ok(r) => r,
            Err(e) => c.fail("router", e),
        },
    }
}

async fn random(c: &mut Case) -> Result<Res, String> {
    let mut rnd: BrokerRandom = Broker::new();
    let mut asked = rnd.get_tap_in().await.map_err(|e| format!("{e}"))?.0;
    let mut b = RouterRandom::start(rnd.clone()).await.map_err(|e| format!("{e}"))?;
    let mut told = b.get_tap_out().await.map_err(|e| format!("{e}"))?.0;
    quiet().await;
    for _ in 0..c.range(1, 12) {
        let (x, w) = (rnd_u256(c), rnd_wrap(c));
        let l: Vec<NodeID> = (0..c.range(0, 3)).map(|_| rnd_u256(c)).collect();
        let infos: Vec<NodeInfo> = l.iter().map(|x| NodeInfo::new_from_id(*x)).collect();
        let (give, want) = match c.range(0, 3) {
            0 => (Err(RouterIn::NetworkWrapperToNetwork(x, w.clone())), Err(RandomIn::NetworkWrapperToNetwork(x, w))),
            1 => (Ok(RandomOut::NodeIDsConnected(l.clone().into())), Ok(RouterOut::NodeIDsConnected(l.into()))),
            2 => (Ok(RandomOut::NodeInfosConnected(infos.clone())), Ok(RouterOut::NodeInfosConnected(infos))),
            _ => (Ok(RandomOut::NetworkWrapperFromNetwork(x, w.clone())), Ok(RouterOut::NetworkWrapperFromNetwork(x, w))),
        };
        c.log(format!("{give:?}"));
        match give {
            Ok(m) => rnd.emit_msg_out(m),
            Err(m) => b.emit_msg_in(m),
        }
        .map_err(|e| format!("the router is gone: {e}"))?;
        quiet().await;
        let (got_out, got_in) = (drain(&mut told), drain(&mut asked));
        let ok = match &want {
            Ok(o) => got_in.is_empty() && got_out == vec![o.clone()],
            Err(i) => got_out.is_empty() && got_in == vec![i.clone()],
        };
        if !ok {
            return Ok(c.fail("pass", format!("expected {want:?}, the module heard {got_out:?}, and was asked {got_in:?}")));
        }
    }
    Ok(Ok(()))
}

async fn network(c: &mut Case) -> Result<Res, String> {
    let mut net: BrokerNetwork = Broker::new();
    let mut asked = net.get_tap_in().await.map_err(|e| format!("{e}"))?.0;
    let mut b = RouterNetwork::start(net.clone()).await.map_err(|e| format!("{e}"))?;
    let mut told = b.get_tap_out().await.map_err(|e| format!("{e}"))?.0;
    quiet().await;
    let pool: Vec<NodeID> = (0..c.range(1, 6)).map(|_| rnd_u256(c)).collect();
    let mut avail: Vec<NodeInfo> = vec![];
    let mut conn: Vec<NodeID> = vec![];
    for _ in 0..c.range(1, 40) {
        let x = pool[c.range(0, pool.len() - 1)];
        let w = rnd_wrap(c);
        let mut want: Vec<RouterOut> = vec![];
        let mut want_in: Vec<NetworkIn> = vec![];
        let mut changed = false;
        match c.range(0, 9) {
            0 | 1 => {
                c.log(format!("{} connects", sh(&x)));
                net.emit_msg_out(NetworkOut::Connected(x)).map(|_| {
                    if !conn.contains(&x) {
                        conn.push(x);
                        want.push(RouterOut::Connected(x));
                        changed = true;
                    }
                })
            }
            2 | 3 => {
                c.log(format!("{} disconnects", sh(&x)));
                net.emit_msg_out(NetworkOut::Disconnected(x)).map(|_| {
                    if conn.contains(&x) {
                        conn.retain(|y| *y != x);
                        want.push(RouterOut::Disconnected(x));
                        changed = true;
                        c.count("disconnects");
                    }
                })
            }
            4 => {
                avail = pool.iter().filter(|_| c.chance(60)).map(|x| NodeInfo::new_from_id(*x)).collect();
                c.log(format!("the list is {:?}", avail.iter().map(|i| sh(&i.get_id())).collect::<Vec<_>>()));
                changed = true;
                net.emit_msg_out(NetworkOut::NodeListFromWS(avail.clone()))
            }
            5 | 6 => {
                c.log(format!("{w:?} from {}", sh(&x)));
                if !conn.contains(&x) {
                    conn.push(x);
                    want.push(RouterOut::Connected(x));
                    changed = true;
                    c.count("unannounced");
                }
                want.push(RouterOut::NetworkWrapperFromNetwork(x, w.clone()));
                net.emit_msg_out(NetworkOut::MessageFromNode(x, w))
            }
            7 => {
                let conf = FledgerConfig { system_realm: c.chance(50).then(|| RealmID::from(rnd_u256(c))) };
                c.log(format!("{conf:?}"));
                want.push(RouterOut::SystemConfig(conf.clone()));
                net.emit_msg_out(NetworkOut::SystemConfig(conf))
            }
            8 => {
                c.log("an error of the network");
                net.emit_msg_out(NetworkOut::Error("nothing".into()))
            }
            _ => {
                c.log(format!("{w:?} goes to {}", sh(&x)));
                want_in.push(NetworkIn::MessageToNode(x, w.clone()));
                b.emit_msg_in(RouterIn::NetworkWrapperToNetwork(x, w))
            }
        }
        .map_err(|e| format!("the router is gone: {e}"))?;
        quiet().await;
        let (got, got_in) = (drain(&mut told), drain(&mut asked));
        if got_in != want_in {
            return Ok(c.fail("asked", format!("the network should be asked {want_in:?}, and not {got_in:?}")));
        }
        // The last lists which were told, and everything else.
        let (mut a, mut i, mut f): (Option<Vec<NodeInfo>>, Option<Vec<NodeID>>, Option<Vec<NodeInfo>>) = (None, None, None);
        let mut own = vec![];
        for m in got {
            match m {
                RouterOut::NodeInfoAvailable(v) if own.is_empty() => a = Some(v),
                RouterOut::NodeIDsConnected(v) if own.is_empty() => i = Some(v.0),
                RouterOut::NodeInfosConnected(v) if own.is_empty() => f = Some(v),
                m => own.push(m),
            }
        }
        if own != want {
            return Ok(c.fail("told", format!("after the lists, the modules should hear {want:?}, and not {own:?}")));
        }
        let by = |v: &Vec<NodeInfo>| v.iter().map(|i| (i.get_id(), format!("{i:?}"))).collect::<BTreeMap<_, _>>();
        let linked: Vec<NodeInfo> = avail.iter().filter(|i| conn.contains(&i.get_id())).cloned().collect();
        if changed && (a.is_none() || i.is_none() || f.is_none()) {
            return Ok(c.fail("lists", "a change is not told"));
        }
        if let Some(a) = a {
            if by(&a) != by(&avail) || a.len() != avail.len() {
                return Ok(c.fail("lists", format!("the available nodes are {:?}", a.iter().map(|i| sh(&i.get_id())).collect::<Vec<_>>())));
            }
        }
        if let Some(mut i) = i {
            let mut k = conn.clone();
            i.sort();
            k.sort();
            if i != k {
                return Ok(c.fail("lists", format!("the connected nodes are {:?}, told are {:?}", k.iter().map(sh).collect::<Vec<_>>(), i.iter().map(sh).collect::<Vec<_>>())));
            }
        }
        if let Some(f) = f {
            if by(&f) != by(&linked) || f.len() != linked.len() {
                return Ok(c.fail("lists", format!("the infos of the connected nodes are {:?}", f.iter().map(|i| sh(&i.get_id())).collect::<Vec<_>>())));
            }
        }
    }
    Ok(Ok(()))
}
