//! I04: what a node is called is its key: here, after a restart, and at the others.
use crate::{Case, Fail};
use base64::Engine;
use flarch::data_storage::{DataStorage, DataStorageFile, DataStorageTemp};
use flarch::nodeids::U256;
use flmodules::nodeconfig::{NodeConfig, NodeInfo};
use flmodules::Modules;
use flnode::node::Node;

const NAMES: &[&str] = &["", "node", "a: b", "- x", "~", "null", "true", "12", "1e3", "0x10", "日本", "with\nlines\n", " spaces ", "\"quoted\"", "'single'", "# no comment", "{a}", "[b]", "tab\tbed", "!tag", "&anchor", "*alias", "%x", "back\\slash", "---", "..."];

fn config(c: &mut Case) -> NodeConfig {
    let mut nc = NodeConfig::new();
    nc.info.name = NAMES[c.range(0, NAMES.len() - 1)].into();
    nc.info.client = NAMES[c.range(0, NAMES.len() - 1)].into();
    nc.info.modules = if c.chance(10) { Modules::empty() } else { Modules::from_bits_truncate(c.range(0, 255) as u32) };
    c.log(format!("node {:?} ({:?}), modules {:#x}", nc.info.name, nc.info.client, nc.info.modules.bits()));
    nc
}

fn same_info(c: &Case, a: &NodeInfo, b: &NodeInfo, mods: bool, how: &str) -> Result<(), Fail> {
    c.check(a.pubkey == b.pubkey, "key", || format!("{how}: the key was {:?} and is {:?}", a.pubkey, b.pubkey))?;
    c.check(a.get_id() == b.get_id(), "id", || format!("{how}: the identifier was {} and is {}", a.get_id(), b.get_id()))?;
    c.check(a.name == b.name && a.client == b.client, "name", || format!("{how}: was {:?}, {:?} and is {:?}, {:?}", a.name, a.client, b.name, b.client))?;
    c.check(!mods || a.modules == b.modules, "modules", || format!("{how}: modules were {:#x} and are {:#x}", a.modules.bits(), b.modules.bits()))
}

/// The form of the first version of the configuration.
fn old_text(nc: &NodeConfig, mods: u32) -> String {
    let b64 = |b: &[u8]| base64::engine::general_purpose::STANDARD.encode(b);
    let names = ["ENABLE_STAT", "ENABLE_RAND", "ENABLE_GOSSIP", "ENABLE_PING", "ENABLE_WEBPROXY", "ENABLE_WEBPROXY_REQUESTS"];
    let m: Vec<&str> = names.iter().enumerate().filter(|(i, _)| mods & (1 << i) != 0).map(|(_, n)| *n).collect();
    let q = |s: &str| serde_json::to_string(s).unwrap();
    format!(
        "---\nNodeConfigV1:\n  info:\n    name: {}\n    client: {}\n    pubkey: {}\n    modules: {}\n  keypair: {}\n",
        q(&nc.info.name),
        q(&nc.info.client),
        b64(&nc.info.pubkey),
        q(&m.join(" | ")),
        b64(&nc.keypair)
    )
}

fn mutated(c: &mut Case, s: &str) -> String {
    let mut b: Vec<char> = s.chars().collect();
    for _ in 0..c.range(1, 4) {
        let i = c.range(0, b.len().saturating_sub(1));
        match c.range(0, 3) {
            0 if !b.is_empty() => {
                b.remove(i);
            }
            1 => b.insert(i.min(b.len()), ['0', 'f', 'G', ' ', '\n', ':', '"', '{'][c.range(0, 7)]),
            2 => b.truncate(i),
            _ if !b.is_empty() => b[i] = ['1', '2', '3', 'V', '-', '~'][c.range(0, 5)],
            _ => {}
        }
    }
    b.into_iter().collect()
}

pub fn i04(c: &mut Case) -> Result<(), Fail> {
    let nc = config(c);
    let info = nc.info.clone();
    // The identifier is the key.
    let mut key = [0u8; 32];
    key.copy_from_slice(&info.pubkey);
    c.check(info.get_id() == U256::from(key), "id", || format!("a node with the key {:?} calls itself {}", info.pubkey, info.get_id()))?;
    // Written and read, in all the forms there are.
    let y = nc.encode();
    let n2 = NodeConfig::decode(&y);
    same_info(c, &info, &n2.info, true, "configuration in yaml")?;
    c.check(nc.keypair == n2.keypair, "keypair", || "the key pair is another one".into())?;
    match NodeInfo::decode(&info.encode()) {
        Ok(i) => same_info(c, &info, &i, true, "info in yaml")?,
        Err(e) => c.fail("decode", format!("what was encoded isn't decoded: {e:?}: {}", info.encode()))?,
    }
    match serde_json::to_string(&info).map(|s| serde_json::from_str::<NodeInfo>(&s)) {
        Ok(Ok(i)) => same_info(c, &info, &i, true, "info in json")?,
        e => c.fail("decode", format!("what was encoded isn't decoded: {:?}", e.map(|r| r.err())))?,
    }
    // The first version of the configuration is understood.
    let mods = c.range(0, 63) as u32;
    let old = NodeConfig::decode(&old_text(&nc, mods));
    same_info(c, &info, &old.info, false, "configuration of the first version")?;
    c.check(old.keypair == nc.keypair, "keypair", || "from the first version: the key pair is another one".into())?;
    c.check(old.info.modules.bits() == mods, "modules", || format!("from the first version: modules were {mods:#x} and are {:#x}", old.info.modules.bits()))?;
    // Other infos have their key as identifier, or one of their own if the key is malformed.
    let mut bad = info.clone();
    bad.pubkey = (0..[0, 1, 31, 33, 64][c.range(0, 4)]).map(|i| (i * 7) as u8).collect();
    let _ = bad.get_id();
    match NodeInfo::decode(&bad.encode()) {
        Ok(i) => same_info(c, &bad, &i, true, "info with a malformed key")?,
        Err(_) => c.count("malformed key refused"),
    }
    // Signatures: of this node, on this text.
    let h: [u8; 32] = U256::rnd().to_bytes();
    let mut sig = nc.sign(h);
    c.check(info.verify(&h, &sig), "verify", || "a node doesn't verify its own signature".into())?;
    c.check(n2.info.verify(&h, &n2.sign(h)), "verify", || "after it was read again, a node doesn't verify its own signature".into())?;
    let mut other = h;
    other[c.range(0, 31)] ^= 1 << c.range(0, 7);
    c.check(!info.verify(&other, &sig), "verify", || "a signature is accepted for another text".into())?;
    c.check(!info.verify(&h[..31], &sig), "verify", || "a signature is accepted for a part of the text".into())?;
    c.check(!NodeConfig::new().info.verify(&h, &sig), "verify", || "a signature is accepted for another node".into())?;
    c.check(!bad.verify(&h, &sig), "verify", || "a signature is accepted for a malformed key".into())?;
    let i = c.range(0, sig.len() - 1);
    sig[i] ^= 1 << c.range(0, 7);
    c.check(!info.verify(&h, &sig), "verify", || format!("a signature with another byte {i} is accepted"))?;
    sig.truncate(i);
    c.check(!info.verify(&h, &sig), "verify", || format!("{i} bytes of a signature are accepted"))?;
    // The same node after restarts.
    let dir = std::env::temp_dir().join(format!("vx-i04-{}-{}", std::process::id(), c.n));
    let mut ds: Box<dyn DataStorage + Send> = if c.chance(50) { Box::new(DataStorageTemp::new()) } else { Box::new(DataStorageFile::new(dir.to_string_lossy().into(), "fledger".into())) };
    let r = restarts(c, &nc, mods, &mut ds);
    let _ = std::fs::remove_dir_all(&dir);
    r?;
    // Whatever comes: an info, or an error.
    let base = match c.range(0, 4) {
        0 => info.encode(),
        1 => serde_json::to_string(&info).unwrap(),
        2 => old_text(&nc, mods),
        3 => y,
        _ => ["NodeInfoV1: {}", "{\"NodeInfoV1\":{}}", "---\nNodeInfoV1:\n  x: 1\n", "NodeInfoV2: {}", "NodeInfoV9: {}", "NodeInfoV1: ~", "NodeConfigV2:\n  info:\n    NodeInfoV1: {}\n  keypair: 00\n"][c.range(0, 6)].into(),
    };
    let text = if c.chance(60) { mutated(c, &base) } else { base };
    c.log(format!("decode {text:?}"));
    for (i, ok) in [NodeInfo::decode(&text).ok(), serde_json::from_str::<NodeInfo>(&text).ok()].into_iter().flatten().map(|i| (i, ())).collect::<Vec<_>>() {
        let _: () = ok;
        c.count("decoded");
        let _ = (i.get_id(), i.encode(), i.verify(&h, &sig), format!("{i:?}"));
    }
    let _ = NodeConfig::decode(&text).info.get_id();
    Ok(())
}

fn restarts(c: &mut Case, nc: &NodeConfig, mods: u32, ds: &mut Box<dyn DataStorage + Send>) -> Result<(), Fail> {
    let start = c.range(0, 2);
    let e = |e: anyhow::Error| format!("the configuration can't be fetched: {e:?}");
    let mut want = match start {
        0 => match Node::get_config(ds.clone_box()) {
            Ok(n) => n,
            Err(x) => return c.fail("get_config", e(x)),
        },
        1 => {
            Node::set_config(ds.clone_box(), &nc.encode()).ok();
            nc.clone()
        }
        _ => {
            Node::set_config(ds.clone_box(), &old_text(nc, mods)).ok();
            let mut n = nc.clone();
            n.info.modules = Modules::from_bits_truncate(mods);
            n
        }
    };
    c.log(format!("starts with {}", ["nothing", "a configuration", "a configuration of the first version"][start]));
    want.info.modules.set(Modules::WEBPROXY_REQUESTS, true);
    for i in 0..c.range(1, 3) {
        let got = match Node::get_config(ds.clone_box()) {
            Ok(n) => n,
            Err(x) => return c.fail("get_config", e(x)),
        };
        same_info(c, &want.info, &got.info, true, &format!("restart {i}"))?;
        c.check(want.keypair == got.keypair, "keypair", || format!("restart {i}: the key pair is another one"))?;
        let h: [u8; 32] = U256::rnd().to_bytes();
        c.check(got.info.verify(&h, &got.sign(h)), "verify", || format!("restart {i}: the keys don't belong together"))?;
        if c.chance(30) {
            want.info.name = NAMES[c.range(0, NAMES.len() - 1)].into();
            c.log(format!("renamed to {:?}", want.info.name));
            let r = Node::set_config(ds.clone_box(), &want.encode());
            c.check(r.is_ok(), "set_config", || format!("the configuration can't be stored: {r:?}"))?;
        }
    }
    c.count("restarted");
    Ok(())
}
