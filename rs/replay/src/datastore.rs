//! D01: the storages of flarch against a map, with clones, restarts, writes which fail and stops in between.
use crate::{Case, Fail};
use flarch::data_storage::{DataStorage, DataStorageFile, DataStorageTemp};
use std::collections::HashMap;
use std::path::PathBuf;
use std::process::{Command, Stdio};

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn dir(c: &Case) -> Scratch {
    let mut p = std::env::temp_dir();
    p.push(format!("vx-d01-{}-{}", std::process::id(), c.n));
    let _ = std::fs::remove_dir_all(&p);
    Scratch(p)
}

const KEYS: &[&str] = &["", "config", "gossip", "a", "A", "a.b", "a.b.yaml", "a.tmp", "a.yaml", "a.yaml.tmp", "tmp", "x y", "über", "dht_storage", "dht-storage", "0", "a_", "_a", "日本", "a_b", "a-b", "ab", "a b", "a:b", "a*b", "a%b", "a~b", "Config", "gossip_", "gossip.yaml", "ünder", "uber", "dhtstorage", "DHT_STORAGE", "config.0", "config.00"];

fn value(c: &mut Case) -> String {
    match c.range(0, 6) {
        0 => String::new(),
        1 => "---\nkey: value\n".into(),
        2 => format!("{}\r\n\r\n", c.range(0, 999)),
        3 => format!("Ünïcödé 日本 {}", c.range(0, 999)),
        4 => format!("{}\0\u{feff}", c.range(0, 99)),
        _ => format!("{}-", c.range(0, 9)).repeat(c.range(1, 700)),
    }
}

type DS = Box<dyn DataStorage + Send>;

fn open(root: &str, base: &str) -> DS {
    Box::new(DataStorageFile::new(root.into(), base.into()))
}

/// A process which stores one value, or two in turn without an end.
pub fn child() -> bool {
    let e = |n: &str| std::env::var(n).unwrap_or_default();
    let mut ds = open(&e("VX_ROOT"), &e("VX_BASE"));
    if e("VX_LOOP") == "1" {
        loop {
            let _ = ds.set(&e("VX_KEY"), &"one ".repeat(60_000));
            let _ = ds.set(&e("VX_KEY"), &"other ".repeat(60_000));
        }
    }
    ds.set(&e("VX_KEY"), &e("VX_FILL").repeat(e("VX_TIMES").parse().unwrap_or(1))).is_ok()
}

fn with_env(cmd: &mut Command, root: &str, base: &str, key: &str) {
    cmd.env("VX_ROOT", root).env("VX_BASE", base).env("VX_KEY", key).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
}

fn all(c: &Case, ds: &DS, m: &HashMap<String, String>, when: &str) -> Result<(), Fail> {
    for k in KEYS {
        let want = m.get(*k).cloned().unwrap_or_default();
        match ds.get(k) {
            Ok(got) => c.check(got == want, "value", || format!("{when}: {} bytes are read for {k:?}, stored were {}: {:.60?} for {:.60?}", got.len(), want.len(), got, want))?,
            Err(e) => c.fail("get", format!("{when}: reading {k:?} fails: {e:?}"))?,
        }
    }
    Ok(())
}

pub fn d01(c: &mut Case) -> Result<(), Fail> {
    let scratch = dir(c);
    let root = format!("{}/data", scratch.0.display());
    let temp = c.chance(25);
    let bases: Vec<&str> = if temp { vec!["", ""] } else { vec!["", "two", "three"] };
    let mut models: Vec<HashMap<String, String>> = bases.iter().map(|_| HashMap::new()).collect();
    let mut handles: Vec<(usize, DS)> = bases
        .iter()
        .enumerate()
        .map(|(i, b)| (i, if temp { DataStorageTemp::new_box() as DS } else { open(&root, b) }))
        .collect();
    c.log(if temp { "temporary storages" } else { "storages in files" });
    for _ in 0..c.range(1, 30) {
        let h = c.range(0, handles.len() - 1);
        let i = handles[h].0;
        let key = KEYS[c.range(0, KEYS.len() - 1)];
        match c.range(0, 9) {
            0..=4 => {
                let v = value(c);
                c.log(format!("handle {h} of storage {i}: {key:?} gets {} bytes", v.len()));
                if let Err(e) = handles[h].1.set(key, &v) {
                    return c.fail("set", format!("storing {key:?} fails: {e:?}"));
                }
                models[i].insert(key.into(), v);
                c.count("stored");
            }
            5 => {
                c.log(format!("handle {h} of storage {i}: {key:?} is removed"));
                let was = models[i].remove(key).is_some();
                let r = handles[h].1.remove(key);
                c.check(r.is_ok() || !was, "remove", || format!("removing {key:?} fails: {r:?}"))?;
                c.count("removed");
            }
            6 => {
                c.log(format!("handle {h} is cloned"));
                let d = handles[h].1.clone_box();
                handles.push((i, d));
            }
            7 if !temp => {
                c.log(format!("storage {i} is opened again"));
                handles.push((i, open(&root, bases[i])));
                c.count("opened again");
            }
            _ => {
                all(c, &handles[h].1, &models[i], "in between")?;
            }
        }
    }
    for (i, h) in &handles {
        all(c, h, &models[*i], "at the end")?;
    }
    if temp {
        return Ok(());
    }
    let me = std::env::current_exe().unwrap();
    let i = c.range(0, bases.len() - 1);
    if c.chance(15) {
        // There is place for a part of the value only: the write fails, or it is the end of the node.
        let key = KEYS[c.range(0, KEYS.len() - 1)];
        let times = c.range(1, 4000);
        let stops = c.chance(50);
        let sh = format!("{} ulimit -c 0; ulimit -f 1; exec \"$0\" x --child datastore", if stops { "" } else { "trap '' XFSZ;" });
        let mut cmd = Command::new("bash");
        cmd.args(["-c", &sh, &me.to_string_lossy()]).env("VX_FILL", "ab").env("VX_TIMES", times.to_string());
        with_env(&mut cmd, &root, bases[i], key);
        let Ok(st) = cmd.status() else { return Ok(()) };
        c.log(format!("{} bytes for {key:?}, with space for 1024: {st}", 2 * times));
        c.count(if st.success() { "just fits" } else { "does not fit" });
        if st.success() {
            models[i].insert(key.into(), "ab".repeat(times));
        }
        for (j, b) in bases.iter().enumerate() {
            all(c, &open(&root, b), &models[j], "after a store which found no space")?;
        }
    }
    if c.chance(4) {
        // A node which is stopped at any point.
        let key = "config";
        let mut cmd = Command::new(&me);
        cmd.args(["x", "--child", "datastore"]).env("VX_LOOP", "1");
        with_env(&mut cmd, &root, bases[i], key);
        if let Ok(mut ch) = cmd.spawn() {
            std::thread::sleep(std::time::Duration::from_micros(c.range(2_000, 40_000) as u64));
            let _ = ch.kill();
            let _ = ch.wait();
        }
        let got = open(&root, bases[i]).get(key).unwrap_or_else(|e| format!("{e:?}"));
        let old = models[i].get(key).cloned().unwrap_or_default();
        c.count("stopped");
        c.check(got == old || got == "one ".repeat(60_000) || got == "other ".repeat(60_000), "stop", || {
            format!("after a stop, {} bytes are read for {key:?}, which is none of the values stored: {:.60?}", got.len(), got)
        })?;
        models[i].insert(key.into(), got);
        for (j, b) in bases.iter().enumerate() {
            all(c, &open(&root, b), &models[j], "after a stop")?;
        }
    }
    Ok(())
}
