//! I01-I03: identifiers as text, hashes of several parts, lists of nodes.
use crate::storage::rnd_u256;
use crate::{Case, Res};
use flarch::nodeids::{NodeIDs, U256};
use std::collections::HashMap;
use std::str::FromStr;
use rand::Rng;

pub fn i01(c: &mut Case) -> Res {
    for _ in 0..20 {
        let u = if c.chance(20) { U256::from([[0u8, 255, 16, 15][c.range(0, 3)]; 32]) } else { rnd_u256(c) };
        let hex: String = u.to_bytes().iter().map(|b| format!("{b:02x}")).collect();
        c.check(format!("{u:x}") == hex, "print", || format!("{hex} is printed as {u:x}"))?;
        c.check(format!("{u}") == hex[..16], "print-short", || format!("{hex} is shortened to {u}"))?;
        c.check(format!("{u:?}").replace('-', "") == hex, "print-debug", || format!("{hex} is printed as {u:?}"))?;
        for s in [hex.clone(), hex.to_uppercase()] {
            c.check(U256::from_str(&s).ok() == Some(u), "round-trip", || format!("{s} is read as {:?}", U256::from_str(&s)))?;
        }
        let j = serde_json::to_string(&u).unwrap();
        let y = serde_yaml::to_string(&u).unwrap();
        c.check(serde_json::from_str::<U256>(&j).ok() == Some(u) && serde_yaml::from_str::<U256>(&y).ok() == Some(u), "serde", || format!("{hex} does not survive being stored"))?;
        c.count("round trips");
        // Any text at all.
        let n = if c.chance(30) { c.range(60, 70) } else { c.range(0, 12) };
        let all: Vec<char> = if c.chance(70) { "0123456789abcdefABCDEF".chars().collect() } else { "01789afAFgG+- xé√\u{1F600}".chars().collect() };
        let mut s: String = (0..n).map(|_| all[c.range(0, all.len() - 1)]).collect();
        if c.chance(20) {
            let at = s.char_indices().map(|(i, _)| i).nth(c.range(0, n)).unwrap_or(s.len());
            s.insert(at, ['+', '-', ' ', 'g', 'é'][c.range(0, 4)]);
        }
        let b = s.as_bytes();
        let good = b.len() <= 64 && b.len() % 2 == 0 && s.chars().all(|ch| ch.is_ascii_hexdigit());
        c.log(format!("reading {s:?}"));
        let got = U256::from_str(&s);
        c.count(if good { "good texts" } else { "bad texts" });
        c.check(got.is_ok() == good, if good { "refused" } else { "accepted" }, || format!("{s:?} is read as {:?}", got.as_ref().ok()))?;
        if let Ok(g) = got {
            let low = s.to_lowercase();
            let want = format!("{low:0<64}");
            c.check(format!("{g:x}") == want, "value", || format!("{s:?} is read as {g:x}"))?;
        }
    }
    Ok(())
}

fn cut(c: &mut Case, all: &[u8], n: usize) -> Vec<Vec<u8>> {
    let mut at: Vec<usize> = (0..n.saturating_sub(1)).map(|_| c.range(0, all.len())).collect();
    at.sort();
    at.insert(0, 0);
    at.push(all.len());
    (0..n).map(|i| all[at[i]..at[i + 1]].to_vec()).collect()
}
fn hash(d: &str, p: &[Vec<u8>]) -> U256 {
    U256::hash_domain_parts(d, &p.iter().map(|x| x.as_slice()).collect::<Vec<_>>())
}

pub fn i02(c: &mut Case) -> Res {
    let lens = [0usize, 1, 2, 3, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 383, 384, 512, 513, 1000, 65535, 65536, 65537];
    for _ in 0..6 {
        // The same bytes cut in different places.
        let big = c.range(0, 20) == 0;
        let n = lens[c.range(0, if big { lens.len() - 1 } else { 16 })] + c.range(0, 3);
        let fill: u8 = c.rng.gen();
        let kind = c.range(0, 3);
        let all: Vec<u8> = (0..n).map(|i| match kind { 0 => c.rng.gen(), 1 => fill, 2 => c.rng.gen_range(0..4), _ => if i % 2 == 0 { 0x80 | (fill & 1) } else { fill } }).collect();
        let (ka, kb) = (c.range(1, 4), c.range(1, 4));
        let (p, q) = (cut(c, &all, ka), cut(c, &all, kb));
        c.log(format!("{n} bytes, cut as {:?} and {:?}", p.iter().map(|x| x.len()).collect::<Vec<_>>(), q.iter().map(|x| x.len()).collect::<Vec<_>>()));
        c.count("pairs");
        c.check((hash("d", &p) == hash("d", &q)) == (p == q), "parts", || "different parts have the same hash".into())?;
        c.check(hash("d", &p) == hash("d", &p.clone()), "same", || "the same parts have different hashes".into())?;
        // The domain and the parts.
        let text: String = (0..c.range(0, 200)).map(|_| (b'a' + c.range(0, 2) as u8) as char).collect();
        let (i, j) = (c.range(0, text.len()), c.range(0, text.len()));
        let f = |i: usize| hash(&text[..i], &[text.as_bytes()[i..].to_vec()]);
        c.check((f(i) == f(j)) == (i == j), "domain", || format!("a text cut at {i} and at {j} has the same hash"))?;
        let mut more = p.clone();
        more.push(vec![]);
        c.check(hash("d", &more) != hash("d", &p), "empty-part", || "an empty part does not count".into())?;
        // Plain data, and a domain without parts.
        let mut plain = vec![text.clone().into_bytes(), text[..i].as_bytes().to_vec(), all.clone()];
        plain.push([&[text.len() as u8][..], text.as_bytes()].concat());
        c.check(plain.iter().all(|d| U256::hash_data(d) != hash(&text, &[])), "domain-only", || "a domain without parts has the same hash as plain data".into())?;
        // One changed, added or removed byte.
        if n > 0 {
            let mut r = p.clone();
            let k = (0..r.len()).filter(|k| !r[*k].is_empty()).nth(0).unwrap();
            let i = c.range(0, r[k].len() - 1);
            match c.range(0, 2) {
                0 => r[k][i] ^= 1 << c.range(0, 7),
                1 => { r[k].remove(i); }
                _ => r[k].push(0),
            }
            c.check(hash("d", &r) != hash("d", &p), "byte", || "a changed byte does not change the hash".into())?;
            let mut all2 = all.clone();
            all2[n - 1] ^= 1;
            c.check(U256::hash_data(&all) != U256::hash_data(&all2) && U256::hash_data(&all) != U256::hash_data(&all[..n - 1]), "data", || "different data has the same hash".into())?;
        }
        // Lists and maps of values.
        let v: Vec<u32> = (0..c.range(0, 5)).map(|_| c.rng.gen_range(0..300)).collect();
        let mut w = v.clone();
        if c.chance(50) { w.reverse(); } else { w.push(1); }
        c.check((U256::from_vec("v", &v) == U256::from_vec("v", &w)) == (v == w), "from_vec", || format!("{v:?} and {w:?}"))?;
        let m: HashMap<u32, u32> = v.iter().map(|x| (*x, x / 2)).collect();
        let mut m2: HashMap<u32, u32> = HashMap::with_capacity(100);
        m2.extend(w.iter().rev().map(|x| (*x, x / 2)));
        c.check((U256::hash_domain_hashmap("m", &m) == U256::hash_domain_hashmap("m", &m2)) == (m == m2), "hashmap", || format!("{m:?} and {m2:?}"))?;
    }
    Ok(())
}

pub fn i03(c: &mut Case) -> Res {
    let pool: Vec<U256> = (0..c.range(1, 8)).map(|_| rnd_u256(c)).collect();
    for _ in 0..20 {
        let list = |c: &mut Case| -> Vec<U256> {
            let n = c.range(0, 8);
            (0..n).map(|_| pool[c.range(0, pool.len() - 1)]).collect()
        };
        let (a, b) = (list(c), list(c));
        let num = |v: &[U256]| v.iter().map(|x| pool.iter().position(|y| x == y).unwrap()).collect::<Vec<_>>();
        c.log(format!("{:?} and {:?}", num(&a), num(&b)));
        c.count("pairs");
        let (inside, outside): (Vec<U256>, Vec<U256>) = a.iter().partition(|x| b.contains(x));
        let (na, nb) = (NodeIDs(a.clone()), NodeIDs(b.clone()));
        c.check(na.contains_any(&nb) == !inside.is_empty(), "contains_any", || format!("contains_any says {}", na.contains_any(&nb)))?;
        let all = b.iter().all(|x| a.contains(x));
        c.check(na.contains_all(&nb) == all, "contains_all", || format!("contains_all says {}", na.contains_all(&nb)))?;
        let mut x = na.clone();
        let r = x.remove_missing(&nb);
        c.check(x.0 == inside && r.0 == outside, "remove_missing", || format!("remove_missing keeps {:?} and gives {:?}", num(&x.0), num(&r.0)))?;
        let mut x = na.clone();
        let r = x.remove_existing(&nb);
        c.check(x.0 == outside && r.0 == inside, "remove_existing", || format!("remove_existing keeps {:?} and gives {:?}", num(&x.0), num(&r.0)))?;
        let mut x = na.clone();
        x.merge(nb.clone());
        let mut new: Vec<U256> = vec![];
        for y in &b {
            if !a.contains(y) && !new.contains(y) {
                new.push(*y);
            }
        }
        c.check(x.0[..a.len()] == a[..] && x.0[a.len()..] == new[..], "merge", || format!("merging gives {:?}", num(&x.0)))?;
        let (f, l) = (c.range(0, a.len()), 0);
        let l = l + c.range(0, a.len() - f);
        c.check(na.slice(f, l).0 == a[f..f + l], "slice", || format!("slice({f}, {l})"))?;
    }
    let k = c.range(0, 5);
    c.check(NodeIDs::new(k as u32).0.len() == k && NodeIDs::empty().0.is_empty(), "new", || "new() makes another number of nodes".into())
}
