//! Migrations of all three contracts, and the version rule they share.
use std::cmp::Ordering;

use serde_json::json;

use crate::chain::*;
use crate::corew::*;
use crate::ctx::*;
use crate::util::*;

const KEY: &[u8] = b"contract_info";

/// semantic version, without build metadata: (numbers, pre-release identifiers)
type Ver = ([u64; 3], Vec<String>);

fn gen_version(r: &mut Rng) -> Ver {
    let n = |r: &mut Rng| *r.pick(&[0u64, 0, 1, 1, 2, 3, 9, 10, 11, 20, 99, 100]);
    let mut pre = vec![];
    if r.pct(30) {
        for _ in 0..r.urange(1, 3) {
            pre.push(r.pick(&["alpha", "beta", "rc", "1", "2", "10", "rc1", "0", "x-y", "B"]).to_string());
        }
    }
    ([n(r), n(r), n(r)], pre)
}

/// a version near v
fn near(r: &mut Rng, v: &Ver) -> Ver {
    let mut w = v.clone();
    match r.below(7) {
        0 => {}
        1 => w.0[r.below(3) as usize] += 1,
        2 => {
            let i = r.below(3) as usize;
            w.0[i] = w.0[i].saturating_sub(1);
        }
        3 => {
            // one part up, the next down, or the other way round
            let i = r.below(2) as usize;
            w.0[i] += 1;
            w.0[i + 1] = w.0[i + 1].saturating_sub(1);
        }
        4 => {
            let i = r.below(2) as usize;
            w.0[i] = w.0[i].saturating_sub(1);
            w.0[i + 1] += *r.pick(&[1u64, 9, 10, 90]);
        }
        5 => {
            if w.1.is_empty() {
                w.1.push("rc".into());
            } else {
                w.1.clear();
            }
        }
        _ => w.1.push("1".into()),
    }
    w
}

fn show(v: &Ver) -> String {
    let s = format!("{}.{}.{}", v.0[0], v.0[1], v.0[2]);
    if v.1.is_empty() {
        s
    } else {
        format!("{s}-{}", v.1.join("."))
    }
}

fn parse(s: &str) -> Option<Ver> {
    let (core, pre) = match s.split_once('-') {
        Some((a, b)) => (a, b.split('.').map(|x| x.to_string()).collect()),
        None => (s, vec![]),
    };
    let p: Vec<u64> = core.split('.').map(|x| x.parse().ok()).collect::<Option<_>>()?;
    Some((p.try_into().ok()?, pre))
}

/// precedence by semver.org rule 11
fn order(a: &Ver, b: &Ver) -> Ordering {
    let o = a.0.cmp(&b.0);
    if o != Ordering::Equal {
        return o;
    }
    match (a.1.is_empty(), b.1.is_empty()) {
        (true, true) => return Ordering::Equal,
        (true, false) => return Ordering::Greater,
        (false, true) => return Ordering::Less,
        _ => {}
    }
    for (x, y) in a.1.iter().zip(b.1.iter()) {
        let o = match (x.parse::<u64>(), y.parse::<u64>()) {
            (Ok(m), Ok(n)) => m.cmp(&n),
            (Ok(_), Err(_)) => Ordering::Less,
            (Err(_), Ok(_)) => Ordering::Greater,
            _ => x.as_bytes().cmp(y.as_bytes()),
        };
        if o != Ordering::Equal {
            return o;
        }
    }
    a.1.len().cmp(&b.1.len())
}

fn record(s: &Store) -> Option<(String, String)> {
    let v: serde_json::Value = serde_json::from_slice(s.0.get(KEY)?).ok()?;
    Some((v["contract"].as_str()?.to_string(), v["version"].as_str()?.to_string()))
}

fn put(s: &mut Store, name: &str, version: &str) {
    s.0.insert(KEY.to_vec(), serde_json::to_vec(&json!({"contract": name, "version": version})).unwrap());
}

/// the shared rule itself, on pairs of versions the crates' own cannot reach
fn rule(ctx: &mut Ctx, r: &mut Rng) {
    for _ in 0..40 {
        let a = gen_version(r);
        let b = if r.pct(70) { near(r, &a) } else { gen_version(r) };
        let (na, nb) = if r.pct(80) { ("ibcx-core", "ibcx-core") } else { *r.pick(&[("ibcx-core", "ibcx-periphery"), ("ibcx-core", "ibcx-cor"), ("", "ibcx-core"), ("ibcx-core", "IBCX-CORE"), ("ibcx-core", "ibcx-core2")]) };
        let mut s = Store::default();
        put(&mut s, na, &show(&a));
        s.0.insert(b"other".to_vec(), b"kept".to_vec());
        let before = s.clone();
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            ibcx_utils::store_version(&mut s, nb, show(&b)).map_err(|e| e.to_string())
        }))
        .unwrap_or_else(|_| Err("panic".into()));
        let want = na == nb && order(&a, &b) == Ordering::Less;
        ctx.obs("U01", &[1, (order(&a, &b) as i8 + 1) as u64, (na == nb) as u64, a.1.len() as u64, b.1.len() as u64, (0..3).find(|i| a.0[*i] != b.0[*i]).unwrap_or(3) as u64]);
        ctx.count(if want { "version_pairs_newer" } else { "version_pairs_not_newer" });
        if got.is_ok() != want {
            ctx.flag(&["U01"], format!("recorded {na} {}, storing {nb} {} gave {got:?}", show(&a), show(&b)));
            return;
        }
        if got.is_ok() {
            let mut e = before.clone();
            put(&mut e, nb, &show(&b));
            if record(&s) != record(&e) || s.0.iter().filter(|k| k.0.as_slice() != KEY).ne(before.0.iter().filter(|k| k.0.as_slice() != KEY)) {
                ctx.flag(&["U01"], format!("storing {nb} {} left {:?}", show(&b), record(&s)));
            }
        } else if s.0 != before.0 {
            ctx.flag(&["U01"], format!("a refused version {nb} {} changed the state to {:?}", show(&b), record(&s)));
        }
    }
}

pub fn history(ctx: &mut Ctx, mut rng: Rng) {
    rule(ctx, &mut rng);
    if ctx.broken {
        return;
    }
    let mut w = World::new_with(ctx, Rng::new(rng.next()), true);
    for _ in 0..rng.urange(0, 8) {
        w.random_op(ctx);
    }
    if ctx.broken {
        return;
    }
    let drop = "osmo1airdrop0contract";
    let per = "osmo1periphery0";
    for (code, addr) in [(Code::Airdrop, drop), (Code::Periphery, per)] {
        let r = w.chain.instantiate(code, addr, OUT, &json!({}), &vec![]);
        if let Err(e) = r {
            ctx.flag(&["U01"], format!("instantiation of {addr} refused: {e}"));
            return;
        }
    }
    let all = [(Code::Core, CORE), (Code::Airdrop, drop), (Code::Periphery, per)];
    let mut own = vec![];
    for (code, addr) in all {
        let Some(rec) = record(&w.chain.st.contracts[addr].1) else {
            ctx.flag(&["U01"], format!("no contract name and version recorded by the instantiation of {addr}"));
            return;
        };
        own.push((code, addr, rec));
    }
    for i in 0..3 {
        for j in 0..i {
            if own[i].2 .0 == own[j].2 .0 {
                ctx.flag(&["U01"], format!("two kinds of contract record the same name {}", own[i].2 .0));
            }
        }
    }
    for _ in 0..30 {
        if ctx.broken {
            return;
        }
        let (code, addr, (name, version)) = own[rng.below(3) as usize].clone();
        let Some(v) = parse(&version) else {
            ctx.flag(&["U01"], format!("{addr} records the version {version}"));
            return;
        };
        let mut c = w.chain.clone();
        {
            let s = &mut c.st.contracts.get_mut(addr).unwrap().1;
            for _ in 0..rng.below(4) {
                let k: Vec<u8> = (0..rng.urange(1, 12)).map(|_| rng.below(256) as u8).collect();
                s.0.entry(k).or_insert(vec![rng.below(256) as u8]);
            }
        }
        let stored_v: Option<Ver> = match rng.below(10) {
            0 => None,
            1..=3 => Some(gen_version(&mut rng)),
            _ => Some(near(&mut rng, &v)),
        };
        let vs = match &stored_v {
            Some(v) => show(v),
            None => rng.pick(&["", "abc", "1.0", "0.1.x", "v0.0.1", "01.0.0", "0.0.1 "]).to_string(),
        };
        let other = own[(all.iter().position(|a| a.1 == addr).unwrap() + 1) % 3].2 .0.clone();
        let nm = match rng.below(10) {
            0 => other,
            1 => rng.pick(&["", "ibcx", "crates.io:ibcx-core", "ibcx-core-v2"]).to_string(),
            2 => name.to_uppercase(),
            _ => name.clone(),
        };
        let missing = rng.pct(5);
        {
            let s = &mut c.st.contracts.get_mut(addr).unwrap().1;
            if missing {
                s.0.remove(KEY);
            } else {
                put(s, &nm, &vs);
            }
        }
        let (msg, forced) = match rng.below(5) {
            0 => (json!({"force": true}), true),
            1 => (json!({"force": false}), false),
            2 => (json!({"force": null}), false),
            _ => (json!({}), false),
        };
        let before = c.st.clone();
        let r = c.migrate(addr, code, &msg);
        let older = stored_v.as_ref().is_some_and(|s| order(s, &v) == Ordering::Less);
        let want = forced || (!missing && nm == name && older);
        ctx.count(if r.is_ok() { "migrations_ok" } else { "migrations_refused" });
        ctx.obs("U01", &[2, hash_str(addr), forced as u64, missing as u64, (nm == name) as u64, older as u64, stored_v.is_some() as u64]);
        ctx.log(|| format!("{addr} ({name} {version}) recorded as {nm} {vs}{} migrates with {msg}: {r:?}", if missing { " (removed)" } else { "" }));
        ctx.sample(if r.is_ok() { "migration_ok" } else { "migration_refused" }, || format!("{addr} ({name} {version}) recorded as {nm} {vs} migrates with {msg}: {r:?}"));
        if r.is_ok() != want {
            ctx.flag(&["U01"], format!("{addr}, recorded as {nm} {vs}{}, migrated to {name} {version} with {msg}: {r:?}", if missing { " (removed)" } else { "" }));
            continue;
        }
        if before.bank != c.st.bank || !c.events.is_empty() {
            ctx.flag(&["U01"], format!("the migration of {addr} moved coins or emitted {:?}", c.events));
        }
        let (b, a) = (&before.contracts[addr].1, &c.st.contracts[addr].1);
        if b.0.iter().filter(|k| k.0.as_slice() != KEY).ne(a.0.iter().filter(|k| k.0.as_slice() != KEY)) {
            ctx.flag(&["U01"], format!("the migration of {addr} changed its state"));
        }
        if r.is_ok() && record(a) != Some((name.clone(), version.clone())) {
            ctx.flag(&["U01"], format!("{addr} recorded {:?} when {name} {version} migrated it", record(a)));
        }
        for (k, v) in &before.contracts {
            if k != addr && c.st.contracts[k].1 .0 != v.1 .0 {
                ctx.flag(&["U01"], format!("the migration of {addr} changed {k}"));
            }
        }
    }
}
