//! The monitored periphery contract: zap operations against weighted, concentrated and stable pools
//! of a market that moves, judged on the bank ledger and on the venue's own arithmetic.
use std::collections::BTreeMap;

use serde_json::{json, Value};

use crate::chain::*;
use crate::coremodel::*;
use crate::corew::*;
use crate::ctx::*;
use crate::util::*;
use crate::venue::{self, Kind, Pool, Pools};

pub const PER: &str = "osmo1periphery0";
const TOL: u128 = 5000;
const MIDS: [&str; 4] = ["uusdt", "ueth", "factory/osmo1zzz/lst", "ibc/EA1D43981D5C9A1C4AAEA9C23BB1D4FA126BA9BC7020A25E0AE4AA841EA25DC5"];
const ENDS: [&str; 3] = ["uusdc", "umain", "ibc/498A0751C798A0D9A389AA3691123DADA57DAA4FE165D5C75894505B876BA6E4"];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    MintIn,
    MintOut,
    BurnIn,
    BurnOut,
}
impl K {
    fn tag(self) -> &'static str {
        match self {
            K::MintIn => "P01",
            K::MintOut => "P02",
            K::BurnIn => "P03",
            K::BurnOut => "P04",
        }
    }
    fn name(self) -> &'static str {
        match self {
            K::MintIn => "mint_exact_amount_in",
            K::MintOut => "mint_exact_amount_out",
            K::BurnIn => "burn_exact_amount_in",
            K::BurnOut => "burn_exact_amount_out",
        }
    }
    fn mint(self) -> bool {
        matches!(self, K::MintIn | K::MintOut)
    }
}

/// for every basket asset that is not the zap's own asset: the hops as configured
type Legs = BTreeMap<String, Vec<(u64, String)>>;

#[derive(Clone, Debug)]
pub struct Zap {
    k: K,
    who: String,
    /// the asset paid in (mint) or out (burn)
    x: String,
    /// mint in: minimum; mint out: amount; burn in: minimum; burn out: desired output
    n: u128,
    funds: Coins,
    legs: Legs,
    info: Value,
}

impl Zap {
    fn json(&self) -> Value {
        let n = self.n.to_string();
        match self.k {
            K::MintIn => json!({"mint_exact_amount_in": {"core_addr": CORE, "input_asset": self.x, "min_output_amount": n, "swap_info": self.info}}),
            K::MintOut => json!({"mint_exact_amount_out": {"core_addr": CORE, "input_asset": self.x, "output_amount": n, "swap_info": self.info}}),
            K::BurnIn => json!({"burn_exact_amount_in": {"core_addr": CORE, "output_asset": self.x, "min_output_amount": n, "swap_info": self.info}}),
            K::BurnOut => json!({"burn_exact_amount_out": {"core_addr": CORE, "output_asset": {"denom": self.x, "amount": n}, "swap_info": self.info}}),
        }
    }
}

fn infos_json(mint: bool, x: &str, legs: &Legs) -> Value {
    Value::Array(
        legs.iter()
            .map(|(d, hops)| {
                let key = if mint { format!("{x},{d}") } else { format!("{d},{x}") };
                let r: Vec<String> = hops.iter().map(|(p, t)| format!("{p},{t}")).collect();
                json!({"key": key, "routes": r})
            })
            .collect(),
    )
}

/// What the venue charges (mint) or pays (burn) for one leg after another in the given order, with
/// the input and the output of every hop off by `pert` base units; and whether a swap nearly empties
/// a pool or multiplies a balance, where the power function's series is so long that the rounding of its
/// terms adds up to more than a few base units.
fn walk(pools: &Pools, mint: bool, x: &str, basket: &[(String, u128)], legs: &Legs, pert: i128) -> R<(u128, Vec<u128>, bool)> {
    let off = |v: u128| (v as i128 + pert).max(0) as u128;
    let mut p = pools.clone();
    let mut total = 0u128;
    let mut each = vec![];
    let mut edge = false;
    for (d, amount) in basket {
        if d == x {
            total += amount;
            each.push(*amount);
            continue;
        }
        let hops = legs.get(d).ok_or("no leg")?;
        let mut a = *amount;
        if mint {
            let mut want = d.clone();
            for (id, din) in hops.iter().rev() {
                let po = p.get_mut(id).ok_or("no pool")?;
                a = off(a);
                let i = po.calc_in(din, &want, a)?;
                edge |= po.kind == Kind::Weighted && po.idx(&want).map_or(false, |j| a > po.assets[j].1 / 100 * 49);
                po.apply(din, i, &want, a)?;
                want = din.clone();
                a = off(i);
            }
        } else {
            let mut have = d.clone();
            for (id, dout) in hops.iter() {
                let po = p.get_mut(id).ok_or("no pool")?;
                a = off(a);
                let o = po.calc_out(&have, a, dout)?;
                edge |= po.kind == Kind::Weighted && po.idx(&have).map_or(false, |j| a / 20 > po.assets[j].1);
                po.apply(&have, a, dout, o)?;
                have = dout.clone();
                a = off(o);
            }
        }
        each.push(a);
        total += a;
    }
    Ok((total, each, edge))
}

struct P {
    w: World,
    /// pools usable by routes, and how many routes lead over each
    mine: Vec<u64>,
    x: Vec<String>,
}

impl P {
    fn new(ctx: &mut Ctx, rng: Rng) -> Option<P> {
        let mut w = World::new_with(ctx, rng, true);
        if ctx.broken {
            return None;
        }
        for u in USERS.iter().chain([&ATT, &OUT]) {
            for d in ENDS.iter().chain(MIDS.iter()) {
                w.chain.give(u, d, RICH);
            }
        }
        if let Err(e) = w.chain.instantiate(Code::Periphery, PER, OUT, &json!({}), &vec![]) {
            ctx.flag(&["U01"], format!("periphery instantiation refused: {e}"));
            return None;
        }
        w.next_pool = 1000;
        for u in USERS {
            let a = w.rng.range(w.scale / 10, w.scale);
            let op = w.op_mint(u, a);
            w.step(ctx, &op);
        }
        let mut x: Vec<String> = ENDS.iter().map(|s| s.to_string()).collect();
        let mut basket: Vec<String> = w.m.units.keys().cloned().collect();
        x.append(&mut basket);
        Some(P { w, mine: vec![], x })
    }

    /// a pool over a and b that no other leg of this zap uses unless it can be shared
    fn pool(&mut self, a: &str, b: &str, used: &[u64]) -> u64 {
        let w = &mut self.w;
        if w.rng.pct(70) {
            let c: Vec<u64> = self
                .mine
                .iter()
                .copied()
                .filter(|id| {
                    let p = &w.chain.st.pools[id];
                    p.has(a) && p.has(b) && (p.kind == Kind::Weighted || !used.contains(id))
                })
                .collect();
            if !c.is_empty() {
                return *w.rng.pick(&c);
            }
        }
        let id = w.next_pool;
        w.next_pool += 1;
        let kind = match w.rng.below(10) {
            0..=6 => Kind::Weighted,
            7 | 8 => Kind::Cl,
            _ => Kind::Stable,
        };
        let shallow = if w.rng.pct(20) { 0 } else { 1 };
        let base = w.scale * 10u128.pow(w.rng.range(shallow, 3) as u32);
        let wt = |r: &mut Rng| *r.pick(&[1u128, 1, 1, 2, 3, 4, 5, 8, 9]) * 1_073_741_824 * 1_000_000;
        let mut assets = vec![
            (a.to_string(), w.rng.range(base, base * 10), wt(&mut w.rng)),
            (b.to_string(), w.rng.range(base, base * 10), wt(&mut w.rng)),
        ];
        if kind == Kind::Weighted && w.rng.pct(30) {
            // pools of up to five assets, which several legs may share
            let mut more: Vec<String> = MIDS.iter().map(|d| d.to_string()).collect();
            more.extend(w.m.units.keys().cloned());
            more.extend(self.x.iter().map(|d| d.to_string()));
            for _ in 0..w.rng.range(1, 3) {
                let c = w.rng.pick(&more).clone();
                if assets.iter().all(|p| p.0 != c) {
                    assets.push((c, w.rng.range(base, base * 10), wt(&mut w.rng)));
                }
            }
        }
        if w.rng.pct(50) {
            let i = w.rng.below(assets.len() as u64) as usize;
            assets.swap(0, i);
        }
        let fee = *w.rng.pick(&[0, E18 / 1000 * 2, E18 / 1000 * 3, E18 / 100, E18 / 10_000]);
        w.chain.st.pools.insert(id, Pool { id, kind, assets, fee });
        self.mine.push(id);
        id
    }

    fn gen_legs(&mut self, mint: bool, x: &str) -> Legs {
        let mut legs = Legs::new();
        let mut used: Vec<u64> = vec![];
        let ds: Vec<String> = self.w.m.units.keys().cloned().collect();
        for d in ds {
            if d == x {
                continue;
            }
            let n = if self.w.rng.pct(8) { self.w.rng.range(4, 9) as usize } else { [1, 1, 1, 2, 2, 3][self.w.rng.below(6) as usize] };
            let mut path = vec![x.to_string()];
            for _ in 1..n {
                let m = self.w.rng.pick(&MIDS).to_string();
                if !path.contains(&m) && m != d {
                    path.push(m);
                }
            }
            path.push(d.clone());
            if !mint {
                path.reverse();
            }
            let mut hops = vec![];
            let mut own: Vec<u64> = vec![];
            for h in path.windows(2) {
                let mut all = used.clone();
                all.extend(&own);
                let mut id = self.pool(&h[0], &h[1], &all);
                // now and then a route that sells passes through one pool twice (buying so, the chain refuses)
                let mut tries = if !mint && self.w.rng.pct(15) { 8 } else { 0 };
                while own.contains(&id) && tries < 8 {
                    id = self.pool(&h[0], &h[1], &all);
                    tries += 1;
                }
                own.push(id);
                hops.push((id, if mint { h[0].clone() } else { h[1].clone() }));
            }
            used.extend(own);
            legs.insert(d, hops);
        }
        legs
    }

    /// the portfolio as it will be when the next transaction runs
    fn portfolio(&self) -> Option<PortQ> {
        q_port(&self.w.chain, CORE, None).ok()
    }

    fn gen_zap(&mut self, k: K) -> Option<Zap> {
        let x = self.w.rng.pick(&self.x.clone()).to_string();
        let legs = self.gen_legs(k.mint(), &x);
        let who = self.w.user();
        let mut m = self.w.m.clone();
        m.collect(self.w.t()).ok()?;
        // the collector's own zaps mix fees with proceeds
        if who == m.collector {
            return None;
        }
        let pools = self.w.chain.st.pools.clone();
        let mut info = infos_json(k.mint(), &x, &legs);
        if self.w.rng.pct(30) {
            // the order of the entries is the caller's
            let v = info.as_array_mut().unwrap();
            for i in (1..v.len()).rev() {
                let j = self.w.rng.below(i as u64 + 1) as usize;
                v.swap(i, j);
            }
        }
        let idx = m.index.clone();
        let rng = &mut self.w.rng;
        let scale = self.w.scale;
        if k.mint() {
            let n = match rng.below(12) {
                0 => rng.range(1, 1000),
                1 => rng.range(1, 50_000),
                2 => rng.range(scale / 100, scale / 2),
                _ => rng.range(scale / 100, scale / 10),
            };
            let req: Coins = m.required(n).into_iter().collect();
            let c = walk(&pools, true, &x, &req, &legs, 0).map(|v| v.0).unwrap_or(n).max(1);
            if k == K::MintOut {
                let a = match rng.below(8) {
                    0 => c,
                    1 => c * 2,
                    2 => c + c / 100,
                    3 => c.saturating_sub(1).max(1),
                    4 => (c * 9 / 10).max(1),
                    5 => c + rng.range(0, 10),
                    _ => c + c * rng.range(1, 300) / 10_000 + 3,
                };
                Some(Zap { k, who, x: x.clone(), n, funds: vec![(x, a)], legs, info })
            } else {
                let fee = mint_fee(m.mint_fee, n).unwrap_or(0);
                let net = n.saturating_sub(fee);
                let min = match rng.below(8) {
                    0 => net,
                    1 => net + 1,
                    2 => net + net / 50,
                    3 => net / 2,
                    4 => net.saturating_sub(rng.range(0, 10)),
                    5 => n,
                    _ => net - net * rng.range(1, 300) / 10_000,
                };
                Some(Zap { k, who, x: x.clone(), n: min.max(rng.below(2) as u128), funds: vec![(x, c)], legs, info })
            }
        } else {
            let have = self.w.chain.bal(&who, &idx);
            if have == 0 {
                return None;
            }
            let rng = &mut self.w.rng;
            let b = match rng.below(10) {
                0 => rng.range(1, 1000).min(have),
                1 => have,
                _ => rng.range(have / 100 + 1, have / 3 + 1).min(have),
            };
            let fee = burn_fee(m.burn_fee, b).unwrap_or(0);
            let red: Coins = m.redeemable(b - fee).into_iter().collect();
            let o = walk(&pools, false, &x, &red, &legs, 0).map(|v| v.0).unwrap_or(b);
            if k == K::BurnIn {
                let min = match rng.below(8) {
                    0 => o,
                    1 => o + 1,
                    2 => o + o / 20,
                    3 => 0,
                    4 => 1,
                    5 => o / 2,
                    _ => o - o * rng.range(1, 300) / 10_000,
                };
                Some(Zap { k, who, x, n: min, funds: vec![(idx, b)], legs, info })
            } else {
                let o = o.max(1);
                let o = match rng.below(8) {
                    0 => o,
                    1 => o + o / 50,
                    2 => o - o / 3,
                    // far below what the tokens yield: the search takes many steps
                    6 | 7 => (o / 100 * rng.range(5, 95)).max(1),
                    3 => (o - o / 100).max(1),
                    _ => (o - o * rng.range(1, 300) / 10_000).saturating_sub(TOL).max(1),
                };
                Some(Zap { k, who, x, n: o, funds: vec![(idx, b)], legs, info })
            }
        }
    }

    /// coins somebody sent to the periphery by mistake, of about the size of what comes next
    fn donate(&mut self, ctx: &mut Ctx, z: &Zap) {
        let mut d: Vec<String> = vec![self.w.m.index.clone(), z.x.clone()];
        if let Some(u) = self.w.m.units.iter().next() {
            d.push(u.0.clone());
        }
        let d = self.w.rng.pick(&d).clone();
        let rich: Vec<&str> = USERS.iter().copied().filter(|u| *u != z.who && self.w.chain.bal(u, &d) > 0).collect();
        if rich.is_empty() {
            return;
        }
        let u = *self.w.rng.pick(&rich);
        let size = z.funds.first().map(|f| f.1).unwrap_or(1000);
        let a = match self.w.rng.below(3) {
            0 => self.w.rng.range(1, 10_000),
            1 => size,
            _ => self.w.rng.range(1, size + 1),
        };
        let a = a.min(self.w.chain.bal(u, &d)).max(1);
        let r = self.w.chain.tx_send(u, PER, &vec![(d.clone(), a)]);
        ctx.log(|| format!("{u} sends {a}{d} to the periphery: {r:?}"));
    }

    /// execute and judge
    fn zap(&mut self, ctx: &mut Ctx, z: &Zap, skew: i128) -> bool {
        let t = self.w.t();
        let before = self.w.chain.st.bank.clone();
        let pools0 = self.w.chain.st.pools.clone();
        let stray = |d: &str| before.get(PER).and_then(|m| m.get(d)).copied().unwrap_or(0) as i128;
        self.w.chain.skew = skew;
        let got = self.w.chain.exec(&z.who, PER, &z.json(), &z.funds);
        self.w.chain.skew = 0;
        ctx.count("periphery_tx");
        ctx.count(&format!("{}_{}", z.k.name(), if got.is_ok() { "ok" } else { "refused" }));
        ctx.log(|| {
            format!(
                "t={t} {} sends the periphery {} funds {}{} -> {}",
                z.who,
                z.json(),
                coins_str(&z.funds),
                if skew != 0 { format!(" while the market moves by {skew}e-4") } else { String::new() },
                match &got {
                    Ok(()) => "ok".into(),
                    Err(e) => format!("refused: {}", e.chars().take(160).collect::<String>()),
                }
            )
        });
        let tag = z.k.tag();
        let kinds: u64 = z
            .legs
            .values()
            .flat_map(|h| h.iter())
            .filter_map(|(id, _)| pools0.get(id))
            .map(|p| match p.kind {
                Kind::Weighted => 1,
                Kind::Cl => 2,
                Kind::Stable => 4,
                _ => 8,
            })
            .fold(0, |a, b| a | b);
        let sig = [
            z.k as u64,
            size(z.n),
            size(z.funds.first().map(|f| f.1).unwrap_or(0)),
            z.legs.len() as u64,
            z.legs.values().map(|h| h.len() as u64).sum(),
            kinds,
            (skew.signum() + 1) as u64,
            self.w.m.mint_fee.is_some() as u64 * 2 + self.w.m.burn_fee.is_some() as u64,
            (z.legs.len() == self.w.m.units.len()) as u64,
            got.is_ok() as u64,
        ];
        ctx.obs(tag, &sig);
        ctx.obs("P05", &sig);
        if let Err(e) = &got {
            ctx.count(&format!("refusal_{}", classify(e)));
            if before != self.w.chain.st.bank {
                ctx.flag(&[tag, "P05"], "a refused operation moved coins".into());
            }
            return false;
        }
        let real = Chain::diff(&before, &self.w.chain.st.bank);
        let mut m = self.w.m.clone();
        let _ = m.collect(t);
        let idx = m.index.clone();
        let (mut minted, mut burned, mut mints, mut burns) = (0u128, 0u128, 0, 0);
        for e in &self.w.chain.events {
            match e {
                Ev::Mint { denom, amount } if *denom == idx => {
                    minted += amount;
                    mints += 1;
                }
                Ev::Burn { denom, amount } if *denom == idx => {
                    burned += amount;
                    burns += 1;
                }
                _ => {}
            }
        }
        let get = |a: &str, d: &str| real.get(&(a.to_string(), d.to_string())).copied().unwrap_or(0);
        // the periphery keeps nothing it did not have; what it had is swept along in the denoms paid out
        let mut swept: BTreeMap<&str, i128> = BTreeMap::new();
        swept.insert(&z.x, stray(&z.x));
        if z.k == K::BurnOut {
            swept.insert(&idx, stray(&idx));
        }
        if swept.values().any(|v| *v > 0) {
            ctx.count("zaps_over_stray_coins");
        }
        let mut ds: std::collections::BTreeSet<&String> = real.keys().filter(|k| k.0 == PER).map(|k| &k.1).collect();
        ds.extend([&z.x, &idx]);
        for d in ds {
            let (v, e) = (get(PER, d), -swept.get(&d[..]).copied().unwrap_or(0));
            if v > e {
                ctx.flag(&["P05"], format!("{} left the periphery with {v}{d} more than before, expected {e}", z.k.name()));
            } else if v < e {
                ctx.flag(&[tag, "P05"], format!("{} used {}{d} that were not the caller's", z.k.name(), e - v));
            }
        }
        // nobody but the caller, the collector and the core contract is touched
        for ((a, d), v) in &real {
            if a != PER && *a != z.who && *a != m.collector && a != CORE {
                ctx.flag(&[tag, "P05"], format!("{} changed {a}'s {d} by {v}", z.k.name()));
            }
        }
        let att = z.funds.first().map(|f| f.1).unwrap_or(0);
        let n_swapped = z.legs.len() as i128;
        // what the core did with it
        let mut expect: BTreeMap<String, i128> = BTreeMap::new();
        if z.k.mint() {
            for (d, v) in m.required(minted) {
                *expect.entry(d).or_default() += v as i128;
            }
        }
        let fee;
        let k_out = z.k == K::MintOut;
        if z.k.mint() {
            fee = mint_fee(m.mint_fee, minted).unwrap_or(0);
            if mints != 1 || burns != 0 {
                ctx.flag(&[tag], format!("{} minted {mints} and burned {burns} times", z.k.name()));
            }
            let got_idx = get(&z.who, &idx) + if z.who == m.collector { 0 } else { 0 };
            if got_idx != (minted - fee) as i128 {
                ctx.flag(&[tag], format!("{} minted {minted} (fee {fee}) but the caller received {got_idx}", z.k.name()));
            }
            let spent = -get(&z.who, &z.x);
            if spent + stray(&z.x) < 0 || spent > att as i128 {
                ctx.flag(&[tag], format!("{} spent {spent}{} of {att} attached", z.k.name(), z.x));
            }
            if z.k == K::MintIn && got_idx < z.n as i128 {
                ctx.flag(&[tag], format!("minimum {} but received {got_idx}", z.n));
            }
            if z.k == K::MintOut && minted != z.n {
                ctx.flag(&[tag], format!("asked for {} but minted {minted}", z.n));
            }
            // the swaps are all the caller paid for, besides what entered the basket directly
            let swapped: u128 = self
                .w
                .chain
                .events
                .iter()
                .map(|e| match e {
                    Ev::Swap { sender, din, ain, .. } if sender == PER && *din == z.x => *ain,
                    _ => 0,
                })
                .sum();
            let direct = m.required(minted).get(&z.x).copied().unwrap_or(0);
            if k_out && swapped + direct > att {
                ctx.flag(&[tag], format!("{} used {swapped} + {direct}{} where {att} came with it", z.k.name(), z.x));
            }
            if spent + stray(&z.x) != (swapped + direct) as i128 {
                ctx.flag(&[tag, "P05"], format!("spent {spent} but swapped {swapped} and deposited {direct}"));
            }
        } else {
            if burns != 1 || mints != 0 {
                ctx.flag(&[tag], format!("{} minted {mints} and burned {burns} times", z.k.name()));
            }
            let taken = -get(&z.who, &idx) + swept.get(idx.as_str()).copied().unwrap_or(0);
            fee = get(&m.collector, &idx).max(0) as u128;
            if taken != (burned + fee) as i128 || fee != burn_fee(m.burn_fee, burned + fee).unwrap_or(0) {
                ctx.flag(&[tag, "P05"], format!("{} took {taken}, burned {burned}, fee {fee}", z.k.name()));
            }
            for (d, v) in m.redeemable(burned) {
                *expect.entry(d).or_default() -= v as i128;
            }
            let out = get(&z.who, &z.x) - stray(&z.x);
            let swapped: u128 = self
                .w
                .chain
                .events
                .iter()
                .map(|e| match e {
                    Ev::Swap { sender, dout, aout, .. } if sender == PER && *dout == z.x => *aout,
                    _ => 0,
                })
                .sum();
            let direct = m.redeemable(burned).get(&z.x).copied().unwrap_or(0);
            if out != (swapped + direct) as i128 {
                ctx.flag(&[tag, "P05"], format!("proceeds {swapped} + {direct}, paid out {out}"));
            }
            if z.k == K::BurnIn {
                if burned + fee != att {
                    ctx.flag(&[tag], format!("attached {att}, redeemed {}", burned + fee));
                }
                if out < z.n as i128 - n_swapped {
                    ctx.flag(&[tag], format!("minimum {} but paid {out}", z.n));
                }
            } else {
                if burned + fee > att {
                    ctx.flag(&[tag], format!("attached {att}, burned {}", burned + fee));
                }
                // rounding of the index amount, whose fee the contract adds with eighteen decimals
                let worth = 2 * (1 + (burned + fee) / E18) * (z.n / (burned + fee).max(1) + 1);
                let short = z.n as i128 - out;
                ctx.count(match short {
                    i128::MIN..=0 => "shortfall_none",
                    1..=500 => "shortfall_to_500",
                    501..=2500 => "shortfall_to_2500",
                    2501..=4000 => "shortfall_to_4000",
                    _ => "shortfall_over_4000",
                });
                // the last residual of the search that can be told from its neighbours
                if short > 2500 && worth < 1000 {
                    ctx.count("shortfall_telling");
                }
                // the eighteen decimals of the pools' arithmetic, nothing below balances of 1e15
                let grain = z
                    .legs
                    .values()
                    .flatten()
                    .filter_map(|(id, _)| self.w.chain.st.pools.get(id))
                    .flat_map(|p| p.assets.iter().map(|a| a.1 / 1_000_000_000_000_000))
                    .max()
                    .unwrap_or(0) as i128;
                if out < z.n as i128 - TOL as i128 - n_swapped - worth as i128 - grain {
                    ctx.flag(&[tag], format!("desired {} but paid {out}", z.n));
                }
            }
        }
        // nothing else moves between the caller, the core and the collector
        for ((a, d), v) in &real {
            if *a == z.who && *d != z.x && *d != idx {
                ctx.flag(&[tag, "P05"], format!("{} changed the caller's {d} by {v}", z.k.name()));
            }
            if a == CORE && *v != expect.get(d).copied().unwrap_or(0) {
                ctx.flag(&[tag], format!("{} changed the core's {d} by {v}, expected {:?}", z.k.name(), expect.get(d)));
            }
            if *a == m.collector && (*d != idx || *v != fee as i128) {
                ctx.flag(&[tag], format!("{} changed the collector's {d} by {v}, expected fee {fee}", z.k.name()));
            }
        }
        // the swaps are the configured ones
        if ctx.is("M03") || ctx.is(tag) {
            self.check_swaps(ctx, z, &m, if z.k.mint() { minted } else { burned });
        }
        let key = format!("{}_{}", z.k.name(), skew.signum());
        ctx.sample(&key, || {
            format!(
                "{} of {} over {} legs ({} hops), attached {}, market {skew}e-4: caller's changes {:?}",
                z.k.name(),
                z.n,
                z.legs.len(),
                z.legs.values().map(|h| h.len()).sum::<usize>(),
                coins_str(&z.funds),
                real.iter().filter(|(k, _)| k.0 == z.who).map(|(k, v)| format!("{v}{}", k.1)).collect::<Vec<_>>()
            )
        });
        m.supply = self.w.chain.supply(&idx);
        self.w.m = m;
        self.w.steps += 1;
        true
    }

    fn check_swaps(&self, ctx: &mut Ctx, z: &Zap, m: &M, amount: u128) {
        let basket = if z.k.mint() { m.required(amount) } else { m.redeemable(amount) };
        let mut want: Vec<(Vec<u64>, String, String, u128)> = vec![];
        for (d, v) in &basket {
            if let Some(h) = z.legs.get(d) {
                let ids: Vec<u64> = h.iter().map(|x| x.0).collect();
                if z.k.mint() {
                    want.push((ids, z.x.clone(), d.clone(), *v));
                } else {
                    want.push((ids, d.clone(), z.x.clone(), *v));
                }
            }
        }
        let got: Vec<(Vec<u64>, String, String, u128)> = self
            .w
            .chain
            .events
            .iter()
            .filter_map(|e| match e {
                Ev::Swap { sender, pools, din, ain, dout, aout } if sender == PER => {
                    Some((pools.clone(), din.clone(), dout.clone(), if z.k.mint() { *aout } else { *ain }))
                }
                _ => None,
            })
            .collect();
        let (mut a, mut b) = (want.clone(), got.clone());
        a.sort();
        b.sort();
        ctx.obs("M03", &[11, want.len() as u64, size(amount), z.k as u64]);
        if a != b {
            ctx.flag(&["M03", z.k.tag()], format!("{} swapped {got:?}, configured {want:?}", z.k.name()));
        }
    }

    // ---- quotes ----

    fn quote(&self, k: K, x: &str, n: u128, info: &Value) -> R<Value> {
        let q = match k {
            K::MintIn => json!({"simulate_mint_exact_amount_in": {"core_addr": CORE, "input_asset": {"denom": x, "amount": n.to_string()}, "swap_info": info}}),
            K::MintOut => json!({"simulate_mint_exact_amount_out": {"core_addr": CORE, "output_amount": n.to_string(), "input_asset": x, "swap_info": info}}),
            K::BurnIn => json!({"simulate_burn_exact_amount_in": {"core_addr": CORE, "input_amount": n.to_string(), "output_asset": x, "swap_info": info}}),
            K::BurnOut => json!({"simulate_burn_exact_amount_out": {"core_addr": CORE, "output_asset": {"denom": x, "amount": n.to_string()}, "swap_info": info}}),
        };
        self.w.chain.query(PER, &q)
    }

    /// quote, compare with the venue's own arithmetic, then execute what was quoted on a copy
    fn probe_quote(&mut self, ctx: &mut Ctx, z: &Zap) {
        let t = self.w.t();
        let mut m = self.w.m.clone();
        if m.collect(t).is_err() || m.paused(t) || m.reb.is_some() {
            return;
        }
        let bank0 = self.w.chain.st.bank.clone();
        let idx = m.index.clone();
        let pools = self.w.chain.st.pools.clone();
        let hops: u128 = z.legs.values().map(|h| h.len() as u128).sum();
        let n = match z.k {
            K::MintIn => z.funds[0].1,
            K::MintOut => z.n,
            K::BurnIn => z.funds[0].1,
            K::BurnOut => z.n,
        };
        let sig = [z.k as u64, size(n), z.legs.len() as u64, hops as u64, m.mint_fee.is_some() as u64, m.burn_fee.is_some() as u64, (m.units.len() > z.legs.len()) as u64];
        let q = self.quote(z.k, &z.x, n, &z.info);
        let again = self.quote(z.k, &z.x, n, &z.info);
        if q != again {
            ctx.flag(&["M03", "P06"], format!("two quotes in a row differ: {q:?} and {again:?}"));
        }
        ctx.count(&format!("quote_{}_{}", z.k.name(), if q.is_ok() { "ok" } else { "refused" }));
        let Ok(q) = q else {
            let e = q.unwrap_err();
            ctx.count(&format!("quote_refusal_{}", classify(&e)));
            // a quote can only be refused for a reason
            if matches!(z.k, K::MintOut | K::BurnIn) {
                let basket: Coins = if z.k == K::MintOut {
                    if mint_fee(m.mint_fee, n).unwrap_or(0) > n {
                        return;
                    }
                    m.required(n).into_iter().collect()
                } else {
                    m.redeemable(n - burn_fee(m.burn_fee, n).unwrap_or(0)).into_iter().collect()
                };
                let plain = basket.iter().all(|b| b.1 > 0);
                let ok = walk(&pools, z.k.mint(), &z.x, &basket, &z.legs, 0);
                // no hop near a limit where a base unit decides
                let okp = walk(&pools, z.k.mint(), &z.x, &basket, &z.legs, 2);
                let okm = walk(&pools, z.k.mint(), &z.x, &basket, &z.legs, -2);
                if let (Ok((_, e1, _)), Ok(_), Ok((_, e2, _))) = (&ok, &okp, &okm) {
                    if plain && e1.iter().chain(e2).all(|v| *v > 100) && !classify(&e).starts_with("math") {
                        ctx.flag(&["P06", "M03"], format!("quote for {n} refused although every swap is possible: {e}"));
                    }
                }
            }
            return;
        };
        ctx.obs("P06", &sig);
        ctx.obs("M03", &sig);
        let sr = (|| Some((js(&q["swap_result_amount"]["denom"])?, ju(&q["swap_result_amount"]["amount"])?)))();
        let Some((sd, sa)) = sr else {
            ctx.flag(&["P06"], format!("malformed quote {q}"));
            return;
        };
        if sd != z.x {
            ctx.flag(&["P06"], format!("quote in {sd}, asked for {}", z.x));
        }
        let list = |k: &str| jcoins(&q[k]);
        let sort_ok = |c: &Coins| c.windows(2).all(|w| w[0].0 < w[1].0);
        // legs that share a pool see it in the order of the portfolio
        let order: Vec<String> = self.portfolio().map(|p| p.units.into_iter().map(|u| u.0).collect()).unwrap_or_default();
        let band = |basket: &Coins| -> Option<(u128, u128)> {
            let mut basket = basket.clone();
            basket.sort_by_key(|b| order.iter().position(|o| *o == b.0));
            let basket = &basket;
            let a = walk(&pools, z.k.mint(), &z.x, basket, &z.legs, -2).ok()?.0;
            let (b, _, edge) = walk(&pools, z.k.mint(), &z.x, basket, &z.legs, 2).ok()?;
            if edge {
                return None;
            }
            Some((a.saturating_sub(2 * hops), b + 2 * hops))
        };
        // what the caller has more, less what the periphery had lying about
        let gain = |a: &Chain, b: &Chain, d: &str| {
            let of = |c: &Chain| (c.bal(&z.who, d) + c.bal(PER, d)) as i128;
            of(b) - of(a)
        };
        match z.k {
            K::MintOut => {
                let fee = mint_fee(m.mint_fee, n).unwrap_or(0);
                if ju(&q["mint_amount"]) != n.checked_sub(fee) {
                    ctx.flag(&["P06"], format!("quoted mint {} of {n}, the core's fee is {fee}", q["mint_amount"]));
                }
                let req: Coins = m.required(n).into_iter().collect();
                match list("mint_spend_amount") {
                    Some(c) if sort_ok(&c) && c == req => {}
                    c => {
                        ctx.flag(&["P06"], format!("quoted basket {c:?}, the core takes {req:?}"));
                    }
                }
                if let Some((lo, hi)) = band(&req) {
                    if sa < lo || sa > hi {
                        ctx.flag(&["P06", "M03"], format!("quoted cost {sa}, the venue charges {lo}..{hi}"));
                    }
                    ctx.count("quotes_compared_with_venue");
                }
                // executing it costs what was quoted
                let funds = vec![(z.x.clone(), sa * 3 + 10)];
                let z2 = Zap { k: z.k, n, funds: funds.clone(), ..z.clone() };
                let (c2, r) = self.w.chain.dry(&z.who, PER, &z2.json(), &funds);
                match r {
                    Ok(()) => {
                        let spent = -gain(&self.w.chain, &c2, &z.x);
                        let got = gain(&self.w.chain, &c2, &idx);
                        if spent > (sa + 4 * hops + self.slack(&z.legs, true, &z.x)) as i128 {
                            ctx.flag(&["P06"], format!("quoted cost {sa}, executing it cost {spent}"));
                        }
                        if ju(&q["mint_amount"]).is_none_or(|a| got < a as i128) {
                            ctx.flag(&["P06"], format!("quoted mint {}, executing it gave {got}", q["mint_amount"]));
                        }
                        ctx.count("quotes_executed");
                    }
                    Err(e) => self.exec_refused(ctx, z, &q, &e, n),
                }
            }
            K::BurnIn => {
                let fee = burn_fee(m.burn_fee, n).unwrap_or(0);
                if ju(&q["burn_amount"]) != Some(n - fee) {
                    ctx.flag(&["P06"], format!("quoted burn {} of {n}, the core's fee is {fee}", q["burn_amount"]));
                }
                let red: Coins = m.redeemable(n - fee).into_iter().collect();
                match list("burn_redeem_amount") {
                    Some(c) if sort_ok(&c) && c == red => {}
                    c => {
                        ctx.flag(&["P06"], format!("quoted basket {c:?}, the core pays {red:?}"));
                    }
                }
                if let Some((lo, hi)) = band(&red) {
                    if sa < lo || sa > hi {
                        ctx.flag(&["P06", "M03"], format!("quoted proceeds {sa}, the venue pays {lo}..{hi}"));
                    }
                    ctx.count("quotes_compared_with_venue");
                }
                if self.w.ibal(&z.who) < n {
                    return;
                }
                let funds = vec![(idx.clone(), n)];
                let z2 = Zap { k: z.k, n: sa / 2, funds: funds.clone(), ..z.clone() };
                let (c2, r) = self.w.chain.dry(&z.who, PER, &z2.json(), &funds);
                match r {
                    Ok(()) => {
                        let got = gain(&self.w.chain, &c2, &z.x);
                        if got + ((4 * hops + self.slack(&z.legs, false, &z.x)) as i128) < sa as i128 {
                            ctx.flag(&["P06"], format!("quoted proceeds {sa}, executing it paid {got}"));
                        }
                        ctx.count("quotes_executed");
                    }
                    Err(e) => self.exec_refused(ctx, z, &q, &e, n),
                }
            }
            K::MintIn => {
                if sa > n || n - sa >= TOL {
                    ctx.flag(&["P06"], format!("quoted cost {sa} for an input of {n}"));
                }
                let Some(min) = ju(&q["mint_amount"]) else {
                    ctx.flag(&["P06"], format!("malformed quote {q}"));
                    return;
                };
                // executing it with room for the search tolerance gives at least what was quoted
                let a = n + TOL + 4 * hops + self.slack(&z.legs, true, &z.x) + 1;
                let funds = vec![(z.x.clone(), a)];
                let z2 = Zap { k: z.k, n: min, funds: funds.clone(), ..z.clone() };
                let (c2, r) = self.w.chain.dry(&z.who, PER, &z2.json(), &funds);
                match r {
                    Ok(()) => {
                        let got = gain(&self.w.chain, &c2, &idx);
                        if got < min as i128 {
                            ctx.flag(&["P06", "P01"], format!("quoted mint {min}, executing it gave {got}"));
                        }
                        ctx.count("quotes_executed");
                        // the quoted basket is the one of the quoted mint
                        self.check_mint_basket(ctx, &m, min, &q);
                    }
                    Err(e) => self.exec_refused(ctx, z, &q, &e, n),
                }
            }
            K::BurnOut => {
                if sa > n || n - sa >= TOL {
                    ctx.flag(&["P06"], format!("quoted proceeds {sa} for a desired output of {n}"));
                }
                let Some(b) = ju(&q["burn_amount"]) else {
                    ctx.flag(&["P06"], format!("malformed quote {q}"));
                    return;
                };
                // the most the search may settle on: the burn whose proceeds reach n by the venue's arithmetic
                let reach = |e: u128| {
                    let mut basket: Coins = m.redeemable(e).into_iter().collect();
                    basket.sort_by_key(|b| order.iter().position(|o| *o == b.0));
                    walk(&pools, false, &z.x, &basket, &z.legs, -2).map(|v| v.0 >= n + 2 * hops + 1)
                };
                let (mut lo, mut hi) = (0u128, b * 2 + 100);
                match reach(hi) {
                    Ok(true) => {}
                    _ => return,
                }
                while hi - lo > 1 {
                    let mid = (lo + hi) / 2;
                    match reach(mid) {
                        Ok(true) => hi = mid,
                        Ok(false) => lo = mid,
                        Err(_) => return,
                    }
                }
                let a = muldiv_up(hi, E18, E18 - m.burn_fee.unwrap_or(0).min(E18 - 1)).unwrap_or(hi) + 10;
                if b > a {
                    ctx.flag(&["P06", "P04"], format!("quoted burn {b}, the venue pays the desired {n} for {a}"));
                    return;
                }
                if self.w.ibal(&z.who) < a {
                    return;
                }
                let funds = vec![(idx.clone(), a)];
                let z2 = Zap { k: z.k, n, funds: funds.clone(), ..z.clone() };
                let (c2, r) = self.w.chain.dry(&z.who, PER, &z2.json(), &funds);
                match r {
                    Ok(()) => {
                        let got = gain(&self.w.chain, &c2, &z.x);
                        let per = 2 * (n / b.max(1)) + 2;
                        if got + ((TOL + 4 * hops + per + self.slack(&z.legs, false, &z.x)) as i128) < n as i128 {
                            ctx.flag(&["P06", "P04"], format!("desired {n}, executing the quote paid {got}"));
                        }
                        ctx.count("quotes_executed");
                        if let Some(c) = list("burn_redeem_amount") {
                            let e = b - burn_fee(m.burn_fee, b).unwrap_or(0);
                            for (d, u) in &m.units {
                                let have = c.iter().find(|x| &x.0 == d).map(|x| x.1);
                                let (lo, hi) = (dmul(*u, e.saturating_sub(3)), dmul(*u, e + 3));
                                if have.is_none_or(|h| h < lo || h > hi) || c.len() != m.units.len() || !sort_ok(&c) {
                                    ctx.flag(&["P06"], format!("quoted basket {c:?} for a burn of {b}, expected {d} {lo}..{hi}"));
                                }
                            }
                        } else {
                            ctx.flag(&["P06"], format!("malformed quote {q}"));
                        }
                    }
                    Err(e) => self.exec_refused(ctx, z, &q, &e, n),
                }
            }
        }
        if bank0 != self.w.chain.st.bank || pools.len() != self.w.chain.st.pools.len() {
            ctx.flag(&["P06", "M03"], "a quote changed the chain".into());
        }
    }

    fn check_mint_basket(&self, ctx: &mut Ctx, m: &M, min: u128, q: &Value) {
        // est with est - fee(est) = min + 100
        let net = min + 100;
        let est = match m.mint_fee {
            None => net,
            Some(r) => muldiv(net, E18, E18 - r).unwrap_or(net).max(net + 1),
        };
        let w = 3 + m.mint_fee.map(|r| E18 / (E18 - r)).unwrap_or(0) * 2;
        let c = jcoins(&q["mint_spend_amount"]).unwrap_or_default();
        for (d, u) in &m.units {
            let have = c.iter().find(|x| &x.0 == d).map(|x| x.1);
            let (lo, hi) = (dmul(*u, est.saturating_sub(w)), dmul_up(*u, est + w).max(1));
            if have.is_none_or(|h| h < lo || h > hi) || c.len() != m.units.len() {
                ctx.flag(&["P06"], format!("quoted basket {c:?} for a mint of {min} after fees, expected {d} {lo}..{hi}"));
                return;
            }
        }
    }

    /// what a difference of four base units in every hop can amount to at the end of the routes
    fn slack(&self, legs: &Legs, mint: bool, x: &str) -> u128 {
        let mut s = 0u128;
        for (d, hops) in legs {
            // price of an intermediate unit in the route's paying denom, by balances and weights
            let mut f = 1u128;
            let path: Vec<(u64, String)> = hops.clone();
            let n = path.len();
            for i in 0..n {
                let Some(p) = self.w.chain.st.pools.get(&path[i].0) else { continue };
                let (a, b) = if mint {
                    (path[i].1.clone(), if i + 1 < n { path[i + 1].1.clone() } else { d.clone() })
                } else {
                    (if i == 0 { d.clone() } else { path[i - 1].1.clone() }, path[i].1.clone())
                };
                let (Ok(ia), Ok(ib)) = (p.idx(&a), p.idx(&b)) else { continue };
                let (from, to) = if mint { (ib, ia) } else { (ia, ib) };
                let num = p.assets[to].1 / p.assets[to].2.max(1) .max(1);
                let _ = num;
                let price = muldiv(p.assets[to].1, p.assets[from].2.max(1), p.assets[from].1.max(1))
                    .unwrap_or(0)
                    / p.assets[to].2.max(1);
                f = f.saturating_mul(price * 2 + 2).min(1_000_000_000);
            }
            s += 4 * f;
        }
        let _ = x;
        s
    }

    fn exec_refused(&self, ctx: &mut Ctx, z: &Zap, q: &Value, e: &str, n: u128) {
        let c = classify(e);
        ctx.count(&format!("quoted_execution_refused_{c}"));
        // amounts so small that a base unit of rounding is worth more than the room given, or a
        // search that did not converge
        if c == "max_loop" || c == "zero" || n < 1_000_000 {
            return;
        }
        // the chain gives up on powers of a base next to zero or two, the contract does not
        if e.contains("pow iteration limit") {
            return;
        }
        // a leg's estimate and the venue may differ by the rounding of its hops
        if c == "venue_minimum" {
            let v: Vec<u128> = e.split_whitespace().filter_map(|w| w.parse().ok()).collect();
            let hops: u128 = z.legs.values().map(|h| h.len() as u128).sum();
            if v.len() >= 2 && v[v.len() - 2] + 4 * hops + self.slack(&z.legs, z.k.mint(), &z.x) >= v[v.len() - 1] {
                ctx.count("quoted_execution_short_by_rounding");
                return;
            }
        }
        let small = |k: &str| jcoins(&q[k]).map(|c| c.iter().any(|x| x.1 < 1000)).unwrap_or(true);
        let sa = ju(&q["swap_result_amount"]["amount"]).unwrap_or(0);
        if small(if z.k.mint() { "mint_spend_amount" } else { "burn_redeem_amount" }) || sa < 100_000 {
            return;
        }
        ctx.flag(&["P06", z.k.tag()], format!("executing the quote {q} for {n}{} was refused: {e}", z.x));
    }

    /// swap instructions other than as they should be
    fn probe_info(&mut self, ctx: &mut Ctx, z: &Zap) {
        if z.legs.is_empty() {
            return;
        }
        let t = self.w.t();
        let mut m = self.w.m.clone();
        if m.collect(t).is_err() || m.paused(t) || m.reb.is_some() {
            return;
        }
        let n = if z.k == K::MintOut || z.k == K::BurnOut { z.n } else { z.funds[0].1 };
        let base = self.quote(z.k, &z.x, n, &z.info);
        let ds: Vec<String> = z.legs.keys().cloned().collect();
        let d = self.w.rng.pick(&ds).clone();
        let key = if z.k.mint() { format!("{},{d}", z.x) } else { format!("{d},{}", z.x) };
        let mut v: Vec<Value> = z.info.as_array().unwrap().clone();
        let at = v.iter().position(|e| e["key"] == json!(key)).unwrap();
        let kind = self.w.rng.below(13);
        let fixed = self.w.next_pool;
        // (must be refused, description)
        let (refuse, what) = match kind {
            0 => {
                v.remove(at);
                (true, "a leg is missing")
            }
            1 => {
                let r = v[at]["routes"].as_array().unwrap().clone();
                let mut r = r;
                let i = self.w.rng.below(r.len() as u64) as usize;
                let den = r[i].as_str().unwrap().split_once(',').unwrap().1.to_string();
                r[i] = json!(format!("999999,{den}"));
                v[at]["routes"] = Value::Array(r);
                (true, "a pool does not exist")
            }
            2 => {
                // ends in another denom: cut to the intermediate, or name another asset of the pool
                let mut r = v[at]["routes"].as_array().unwrap().clone();
                if r.len() < 2 {
                    return;
                }
                if z.k.mint() {
                    r.remove(0);
                } else {
                    r.pop();
                }
                v[at]["routes"] = Value::Array(r);
                (true, "the route is cut short")
            }
            3 => {
                v[at]["routes"] = json!([]);
                (true, "the route is empty")
            }
            4 => {
                let den = if z.k.mint() { z.x.clone() } else { z.x.clone() };
                self.w.chain.st.pools.insert(
                    fixed,
                    Pool { id: fixed, kind: Kind::Fixed(1, 1), assets: vec![(z.x.clone(), RICH, 1), (d.clone(), RICH, 1)], fee: 0 },
                );
                self.w.next_pool += 1;
                v[at]["routes"] = json!([format!("{fixed},{den}")]);
                (true, "the pool is of an unknown type")
            }
            5 => {
                let den = z.x.clone();
                v[at]["routes"] = json!([format!("pool,{den}")]);
                (true, "a pool id is not a number")
            }
            6 => {
                let k = v[at]["key"].as_str().unwrap().to_string();
                let (a, b) = k.split_once(',').unwrap();
                v[at]["key"] = json!(format!("{b},{a}"));
                (true, "a pair is the wrong way round")
            }
            7 => {
                // a second entry for the same pair: the first one counts
                let mut e = v[at].clone();
                e["routes"] = json!([format!("{},{}", z.legs[&d][0].0, "uother")]);
                v.push(e);
                (false, "a pair appears twice")
            }
            8 => {
                // entries for other pairs do not matter
                let other = self.mine.clone();
                let p = *self.w.rng.pick(&other);
                let den = self.w.chain.st.pools[&p].assets[0].0.clone();
                let e = json!({"key": "uforeign,uother", "routes": [format!("{p},{den}")]});
                if self.w.rng.pct(50) {
                    v.insert(0, e);
                } else {
                    v.push(e);
                }
                (false, "an unrelated pair is listed")
            }
            9 => {
                // a route over a pool that does not hold the asset
                let other: Vec<u64> = self.mine.iter().copied().filter(|p| !self.w.chain.st.pools[p].has(&d)).collect();
                if other.is_empty() {
                    return;
                }
                let p = *self.w.rng.pick(&other);
                v[at]["routes"] = json!([format!("{p},{}", z.x)]);
                (true, "a pool does not hold the asset")
            }
            10 => {
                // an unrelated pair over a pool that does not exist
                v.push(json!({"key": "uforeign,uother", "routes": ["999998,uother"]}));
                (true, "an unrelated pair leads over a missing pool")
            }
            11 => {
                let i = self.w.rng.below(v.len() as u64) as usize;
                let j = self.w.rng.below(v.len() as u64) as usize;
                v.swap(i, j);
                (false, "the pairs come in another order")
            }
            _ => {
                v[at]["key"] = json!(format!("{key}x"));
                (true, "the pair names another denom")
            }
        };
        let info = Value::Array(v);
        let got = self.quote(z.k, &z.x, n, &info);
        let tag = z.k.tag();
        ctx.obs("M03", &[100 + kind, z.k as u64, z.legs.len() as u64, got.is_ok() as u64]);
        ctx.obs(tag, &[100 + kind, z.k as u64, z.legs.len() as u64, got.is_ok() as u64]);
        ctx.count(&format!("swap_info_{}", what.replace(' ', "_")));
        let z2 = Zap { info: info.clone(), ..z.clone() };
        if refuse {
            if let Ok(v) = got {
                ctx.flag(&["M03"], format!("{what}, yet {} was quoted {v}: {info}", z.k.name()));
            }
            let (_, r) = self.w.chain.dry(&z.who, PER, &z2.json(), &z2.funds);
            if r.is_ok() {
                ctx.flag(&["M03", tag], format!("{what}, yet {} went through: {info}", z.k.name()));
            }
        } else {
            if got != base {
                ctx.flag(&["M03"], format!("{what}: quoted {got:?}, otherwise {base:?}"));
            }
            let (a, ra) = self.w.chain.dry(&z.who, PER, &z.json(), &z.funds);
            let (b, rb) = self.w.chain.dry(&z.who, PER, &z2.json(), &z2.funds);
            if ra.is_ok() != rb.is_ok() || a.st.bank != b.st.bank {
                ctx.flag(&["M03", tag], format!("{what}, which changed the outcome of {} from {ra:?} to {rb:?}", z.k.name()));
            }
        }
    }

    /// fund sets an operation must not accept
    fn probe_funds(&mut self, ctx: &mut Ctx, z: &Zap) {
        let idx = self.w.m.index.clone();
        let right = if z.k.mint() { z.x.clone() } else { idx };
        let a = z.funds[0].1;
        let other = "umain".to_string();
        let funds: Coins = match self.w.rng.below(4) {
            0 => vec![],
            1 if right != "uusdt" => vec![("uusdt".into(), a)],
            2 if right != other => {
                let mut v = vec![(right.clone(), a), (other.clone(), a)];
                v.sort();
                v
            }
            _ if right != other => vec![(other, a)],
            _ => vec![],
        };
        let (c2, r) = self.w.chain.dry(&z.who, PER, &z.json(), &funds);
        ctx.obs(z.k.tag(), &[200, funds.len() as u64, z.k as u64]);
        ctx.obs("P05", &[200, funds.len() as u64, z.k as u64]);
        if r.is_ok() || c2.st.bank != self.w.chain.st.bank {
            ctx.flag(&[z.k.tag(), "P05"], format!("{} accepted the funds {}", z.k.name(), coins_str(&funds)));
        }
    }

    /// nobody but the periphery itself can finish an operation
    fn probe_finish(&mut self, ctx: &mut Ctx) {
        let dens: Vec<String> = self.x.iter().cloned().chain([self.w.m.index.clone()]).collect();
        let d = self.w.rng.pick(&dens).clone();
        let mut c = self.w.chain.clone();
        if self.w.rng.pct(70) {
            c.give(PER, &d, 1 + self.w.rng.below(1000) as u128);
        }
        let who = *self.w.rng.pick(&[ATT, OUT, GOV, CORE, COLL, USERS[0]]);
        let to = *self.w.rng.pick(&[ATT, USERS[1], PER, CORE]);
        let msg = json!({"finish_operation": {"refund_to": to, "refund_asset": d}});
        let before = c.st.bank.clone();
        let funds = if self.w.rng.pct(30) && who != CORE && c.bal(who, "umain") > 5 { vec![("umain".to_string(), 5u128)] } else { vec![] };
        let r = c.exec(who, PER, &msg, &funds);
        let stray = before.get(PER).map(|m| m.values().any(|v| *v > 0)).unwrap_or(false);
        ctx.obs("P05", &[300, hash_str(who), hash_str(to), stray as u64, funds.len() as u64]);
        ctx.count("finish_by_outsider");
        if r.is_ok() || c.st.bank != before {
            ctx.flag(&["P05"], format!("{who} finished an operation: {msg}"));
        }
    }

    /// M03 on the simulator itself: pure, repeatable, additive, and each leg over its own route
    fn probe_simulator(&mut self, ctx: &mut Ctx, z: &Zap) {
        use cosmwasm_std::{coin, Decimal, Deps, QuerierWrapper, Uint128, Uint256};
        use ibcx_interface::periphery::{extract_pool_ids, SwapInfo, SwapInfosCompact};
        let infos: SwapInfosCompact = serde_json::from_value(z.info.clone()).unwrap();
        let infos: Vec<SwapInfo> = infos.into();
        let mut m = self.w.m.clone();
        if m.collect(self.w.t()).is_err() {
            return;
        }
        let units: Vec<(String, Decimal)> = m.units.iter().map(|(d, u)| (d.clone(), Decimal::new(Uint128::new(*u)))).collect();
        let chain = &self.w.chain;
        let store = Store::default();
        let qr = ChainQuerier { c: chain };
        let deps = Deps { storage: &store, api: &ChainApi, querier: QuerierWrapper::new(&qr) };
        let ids = extract_pool_ids(infos.clone());
        let want_ids: std::collections::BTreeSet<u64> = z.legs.values().flatten().map(|h| h.0).collect();
        if ids.iter().copied().collect::<std::collections::BTreeSet<_>>() != want_ids || ids.len() != want_ids.len() {
            ctx.flag(&["M03"], format!("pools of the routes are {want_ids:?}, extracted {ids:?}"));
        }
        let Ok(pools) = ibcx_pool::query_pools(&deps, ids.clone()) else {
            ctx.flag(&["M03"], "pools that exist could not be queried".into());
            return;
        };
        let sim = ibcx_pool::Simulator::new(&deps, &pools, &infos, &units);
        let n = match z.k {
            K::MintOut => z.n,
            K::BurnIn => z.funds[0].1,
            _ => self.w.scale / 50 + 1,
        };
        let e = |v: &dyn std::fmt::Display| v.to_string();
        // (total, per leg (denom given, amount given, result, hops))
        type Res = R<(u128, Vec<(String, u128, u128)>)>;
        let call = || -> Res {
            if z.k.mint() {
                let r = sim.estimate_input_for_index(&z.x, Uint128::new(n)).map_err(|x| e(&x))?;
                Ok((r.total_input.u128(), r.sim_routes.0.iter().map(|l| (l.amount_out.denom.clone(), l.amount_out.amount.u128(), l.sim_amount_in.u128())).collect()))
            } else {
                let r = sim.estimate_output_for_index(Uint128::new(n), &z.x).map_err(|x| e(&x))?;
                Ok((r.total_output.u128(), r.sim_routes.0.iter().map(|l| (l.amount_in.denom.clone(), l.amount_in.amount.u128(), l.sim_amount_out.u128())).collect()))
            }
        };
        let quiet = |f: &dyn Fn() -> Res| -> Res {
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| Err("panic".into()))
        };
        let a = quiet(&call);
        let b = quiet(&call);
        // by hand, on copies of the same pools
        let own = || -> Res {
            let mut map: BTreeMap<u64, Box<dyn ibcx_pool::OsmosisPool>> = ids.iter().copied().zip(pools.iter().cloned()).collect();
            let mut v = vec![];
            let mut total = 0u128;
            let basket: Coins = if z.k.mint() { m.required(n) } else { m.redeemable(n) }.into_iter().collect();
            for (d, amount) in basket {
                if d == z.x {
                    total += amount;
                    v.push((d, amount, amount));
                    continue;
                }
                let hops = &z.legs[&d];
                let mut x = amount;
                if z.k.mint() {
                    let mut have = d.clone();
                    for (id, din) in hops.iter().rev() {
                        let p = map.get_mut(id).ok_or("pool")?;
                        let f = p.get_spread_factor().map_err(|x| e(&x))?;
                        x = p
                            .swap_exact_amount_out(&deps, din.clone(), Uint256::from(u128::MAX), coin(x, &have), f)
                            .map_err(|x| e(&x))?
                            .to_string()
                            .parse()
                            .map_err(|_| "range".to_string())?;
                        have = din.clone();
                    }
                } else {
                    let mut have = d.clone();
                    for (id, dout) in hops.iter() {
                        let p = map.get_mut(id).ok_or("pool")?;
                        let f = p.get_spread_factor().map_err(|x| e(&x))?;
                        x = p
                            .swap_exact_amount_in(&deps, coin(x, &have), dout.clone(), Uint256::zero(), f)
                            .map_err(|x| e(&x))?
                            .to_string()
                            .parse()
                            .map_err(|_| "range".to_string())?;
                        have = dout.clone();
                    }
                }
                total += x;
                v.push((d, amount, x));
            }
            Ok((total, v))
        };
        let o = quiet(&own);
        ctx.obs("M03", &[400, z.k as u64, z.legs.len() as u64, z.legs.values().map(|h| h.len() as u64).sum(), a.is_ok() as u64, size(n)]);
        ctx.count(if a.is_ok() { "simulator_runs" } else { "simulator_runs_refused" });
        if a != b {
            ctx.flag(&["M03"], format!("two estimates on the same pools differ: {a:?} and {b:?}"));
        }
        match (&a, &o) {
            (Ok(a), Ok(o)) => {
                let mut av = a.1.clone();
                av.sort();
                let mut ov = o.1.clone();
                ov.sort();
                if a.0 != o.0 || av != ov {
                    ctx.flag(&["M03"], format!("estimate {a:?}, leg by leg {o:?}"));
                }
                if a.1.iter().map(|x| x.2).sum::<u128>() != a.0 {
                    ctx.flag(&["M03"], format!("the total {} is not the sum of {:?}", a.0, a.1));
                }
            }
            (Err(_), Err(_)) => {}
            (a, o) => {
                ctx.flag(&["M03"], format!("estimate {a:?}, leg by leg {o:?}"));
            }
        }
    }
}

fn classify(e: &str) -> &'static str {
    let l = e.to_lowercase();
    if l.contains("max loop") || l.contains("maxloop") || l.contains("loop exceeded") {
        "max_loop"
    } else if l.contains("must be positive") || l.contains("invalid coins") {
        "zero"
    } else if l.contains("trade amount exceeded") || l.contains("tradeamountexceeded") {
        "trade_amount_exceeded"
    } else if l.contains("below minimum") {
        "venue_minimum"
    } else if l.contains("above maximum") {
        "venue_maximum"
    } else if l.contains("base must be") || l.contains("approx") || l.contains("overflow") || l.contains("divide") || l.contains("subtract") {
        "math"
    } else if l.contains("paused") {
        "paused"
    } else if l.contains("rebalanc") {
        "rebalancing"
    } else if l.contains("panicked") {
        "panic"
    } else if l.contains("insufficient") {
        "insufficient"
    } else if l.contains("route") || l.contains("pool") {
        "route"
    } else {
        "other"
    }
}

pub fn history(ctx: &mut Ctx, rng: Rng) {
    let Some(mut p) = P::new(ctx, rng) else { return };
    let mut prng = Rng::new(p.w.rng.next());
    let rebal = p.w.rng.pct(20);
    if rebal {
        p.w.register_all(ctx);
    }
    let n = p.w.rng.urange(10, 30);
    let f = ctx.focus.clone();
    let on = |s: &str, a: u64| if f == s { a } else { 10 };
    let ks = [K::MintIn, K::MintOut, K::BurnIn, K::BurnOut];
    let kw = [on("P01", 60), on("P02", 60), on("P03", 60), on("P04", 60)];
    for _ in 0..n {
        if ctx.broken {
            return;
        }
        let c = p.w.rng.below(100);
        if c < 12 {
            let dt = p.w.gen_dt();
            if !p.w.rate_over(p.w.t() + dt) {
                p.w.advance(ctx, dt);
            }
            continue;
        }
        if c < 30 {
            if rebal || p.w.rng.pct(50) {
                p.w.random_op(ctx);
            } else {
                let u = p.w.user();
                let a = p.w.rng.range(1, p.w.scale);
                let op = p.w.op_mint(&u, a);
                p.w.step(ctx, &op);
            }
            continue;
        }
        if c < 33 {
            // someone trades on their own
            if let Some(id) = p.mine.first().map(|_| *p.w.rng.pick(&p.mine.clone())) {
                let po = p.w.chain.st.pools[&id].clone();
                let (a, b) = (po.assets[0].clone(), po.assets[1].clone());
                let x = p.w.rng.range(1, a.1 / 20 + 1);
                let _ = venue::swap_in(&mut p.w.chain.st.pools, &a.0, x, &[(id, b.0)], 0);
                ctx.log(|| format!("market trades {x}{} into pool {id}", a.0));
            }
            continue;
        }
        if c < 35 {
            let d = p.w.rng.pick(&p.x.clone()).to_string();
            let a = p.w.rng.range(1, 10_000);
            if p.w.rng.pct(25) && ctx.any(&["P01", "P02", "P03", "P04"]) {
                let r = p.w.chain.tx_send(OUT, PER, &vec![(d.clone(), a)]);
                ctx.log(|| format!("someone sends {a}{d} to the periphery: {r:?}"));
            }
            continue;
        }
        let k = ks[p.w.rng.weighted(&kw)];
        let Some(z) = p.gen_zap(k) else { continue };
        // quotes are held against the venue's own arithmetic; on balances of tokens with eighteen decimals
        // the rounding of the power series alone, which differs between the two, is many base units
        let exact = p.w.scale <= 10_000_000_000;
        if exact && ((ctx.any(&["P06", "W01"]) && prng.pct(70)) || (ctx.is("M03") && prng.pct(40))) {
            p.probe_quote(ctx, &z);
        }
        if ctx.is("M03") && prng.pct(60) {
            p.probe_simulator(ctx, &z);
        }
        if ctx.any(&["P01", "P02", "P03", "P04", "P05", "M03"]) && prng.pct(if ctx.is("M03") { 60 } else { 25 }) {
            p.probe_info(ctx, &z);
        }
        if ctx.any(&["P01", "P02", "P03", "P04", "P05"]) && prng.pct(25) {
            p.probe_funds(ctx, &z);
        }
        if ctx.is("P05") && prng.pct(60) {
            p.probe_finish(ctx);
        }
        if ctx.broken {
            return;
        }
        let skew = match p.w.rng.below(10) {
            0 => p.w.rng.range(1, 300) as i128,
            1 => -(p.w.rng.range(1, 300) as i128),
            2 => p.w.rng.range(1, 10) as i128,
            _ => 0,
        };
        if prng.pct(15) {
            p.donate(ctx, &z);
        }
        p.zap(ctx, &z, skew);
    }
}

/// finding F-P06-shared: two routes over one concentrated pool are quoted as if each came first
pub fn finding_shared(ctx: &mut Ctx) -> bool {
    let x = ENDS[0];
    let mut w = crate::coreep::fixed_world(&[("uatom".into(), E18), ("ujuno".into(), E18)], None);
    w.chain.give(USERS[0], x, RICH);
    if w.chain.instantiate(Code::Periphery, PER, OUT, &json!({}), &vec![]).is_err() {
        return false;
    }
    let b = 1_000_000_000u128;
    let mut pool = |id: u64, kind: Kind, a: &str, c: &str| {
        w.chain.st.pools.insert(id, Pool { id, kind, assets: vec![(a.into(), b, 1 << 30), (c.into(), b, 1 << 30)], fee: 0 });
    };
    pool(1, Kind::Weighted, "uatom", "uusdt");
    pool(2, Kind::Weighted, "ujuno", "uusdt");
    pool(3, Kind::Cl, "uusdt", x);
    let op = w.op_mint(USERS[0], 1_000_000);
    w.step(ctx, &op);
    let legs: Legs = ["uatom", "ujuno"]
        .iter()
        .enumerate()
        .map(|(i, d)| (d.to_string(), vec![(3, x.to_string()), (i as u64 + 1, "uusdt".to_string())]))
        .collect();
    let info = infos_json(true, x, &legs);
    let n = 100_000_000u128;
    let q = w.chain.query(PER, &json!({"simulate_mint_exact_amount_out": {"core_addr": CORE, "output_amount": n.to_string(), "input_asset": x, "swap_info": info}}));
    let Some(sa) = q.ok().and_then(|q| ju(&q["swap_result_amount"]["amount"])) else { return false };
    let z = Zap { k: K::MintOut, who: USERS[0].into(), x: x.into(), n, funds: vec![(x.into(), sa * 3)], legs, info };
    let (c2, r) = w.chain.dry(&z.who, PER, &z.json(), &z.funds);
    let spent = w.chain.bal(&z.who, x) - c2.bal(&z.who, x);
    r.is_err() || spent > sa + sa / 100
}
