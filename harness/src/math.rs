//! The power function and the weighted-pool estimates, judged by floating-point values obtained
//! another way (log and exponential), within the documented precision.
use cosmwasm_std::{coin, Decimal256, Deps, QuerierWrapper, Uint256};

use crate::chain::*;
use crate::ctx::*;
use crate::util::*;
use crate::venue::{Kind, Pool};

const PREC: f64 = 1e-8;

fn dec(v: u128) -> Decimal256 {
    Decimal256::new(Uint256::from(v))
}
fn f(d: Decimal256) -> f64 {
    d.atomics().to_string().parse::<f64>().unwrap_or(f64::MAX) / 1e18
}
fn quiet<T>(x: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(x)).unwrap_or_else(|_| Err("panic".into()))
}
fn pow(b: u128, e: u128) -> Result<f64, String> {
    quiet(|| ibcx_math::pow(dec(b), dec(e)).map(f).map_err(|e| e.to_string()))
}

/// how far the truncated series may be off: its precision, times the tail that follows the first
/// neglected term, times the whole part of the exponent; plus the rounding of its decimals
fn pow_tol(base: f64, exp: f64, value: f64) -> f64 {
    let x = (base - 1.0).abs();
    let whole = base.powf(exp.floor());
    let tail = if x < 1.0 { 1.0 + x / (1.0 - x) } else { f64::MAX };
    let series = if exp.fract() == 0.0 { 0.0 } else { whole * PREC * tail };
    series + 1e-15 * (1.0 + value) * (2.0 + exp) + 1e-16 * (1.0 + whole) / (1.0 - x).max(1e-3)
}

fn gen_exp(r: &mut Rng) -> u128 {
    match r.below(12) {
        // next to a whole number, at every distance
        10 => r.below(6) as u128 * E18 + r.logu(E18 / 100),
        11 => r.range(1, 6) * E18 - r.logu(E18 / 100),
        0 => r.below(12) as u128 * E18,
        1 => r.range(1, E18 - 1),
        2 => r.range(1, 10) * E18 + r.range(1, E18 - 1),
        3 => *r.pick(&[E18 / 2, E18 / 4, 3 * E18 / 2, 1, E18 - 1, E18 + 1, 2 * E18 - 1, 2 * E18 + 1, E18 / 1000]),
        4 => r.range(1, 99) * E18 / r.range(1, 99),
        _ => r.range(1, 20) * E18 / r.range(1, 20),
    }
}

fn gen_base(r: &mut Rng, ep: u64) -> u128 {
    match r.below(12) {
        0 => E18 - r.logu(E18 / 10),
        1 => E18 + r.logu(E18 / 10),
        2 => E18,
        3 => E18 + r.range(1, 9 * E18 / 10),
        4 if ep % 50 == 0 => 2 * E18 - r.range(1, E18 / 1000),
        4 => 2 * E18 - r.range(E18 / 100, E18 / 10),
        5 if ep % 50 == 1 => r.range(E18 / 2000, E18 / 100),
        5 => r.range(E18 / 100, E18 / 10),
        6 => E18 - r.range(1, E18 / 100),
        7 => E18 + r.range(1, E18 / 100),
        _ => r.range(E18 / 50, 2 * E18 - E18 / 50),
    }
}

pub fn pow_history(ctx: &mut Ctx, mut r: Rng) {
    let ep = ctx.ep;
    for _ in 0..40 {
        if ctx.broken {
            return;
        }
        let (b, e) = (gen_base(&mut r, ep), gen_exp(&mut r));
        let (bf, ef) = (b as f64 / 1e18, e as f64 / 1e18);
        let got = pow(b, e);
        let truth = {
            // ln of a base next to one must not lose its digits
            let d = if b >= E18 { (b - E18) as f64 / 1e18 } else { -((E18 - b) as f64 / 1e18) };
            (ef * d.ln_1p()).exp()
        };
        ctx.obs("M01", &[1, if b >= E18 { 1 } else { 0 }, size(b.abs_diff(E18)), (e % E18 == 0) as u64, (e / E18) as u64, ((e % E18) * 8 / E18) as u64, size((e % E18).min(E18 - e % E18))]);
        ctx.count(if e % E18 == 0 { "pow_whole_exponent" } else if e < E18 { "pow_exponent_below_one" } else { "pow_exponent_above_one" });
        match got {
            Ok(v) => {
                let tol = pow_tol(bf, ef, truth);
                if (v - truth).abs() > tol {
                    ctx.flag(&["M01"], format!("{}^{} = {truth}, computed {v} (off by {:e}, allowed {tol:e})", dec_str(b), dec_str(e), (v - truth).abs()));
                }
                ctx.sample(&format!("pow_{}", (e / E18).min(3)), || format!("{}^{}: {v}, true value {truth}, off by {:e}, allowed {tol:e}", dec_str(b), dec_str(e), (v - truth).abs()));
            }
            Err(x) => {
                ctx.flag(&["M01"], format!("{}^{} refused: {x}", dec_str(b), dec_str(e)));
            }
        }
        // exponents zero and one
        for (e2, want) in [(0, 1.0), (E18, bf)] {
            let v = ibcx_math::pow(dec(b), dec(e2)).map_err(|x| x.to_string());
            let exact = if e2 == 0 { Decimal256::one() } else { dec(b) };
            if v != Ok(exact) {
                ctx.flag(&["M01"], format!("{}^{} = {want}, computed {v:?}", dec_str(b), dec_str(e2)));
            }
        }
        // consistent across exponents: b^(n+q) against b^n times b^q
        let n = r.range(1, 6) * E18;
        let q = e % E18;
        if let (Ok(x), Ok(y), Ok(z)) = (pow(b, n + q), pow(b, n), pow(b, q)) {
            let t = pow_tol(bf, (n + q) as f64 / 1e18, x) + pow_tol(bf, n as f64 / 1e18, y) * z + pow_tol(bf, q as f64 / 1e18, z) * y;
            if (x - y * z).abs() > t {
                ctx.flag(&["M01"], format!("{}^{} = {x} but ^{} times ^{} = {}", dec_str(b), dec_str(n + q), dec_str(n), dec_str(q), y * z));
            }
            ctx.obs("M01", &[2, n as u64, size(q), size(b.abs_diff(E18))]);
        }
        // outside of the domain
        let out = *r.pick(&[0u128, 2 * E18, 2 * E18 + 1, 3 * E18, 1000 * E18, u128::MAX]);
        let v = pow(out, e);
        ctx.obs("M01", &[3, size(out), size(e)]);
        ctx.count("pow_outside_of_domain");
        if let Ok(v) = v {
            ctx.flag(&["M01"], format!("{}^{} is outside of the domain, computed {v}", dec_str(out), dec_str(e)));
        } else if v == Err("panic".to_string()) {
            ctx.flag(&["M01"], format!("{}^{} panicked instead of being refused", dec_str(out), dec_str(e)));
        }
    }
}

struct Cf {
    bal: Vec<f64>,
    w: Vec<f64>,
    fee: f64,
}
impl Cf {
    /// (value, tolerance)
    fn out(&self, i: usize, o: usize, a: f64) -> (f64, f64) {
        let r = self.w[i] / self.w[o];
        let z = a * (1.0 - self.fee) / self.bal[i];
        let base = 1.0 / (1.0 + z);
        let v = self.bal[o] * -(-r * z.ln_1p()).exp_m1();
        // a unit of the input lost to rounding is worth up to the price at the start
        let price = self.bal[o] / self.bal[i] * r;
        (v, self.bal[o] * (pow_tol(base, r, base.powf(r)) + 1e-17 * (1.0 + r)) + 1.1 * price + 2.0 + v * 1e-12)
    }
    fn inn(&self, i: usize, o: usize, a: f64) -> (f64, f64) {
        let r = self.w[o] / self.w[i];
        let z = a / (self.bal[o] - a);
        let base = 1.0 + z;
        let p = r * z.ln_1p();
        let v = self.bal[i] * p.exp_m1() / (1.0 - self.fee);
        let price = self.bal[i] / (self.bal[o] - a) * r * base.powf(r) / (1.0 - self.fee);
        (v, self.bal[i] * (pow_tol(base, r, base.powf(r)) + 1e-17 * (1.0 + r) * base.powf(r)) / (1.0 - self.fee) + 1.1 * price + 2.0 + v * 1e-12)
    }
}

pub fn pool_history(ctx: &mut Ctx, mut r: Rng) {
    for _ in 0..6 {
        if ctx.broken {
            return;
        }
        let n = *r.pick(&[2usize, 2, 2, 3, 4]);
        let big = r.pct(20);
        let wt = |r: &mut Rng| match r.below(4) {
            0 => r.range(1, 100) * 1_073_741_824,
            1 => r.range(1, 1_000_000) * 1_073_741_824,
            _ => r.range(1, 10) * 1_073_741_824 * 1_000_000,
        };
        let mut names = vec!["aaa", "uosmo", "ibc/X", "zz"];
        for i in (1..4).rev() {
            let j = r.below(i as u64 + 1) as usize;
            names.swap(i, j);
        }
        let mut assets: Vec<(String, u128, u128)> = vec![];
        for nm in &names[..n] {
            let b = if big { r.range(1_000_000, 10u128.pow(27)) } else { 10u128.pow(r.below(9) as u32 + 5) * r.range(1, 9) + r.range(0, 99_999) };
            assets.push((nm.to_string(), b, wt(&mut r)));
        }
        // mostly ordinary ratios
        let most = if r.pct(15) { 2000 } else { 100 };
        let (mn, mx) = (assets.iter().map(|a| a.2).min().unwrap(), assets.iter().map(|a| a.2).max().unwrap());
        if mx / mn >= most {
            for a in assets.iter_mut() {
                a.2 = r.range(1, most - 1) * 1_073_741_824;
            }
        }
        let fee = *r.pick(&[0, E18 / 10_000, E18 / 1000 * 2, E18 / 1000 * 3, E18 / 100, E18 / 20, E18 / 2]);
        let p = Pool { id: 7, kind: Kind::Weighted, assets: assets.clone(), fee };
        let mut c = Chain::new(1);
        c.st.pools.insert(7, p.clone());
        let store = Store::default();
        let qr = ChainQuerier { c: &c };
        let deps = Deps { storage: &store, api: &ChainApi, querier: QuerierWrapper::new(&qr) };
        let pool = match ibcx_pool::query_pools(&deps, vec![7]) {
            Ok(v) if v.len() == 1 => v.into_iter().next().unwrap(),
            Ok(v) => {
                ctx.flag(&["M02"], format!("{} pools decoded from {p:?}", v.len()));
                return;
            }
            Err(e) => {
                ctx.flag(&["M02"], format!("pool {p:?} not decoded: {e}"));
                return;
            }
        };
        let sf = match pool.get_spread_factor() {
            Ok(s) => s,
            Err(e) => {
                ctx.flag(&["M02"], format!("no spread factor: {e}"));
                return;
            }
        };
        if sf.atomics().u128() != fee || pool.get_id() != 7 {
            ctx.flag(&["M02"], format!("pool 7 with fee {} read as {} with {sf}", dec_str(fee), pool.get_id()));
            return;
        }
        let num = |v: Result<Uint256, ibcx_pool::PoolError>| v.map_err(|e| e.to_string()).and_then(|v| v.to_string().parse::<u128>().map_err(|e| e.to_string()));
        let swap_in = |p: &mut Box<dyn ibcx_pool::OsmosisPool>, a: u128, i: &str, o: &str| -> Result<u128, String> {
            quiet(|| num(p.swap_exact_amount_in(&deps, coin(a, i), o.into(), Uint256::zero(), sf)))
        };
        let swap_out = |p: &mut Box<dyn ibcx_pool::OsmosisPool>, i: &str, a: u128, o: &str| -> Result<u128, String> {
            quiet(|| num(p.swap_exact_amount_out(&deps, i.into(), Uint256::from(u128::MAX), coin(a, o), sf)))
        };
        let mut state = pool.clone();
        let mut bal: Vec<u128> = assets.iter().map(|a| a.1).collect();
        for _ in 0..r.urange(2, 8) {
            if ctx.broken {
                return;
            }
            let i = r.below(n as u64) as usize;
            let o = (i + 1 + r.below(n as u64 - 1) as usize) % n;
            let (di, d_o) = (assets[i].0.clone(), assets[o].0.clone());
            let cf = Cf { bal: bal.iter().map(|b| *b as f64).collect(), w: assets.iter().map(|a| a.2 as f64).collect(), fee: fee as f64 / 1e18 };
            let show = || format!("pool {:?} fee {}", assets.iter().zip(&bal).map(|(a, b)| (a.0.clone(), *b, a.2)).collect::<Vec<_>>(), dec_str(fee));
            let tiny = bal.iter().any(|b| *b < 1000);
            if tiny {
                break;
            }
            if r.pct(50) {
                let cap = match r.below(4) {
                    0 => bal[i].saturating_mul(10),
                    1 => bal[i] / 1000 + 1,
                    _ => bal[i] / 3 + 1,
                };
                let a = r.logu(cap).max(1);
                let (v, tol) = cf.out(i, o, a as f64);
                let got = swap_in(&mut state.clone(), a, &di, &d_o);
                ctx.obs("M02", &[1, size(a), size(bal[i]), size(bal[o]), (assets[i].2 / assets[o].2) as u64, (assets[i].2 % assets[o].2 == 0) as u64, size(fee)]);
                ctx.count("pool_out_given_in");
                ctx.log(|| format!("{}: {a}{di} in for {d_o}: {got:?}, expected {v} within {tol}", show()));
                let x = match got {
                    Ok(x) => x,
                    Err(_) if v < tol => {
                        // an input worth nothing may be refused
                        ctx.count("pool_dust_refused");
                        continue;
                    }
                    Err(e) => {
                        ctx.flag(&["M02"], format!("{}: {a}{di} for {d_o} refused: {e}", show()));
                        return;
                    }
                };
                ctx.sample(&format!("out_{}", size(a)), || format!("{}: {a}{di} buys {x}{d_o}, invariant {v}, tolerance {tol}", show()));
                if (x as f64 - v).abs() > tol {
                    ctx.flag(&["M02"], format!("{}: {a}{di} buys {x}{d_o}, the invariant gives {v}, tolerance {tol}", show()));
                    return;
                }
                if x > bal[o] {
                    ctx.flag(&["M02"], format!("{}: {a}{di} pays out {x}{d_o}", show()));
                    return;
                }
                // monotone
                let a2 = a + r.logu(a).max(1);
                if let Ok(x2) = swap_in(&mut state.clone(), a2, &di, &d_o) {
                    if (x2 as f64) + tol + cf.out(i, o, a2 as f64).1 < x as f64 || x2 > bal[o] {
                        ctx.flag(&["M02"], format!("{}: {a}{di} buys {x} but {a2} only {x2}", show()));
                        return;
                    }
                    ctx.count("pool_monotone");
                }
                // there and back on the same pool
                let mut p2 = state.clone();
                let _ = swap_in(&mut p2, a, &di, &d_o);
                if x > 0 {
                    if let Ok(back) = swap_in(&mut p2, x, &d_o, &di) {
                        let mut b2 = cf.bal.clone();
                        b2[i] += a as f64;
                        b2[o] -= x as f64;
                        let cf2 = Cf { bal: b2, w: cf.w.clone(), fee: cf.fee };
                        let (vb, tb) = if cf2.bal[o] > 0.0 { cf2.out(o, i, x as f64) } else { (a as f64, f64::MAX) };
                        let price = vb / x as f64;
                        ctx.obs("M02", &[2, size(a), size(x), size(fee)]);
                        ctx.count("pool_there_and_back");
                        if back as f64 > a as f64 + tb + tol * price * 2.0 {
                            ctx.flag(&["M02"], format!("{}: {a}{di} there and back returns {back}", show()));
                            return;
                        }
                    }
                    // buying exactly that much costs no less
                    if let Ok(cost) = swap_out(&mut state.clone(), &di, x, &d_o) {
                        let (v3, t3) = cf.inn(i, o, x as f64);
                        let up = cf.out(i, o, a as f64).1 * v3 / x as f64;
                        if (cost as f64 - a as f64).abs() > t3 + 4.0 * up + 4.0 * a as f64 / x as f64 + 4.0 && x > 1000 && (x as f64) < 0.4 * cf.bal[o] {
                            ctx.flag(&["M02"], format!("{}: {a}{di} buys {x}{d_o}, which costs {cost}, invariant {v3} tolerance {t3}", show()));
                            return;
                        }
                    }
                }
                let r2 = swap_in(&mut state, a, &di, &d_o);
                if r2 != Ok(x) {
                    ctx.flag(&["M02"], format!("{}: {a}{di} bought {x}, the second time {r2:?}", show()));
                    return;
                }
                bal[i] += a;
                bal[o] -= x;
            } else {
                let over = r.pct(8);
                let a = if over { bal[o] + r.logu(bal[o]) } else { r.logu(bal[o] * 45 / 100).max(1) };
                let got = swap_out(&mut state.clone(), &di, a, &d_o);
                if over {
                    ctx.obs("M02", &[3, size(a), size(bal[o])]);
                    ctx.count("pool_overdrawn");
                    if let Ok(x) = got {
                        ctx.flag(&["M02"], format!("{}: {a}{d_o} sold for {x}{di}", show()));
                        return;
                    }
                    continue;
                }
                let (v, tol) = cf.inn(i, o, a as f64);
                ctx.obs("M02", &[4, size(a), size(bal[i]), size(bal[o]), (assets[i].2 / assets[o].2) as u64, (assets[i].2 % assets[o].2 == 0) as u64, size(fee)]);
                ctx.count("pool_in_given_out");
                ctx.log(|| format!("{}: {d_o} {a} out for {di}: {got:?}, expected {v} within {tol}", show()));
                let x = match got {
                    Ok(x) => x,
                    Err(_) if v < tol => {
                        ctx.count("pool_dust_refused");
                        continue;
                    }
                    Err(e) if v > 1e38 => {
                        let _ = e;
                        continue;
                    }
                    Err(e) => {
                        ctx.flag(&["M02"], format!("{}: {a}{d_o} for {di} refused: {e}", show()));
                        return;
                    }
                };
                ctx.sample(&format!("in_{}", size(a)), || format!("{}: {a}{d_o} cost {x}{di}, invariant {v}, tolerance {tol}", show()));
                if (x as f64 - v).abs() > tol {
                    ctx.flag(&["M02"], format!("{}: {a}{d_o} costs {x}{di}, the invariant gives {v}, tolerance {tol}", show()));
                    return;
                }
                let a2 = a + r.logu(a).max(1);
                if a2 < bal[o] * 48 / 100 {
                    if let Ok(x2) = swap_out(&mut state.clone(), &di, a2, &d_o) {
                        if (x2 as f64) + tol + cf.inn(i, o, a2 as f64).1 < x as f64 {
                            ctx.flag(&["M02"], format!("{}: {a}{d_o} costs {x} but {a2} only {x2}", show()));
                            return;
                        }
                        ctx.count("pool_monotone");
                    }
                }
                // there and back: sell what was bought
                let mut p2 = state.clone();
                let _ = swap_out(&mut p2, &di, a, &d_o);
                if let Ok(back) = swap_in(&mut p2, a, &d_o, &di) {
                    let mut b2 = cf.bal.clone();
                    b2[i] += x as f64;
                    b2[o] -= a as f64;
                    let cf2 = Cf { bal: b2, w: cf.w.clone(), fee: cf.fee };
                    let tb = cf2.out(o, i, a as f64).1;
                    ctx.obs("M02", &[5, size(a), size(x), size(fee)]);
                    ctx.count("pool_there_and_back");
                    if back as f64 > x as f64 + tb + tol {
                        ctx.flag(&["M02"], format!("{}: {x}{di} there and back returns {back}", show()));
                        return;
                    }
                }
                if x.checked_add(bal[i]).is_none() {
                    break;
                }
                let r2 = swap_out(&mut state, &di, a, &d_o);
                if r2 != Ok(x) {
                    ctx.flag(&["M02"], format!("{}: {a}{d_o} cost {x}, the second time {r2:?}", show()));
                    return;
                }
                bal[i] += x;
                bal[o] -= a;
            }
        }
    }
}
