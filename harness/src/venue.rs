//! The swap venue of the simulated chain: an implementation of its own of what the Osmosis pool
//! manager does. Weighted pools follow the published Osmosis math on 18-digit signed decimals with
//! banker's rounding; concentrated pools are modelled as constant product on virtual reserves,
//! stable pools as a fixed price. Nothing here calls the code under test.
use crate::util::*;
use cosmwasm_std::{Uint256, Uint512};

/// magnitude of an 18-digit decimal with sign
#[derive(Clone, Copy, Debug)]
pub struct D(pub Uint512, pub bool);

fn w(v: u128) -> Uint512 {
    Uint512::from(v)
}
fn round_half_even(num: Uint512, den: Uint512) -> Uint512 {
    let q = num / den;
    let r = num - q * den;
    let two_r = r + r;
    if two_r > den {
        q + Uint512::one()
    } else if two_r < den {
        q
    } else if (q % w(2)).is_zero() {
        q
    } else {
        q + Uint512::one()
    }
}
impl D {
    pub fn int(v: u128) -> D {
        D(w(v) * w(E18), false)
    }
    pub fn at(v: u128) -> D {
        D(w(v), false)
    }
    pub fn zero() -> D {
        D(Uint512::zero(), false)
    }
    pub fn add(self, o: D) -> D {
        if self.1 == o.1 {
            D(self.0 + o.0, self.1)
        } else if self.0 >= o.0 {
            D(self.0 - o.0, self.1)
        } else {
            D(o.0 - self.0, o.1)
        }
    }
    pub fn neg(self) -> D {
        D(self.0, !self.1)
    }
    pub fn sub(self, o: D) -> D {
        self.add(o.neg())
    }
    pub fn mul(self, o: D) -> D {
        D(round_half_even(self.0 * o.0, w(E18)), self.1 != o.1)
    }
    pub fn quo(self, o: D) -> D {
        let n = self.0 * w(E18) * w(E18) / o.0;
        D(round_half_even(n, w(E18)), self.1 != o.1)
    }
    pub fn is_neg(self) -> bool {
        self.1 && !self.0.is_zero()
    }
    pub fn floor(self) -> Option<u128> {
        if self.is_neg() {
            return None;
        }
        (self.0 / w(E18)).to_string().parse().ok()
    }
    pub fn ceil(self) -> Option<u128> {
        if self.is_neg() {
            return None;
        }
        let q = self.0 / w(E18);
        let q = if q * w(E18) == self.0 { q } else { q + Uint512::one() };
        q.to_string().parse().ok()
    }
}

/// osmomath.Pow
pub fn osmo_pow(base: D, exp: D) -> Result<D, String> {
    if base.0.is_zero() || base.is_neg() {
        return Err("base must be positive".into());
    }
    if base.0 >= w(2 * E18) {
        return Err("base must be lesser than two".into());
    }
    let n = exp.0 / w(E18);
    let frac = D(exp.0 - n * w(E18), false);
    let n: u64 = n.to_string().parse().map_err(|_| "exp".to_string())?;
    let int_pow = if n == 0 {
        D::int(1)
    } else {
        let (mut d, mut tmp, mut i) = (base, D::int(1), n);
        while i > 1 {
            if i % 2 != 0 {
                tmp = tmp.mul(d);
            }
            i /= 2;
            d = d.mul(d);
        }
        d.mul(tmp)
    };
    if frac.0.is_zero() {
        return Ok(int_pow);
    }
    // PowApprox with precision 1e-8
    let prec = w(10_000_000_000);
    let x = base.sub(D::int(1));
    let (mut term, mut sum) = (D::int(1), D::int(1));
    let mut i = 1u128;
    while term.0 >= prec {
        let c = frac.sub(D::int(i - 1));
        term = term.mul(c).mul(x).quo(D::int(i));
        if term.0.is_zero() {
            break;
        }
        sum = sum.add(term);
        i += 1;
        if i > 150_000 {
            return Err("pow iteration limit".into());
        }
    }
    Ok(int_pow.mul(sum))
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Weighted,
    Cl,
    Stable,
    /// exact price, no fee, unknown type to the contracts; price = num/den units of assets[1] per assets[0]
    Fixed(u128, u128),
}

#[derive(Clone, Debug)]
pub struct Pool {
    pub id: u64,
    pub kind: Kind,
    /// (denom, balance, weight)
    pub assets: Vec<(String, u128, u128)>,
    /// spread factor, 1e-18
    pub fee: u128,
}

impl Pool {
    pub fn has(&self, d: &str) -> bool {
        self.assets.iter().any(|a| a.0 == d)
    }
    pub fn idx(&self, d: &str) -> Result<usize, String> {
        self.assets.iter().position(|a| a.0 == d).ok_or_else(|| format!("pool {}: no {d}", self.id))
    }
    fn price(&self, i: usize) -> (u128, u128) {
        match self.kind {
            Kind::Fixed(n, d) => {
                if i == 0 {
                    (n, d)
                } else {
                    (d, n)
                }
            }
            _ => (1, 1),
        }
    }

    pub fn calc_out(&self, din: &str, ain: u128, dout: &str) -> Result<u128, String> {
        let (i, o) = (self.idx(din)?, self.idx(dout)?);
        if i == o {
            return Err("cannot trade the same denomination in and out".into());
        }
        let (bi, bo) = (self.assets[i].1, self.assets[o].1);
        let keep = E18 - self.fee;
        let out = match self.kind {
            Kind::Weighted => {
                let inn = D::int(ain).mul(D::at(keep));
                let y = D::int(bi).quo(D::int(bi).add(inn));
                let p = osmo_pow(y, D::int(self.assets[i].2).quo(D::int(self.assets[o].2)))?;
                let par = D::int(1).sub(p);
                if par.is_neg() {
                    return Err("negative out".into());
                }
                D::int(bo).mul(par).floor().ok_or("neg")?
            }
            Kind::Cl => {
                let inn = dmul(keep, ain);
                muldiv(bo, inn, bi + inn).ok_or("ovf")?
            }
            Kind::Stable | Kind::Fixed(..) => {
                let inn = dmul(keep, ain);
                let (n, d) = self.price(i);
                muldiv(inn, n, d).ok_or("ovf")?
            }
        };
        if out >= bo && bo > 0 && out > 0 {
            return Err("insufficient liquidity".into());
        }
        Ok(out)
    }

    pub fn calc_in(&self, din: &str, dout: &str, aout: u128) -> Result<u128, String> {
        let (i, o) = (self.idx(din)?, self.idx(dout)?);
        if i == o {
            return Err("cannot trade the same denomination in and out".into());
        }
        let (bi, bo) = (self.assets[i].1, self.assets[o].1);
        if aout >= bo {
            return Err("insufficient liquidity".into());
        }
        let keep = E18 - self.fee;
        Ok(match self.kind {
            Kind::Weighted => {
                let y = D::int(bo).quo(D::int(bo - aout));
                let p = osmo_pow(y, D::int(self.assets[o].2).quo(D::int(self.assets[i].2)))?;
                let par = p.sub(D::int(1));
                if par.is_neg() {
                    return Err("negative in".into());
                }
                D::int(bi).mul(par).quo(D::at(keep)).ceil().ok_or("neg")?
            }
            Kind::Cl => {
                let inn = muldiv_up(bi, aout, bo - aout).ok_or("ovf")?;
                muldiv_up(inn, E18, keep).ok_or("ovf")?
            }
            Kind::Stable | Kind::Fixed(..) => {
                let (n, d) = self.price(i);
                let inn = muldiv_up(aout, d, n).ok_or("ovf")?;
                muldiv_up(inn, E18, keep).ok_or("ovf")?
            }
        })
    }

    pub fn apply(&mut self, din: &str, ain: u128, dout: &str, aout: u128) -> Result<(), String> {
        let (i, o) = (self.idx(din)?, self.idx(dout)?);
        self.assets[i].1 = self.assets[i].1.checked_add(ain).ok_or("pool overflow")?;
        self.assets[o].1 = self.assets[o].1.checked_sub(aout).ok_or("pool drained")?;
        Ok(())
    }

    pub fn json(&self) -> String {
        let fee = dec_str(self.fee);
        let addr = format!("osmo1pool{}", self.id);
        match self.kind {
            Kind::Weighted => {
                let assets: Vec<String> = self
                    .assets
                    .iter()
                    .map(|(d, b, wt)| {
                        format!("{{\"token\":{{\"denom\":\"{d}\",\"amount\":\"{b}\"}},\"weight\":\"{wt}\"}}")
                    })
                    .collect();
                let tw: u128 = self.assets.iter().map(|a| a.2).sum();
                format!("{{\"pool\":{{\"@type\":\"/osmosis.gamm.v1beta1.Pool\",\"address\":\"{addr}\",\"id\":\"{}\",\"pool_params\":{{\"swap_fee\":\"{fee}\",\"exit_fee\":\"0\",\"smooth_weight_change_params\":null}},\"future_pool_governor\":\"\",\"total_shares\":{{\"denom\":\"gamm/pool/{}\",\"amount\":\"100000000\"}},\"pool_assets\":[{}],\"total_weight\":\"{tw}\"}}}}", self.id, self.id, assets.join(","))
            }
            Kind::Stable => {
                let l: Vec<String> =
                    self.assets.iter().map(|(d, b, _)| format!("{{\"denom\":\"{d}\",\"amount\":\"{b}\"}}")).collect();
                let sf: Vec<String> = self.assets.iter().map(|_| "1".to_string()).collect();
                format!("{{\"pool\":{{\"@type\":\"/osmosis.gamm.poolmodels.stableswap.v1beta1.Pool\",\"address\":\"{addr}\",\"id\":\"{}\",\"pool_params\":{{\"swap_fee\":\"{fee}\",\"exit_fee\":\"0\"}},\"future_pool_governor\":\"\",\"total_shares\":{{\"denom\":\"gamm/pool/{}\",\"amount\":\"100000000\"}},\"pool_liquidity\":[{}],\"scaling_factors\":[{}],\"scaling_factor_controller\":\"\"}}}}", self.id, self.id, l.join(","), sf.join(","))
            }
            Kind::Cl => format!("{{\"pool\":{{\"@type\":\"/osmosis.concentratedliquidity.v1beta1.Pool\",\"address\":\"{addr}\",\"incentives_address\":\"{addr}\",\"spread_rewards_address\":\"{addr}\",\"id\":\"{}\",\"current_tick_liquidity\":\"1000000.0\",\"token0\":\"{}\",\"token1\":\"{}\",\"current_sqrt_price\":\"1.0\",\"current_tick\":\"0\",\"tick_spacing\":\"100\",\"exponent_at_price_one\":\"-6\",\"spread_factor\":\"{fee}\",\"last_liquidity_update\":\"2023-01-01T00:00:00Z\"}}}}", self.id, self.assets[0].0, self.assets[1].0),
            Kind::Fixed(..) => format!("{{\"pool\":{{\"@type\":\"/osmosis.cosmwasmpool.v1beta1.CosmWasmPool\",\"pool_id\":\"{}\"}}}}", self.id),
        }
    }
}

pub type Pools = std::collections::BTreeMap<u64, Pool>;

fn pool<'a>(p: &'a mut Pools, id: u64) -> Result<&'a mut Pool, String> {
    p.get_mut(&id).ok_or_else(|| format!("pool {id} does not exist"))
}

/// v moved by s 1e-4 of itself, away from v in either direction rounded up against the trader
fn skewed(v: u128, s: i128) -> u128 {
    let m = muldiv(v, s.unsigned_abs(), 10_000).unwrap_or(0);
    let up = muldiv_up(v, s.unsigned_abs(), 10_000).unwrap_or(0);
    if s >= 0 {
        v + if s > 0 { up } else { m }
    } else {
        v - up.min(v)
    }
}

/// route: (pool, token out denom) hop by hop; `skew` worsens every hop by that many 1e-4
pub fn swap_in(
    p: &mut Pools,
    din: &str,
    ain: u128,
    route: &[(u64, String)],
    skew: i128,
) -> Result<(String, u128), String> {
    if route.is_empty() {
        return Err("empty route".into());
    }
    let (mut d, mut a) = (din.to_string(), ain);
    for (id, dout) in route {
        let po = pool(p, *id)?;
        let out = po.calc_out(&d, a, dout)?;
        let out = skewed(out, -skew);
        let out = if po.idx(dout).map(|o| po.assets[o].1 > 0 && out >= po.assets[o].1).unwrap_or(false) { po.assets[po.idx(dout)?].1 - 1 } else { out };
        po.apply(&d, a, dout, out)?;
        d = dout.clone();
        a = out;
    }
    Ok((d, a))
}

/// route: (pool, token in denom) hop by hop, first hop first; returns (token in denom, amount in)
pub fn swap_out(
    p: &mut Pools,
    route: &[(u64, String)],
    dout: &str,
    aout: u128,
    skew: i128,
    lenient: bool,
) -> Result<(String, u128), String> {
    if route.is_empty() {
        return Err("empty route".into());
    }
    let mut route: Vec<(u64, String)> = route.to_vec();
    if lenient && route.len() == 1 && route[0].1 == dout {
        // The core contract names the reserve denom as input of a deflation's single hop (see
        // DESIGN.md, known findings); resolve it to the pool's other asset.
        let po = pool(p, route[0].0)?;
        if po.assets.len() == 2 {
            let o = po.idx(dout)?;
            route[0].1 = po.assets[1 - o].0.clone();
        }
    }
    let (mut d, mut a) = (dout.to_string(), aout);
    for (id, din) in route.iter().rev() {
        let po = pool(p, *id)?;
        let inn = po.calc_in(din, &d, a)?;
        let inn = skewed(inn, skew).max(u128::from(inn > 0));
        po.apply(din, inn, &d, a)?;
        d = din.clone();
        a = inn;
    }
    Ok((d, a))
}

#[allow(dead_code)]
pub fn _u(v: u128) -> Uint256 {
    u256(v)
}
