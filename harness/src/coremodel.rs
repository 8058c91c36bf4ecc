//! Reference semantics of the core contract, written from its specification (properties.jsonl):
//! what one transaction must do to the portfolio, the fees, the registry and the bank balances.
use std::collections::BTreeMap;

use cosmwasm_std::{Decimal, Uint128};
use serde_json::{json, Value};

use crate::util::*;
use crate::venue::{self, Pools};

pub type Map = BTreeMap<String, u128>;
pub type Diff = BTreeMap<(String, String), i128>;

#[derive(Clone, Debug, PartialEq)]
pub struct Stream {
    pub rate: u128,
    pub freeze: bool,
    pub last: u64,
    pub collected: Map,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Reb {
    pub manager: Option<String>,
    pub defl: Vec<(String, u128)>,
    pub infl: Vec<(String, u128)>,
    pub reserve: Map,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Info {
    pub routes: Vec<(u64, String)>,
    pub cooldown: u64,
    pub max: u128,
    pub last: Option<u64>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct M {
    pub core: String,
    pub gov: String,
    pub pending: Option<String>,
    pub pause: Option<Option<u64>>,
    pub index: String,
    pub reserve_denom: String,
    pub collector: String,
    pub mint_fee: Option<u128>,
    pub burn_fee: Option<u128>,
    pub stream: Option<Stream>,
    pub units: Map,
    pub supply: u128,
    pub reb: Option<Reb>,
    pub infos: BTreeMap<(String, String), Info>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Why {
    Paused,
    Rebalancing,
    NotRebalancing,
    MintFunds,
    MintZero,
    BurnFunds,
    NotCollector,
    NotGov,
    NotManager,
    NotSuccessor,
    PendingExists,
    NoPending,
    PauseState,
    PauseExpiry,
    FeeBounds,
    BadPlan,
    NotDone,
    NoInfo,
    NotInPlan,
    Cooldown,
    MaxTrade,
    Gap,
    Slippage,
    Skew,
    Venue,
    BadAddr,
    RateOver,
    NoSupply,
    Misc,
}

impl Why {
    /// properties that are broken when a transaction that must fail for this reason succeeds
    pub fn tags(self) -> &'static [&'static str] {
        use Why::*;
        match self {
            Paused => &["C09"],
            Rebalancing => &["C11"],
            NotRebalancing => &["C11"],
            MintFunds => &["C02", "C05", "C01"],
            MintZero => &["C02"],
            BurnFunds => &["C03"],
            NotCollector => &["C07"],
            NotGov => &["C10", "C11", "C14", "C15"],
            NotManager => &["C11", "C12"],
            NotSuccessor | PendingExists | NoPending => &["C10"],
            PauseState | PauseExpiry => &["C09"],
            FeeBounds => &["C14"],
            BadPlan | NotDone => &["C11"],
            NoInfo | NotInPlan | Cooldown | MaxTrade | Gap | Slippage | Skew => &["C12"],
            Venue | BadAddr | RateOver | NoSupply | Misc => &[],
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Mint { who: String, amount: u128, receiver: Option<String>, refund: Option<String>, funds: Coins },
    Burn { who: String, funds: Coins, redeem: Option<String> },
    Realize { who: String },
    Pause { who: String, exp: Option<u64> },
    Release { who: String },
    UpdateGov { who: String, new: String },
    AcceptGov { who: String },
    RevokeGov { who: String },
    UpdateFee { who: String, collector: String, mint: Option<u128>, burn: Option<u128>, stream: Option<(u128, bool)> },
    UpdateManager { who: String, new: Option<String> },
    UpdateReserve { who: String, denom: String },
    UpdateInfo { who: String, denom: String, routes: Vec<(u64, String)>, cooldown: u64, max: u128 },
    Init { who: String, manager: Option<String>, defl: Vec<(String, u128)>, infl: Vec<(String, u128)> },
    Deflate { who: String, denom: String, out: u128, max_in: u128 },
    Inflate { who: String, denom: String, ain: u128, min: u128 },
    Finalize { who: String },
}

pub fn units_json(v: &[(String, u128)]) -> Value {
    Value::Array(v.iter().map(|(d, u)| json!([d, dec_str(*u)])).collect())
}
pub fn opt_dec(v: Option<u128>) -> Value {
    v.map(|v| Value::String(dec_str(v))).unwrap_or(Value::Null)
}
pub fn routes_json(v: &[(u64, String)]) -> Value {
    Value::Array(v.iter().map(|(p, d)| json!({"pool_id": p, "token_denom": d})).collect())
}
pub fn fee_json(
    collector: &str,
    mint: Option<u128>,
    burn: Option<u128>,
    stream: Option<(u128, bool)>,
) -> Value {
    json!({"collector": collector, "mint_fee": opt_dec(mint), "burn_fee": opt_dec(burn),
        "streaming_fee": stream.map(|(r, f)| json!({"rate": dec_str(r), "freeze": f})).unwrap_or(Value::Null)})
}

impl Op {
    pub fn who(&self) -> &str {
        use Op::*;
        match self {
            Mint { who, .. } | Burn { who, .. } | Realize { who } | Pause { who, .. } | Release { who }
            | UpdateGov { who, .. } | AcceptGov { who } | RevokeGov { who } | UpdateFee { who, .. }
            | UpdateManager { who, .. } | UpdateReserve { who, .. } | UpdateInfo { who, .. }
            | Init { who, .. } | Deflate { who, .. } | Inflate { who, .. } | Finalize { who } => who,
        }
    }
    pub fn name(&self) -> &'static str {
        use Op::*;
        match self {
            Mint { .. } => "mint",
            Burn { .. } => "burn",
            Realize { .. } => "realize",
            Pause { .. } => "pause",
            Release { .. } => "release",
            UpdateGov { .. } => "update_gov",
            AcceptGov { .. } => "accept_gov",
            RevokeGov { .. } => "revoke_gov",
            UpdateFee { .. } => "update_fee",
            UpdateManager { .. } => "update_manager",
            UpdateReserve { .. } => "update_reserve",
            UpdateInfo { .. } => "update_info",
            Init { .. } => "init",
            Deflate { .. } => "deflate",
            Inflate { .. } => "inflate",
            Finalize { .. } => "finalize",
        }
    }
    pub fn funds(&self) -> Coins {
        match self {
            Op::Mint { funds, .. } | Op::Burn { funds, .. } => funds.clone(),
            _ => vec![],
        }
    }
    pub fn json(&self) -> Value {
        use Op::*;
        match self {
            Mint { amount, receiver, refund, .. } => {
                json!({"mint": {"amount": amount.to_string(), "receiver": receiver, "refund_to": refund}})
            }
            Burn { redeem, .. } => json!({"burn": {"redeem_to": redeem}}),
            Realize { .. } => json!({"realize": {}}),
            Pause { exp, .. } => json!({"gov": {"pause": {"expires_at": exp}}}),
            Release { .. } => json!({"gov": {"release": {}}}),
            UpdateGov { new, .. } => json!({"gov": {"update_gov": new}}),
            AcceptGov { .. } => json!({"gov": {"accept_gov": {}}}),
            RevokeGov { .. } => json!({"gov": {"revoke_gov": {}}}),
            UpdateFee { collector, mint, burn, stream, .. } => {
                json!({"gov": {"update_fee_strategy": fee_json(collector, *mint, *burn, *stream)}})
            }
            UpdateManager { new, .. } => json!({"gov": {"update_rebalance_manager": new}}),
            UpdateReserve { denom, .. } => json!({"gov": {"update_reserve_denom": denom}}),
            UpdateInfo { denom, routes, cooldown, max, .. } => json!({"gov": {"update_trade_info": {
                "denom": denom, "routes": routes_json(routes), "cooldown": cooldown,
                "max_trade_amount": max.to_string()}}}),
            Init { manager, defl, infl, .. } => json!({"rebalance": {"init": {"manager": manager,
                "deflation": units_json(defl), "inflation": units_json(infl)}}}),
            Deflate { denom, out, max_in, .. } => json!({"rebalance": {"trade": {"deflate": {
                "target_denom": denom, "amount_out": out.to_string(), "max_amount_in": max_in.to_string()}}}}),
            Inflate { denom, ain, min, .. } => json!({"rebalance": {"trade": {"inflate": {
                "target_denom": denom, "amount_in": ain.to_string(), "min_amount_out": min.to_string()}}}}),
            Finalize { .. } => json!({"rebalance": {"finalize": {}}}),
        }
    }
    /// properties that promise this operation goes through when nothing in the model forbids it
    pub fn live_tags(&self) -> &'static [&'static str] {
        use Op::*;
        match self {
            Mint { .. } => &["C02"],
            Burn { .. } => &["C03", "C01"],
            Realize { .. } => &["C07", "C01"],
            Pause { .. } | Release { .. } => &["C09"],
            UpdateGov { .. } | AcceptGov { .. } | RevokeGov { .. } => &["C10"],
            UpdateFee { .. } => &["C14"],
            UpdateManager { .. } | UpdateReserve { .. } => &["C11", "C10"],
            UpdateInfo { .. } => &["C15"],
            Init { .. } => &["C11"],
            Deflate { .. } | Inflate { .. } => &["C12", "C13", "C16"],
            Finalize { .. } => &["C11", "C16"],
        }
    }
}

fn add(d: &mut Diff, a: &str, den: &str, v: i128) {
    let e = d.entry((a.to_string(), den.to_string())).or_insert(0);
    *e += v;
    if *e == 0 {
        d.remove(&(a.to_string(), den.to_string()));
    }
}

/// atomics of (1+rate)^dt - 1
pub fn factor(rate: u128, dt: u64) -> Option<u128> {
    let b = Decimal::new(Uint128::new(E18 + rate));
    let p = b.checked_pow(u32::try_from(dt).ok()?).ok()?;
    Some(p.atomics().u128() - E18)
}

pub fn mint_fee(rate: Option<u128>, amount: u128) -> Option<u128> {
    rate.map(|r| dmul(r, amount).max(1))
}
pub fn burn_fee(rate: Option<u128>, amount: u128) -> Option<u128> {
    rate.map(|r| dmul(r, amount))
}
pub fn rate_ok(r: Option<u128>) -> bool {
    r.is_none_or(|r| 0 < r && r < E18)
}
pub const MAX_STREAM: u128 = 21_979_553_000; // 0.000000021979553

pub fn has_dup(v: &[(String, u128)]) -> bool {
    let mut s = std::collections::BTreeSet::new();
    !v.iter().all(|x| s.insert(x.0.clone()))
}

impl M {
    pub fn paused(&self, t: u64) -> bool {
        match self.pause {
            None => false,
            Some(None) => true,
            Some(Some(e)) => t < e,
        }
    }

    /// streaming accrual up to t
    pub fn collect(&mut self, t: u64) -> Result<(), Why> {
        let Some(s) = self.stream.as_mut() else { return Ok(()) };
        let dt = t.checked_sub(s.last).ok_or(Why::Misc)?;
        if s.freeze || dt == 0 {
            return Ok(());
        }
        let f = factor(s.rate, dt).ok_or(Why::RateOver)?;
        for (d, u) in self.units.iter_mut() {
            let fee = muldiv(*u, f, E18).ok_or(Why::RateOver)?;
            if fee > *u {
                return Err(Why::RateOver);
            }
            *u -= fee;
            *s.collected.entry(d.clone()).or_default() += dmul(fee, self.supply);
        }
        s.last = t;
        Ok(())
    }

    pub fn required(&self, amount: u128) -> Map {
        self.units.iter().map(|(d, u)| (d.clone(), dmul_up(*u, amount).max(1))).collect()
    }
    pub fn redeemable(&self, amount: u128) -> Map {
        self.units.iter().map(|(d, u)| (d.clone(), dmul(*u, amount))).collect()
    }

    pub fn trade_key(routes: &[(u64, String)]) -> Option<String> {
        routes.last().map(|r| r.1.clone())
    }

    /// What must this transaction do at time t against these pools? Ok: the bank differences.
    pub fn apply(&mut self, op: &Op, t: u64, pools: &Pools, skew: i128, lenient: bool) -> Result<Diff, Why> {
        let mut next = self.clone();
        let d = next.apply_inner(op, t, pools, skew, lenient)?;
        *self = next;
        Ok(d)
    }

    fn gov_only(&self, who: &str) -> Result<(), Why> {
        if who == self.gov {
            Ok(())
        } else {
            Err(Why::NotGov)
        }
    }

    fn apply_inner(&mut self, op: &Op, t: u64, pools: &Pools, skew: i128, lenient: bool) -> Result<Diff, Why> {
        use crate::chain::valid_addr;
        let mut d = Diff::new();
        let core = self.core.clone();
        let idx = self.index.clone();
        match op {
            Op::Mint { who, amount, receiver, refund, funds } => {
                if self.paused(t) {
                    return Err(Why::Paused);
                }
                if self.reb.is_some() {
                    return Err(Why::Rebalancing);
                }
                for a in [receiver, refund].into_iter().flatten() {
                    if !valid_addr(a) {
                        return Err(Why::BadAddr);
                    }
                }
                self.collect(t)?;
                let receiver = receiver.as_ref().unwrap_or(who);
                let refund = refund.as_ref().unwrap_or(who);
                let req = self.required(*amount);
                for (den, need) in &req {
                    let have = funds.iter().find(|f| &f.0 == den).map(|f| f.1).unwrap_or(0);
                    if have < *need {
                        return Err(Why::MintFunds);
                    }
                }
                if funds.iter().any(|f| !req.contains_key(&f.0)) {
                    return Err(Why::MintFunds);
                }
                let fee = mint_fee(self.mint_fee, *amount);
                if *amount == 0 || fee.unwrap_or(0) > *amount {
                    return Err(Why::MintZero);
                }
                for (den, v) in funds {
                    let back = v - req[den];
                    add(&mut d, who, den, -(*v as i128));
                    add(&mut d, &core, den, req[den] as i128);
                    add(&mut d, refund, den, back as i128);
                }
                let fee = fee.unwrap_or(0);
                add(&mut d, &self.collector, &idx, fee as i128);
                add(&mut d, receiver, &idx, (amount - fee) as i128);
                self.supply += amount;
            }
            Op::Burn { who, funds, redeem } => {
                if self.paused(t) {
                    return Err(Why::Paused);
                }
                if self.reb.is_some() {
                    return Err(Why::Rebalancing);
                }
                if redeem.as_ref().is_some_and(|a| !valid_addr(a)) {
                    return Err(Why::BadAddr);
                }
                self.collect(t)?;
                if funds.len() != 1 || funds[0].0 != idx {
                    return Err(Why::BurnFunds);
                }
                let got = funds[0].1;
                let fee = burn_fee(self.burn_fee, got).unwrap_or(0);
                let burn = got - fee;
                let to = redeem.as_ref().unwrap_or(who);
                add(&mut d, who, &idx, -(got as i128));
                add(&mut d, &self.collector, &idx, fee as i128);
                for (den, v) in self.redeemable(burn) {
                    add(&mut d, &core, &den, -(v as i128));
                    add(&mut d, to, &den, v as i128);
                }
                self.supply -= burn;
            }
            Op::Realize { who } => {
                if *who != self.collector {
                    return Err(Why::NotCollector);
                }
                self.collect(t)?;
                if let Some(s) = self.stream.as_mut() {
                    for (den, v) in std::mem::take(&mut s.collected) {
                        add(&mut d, &core, &den, -(v as i128));
                        add(&mut d, &self.collector, &den, v as i128);
                    }
                }
            }
            Op::Pause { who, exp } => {
                self.gov_only(who)?;
                if self.paused(t) {
                    return Err(Why::PauseState);
                }
                if exp.is_some_and(|e| e <= t) {
                    return Err(Why::PauseExpiry);
                }
                self.pause = Some(*exp);
            }
            Op::Release { who } => {
                self.gov_only(who)?;
                if !self.paused(t) {
                    return Err(Why::PauseState);
                }
                self.pause = None;
            }
            Op::UpdateGov { who, new } => {
                self.gov_only(who)?;
                if self.pending.is_some() {
                    return Err(Why::PendingExists);
                }
                if !valid_addr(new) {
                    return Err(Why::BadAddr);
                }
                self.pending = Some(new.clone());
            }
            Op::AcceptGov { who } => {
                match &self.pending {
                    None => return Err(Why::NoPending),
                    Some(p) if p != who => return Err(Why::NotSuccessor),
                    _ => {}
                }
                self.gov = self.pending.take().unwrap();
            }
            Op::RevokeGov { who } => {
                self.gov_only(who)?;
                if self.pending.is_none() {
                    return Err(Why::NoPending);
                }
                self.pending = None;
            }
            Op::UpdateFee { who, collector, mint, burn, stream } => {
                self.gov_only(who)?;
                if self.reb.is_some() {
                    return Err(Why::Rebalancing);
                }
                if !rate_ok(*mint) || !rate_ok(*burn) {
                    return Err(Why::FeeBounds);
                }
                if stream.is_some_and(|(r, _)| r == 0 || r > MAX_STREAM) {
                    return Err(Why::FeeBounds);
                }
                if !valid_addr(collector) {
                    return Err(Why::BadAddr);
                }
                self.collect(t)?;
                if let Some(s) = self.stream.take() {
                    for (den, v) in s.collected {
                        add(&mut d, &core, &den, -(v as i128));
                        add(&mut d, &self.collector, &den, v as i128);
                    }
                }
                self.collector = collector.clone();
                self.mint_fee = *mint;
                self.burn_fee = *burn;
                self.stream = stream.map(|(rate, freeze)| Stream { rate, freeze, last: t, collected: Map::new() });
            }
            Op::UpdateManager { who, new } => {
                self.gov_only(who)?;
                let r = self.reb.as_mut().ok_or(Why::NotRebalancing)?;
                if new.as_ref().is_some_and(|a| !valid_addr(a)) {
                    return Err(Why::BadAddr);
                }
                r.manager = new.clone();
            }
            Op::UpdateReserve { who, denom } => {
                self.gov_only(who)?;
                if self.reb.is_some() {
                    return Err(Why::Rebalancing);
                }
                self.reserve_denom = denom.clone();
            }
            Op::UpdateInfo { who, denom, routes, cooldown, max } => {
                self.gov_only(who)?;
                let out = Self::trade_key(routes).ok_or(Why::Misc)?;
                let i = Info { routes: routes.clone(), cooldown: *cooldown, max: *max, last: None };
                self.infos.insert((denom.clone(), out), i);
            }
            Op::Init { who, manager, defl, infl } => {
                self.gov_only(who)?;
                if self.reb.is_some() {
                    return Err(Why::Rebalancing);
                }
                if manager.as_ref().is_some_and(|a| !valid_addr(a)) {
                    return Err(Why::BadAddr);
                }
                self.collect(t)?;
                let both: Vec<_> = defl.iter().chain(infl).cloned().collect();
                if defl.is_empty() || infl.is_empty() || has_dup(&both) || infl.iter().any(|w| w.1 == 0) {
                    return Err(Why::BadPlan);
                }
                for (den, target) in defl {
                    if self.units.get(den).is_none_or(|u| u < target) {
                        return Err(Why::BadPlan);
                    }
                }
                if let Some(s) = self.stream.as_mut() {
                    s.freeze = true;
                }
                self.reb = Some(Reb {
                    manager: manager.clone(),
                    defl: defl.clone(),
                    infl: infl.clone(),
                    reserve: Map::new(),
                });
            }
            Op::Deflate { who, denom, out, max_in } => {
                let rd = self.reserve_denom.clone();
                let supply = self.supply;
                let reb = self.reb.as_mut().ok_or(Why::NotRebalancing)?;
                if reb.manager.as_ref().is_some_and(|m| m != who) {
                    return Err(Why::NotManager);
                }
                let target = reb.defl.iter().find(|x| &x.0 == denom).map(|x| x.1);
                if *denom == rd {
                    let target = target.ok_or(Why::NotInPlan)?;
                    let cur = self.units.get_mut(denom).ok_or(Why::NotInPlan)?;
                    let gap = cur.checked_sub(target).ok_or(Why::Gap)?;
                    *cur = target;
                    allot(reb, gap);
                    return Ok(d);
                }
                let info = self.infos.get_mut(&(denom.clone(), rd.clone())).ok_or(Why::NoInfo)?;
                let target = target.ok_or(Why::NotInPlan)?;
                let cur = self.units.get_mut(denom).ok_or(Why::NotInPlan)?;
                if info.last.is_some_and(|l| t < l.saturating_add(info.cooldown)) {
                    return Err(Why::Cooldown);
                }
                if *out > info.max {
                    return Err(Why::MaxTrade);
                }
                let gap = cur.checked_sub(target).ok_or(Why::Gap)?;
                let gap = dmul(gap, supply);
                if *out == 0 {
                    return Err(Why::Venue);
                }
                let mut p = pools.clone();
                let (sold, sim) =
                    venue::swap_out(&mut p, &info.routes, &rd, *out, 0, lenient).map_err(|_| Why::Venue)?;
                if sim > gap {
                    return Err(Why::Gap);
                }
                if sim > *max_in {
                    return Err(Why::Slippage);
                }
                if supply == 0 {
                    return Err(Why::NoSupply);
                }
                let mut p = pools.clone();
                let (_, real) =
                    venue::swap_out(&mut p, &info.routes, &rd, *out, skew, lenient).map_err(|_| Why::Venue)?;
                if real > sim {
                    return Err(Why::Skew);
                }
                let down = muldiv_up(sim, E18, supply).ok_or(Why::Misc)?;
                let up = muldiv(*out, E18, supply).ok_or(Why::Misc)?;
                *cur = cur.checked_sub(down).ok_or(Why::Gap)?;
                allot(reb, up);
                info.last = Some(t);
                add(&mut d, &core, &sold, -(real as i128));
                add(&mut d, &core, &rd, *out as i128);
            }
            Op::Inflate { who, denom, ain, min } => {
                let rd = self.reserve_denom.clone();
                let supply = self.supply;
                let reb = self.reb.as_mut().ok_or(Why::NotRebalancing)?;
                if reb.manager.as_ref().is_some_and(|m| m != who) {
                    return Err(Why::NotManager);
                }
                if *denom == rd {
                    let r = reb.reserve.get_mut(denom).ok_or(Why::NotInPlan)?;
                    let v = std::mem::take(r);
                    *self.units.entry(denom.clone()).or_default() += v;
                    return Ok(d);
                }
                let info = self.infos.get_mut(&(rd.clone(), denom.clone())).ok_or(Why::NoInfo)?;
                let r = reb.reserve.get_mut(denom).ok_or(Why::NotInPlan)?;
                if info.last.is_some_and(|l| t < l.saturating_add(info.cooldown)) {
                    return Err(Why::Cooldown);
                }
                if *ain > info.max {
                    return Err(Why::MaxTrade);
                }
                if *ain > dmul(*r, supply) {
                    return Err(Why::Gap);
                }
                if *ain == 0 {
                    return Err(Why::Venue);
                }
                let mut p = pools.clone();
                let (_, sim) = venue::swap_in(&mut p, &rd, *ain, &info.routes, 0).map_err(|_| Why::Venue)?;
                if sim < *min {
                    return Err(Why::Slippage);
                }
                if supply == 0 {
                    return Err(Why::NoSupply);
                }
                let mut p = pools.clone();
                let (od, real) =
                    venue::swap_in(&mut p, &rd, *ain, &info.routes, skew).map_err(|_| Why::Venue)?;
                if real < sim {
                    return Err(Why::Skew);
                }
                if real == 0 {
                    return Err(Why::Venue);
                }
                *r = r.checked_sub(muldiv_up(*ain, E18, supply).ok_or(Why::Misc)?).ok_or(Why::Gap)?;
                *self.units.entry(denom.clone()).or_default() += muldiv(sim, E18, supply).ok_or(Why::Misc)?;
                info.last = Some(t);
                add(&mut d, &core, &rd, -(*ain as i128));
                add(&mut d, &core, &od, real as i128);
            }
            Op::Finalize { who } => {
                let reb = self.reb.as_ref().ok_or(Why::NotRebalancing)?;
                if reb.manager.as_ref().is_some_and(|m| m != who) {
                    return Err(Why::NotManager);
                }
                for (den, target) in &reb.defl {
                    if self.units.get(den).copied().unwrap_or(0) > *target {
                        return Err(Why::NotDone);
                    }
                }
                if reb.reserve.values().any(|v| *v > 0) {
                    return Err(Why::NotDone);
                }
                self.reb = None;
                self.units.retain(|_, u| *u > 0);
                if let Some(s) = self.stream.as_mut() {
                    s.freeze = false;
                    s.last = t;
                }
            }
        }
        Ok(d)
    }
}

/// share a bought reserve unit among the inflation assets, in order, in proportion to what weight is left
fn allot(reb: &mut Reb, unit: u128) {
    let mut left = unit;
    let mut total: u128 = reb.infl.iter().map(|x| x.1).sum();
    for (d, w) in reb.infl.clone() {
        let v = if total == 0 { 0 } else { muldiv(left, w, total).unwrap() };
        *reb.reserve.entry(d).or_default() += v;
        left -= v;
        total -= w;
    }
}
