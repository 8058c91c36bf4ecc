//! Workloads for the core contract: random histories and scripted probes run on copies of the world.
use serde_json::json;

use crate::chain::*;
use crate::coremodel::*;
use crate::corew::*;
use crate::ctx::*;
use crate::util::*;
use crate::venue::{self, Kind, Pool};

pub const CORE_PROPS: [&str; 16] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
];

impl World {
    // ---------------------------------------------------------------- operation generators
    fn someone(&mut self) -> String {
        let v = [USERS[0], USERS[1], USERS[2], USERS[3], GOV, GOV2, COLL, COLL2, MGR, OUT];
        self.rng.pick(&v).to_string()
    }
    fn gov_sender(&mut self) -> String {
        if self.rng.pct(12) {
            self.someone()
        } else {
            self.m.gov.clone()
        }
    }
    fn mgr_sender(&mut self) -> String {
        if self.rng.pct(12) {
            return self.someone();
        }
        match self.m.reb.as_ref().and_then(|r| r.manager.clone()) {
            Some(m) => m,
            None => self.someone(),
        }
    }
    fn opt_addr(&mut self) -> Option<String> {
        match self.rng.below(10) {
            0..=5 => None,
            6 if self.rng.pct(15) => Some("nobody".into()),
            7 if self.rng.pct(30) => Some(match self.rng.below(4) {
                0 => CORE.into(),
                1 => self.m.collector.clone(),
                2 => self.m.gov.clone(),
                _ => "osmo1neverseen".into(),
            }),
            _ => Some(self.user()),
        }
    }

    pub fn gen_mint(&mut self) -> Op {
        let who = self.user();
        let cap = self.scale.saturating_mul(10).min(10u128.pow(25));
        let amount = if self.rng.pct(2) { 0 } else { self.rng.amount(cap) };
        let t = self.t();
        let mut funds = self.mint_funds(amount, t).unwrap_or_default();
        match self.rng.below(12) {
            0 | 1 => {
                for f in funds.iter_mut() {
                    f.1 += self.rng.amount(self.scale);
                }
            }
            2 if !funds.is_empty() => {
                let i = self.rng.below(funds.len() as u64) as usize;
                funds[i].1 -= 1;
            }
            3 if !funds.is_empty() => {
                let i = self.rng.below(funds.len() as u64) as usize;
                let gone = funds.remove(i);
                // its amount in another coin instead
                match self.rng.below(3) {
                    0 if !funds.is_empty() => {
                        let j = self.rng.below(funds.len() as u64) as usize;
                        funds[j].1 += gone.1;
                    }
                    1 => {
                        let d = self.rng.pick(&self.denoms.clone()).clone();
                        if d != gone.0 && self.chain.bal(&who, &d) >= gone.1.saturating_mul(2) {
                            match funds.iter_mut().find(|f| f.0 == d) {
                                Some(f) => f.1 += gone.1,
                                None => funds.push((d, gone.1)),
                            }
                        }
                    }
                    _ => {}
                }
            }
            4 => {
                let extra = match self.rng.below(3) {
                    0 => self.m.index.clone(),
                    1 => self.m.reserve_denom.clone(),
                    _ => self.rng.pick(&self.denoms.clone()).clone(),
                };
                if !funds.iter().any(|f| f.0 == extra) && self.chain.bal(&who, &extra) > 0 {
                    funds.push((extra, 1));
                }
            }
            5 if !funds.is_empty() => {
                let i = self.rng.below(funds.len() as u64) as usize;
                funds[i].1 += self.rng.range(1, 3);
            }
            _ => {}
        }
        funds.retain(|f| f.1 > 0);
        funds.sort();
        let receiver = self.opt_addr();
        let refund = self.opt_addr();
        Op::Mint { who, amount, receiver, refund, funds }
    }

    pub fn gen_burn(&mut self) -> Option<Op> {
        let h = self.holders();
        if h.is_empty() {
            return None;
        }
        let who = self.rng.pick(&h).clone();
        let bal = self.ibal(&who);
        let a = match self.rng.below(5) {
            0 => bal,
            1 => 1,
            _ => self.rng.amount(bal),
        };
        let mut funds = vec![(self.m.index.clone(), a)];
        match self.rng.below(20) {
            0 => funds = vec![],
            1 => {
                let d = self.rng.pick(&self.denoms.clone()).clone();
                if self.chain.bal(&who, &d) > 0 {
                    funds.push((d, 1));
                }
            }
            2 => {
                let d = self.rng.pick(&self.denoms.clone()).clone();
                if self.chain.bal(&who, &d) > 0 {
                    funds = vec![(d, 1)];
                }
            }
            _ => {}
        }
        funds.sort();
        let redeem = self.opt_addr();
        Some(Op::Burn { who, funds, redeem })
    }

    fn gen_bound_rate(&mut self) -> Option<u128> {
        match self.rng.below(9) {
            0 => Some(0),
            1 => Some(E18),
            2 => Some(E18 - 1),
            3 => Some(1),
            4 => Some(E18 + self.rng.range(0, E18)),
            _ => Self::gen_rate(&mut self.rng),
        }
    }
    fn gen_bound_stream(&mut self) -> Option<(u128, bool)> {
        let f = self.rng.pct(15);
        match self.rng.below(10) {
            0 => Some((0, f)),
            1 => Some((MAX_STREAM + 1, f)),
            2 => Some((MAX_STREAM, f)),
            3 => Some((self.rng.range(MAX_STREAM, E18 + 5), f)),
            4 => Some((1, f)),
            _ => Self::gen_stream(&mut self.rng, true),
        }
    }
    pub fn gen_update_fee(&mut self, bounds: bool) -> Op {
        let who = self.gov_sender();
        let collector = match self.rng.below(10) {
            0 => COLL2.to_string(),
            1 => self.user(),
            2 if self.rng.pct(20) => "bad".into(),
            _ => COLL.to_string(),
        };
        let (mint, burn, stream) = if bounds {
            (self.gen_bound_rate(), self.gen_bound_rate(), self.gen_bound_stream())
        } else {
            (Self::gen_rate(&mut self.rng), Self::gen_rate(&mut self.rng), Self::gen_stream(&mut self.rng, true))
        };
        // most of the time no more than one offending field, so that each is decisive
        let (mint, burn, stream) = if bounds && self.rng.pct(70) {
            match self.rng.below(3) {
                0 => (mint, Self::gen_rate(&mut self.rng), Self::gen_stream(&mut self.rng, true)),
                1 => (Self::gen_rate(&mut self.rng), burn, Self::gen_stream(&mut self.rng, true)),
                _ => (Self::gen_rate(&mut self.rng), Self::gen_rate(&mut self.rng), stream),
            }
        } else {
            (mint, burn, stream)
        };
        Op::UpdateFee { who, collector, mint, burn, stream }
    }

    fn route_between(&mut self, a: &str, b: &str) -> Option<u64> {
        let v: Vec<u64> =
            self.chain.st.pools.values().filter(|p| p.has(a) && p.has(b) && a != b).map(|p| p.id).collect();
        if v.is_empty() {
            None
        } else {
            Some(*self.rng.pick(&v))
        }
    }

    /// a trade info for a pair, with its input denom
    pub fn gen_info(&mut self, out: bool, d: &str) -> Option<Op> {
        let rd = self.m.reserve_denom.clone();
        let cooldown = *self.rng.pick(&[0u64, 0, 1, 60, 3600, 86_400, 300_000, 10_000_000]);
        let max = match self.rng.below(5) {
            0 => self.rng.range(1, self.scale),
            1 => self.scale / 10 + 1,
            _ => RICH,
        };
        let who = self.m.gov.clone();
        if !out {
            // asset -> reserve; single hop
            let p = self.route_between(d, &rd)?;
            return Some(Op::UpdateInfo { who, denom: d.into(), routes: vec![(p, rd)], cooldown, max });
        }
        // reserve -> asset, sometimes all along the line of assets
        if self.rng.pct(10) {
            let line: Vec<String> = self.denoms.iter().filter(|x| **x != rd).cloned().collect();
            if let Some(j) = line.iter().position(|x| x == d) {
                let i = self.rng.below(line.len() as u64) as usize;
                let on: Vec<String> =
                    if i <= j { line[i..=j].to_vec() } else { line[j..=i].iter().rev().cloned().collect() };
                let mut at = rd.clone();
                let mut routes = vec![];
                for x in on {
                    match self.route_between(&at, &x) {
                        Some(p) => routes.push((p, x.clone())),
                        None => break,
                    }
                    at = x;
                }
                if at == d {
                    return Some(Op::UpdateInfo { who, denom: rd, routes, cooldown, max });
                }
            }
        }
        // or over another asset
        if self.rng.pct(30) {
            let others: Vec<String> = self.denoms.iter().filter(|x| *x != d && **x != rd).cloned().collect();
            if !others.is_empty() {
                let x = self.rng.pick(&others).clone();
                if let (Some(p1), Some(p2)) = (self.route_between(&rd, &x), self.route_between(&x, d)) {
                    return Some(Op::UpdateInfo {
                        who,
                        denom: rd,
                        routes: vec![(p1, x), (p2, d.into())],
                        cooldown,
                        max,
                    });
                }
            }
        }
        let p = self.route_between(&rd, d)?;
        Some(Op::UpdateInfo { who, denom: rd, routes: vec![(p, d.into())], cooldown, max })
    }

    pub fn register_all(&mut self, ctx: &mut Ctx) {
        for d in self.denoms.clone() {
            if d == self.m.reserve_denom {
                continue;
            }
            for out in [false, true] {
                if self.rng.pct(88) {
                    if let Some(op) = self.gen_info(out, &d) {
                        self.step(ctx, &op);
                    }
                }
            }
        }
    }

    pub fn gen_init(&mut self, valid: bool) -> Op {
        let who = if valid { self.m.gov.clone() } else { self.gov_sender() };
        let manager = match self.rng.below(4) {
            0 => None,
            1 if !valid && self.rng.pct(10) => Some("bad".to_string()),
            _ => Some(MGR.to_string()),
        };
        let mut m = self.m.clone();
        let _ = m.collect(self.t());
        let have: Vec<(String, u128)> = m.units.iter().map(|(a, b)| (a.clone(), *b)).collect();
        let mut defl = vec![];
        let mut rest: Vec<String> = vec![];
        let grid = {
            // gaps that are whole base units for this supply, where one exists
            let s = self.m.supply.max(1);
            if E18 % s == 0 {
                E18 / s
            } else {
                1
            }
        };
        for (d, u) in &have {
            if self.rng.pct(55) || (defl.is_empty() && *d == have.last().unwrap().0) {
                let target = match self.rng.below(6) {
                    0 => 0,
                    1 => *u,
                    2 => u / 2,
                    _ => self.rng.range(0, *u),
                };
                let target = u - (u - target) / grid * grid;
                defl.push((d.clone(), target));
            } else {
                rest.push(d.clone());
            }
        }
        for d in self.denoms.clone() {
            if !m.units.contains_key(&d) {
                rest.push(d);
            }
        }
        if !m.units.contains_key(&self.m.reserve_denom) && self.rng.pct(30) {
            rest.push(self.m.reserve_denom.clone());
        }
        rest.retain(|d| !defl.iter().any(|x| &x.0 == d));
        rest.dedup();
        let most = if self.rng.pct(20) { 20 } else { 3 };
        let n = self.rng.urange(1, rest.len().clamp(1, most));
        let mut infl = vec![];
        for d in rest.into_iter().take(n) {
            let w = match self.rng.below(4) {
                0 => E18,
                1 => self.rng.range(1, 100) * E18 / 10,
                2 => self.rng.range(1, E18 * 3),
                _ => E18 / 4,
            };
            infl.push((d, w));
        }
        if self.rng.pct(50) {
            infl.reverse();
        }
        if !valid {
            match self.rng.below(9) {
                0 => defl.clear(),
                1 => infl.clear(),
                2 => {
                    if let Some(x) = defl.first().cloned() {
                        defl.push(x);
                    }
                }
                3 => {
                    if let Some(x) = infl.first().cloned() {
                        infl.push(x);
                    }
                }
                4 => {
                    if let Some(x) = defl.first().cloned() {
                        infl.push((x.0, E18));
                    }
                }
                5 => {
                    if let Some(x) = defl.last_mut() {
                        x.1 = m.units.get(&x.0).copied().unwrap_or(0) + self.rng.range(1, 5);
                    }
                }
                6 => defl.push(("unotheld".into(), 0)),
                7 => {
                    if let Some(x) = infl.last_mut() {
                        x.1 = 0;
                    }
                }
                _ => {}
            }
        }
        Op::Init { who, manager, defl, infl }
    }

    pub fn gen_deflate(&mut self) -> Option<Op> {
        let reb = self.m.reb.clone()?;
        let who = self.mgr_sender();
        let rd = self.m.reserve_denom.clone();
        let denom = if self.rng.pct(90) {
            self.rng.pick(&reb.defl).0.clone()
        } else {
            self.rng.pick(&self.denoms.clone()).clone()
        };
        let target = reb.defl.iter().find(|x| x.0 == denom).map(|x| x.1).unwrap_or(0);
        let gap = dmul(self.m.units.get(&denom).copied().unwrap_or(0).saturating_sub(target), self.m.supply);
        let info = self.m.infos.get(&(denom.clone(), rd.clone())).cloned();
        let mut out = 1;
        let mut sim = 0;
        if let Some(i) = &info {
            if denom != rd && i.routes.len() == 1 {
                let mut p = self.chain.st.pools.clone();
                let r = vec![(i.routes[0].0, rd.clone())];
                out = venue::swap_in(&mut p, &denom, gap.max(1), &r, 0).map(|x| x.1).unwrap_or(1);
                out = match self.rng.below(6) {
                    0 => out + 1,
                    1 => i.max,
                    2 => i.max.saturating_add(1),
                    3 => self.rng.range(1, out.max(1)),
                    4 => self.rng.range(1, out.max(1)),
                    _ => out,
                };
                if self.rng.pct(75) {
                    out = out.min(i.max);
                }
                let mut p = self.chain.st.pools.clone();
                sim = venue::swap_out(&mut p, &i.routes, &rd, out.max(1), 0, true).map(|x| x.1).unwrap_or(0);
            }
        }
        let max_in = match self.rng.below(6) {
            0 => sim.saturating_sub(1),
            1 | 2 => sim,
            _ => RICH,
        };
        Some(Op::Deflate { who, denom, out, max_in })
    }

    pub fn gen_inflate(&mut self) -> Option<Op> {
        let reb = self.m.reb.clone()?;
        let who = self.mgr_sender();
        let rd = self.m.reserve_denom.clone();
        let denom = if self.rng.pct(92) {
            self.rng.pick(&reb.infl).0.clone()
        } else {
            self.rng.pick(&self.denoms.clone()).clone()
        };
        let have = dmul(reb.reserve.get(&denom).copied().unwrap_or(0), self.m.supply);
        let info = self.m.infos.get(&(rd.clone(), denom.clone())).cloned();
        let mut ain = match self.rng.below(6) {
            0 => have + 1,
            1 | 2 => have,
            3 => self.rng.amount(have.max(1)),
            4 => have.saturating_mul(2),
            _ => self.rng.range(1, have.max(1)),
        };
        let mut sim = 0;
        if let Some(i) = &info {
            match self.rng.below(6) {
                0 => ain = i.max.min(have.saturating_mul(3)),
                1 => ain = ain.min(i.max.saturating_add(1)),
                _ => ain = ain.min(i.max),
            }
            let mut p = self.chain.st.pools.clone();
            sim = venue::swap_in(&mut p, &rd, ain, &i.routes, 0).map(|x| x.1).unwrap_or(0);
        }
        let min = match self.rng.below(5) {
            0 => sim.saturating_add(1),
            1 | 2 => sim,
            _ => 0,
        };
        Some(Op::Inflate { who, denom, ain, min })
    }

    /// bring the supply to a power of ten, so that a rebalance can be carried through exactly
    pub fn align(&mut self, ctx: &mut Ctx) -> bool {
        if self.m.reb.is_some() || self.m.paused(self.t()) {
            return false;
        }
        let mut p = 1u128;
        while p < self.m.supply {
            p *= 10;
        }
        if p > E18 {
            return false;
        }
        if p > self.m.supply {
            let op = self.op_mint(USERS[0], p - self.m.supply);
            self.step(ctx, &op);
        } else if p == 1 {
            return false;
        }
        self.m.supply == p
    }

    pub fn random_op(&mut self, ctx: &mut Ctx) {
        let reb = self.m.reb.is_some();
        let f = ctx.focus.clone();
        let on = |ps: &[&str], a: u64, b: u64| if ps.contains(&f.as_str()) { a } else { b };
        let trades = on(&["C01", "C11", "C12", "C13", "C16"], 22, 12);
        let w: Vec<u64> = if reb {
            vec![
                on(&["C02", "C11"], 6, 3),                                  // 0 mint
                on(&["C03", "C11"], 6, 3),                                  // 1 burn
                on(&["C06", "C07"], 8, 3),                                  // 2 realize
                on(&["C09"], 10, 2),                                        // 3 pause
                on(&["C09"], 10, 2),                                        // 4 release
                on(&["C10"], 15, 2),                                        // 5 gov handover
                on(&["C14", "C11", "C07"], 6, 2),                           // 6 update fee
                on(&["C11"], 6, 2),                                         // 7 manager
                on(&["C11"], 4, 1),                                         // 8 reserve denom
                on(&["C15", "C12"], 12, 4),                                 // 9 info
                on(&["C11"], 5, 1),                                         // 10 init
                trades,                                                     // 11 deflate
                trades,                                                     // 12 inflate
                on(&["C11", "C16"], 12, 8),                                 // 13 finalize
                on(&["C06", "C08", "C12"], 20, 10),                         // 14 advance
                2,                                                          // 15 donate
            ]
        } else {
            vec![
                on(&["C02", "C05"], 40, 22),
                on(&["C03", "C05"], 40, 18),
                on(&["C06", "C07"], 15, 5),
                on(&["C09"], 15, 2),
                on(&["C09"], 12, 4),
                on(&["C10"], 25, 2),
                on(&["C14", "C07", "C06"], 20, 4),
                1,
                on(&["C01", "C11", "C12", "C13", "C15"], 4, 1),
                on(&["C15"], 40, 3),
                on(&["C11", "C12", "C13", "C16", "C01"], 20, 5),
                2,
                2,
                2,
                on(&["C06", "C08", "C09"], 25, 14),
                2,
            ]
        };
        let k = self.rng.weighted(&w);
        // a rate at the bound and a long pause between two accruals would stop everything (see the
        // known findings); keep histories alive
        if k == 14 {
            let dt = self.gen_dt();
            if self.rate_over(self.t() + dt + 40 * 86_400) {
                let op = Op::UpdateFee {
                    who: self.m.gov.clone(),
                    collector: COLL.into(),
                    mint: None,
                    burn: None,
                    stream: Some((1_000_000_000, false)),
                };
                self.step(ctx, &op);
            }
            if !self.rate_over(self.t() + dt) {
                self.advance(ctx, dt);
            }
            return;
        }
        let op = match k {
            0 => Some(self.gen_mint()),
            1 => self.gen_burn(),
            2 => {
                let who = if self.rng.pct(80) { self.m.collector.clone() } else { self.someone() };
                Some(Op::Realize { who })
            }
            3 => {
                let t = self.t();
                let who = self.gov_sender();
                let exp = match self.rng.below(6) {
                    0 => None,
                    1 => Some(t),
                    2 => Some(t.saturating_sub(self.rng.below(100))),
                    3 => Some(t + 1),
                    4 if self.rng.pct(30) => {
                        let v = [u64::MAX, u64::MAX - 1, u64::MAX / 1_000_000_000, 1 << 32, (1 << 32) + t, (1 << 63) + 5, t + (1 << 31)];
                        Some(*self.rng.pick(&v))
                    }
                    _ => Some(t + self.rng.range(1, 5000) as u64),
                };
                Some(Op::Pause { who, exp })
            }
            4 => Some(Op::Release { who: self.gov_sender() }),
            5 => Some(self.gen_handover()),
            6 => {
                let b = self.rng.pct(if ctx.is("C14") { 70 } else { 10 });
                Some(self.gen_update_fee(b))
            }
            7 => {
                let who = self.gov_sender();
                let new = match self.rng.below(4) {
                    0 => None,
                    1 => Some(self.user()),
                    _ => Some(MGR.to_string()),
                };
                Some(Op::UpdateManager { who, new })
            }
            8 => {
                let who = self.gov_sender();
                let denom = match self.rng.below(4) {
                    0 => RESERVE.to_string(),
                    1 => "unewreserve".to_string(),
                    _ => self.rng.pick(&self.denoms.clone()).clone(),
                };
                let before = self.m.reserve_denom.clone();
                self.step(ctx, &Op::UpdateReserve { who, denom });
                if self.m.reserve_denom != before && !ctx.broken {
                    ctx.count("reserve_changes");
                    self.connect_reserve();
                    if self.rng.pct(80) {
                        self.register_all(ctx);
                    }
                }
                return;
            }
            9 => {
                let d = self.rng.pick(&self.denoms.clone()).clone();
                let out = self.rng.pct(50);
                let mut op = self.gen_info(out, &d);
                if let Some(Op::UpdateInfo { who, .. }) = op.as_mut() {
                    *who = self.gov_sender();
                }
                op
            }
            10 => {
                if self.rng.pct(if ctx.any(&["C11", "C13", "C16"]) { 60 } else { 40 }) {
                    self.align(ctx);
                }
                let valid = self.rng.pct(if ctx.is("C11") { 45 } else { 85 });
                Some(self.gen_init(valid))
            }
            11 => self.gen_deflate().or(Some(Op::Deflate { who: MGR.into(), denom: "uosmo".into(), out: 1, max_in: 1 })),
            12 => self.gen_inflate().or(Some(Op::Inflate { who: MGR.into(), denom: "uosmo".into(), ain: 1, min: 0 })),
            13 => Some(Op::Finalize { who: self.mgr_sender() }),
            _ => {
                let who = self.user();
                let d = self.rng.pick(&self.denoms.clone()).clone();
                let a = self.rng.amount(self.scale);
                ctx.log(|| format!("{who} sends {a}{d} to the core contract"));
                let _ = self.chain.tx_send(&who, CORE, &vec![(d, a)]);
                None
            }
        };
        let Some(op) = op else { return };
        let skew = if matches!(op, Op::Deflate { .. } | Op::Inflate { .. }) && self.rng.pct(10) {
            self.rng.range(1, 300)
        } else {
            0
        };
        self.step_skew(ctx, &op, skew as i128);
    }

    fn gen_handover(&mut self) -> Op {
        let who = self.gov_sender();
        match self.rng.below(5) {
            0 | 1 => {
                let new = match self.rng.below(12) {
                    0 => "bad".to_string(),
                    1 => self.m.gov.clone(),
                    2..=4 => self.user(),
                    5 => GOV.to_string(),
                    _ => GOV2.to_string(),
                };
                Op::UpdateGov { who, new }
            }
            2 | 3 => {
                let who = match (&self.m.pending, self.rng.pct(60)) {
                    (Some(p), true) => p.clone(),
                    _ => self.someone(),
                };
                Op::AcceptGov { who }
            }
            _ => Op::RevokeGov { who },
        }
    }

    // ---------------------------------------------------------------- probes, on copies

    /// all holders redeem, the collector realises: in a random order
    pub fn probe_drain(&self, ctx: &mut Ctx) {
        let t = self.t();
        if self.m.paused(t) || self.m.reb.is_some() || self.rate_over(t) {
            return;
        }
        let mut w = self.clone();
        ctx.log(|| "probe: everybody redeems".into());
        let mut realized = w.m.stream.is_none();
        let mut rounds = 0;
        loop {
            let h = w.holders();
            if h.is_empty() || rounds > 60 || ctx.broken {
                break;
            }
            let who = w.rng.pick(&h).clone();
            let bal = w.ibal(&who);
            let op = Op::Burn { who: who.clone(), funds: vec![(w.m.index.clone(), bal)], redeem: None };
            if !w.step(ctx, &op) {
                ctx.flag(&["C01", "C03"], format!("{who} cannot redeem {bal}"));
                return;
            }
            rounds += 1;
            if !realized && w.rng.pct(20) {
                realized = true;
                w.step(ctx, &Op::Realize { who: w.m.collector.clone() });
            }
        }
        let op = Op::Realize { who: w.m.collector.clone() };
        if !w.step(ctx, &op) {
            ctx.flag(&["C01", "C07"], "the collector cannot realise the accrued fees after everybody redeemed".into());
        }
        ctx.count("drained_worlds");
        ctx.obs("C01", &[99, rounds, size(self.m.supply), self.m.units.len() as u64]);
        ctx.obs("C03", &[99, rounds, size(self.m.supply), self.m.units.len() as u64]);
    }

    /// C05: an attacker without index tokens mints and burns
    pub fn probe_attack(&self, ctx: &mut Ctx) {
        let t = self.t();
        if self.m.paused(t) || self.m.reb.is_some() || self.rate_over(t) {
            return;
        }
        let mut w = self.clone();
        let start = w.chain.st.bank.get(ATT).cloned().unwrap_or_default();
        if w.ibal(ATT) != 0 {
            return;
        }
        let moving = w.rng.pct(30) && !self.rate_over(t + 40 * 86_400);
        ctx.log(|| "probe: attacker mints and burns".into());
        let n = w.rng.urange(1, 10);
        let (mut minted, mut burned) = (0u64, 0u64);
        for _ in 0..n {
            if moving && w.rng.pct(30) {
                let dt = w.rng.range(1, 86_400) as u64;
                w.advance(ctx, dt);
            }
            let bal = w.ibal(ATT);
            if bal == 0 || w.rng.pct(60) {
                let amount = match w.rng.below(3) {
                    0 => w.rng.range(1, 20),
                    1 => w.rng.amount(w.scale.min(10u128.pow(24))),
                    _ => {
                        // just enough to be rounded: a multiple of 1/unit
                        let u: Vec<u128> = w.m.units.values().copied().filter(|u| *u > 0).collect();
                        let u = if u.is_empty() { E18 } else { *w.rng.pick(&u) };
                        let k = w.rng.range(1, 5);
                        let a = muldiv(E18, k, u).unwrap_or(1);
                        (a + w.rng.range(0, 2)).saturating_sub(1).clamp(1, 10u128.pow(24))
                    }
                };
                let mut funds = w.mint_funds(amount, w.t()).unwrap_or_default();
                match w.rng.below(4) {
                    // try to get away with what rounding down would ask
                    0 => {
                        let mut m = w.m.clone();
                        let _ = m.collect(w.t());
                        funds = m.redeemable(amount).into_iter().filter(|f| f.1 > 0).collect();
                    }
                    1 => {
                        for f in funds.iter_mut() {
                            f.1 += w.rng.range(0, 1000);
                        }
                    }
                    _ => {}
                }
                funds.sort();
                let op = Op::Mint { who: ATT.into(), amount, receiver: None, refund: None, funds };
                if w.chain.exec(ATT, CORE, &op.json(), &op.funds()).is_ok() {
                    minted += 1;
                }
                ctx.log(|| format!("  attacker mints {amount} with {}", coins_str(&op.funds())));
            } else {
                let a = match w.rng.below(3) {
                    0 => 1,
                    1 => bal,
                    _ => w.rng.range(1, bal),
                };
                let op = Op::Burn { who: ATT.into(), funds: vec![(w.m.index.clone(), a)], redeem: None };
                if w.chain.exec(ATT, CORE, &op.json(), &op.funds()).is_ok() {
                    burned += 1;
                }
                ctx.log(|| format!("  attacker burns {a}"));
            }
        }
        let bal = w.ibal(ATT);
        if bal > 0 {
            let op = Op::Burn { who: ATT.into(), funds: vec![(w.m.index.clone(), bal)], redeem: None };
            if let Err(e) = w.chain.exec(ATT, CORE, &op.json(), &op.funds()) {
                ctx.flag(&["C03"], format!("attacker cannot burn its {bal}: {e}"));
                return;
            }
            ctx.log(|| format!("  attacker burns all {bal}"));
            burned += 1;
        }
        for (d, v) in w.chain.st.bank.get(ATT).cloned().unwrap_or_default() {
            let s = start.get(&d).copied().unwrap_or(0);
            if v > s {
                ctx.flag(&["C05"], format!("minting {minted} times and burning {burned} times gained {}{d}", v - s));
            }
        }
        // the others redeem: with and without the attack
        let mut c = self.clone();
        c.chain.advance(w.t() - t);
        c.chain.height = w.chain.height;
        let mut order = self.holders();
        order.retain(|h| h != ATT);
        for h in order {
            let bal = self.ibal(&h);
            let msg = json!({"burn": {"redeem_to": "osmo1redeemed"}});
            let before = [c.chain.clone(), w.chain.clone()];
            let f = vec![(self.m.index.clone(), bal)];
            let (a, b) = (c.chain.exec(&h, CORE, &msg, &f), w.chain.exec(&h, CORE, &msg, &f));
            if a.is_err() {
                return;
            }
            if let Err(e) = b {
                ctx.flag(&["C05"], format!("after the attack {h} can no longer redeem {bal}: {e}"));
                return;
            }
            for d in self.m.units.keys() {
                let x = c.chain.bal("osmo1redeemed", d) - before[0].bal("osmo1redeemed", d);
                let y = w.chain.bal("osmo1redeemed", d) - before[1].bal("osmo1redeemed", d);
                // accruing in several steps may differ in the last decimals
                let tol = if moving { 2 + dmul(self.m.units[d].max(E18), bal) / (E18 / 1000) } else { 0 };
                if y + tol < x {
                    ctx.flag(&["C05"], format!("the attack lowered what {h} redeems from {x}{d} to {y}{d}"));
                }
            }
        }
        ctx.obs("C05", &[minted, burned, size(self.m.supply), self.m.units.len() as u64, moving as u64,
            self.m.mint_fee.is_some() as u64, self.m.burn_fee.is_some() as u64]);
        ctx.count("attacks");
    }

    /// C08: what is predicted for a time is what execution at that time does
    pub fn probe_sim(&self, ctx: &mut Ctx) {
        let mut w = self.clone();
        let dt = if w.rng.pct(35) { 0 } else { w.gen_dt() };
        let t1 = w.t() + dt;
        if w.rate_over(t1) {
            return;
        }
        let time = if dt == 0 && w.rng.pct(50) { None } else { Some(t1) };
        ctx.log(|| format!("probe: predictions for {time:?} against execution"));
        // asking for now is asking without a time
        let now = w.t();
        let a0 = w.rng.amount(w.scale.min(10u128.pow(24)));
        for k in ["get_config", "get_fee", "get_portfolio"] {
            let x = w.chain.query(CORE, &json!({k: {"time": null}}));
            let y = w.chain.query(CORE, &json!({k: {"time": now}}));
            if x != y {
                ctx.flag(&["C08"], format!("{k} without a time {x:?}, for now {y:?}"));
            }
        }
        for q in ["simulate_mint", "simulate_burn"] {
            let x = w.chain.query(CORE, &json!({q: {"amount": a0.to_string(), "time": null}}));
            let y = w.chain.query(CORE, &json!({q: {"amount": a0.to_string(), "time": now}}));
            if x.is_ok() != y.is_ok() || (x.is_ok() && x != y) {
                ctx.flag(&["C08"], format!("{q} without a time {x:?}, for now {y:?}"));
            }
        }
        let (p1, f1) = (q_port(&w.chain, CORE, Some(t1)), q_fee(&w.chain, CORE, Some(t1)));
        let mut later = w.chain.clone();
        later.advance(dt);
        // realisation at t1
        let collector = self.m.collector.clone();
        let before = later.clone();
        let r = later.exec(&collector, CORE, &json!({"realize": {}}), &vec![]);
        match (&r, &p1, &f1) {
            (Ok(()), Ok(p1), Ok(f1)) => {
                let p2 = q_port(&later, CORE, None);
                if p2.as_ref().ok() != Some(p1) {
                    ctx.flag(&["C08"], format!("portfolio predicted for {t1} {p1:?}, found then {p2:?}"));
                }
                if self.m.stream.is_some() {
                    let got: Map = Chain::diff(&before.st.bank, &later.st.bank)
                        .into_iter()
                        .filter(|x| x.0 .0 == collector)
                        .map(|x| (x.0 .1, x.1.max(0) as u128))
                        .collect();
                    let want = f1.stream.as_ref().map(|s| nz(&s.collected)).unwrap_or_default();
                    if got != want {
                        ctx.flag(&["C08", "C07"], format!("accrued fee predicted for {t1} {want:?}, realised then {got:?}"));
                    }
                }
                ctx.obs("C08", &[1, size(dt as u128), size(self.m.supply), self.m.stream.is_some() as u64, self.m.reb.is_some() as u64]);
            }
            (Ok(()), a, b) => {
                ctx.flag(&["C08"], format!("no prediction for {t1}: {a:?} {b:?}"));
            }
            (Err(_), _, _) => {
                ctx.flag(&["C07"], format!("realisation fails: {r:?}"));
            }
        }
        if self.m.paused(t1) || self.m.reb.is_some() {
            return;
        }
        // mint at t1
        let amount = w.rng.amount(w.scale.min(10u128.pow(24)));
        let Some(mut funds) = w.mint_funds(amount, t1) else { return };
        let given = w.rng.pct(60);
        if given {
            for f in funds.iter_mut() {
                if w.rng.pct(50) {
                    f.1 += w.rng.amount(w.scale);
                }
            }
            // funds that do not do
            match w.rng.below(16) {
                0 => funds.clear(),
                1 if !funds.is_empty() => {
                    let i = w.rng.below(funds.len() as u64) as usize;
                    funds.remove(i);
                }
                2 if !funds.is_empty() => {
                    let i = w.rng.below(funds.len() as u64) as usize;
                    funds[i].1 /= 2;
                    funds.retain(|f| f.1 > 0);
                }
                _ => {}
            }
        }
        let fj: Vec<_> = funds.iter().map(|(d, a)| json!({"denom": d, "amount": a.to_string()})).collect();
        let q = json!({"simulate_mint": {"amount": amount.to_string(), "funds": if given { Some(fj) } else { None }, "time": time}});
        let sim = w.chain.query(CORE, &q);
        let mut later = w.chain.clone();
        later.advance(dt);
        let before = later.clone();
        let msg = json!({"mint": {"amount": amount.to_string(), "receiver": "osmo1receives", "refund_to": "osmo1refunded"}});
        let r = later.exec(OUT, CORE, &msg, &funds);
        match (&sim, &r) {
            (Ok(s), Ok(())) => {
                let d = Chain::diff(&before.st.bank, &later.st.bank);
                let of = |a: &str| -> Map {
                    d.iter().filter(|x| x.0 .0 == a).map(|x| (x.0 .1.clone(), (*x.1).max(0) as u128)).collect()
                };
                let got = of("osmo1receives").get(&self.m.index).copied().unwrap_or(0);
                let got = if collector == "osmo1receives" { 0 } else { got };
                let refund = of("osmo1refunded");
                let mut spent = of(CORE);
                spent.remove(&self.m.index);
                let want = (
                    ju(&s["mint_amount"]),
                    jcoins(&s["refund_amount"]).map(|c| cmap(&c)),
                    jcoins(&s["fund_spent"]).map(|c| cmap(&c)),
                );
                let real = (Some(got), Some(refund), Some(spent));
                if want != real {
                    ctx.flag(&["C08"], format!("mint of {amount} predicted for {t1} (received, refunded, spent) {want:?}, executed {real:?}"));
                }
                ctx.obs("C08", &[2, size(dt as u128), size(amount), given as u64, self.m.mint_fee.is_some() as u64, self.m.stream.is_some() as u64]);
            }
            (Ok(s), Err(e)) => {
                ctx.flag(&["C08", "C02"], format!("mint of {amount} predicted {s}, execution refused: {e}"));
            }
            (Err(e), Ok(())) => {
                ctx.flag(&["C08"], format!("mint of {amount} predicted to fail ({e}) but executed"));
            }
            _ => {}
        }
        // burn at t1
        let mut hs = self.holders();
        hs.retain(|h| h != "osmo1redeemed" && *h != collector);
        if hs.is_empty() {
            return;
        }
        let h = w.rng.pick(&hs).clone();
        let bal = self.ibal(&h);
        let amount = w.rng.amount(bal);
        let sim = w.chain.query(CORE, &json!({"simulate_burn": {"amount": amount.to_string(), "time": time}}));
        let mut later = w.chain.clone();
        later.advance(dt);
        let before = later.clone();
        let r = later.exec(&h, CORE, &json!({"burn": {"redeem_to": "osmo1redeemed"}}), &vec![(self.m.index.clone(), amount)]);
        match (&sim, &r) {
            (Ok(s), Ok(())) => {
                let d = Chain::diff(&before.st.bank, &later.st.bank);
                let redeemed: Map = d
                    .iter()
                    .filter(|x| x.0 .0 == "osmo1redeemed")
                    .map(|x| (x.0 .1.clone(), (*x.1).max(0) as u128))
                    .collect();
                let burned = before.supply(&self.m.index) - later.supply(&self.m.index);
                let want = (ju(&s["burn_amount"]), jcoins(&s["redeem_amount"]).map(|c| cmap(&c)));
                let real = (Some(burned), Some(redeemed));
                if want != real {
                    ctx.flag(&["C08"], format!("burn of {amount} predicted for {t1} (burned, redeemed) {want:?}, executed {real:?}"));
                }
                ctx.obs("C08", &[3, size(dt as u128), size(amount), self.m.burn_fee.is_some() as u64, self.m.stream.is_some() as u64]);
            }
            (Ok(s), Err(e)) => {
                ctx.flag(&["C08", "C03"], format!("burn of {amount} predicted {s}, execution refused: {e}"));
            }
            (Err(e), Ok(())) => {
                ctx.flag(&["C08"], format!("burn of {amount} predicted to fail ({e}) but executed"));
            }
            _ => {}
        }
    }

    /// C08/C06: answers for a later time against the accrual formula
    pub fn probe_future(&self, ctx: &mut Ctx) {
        let mut w = self.clone();
        let t1 = w.t() + w.gen_dt();
        let mut m = self.m.clone();
        if m.collect(t1).is_err() {
            return;
        }
        let p = q_port(&self.chain, CORE, Some(t1));
        let want: Map = m.units.clone();
        match p {
            Ok(p) if p.units.iter().cloned().collect::<Map>() == want => {}
            x => {
                ctx.flag(&["C06", "C08"], format!("units for {t1} are {x:?}, expected {want:?}"));
            }
        }
        let f = q_fee(&self.chain, CORE, Some(t1));
        let want = m.stream.as_ref().map(|s| nz(&s.collected));
        match f {
            Ok(f) if f.stream.as_ref().map(|s| nz(&s.collected)) == want => {}
            x => {
                ctx.flag(&["C06", "C08", "C07"], format!("accrued fee for {t1} is {x:?}, expected {want:?}"));
            }
        }
        if m.stream.is_some() {
            ctx.obs("C06", &[50, size((t1 - self.t()) as u128), size(m.supply), m.stream.as_ref().unwrap().freeze as u64]);
        }
    }

    /// C09: minting and burning around the end of a pause
    pub fn probe_pause(&self, ctx: &mut Ctx) {
        let now = self.t();
        let mut times = vec![now, now + 1, now + 86_400];
        if let Some(Some(e)) = self.m.pause {
            for t in [e.saturating_sub(1), e, e.saturating_add(1)] {
                // block times are counted in nanoseconds
                if t >= now && t < u64::MAX / 1_000_000_000 {
                    times.push(t);
                }
            }
        }
        // asked later, the last second of a pause that has ended is still one of a pause
        if let Some(Some(e)) = self.m.pause.filter(|e| e.map_or(false, |e| e <= now)) {
            for (t, want) in [(e - 1, true), (e, false)] {
                ctx.obs("C09", &[61, want as u64]);
                match q_conf(&self.chain, CORE, Some(t)) {
                    Ok(c) if c.paused == want => {}
                    x => {
                        ctx.flag(&["C09"], format!("paused state reported at {now} for {t}, pause until {e}: {x:?}, expected {want}"));
                    }
                }
            }
        }
        for t in times {
            let want = self.m.paused(t);
            match q_conf(&self.chain, CORE, Some(t)) {
                Ok(c) if c.paused == want => {}
                x => {
                    ctx.flag(&["C09"], format!("paused state reported for {t}: {x:?}, expected {want}"));
                }
            }
            if self.rate_over(t) {
                continue;
            }
            let mut w = self.clone();
            w.chain.advance(t - now);
            ctx.log(|| format!("probe: mint and burn at {t} (pause {:?})", self.m.pause));
            let op = w.op_mint(USERS[1], 1000);
            w.step(ctx, &op);
            let hs = w.holders();
            if let Some(h) = hs.first() {
                let op = Op::Burn { who: h.clone(), funds: vec![(w.m.index.clone(), 1)], redeem: None };
                w.step(ctx, &op);
            }
            if w.rng.pct(30) {
                let op = if w.rng.pct(50) {
                    Op::Release { who: w.m.gov.clone() }
                } else {
                    Op::Pause { who: w.m.gov.clone(), exp: Some(t + 10) }
                };
                w.step(ctx, &op);
            }
            ctx.obs("C09", &[60, want as u64, self.m.pause.map(|p| p.is_some()).is_some() as u64,
                self.m.pause.flatten().map(|e| (t >= e) as u64 + (t == e) as u64 + 1).unwrap_or(0), self.m.reb.is_some() as u64]);
        }
    }

    /// C10: everybody but governance tries every governance message
    pub fn probe_auth(&self, ctx: &mut Ctx) {
        let mut w = self.clone();
        let mut who = vec![USERS[0], GOV, GOV2, COLL, MGR, OUT, CORE];
        who.retain(|a| *a != self.m.gov);
        let a = w.rng.pick(&who).to_string();
        ctx.log(|| format!("probe: {a} tries governance messages"));
        let t = self.t();
        let d = w.denoms[0].clone();
        let ops = vec![
            Op::Pause { who: a.clone(), exp: Some(t + 100) },
            Op::Release { who: a.clone() },
            Op::UpdateGov { who: a.clone(), new: a.clone() },
            Op::RevokeGov { who: a.clone() },
            Op::UpdateFee { who: a.clone(), collector: a.clone(), mint: Some(E18 / 10), burn: None, stream: None },
            Op::UpdateManager { who: a.clone(), new: Some(a.clone()) },
            Op::UpdateReserve { who: a.clone(), denom: d.clone() },
            Op::UpdateInfo { who: a.clone(), denom: d, routes: vec![(1, RESERVE.into())], cooldown: 0, max: 1 },
        ];
        for op in ops {
            w.step(ctx, &op);
        }
        let mut op = w.gen_init(true);
        if let Op::Init { who, .. } = &mut op {
            *who = a.clone();
        }
        w.step(ctx, &op);
        if self.m.pending.as_deref() != Some(a.as_str()) {
            w.step(ctx, &Op::AcceptGov { who: a.clone() });
        } else {
            ctx.log(|| "probe: the successor accepts, the predecessor is powerless".into());
            let old = w.m.gov.clone();
            w.step(ctx, &Op::AcceptGov { who: a.clone() });
            w.step(ctx, &Op::AcceptGov { who: a.clone() });
            w.step(ctx, &Op::UpdateReserve { who: old.clone(), denom: "uold".into() });
            w.step(ctx, &Op::UpdateGov { who: old.clone(), new: old });
            w.step(ctx, &Op::UpdateGov { who: a.clone(), new: GOV.into() });
            w.step(ctx, &Op::RevokeGov { who: a.clone() });
            w.step(ctx, &Op::AcceptGov { who: GOV.into() });
        }
    }

    /// how much reserve each inflation asset may spend: exactly its allotment (C12, C13, C01)
    pub fn probe_reserve(&self, ctx: &mut Ctx) {
        let Some(reb) = self.m.reb.clone() else { return };
        if self.m.supply == 0 {
            return;
        }
        let rd = self.m.reserve_denom.clone();
        let who = reb.manager.clone().unwrap_or_else(|| OUT.to_string());
        ctx.log(|| "probe: spending each allotment".into());
        for (d, _) in &reb.infl {
            let mut w = self.clone();
            let have = dmul(reb.reserve.get(d).copied().unwrap_or(0), self.m.supply);
            if *d == rd {
                if reb.reserve.contains_key(d) {
                    w.step(ctx, &Op::Inflate { who: who.clone(), denom: d.clone(), ain: 0, min: 0 });
                }
                continue;
            }
            w.chain.st.pools.insert(
                9999,
                Pool {
                    id: 9999,
                    kind: Kind::Fixed(1, 1),
                    assets: vec![(rd.clone(), RICH, 1), (d.clone(), RICH * 100, 1)],
                    fee: 0,
                },
            );
            let op = Op::UpdateInfo {
                who: w.m.gov.clone(),
                denom: rd.clone(),
                routes: vec![(9999, d.clone())],
                cooldown: 0,
                max: RICH * 10,
            };
            w.step(ctx, &op);
            // everything the contract holds beyond what it owes is out of reach
            let held = w.chain.bal(CORE, &rd);
            for ain in [have + 1, have.saturating_mul(2) + 1, held.max(have + 2), have] {
                if ain == 0 {
                    continue;
                }
                let op = Op::Inflate { who: who.clone(), denom: d.clone(), ain, min: 0 };
                let could = ain > have;
                let ok = w.step(ctx, &op);
                if ok && could {
                    ctx.flag(&["C12", "C13", "C01"], format!("spent {ain}{rd} for {d}, allotted {have}"));
                    break;
                }
                if !ok && !could {
                    ctx.flag(&["C13"], format!("the allotment of {have}{rd} to {d} cannot be spent"));
                }
            }
            ctx.obs("C13", &[70, size(have), reb.infl.len() as u64, size(self.m.supply)]);
            ctx.obs("C12", &[70, size(have), reb.infl.len() as u64]);
        }
    }

    /// C15: page through a pair list
    pub fn probe_list(&self, ctx: &mut Ctx) {
        let mut rng = self.rng.clone();
        let mut ins: Vec<String> = self.m.infos.keys().map(|k| k.0.clone()).collect();
        ins.dedup();
        ins.push("unknown".into());
        let d = rng.pick(&ins).clone();
        let mut want: Vec<(String, Info)> =
            self.m.infos.iter().filter(|x| x.0 .0 == d).map(|x| (x.0 .1.clone(), x.1.clone())).collect();
        let desc = rng.pct(50);
        if desc {
            want.reverse();
        }
        let order = match (desc, rng.pct(50)) {
            (true, _) => Some("desc"),
            (false, true) => Some("asc"),
            (false, false) => None,
        };
        let limit: Option<u64> = match rng.below(7) {
            6 => Some(0),
            0 => None,
            1 => Some(30),
            2 => Some(1),
            3 => Some(31 + rng.below(100)),
            _ => Some(rng.range(1, 30) as u64),
        };
        let mut got: Vec<(String, Info)> = vec![];
        let mut start: Option<String> = None;
        let mut pages = 0;
        loop {
            let q = json!({"list_trade_info": {"denom_in": d, "start_after": start, "limit": limit, "order": order}});
            let r = self.chain.query(CORE, &q);
            if limit.is_some_and(|l| l > 30) {
                if r.is_ok() {
                    ctx.flag(&["C15"], format!("an oversized page is not refused: {q}"));
                }
                ctx.obs("C15", &[81]);
                return;
            }
            let v = match r {
                Ok(v) => v,
                Err(e) => {
                    ctx.flag(&["C15"], format!("{q} failed: {e}"));
                    return;
                }
            };
            let page: Option<Vec<((String, String), Info)>> =
                v.as_array().and_then(|a| a.iter().map(parse_info).collect());
            let Some(page) = page else {
                ctx.flag(&["C15"], format!("malformed answer {v}"));
                return;
            };
            if page.len() as u64 > limit.unwrap_or(10) {
                ctx.flag(&["C15"], format!("page of {} for {q}", page.len()));
            }
            if page.is_empty() {
                break;
            }
            for ((a, b), i) in page {
                if a != d {
                    ctx.flag(&["C15"], format!("pair {a} -> {b} listed under {d}"));
                }
                got.push((b, i));
            }
            start = got.last().map(|x| x.0.clone());
            pages += 1;
            if pages > 200 {
                break;
            }
        }
        if limit == Some(0) {
            want.clear();
        }
        if got != want {
            let names = |v: &[(String, Info)]| v.iter().map(|x| x.0.clone()).collect::<Vec<_>>();
            ctx.flag(&["C15"], format!("listing {d} order {order:?} limit {limit:?}: {:?}, expected {:?}", names(&got), names(&want)));
        }
        ctx.obs("C15", &[80, want.len() as u64, pages, limit.unwrap_or(0), desc as u64]);
        // a start that is not registered
        if !want.is_empty() {
            let k = format!("{}x", rng.pick(&want).0);
            let q = json!({"list_trade_info": {"denom_in": d, "start_after": k, "limit": 30, "order": order}});
            let exp: Vec<String> =
                want.iter().map(|x| x.0.clone()).filter(|x| if desc { *x < k } else { *x > k }).take(30).collect();
            let r = self.chain.query(CORE, &q).ok().and_then(|v| {
                v.as_array().map(|a| a.iter().filter_map(|i| js(&i["denom_out"])).collect::<Vec<_>>())
            });
            if r.as_ref() != Some(&exp) {
                ctx.flag(&["C15"], format!("{q} gives {r:?}, expected {exp:?}"));
            }
        }
    }

    pub fn probes(&self, ctx: &mut Ctx, rng: &mut Rng) {
        let mut go = |ctx: &Ctx, own: &[&str], a: u64, b: u64| rng.pct(if ctx.any(own) { a } else { b });
        if go(ctx, &["C01", "C03"], 10, 0) {
            self.probe_drain(ctx);
        }
        if go(ctx, &["C05"], 40, 0) {
            self.probe_attack(ctx);
        }
        if go(ctx, &["C08"], 45, 0) {
            self.probe_sim(ctx);
        }
        if go(ctx, &["C06", "C08", "C07"], 30, 1) {
            self.probe_future(ctx);
        }
        if go(ctx, &["C09"], 20, 0) {
            self.probe_pause(ctx);
        }
        if go(ctx, &["C10"], 25, 0) {
            self.probe_auth(ctx);
        }
        if go(ctx, &["C12", "C13", "C01"], 12, 0) {
            self.probe_reserve(ctx);
        }
        if go(ctx, &["C15"], 60, 0) {
            self.probe_list(ctx);
        }
    }
}

/// one random history of the core contract
pub fn random_history(ctx: &mut Ctx, rng: Rng) {
    let mut w = World::new(ctx, rng);
    if ctx.broken {
        return;
    }
    let mut prng = Rng::new(w.rng.next());
    w.register_all(ctx);
    if w.rng.pct(90) {
        let a = w.rng.range(1, w.scale);
        let op = w.op_mint(USERS[0], a);
        w.step(ctx, &op);
    }
    if ctx.any(&["C11", "C12", "C13", "C16", "C01", "C15"]) && w.rng.pct(60) {
        w.align(ctx);
        let op = w.gen_init(true);
        w.step(ctx, &op);
    }
    let n = w.rng.urange(20, 90);
    for _ in 0..n {
        if ctx.broken {
            return;
        }
        w.random_op(ctx);
        w.probes(ctx, &mut prng);
    }
}

/// C15: many pairs in the registry
pub fn registry_history(ctx: &mut Ctx, rng: Rng) {
    let mut w = World::new(ctx, rng);
    let n = w.rng.urange(1, 90);
    let ins: Vec<String> = ["uatom", "ua", "uatom2", "ibc/AB"].iter().map(|s| s.to_string()).collect();
    for _ in 0..n {
        if ctx.broken {
            return;
        }
        let denom = w.rng.pick(&ins).clone();
        let k = w.rng.range(0, 45);
        let out = match w.rng.below(3) {
            0 => format!("out{k}"),
            1 => format!("ibc/{k:04}"),
            _ => format!("{k}"),
        };
        let hops = w.rng.urange(1, 3);
        let mut routes: Vec<(u64, String)> =
            (0..hops - 1).map(|_| (w.rng.below(50), format!("mid{}", w.rng.below(4)))).collect();
        routes.push((w.rng.below(50), out));
        let op = Op::UpdateInfo {
            who: w.gov_sender(),
            denom,
            routes,
            cooldown: w.rng.below(100_000),
            max: w.rng.amount(RICH),
        };
        w.step(ctx, &op);
        if w.rng.pct(25) {
            w.rng.next();
            w.probe_list(ctx);
        }
    }
    for _ in 0..6 {
        w.rng.next();
        w.probe_list(ctx);
    }
}

/// C14/U01: instantiations inside and outside the bounds
pub fn instantiate_history(ctx: &mut Ctx, mut rng: Rng) {
    for _ in 0..20 {
        if ctx.broken {
            return;
        }
        let mut chain = Chain::new(1_700_000_000 + rng.below(1000));
        let mut w = World {
            chain: chain.clone(),
            m: new_model(CORE),
            rng: Rng::new(rng.next()),
            denoms: vec!["uosmo".into()],
            scale: 1_000_000,
            paused_ever: false,
            reb_ever: false,
            gov_ever: false,
            next_pool: 1,
            steps: 0,
            wild: false,
        };
        let Op::UpdateFee { collector, mint, burn, stream, .. } = w.gen_update_fee(true) else { unreachable!() };
        let n = rng.urange(0, 5);
        let names = ["uosmo", "uatom", "ibc/X", "wei", "zz", "ua"];
        let mut units: Vec<(String, u128)> =
            (0..n).map(|i| (names[i].to_string(), World::gen_unit(&mut rng))).collect();
        let mut dup = false;
        if n > 0 && rng.pct(20) {
            let i = rng.below(n as u64) as usize;
            let x = units[i].clone();
            let at = rng.below(n as u64 + 1) as usize;
            units.insert(at, (x.0, World::gen_unit(&mut rng)));
            dup = true;
        }
        let gov = if rng.pct(8) { "x" } else { GOV };
        let msg = World::inst_json(gov, fee_json(&collector, mint, burn, stream), "idx", &units, RESERVE);
        let bounds = rate_ok(mint) && rate_ok(burn) && !stream.is_some_and(|(r, _)| r == 0 || r > MAX_STREAM);
        let addrs = valid_addr(&collector) && valid_addr(gov);
        let r = chain.instantiate(Code::Core, CORE, OUT, &msg, &vec![]);
        ctx.count("instantiations");
        ctx.log(|| format!("instantiate {msg} -> {r:?}"));
        let sig = [90, bounds as u64, addrs as u64, dup as u64, n as u64, mint.is_some() as u64, burn.is_some() as u64, stream.is_some() as u64];
        ctx.obs("C14", &sig);
        ctx.obs("U01", &sig);
        let want = bounds && addrs && !dup;
        if r.is_ok() && !want {
            let mut tags = vec![];
            if !bounds {
                tags.push("C14");
            }
            if !addrs || dup {
                tags.push("U01");
            }
            ctx.flag(&tags, format!("accepted an instantiation that must be refused: {msg}"));
            continue;
        }
        if let (true, Err(e)) = (want, &r) {
            ctx.flag(&["C14", "U01"], format!("refused a valid instantiation: {e}"));
            continue;
        }
        if !want {
            continue;
        }
        w.chain = chain;
        let t = w.t();
        w.m = M {
            core: CORE.into(),
            gov: GOV.into(),
            index: format!("factory/{CORE}/idx"),
            reserve_denom: RESERVE.into(),
            collector,
            mint_fee: mint,
            burn_fee: burn,
            stream: stream.map(|(rate, freeze)| Stream { rate, freeze, last: t, collected: Map::new() }),
            units: units.into_iter().collect(),
            ..Default::default()
        };
        // the refused transaction only triggers the comparison of everything that can be queried
        let before = ctx.counters.values().sum::<u64>();
        w.step(ctx, &Op::Release { who: OUT.into() });
        let _ = before;
        if ctx.is("U01") {
            let c = q_conf(&w.chain, CORE, None);
            let p = q_port(&w.chain, CORE, None);
            let f = q_fee(&w.chain, CORE, None);
            let r = q_reb(&w.chain, CORE);
            let ok = matches!(&c, Ok(c) if c.gov == GOV && c.pending.is_none() && !c.paused && c.index == w.m.index && c.reserve == RESERVE)
                && matches!(&p, Ok(p) if p.supply == 0 && p.units.iter().cloned().collect::<Map>() == w.m.units && p.units.len() == w.m.units.len())
                && matches!(&f, Ok(f) if f.collector == w.m.collector && f.mint == mint && f.burn == burn)
                && matches!(&r, Ok(None));
            if !ok {
                ctx.flag(&["U01"], format!("state after instantiation {c:?} {p:?} {f:?} {r:?}"));
            }
        }
    }
}

/// C16: a rebalance whose pairs have routes, limits and liquidity is carried through to the end
pub fn completion_history(ctx: &mut Ctx, rng: Rng) {
    let mut w = World::new(ctx, rng);
    carry_through(ctx, &mut w);
    // life goes on
    let mut prng = Rng::new(w.rng.next());
    if ctx.is("C16") {
        return;
    }
    let n = w.rng.urange(5, 40);
    for _ in 0..n {
        if ctx.broken {
            return;
        }
        w.random_op(ctx);
        w.probes(ctx, &mut prng);
    }
}

fn carry_through(ctx: &mut Ctx, w: &mut World) {
    if w.rng.pct(30) {
        let denom = match w.rng.below(3) {
            0 => "unewreserve".to_string(),
            _ => w.rng.pick(&w.denoms.clone()).clone(),
        };
        w.step(ctx, &Op::UpdateReserve { who: GOV.into(), denom });
    }
    // pools at a fixed price for everything, so that every gap can be sold exactly
    let rd = w.m.reserve_denom.clone();
    w.chain.st.pools.clear();
    let mut id = 100;
    let mut ops = vec![];
    for d in w.denoms.clone() {
        if d == rd {
            continue;
        }
        id += 1;
        w.chain.st.pools.insert(
            id,
            Pool { id, kind: Kind::Fixed(1, 1), assets: vec![(d.clone(), RICH, 1), (rd.clone(), RICH, 1)], fee: 0 },
        );
        let cd = *w.rng.pick(&[0, 10, 3600]);
        let max = if w.rng.pct(30) { w.scale.max(40) / 20 * 20 } else { RICH };
        ops.push(Op::UpdateInfo { who: GOV.into(), denom: d.clone(), routes: vec![(id, rd.clone())], cooldown: cd, max });
        ops.push(Op::UpdateInfo { who: GOV.into(), denom: rd.clone(), routes: vec![(id, d)], cooldown: cd, max });
    }
    for op in &ops {
        w.step(ctx, op);
    }
    let a = w.rng.range(1000, w.scale.clamp(1001, 10u128.pow(15)));
    let op = w.op_mint(USERS[0], a);
    w.step(ctx, &op);
    let rounds = w.rng.urange(1, 3);
    for round in 0..rounds {
        if ctx.broken {
            return;
        }
        let dt = w.rng.range(1, 86_400) as u64;
        if !w.rate_over(w.t() + dt) {
            w.advance(ctx, dt);
        }
        w.step(ctx, &Op::Realize { who: w.m.collector.clone() });
        if !w.align(ctx) {
            return;
        }
        let s = w.m.supply;
        let grid = E18 / s * 20;
        // plan: gaps that are multiples of 20 base units, weights dividing 20
        let have: Vec<(String, u128)> = w.m.units.iter().map(|(a, b)| (a.clone(), *b)).collect();
        let mut defl = vec![];
        for (d, u) in &have {
            if w.rng.pct(60) || (defl.is_empty() && *d == have.last().unwrap().0) {
                let k = w.rng.range(0, u / grid);
                let k = if w.rng.pct(40) { u / grid } else { k };
                defl.push((d.clone(), u - k * grid));
            }
        }
        let mut rest: Vec<String> = w.denoms.iter().filter(|d| !defl.iter().any(|x| x.0 == **d)).cloned().collect();
        if !rest.contains(&rd) && !defl.iter().any(|x| x.0 == rd) {
            rest.push(rd.clone());
        }
        if rest.is_empty() {
            return;
        }
        for i in (1..rest.len()).rev() {
            let j = w.rng.below(i as u64 + 1) as usize;
            rest.swap(i, j);
        }
        let weights: &[u128] = match w.rng.below(if rest.len() > 3 { 10 } else { 5 }) {
            5 => &[1, 1, 1, 1],
            6 => &[2, 4, 3, 1],
            7 => &[1, 1, 1, 1, 1],
            8 => &[10, 3, 4, 1, 2],
            9 => &[1, 1, 1, 1, 1, 1, 1, 1, 1, 1],
            0 => &[1],
            1 => &[1, 1],
            2 => &[1, 3],
            3 => &[4, 1],
            _ => &[1, 1, 2],
        };
        let k = E18 / *w.rng.pick(&[1u128, 10, 4]);
        let infl: Vec<(String, u128)> =
            rest.iter().zip(weights.iter().cycle()).take(weights.len()).map(|(d, x)| (d.clone(), x * k)).collect();
        let infl = match infl.len() {
            n if n == weights.len() => infl,
            n if n >= 5 => infl.into_iter().take(5).map(|(d, _)| (d, E18)).collect(),
            _ => vec![(infl[0].0.clone(), E18)],
        };
        let manager = if w.rng.pct(70) { Some(MGR.to_string()) } else { None };
        let op = Op::Init { who: GOV.into(), manager: manager.clone(), defl: defl.clone(), infl: infl.clone() };
        if !w.step(ctx, &op) {
            return;
        }
        let who = manager.unwrap_or_else(|| OUT.to_string());
        let mut trades = 0;
        let mut done = false;
        // every trade below must go through; the order is random, sales may be split
        for _ in 0..400 {
            if ctx.broken {
                return;
            }
            let reb = w.m.reb.clone().unwrap();
            let mut todo: Vec<Op> = vec![];
            for (d, target) in &reb.defl {
                let gap = dmul(w.m.units[d] - target, s);
                if gap == 0 {
                    continue;
                }
                if *d == rd {
                    todo.push(Op::Deflate { who: who.clone(), denom: d.clone(), out: 0, max_in: 0 });
                    continue;
                }
                let i = &w.m.infos[&(d.clone(), rd.clone())];
                let mut out = gap.min(i.max);
                if w.rng.pct(30) && trades < 60 {
                    out = (w.rng.range(20, out) / 20 * 20).max(20);
                }
                todo.push(Op::Deflate { who: who.clone(), denom: d.clone(), out, max_in: out });
            }
            for (d, r) in &reb.reserve {
                let have = dmul(*r, s);
                if have == 0 {
                    continue;
                }
                if *d == rd {
                    todo.push(Op::Inflate { who: who.clone(), denom: d.clone(), ain: 0, min: 0 });
                    continue;
                }
                let i = &w.m.infos[&(rd.clone(), d.clone())];
                let mut ain = have.min(i.max);
                if w.rng.pct(20) && trades < 60 {
                    ain = w.rng.range(1, ain);
                }
                todo.push(Op::Inflate { who: who.clone(), denom: d.clone(), ain, min: ain });
            }
            if todo.is_empty() {
                done = true;
                break;
            }
            let op = w.rng.pick(&todo).clone();
            let key = match &op {
                Op::Deflate { denom, .. } => (denom.clone(), rd.clone()),
                Op::Inflate { denom, .. } => (rd.clone(), denom.clone()),
                _ => unreachable!(),
            };
            if key.0 != key.1 {
                let i = &w.m.infos[&key];
                if let Some(l) = i.last {
                    let dt = (l + i.cooldown).saturating_sub(w.t());
                    w.advance(ctx, dt);
                }
            }
            if w.rng.pct(5) {
                // not yet
                w.step(ctx, &Op::Finalize { who: who.clone() });
            }
            if !w.step(ctx, &op) {
                ctx.flag(&["C16"], format!("a trade of the plan was refused: {}", op.json()));
                return;
            }
            trades += 1;
        }
        if !done {
            ctx.count("plans_too_long_to_follow");
            return;
        }
        let op = Op::Finalize { who: who.clone() };
        let ok = w.step(ctx, &op);
        if !ok {
            ctx.flag(&["C16"], format!("the plan was followed to its end in {trades} trades but finalisation is refused"));
            return;
        }
        if w.m.paused(w.t()) {
            return;
        }
        let op = w.op_mint(USERS[1], 10_000);
        let a = w.step(ctx, &op);
        let who = w.holders()[0].clone();
        let op = Op::Burn { who, funds: vec![(w.m.index.clone(), 1)], redeem: None };
        let b = w.step(ctx, &op);
        if !a || !b {
            ctx.flag(&["C16"], "minting and burning do not work after finalisation".into());
        }
        ctx.obs("C16", &[size(s), defl.len() as u64, infl.len() as u64, trades, round as u64, size(w.scale)]);
        ctx.count("completed_rebalances");
    }
}

// -------------------------------------------------------------------- fixed probes for findings

pub fn fixed_world(units: &[(String, u128)], stream: Option<(u128, bool)>) -> World {
    let mut chain = Chain::new(1_700_000_000);
    for u in USERS.iter() {
        for (d, _) in units {
            chain.give(u, d, RICH);
        }
    }
    let mut m = new_model(CORE);
    m.gov = GOV.into();
    m.reserve_denom = RESERVE.into();
    m.collector = COLL.into();
    m.stream = stream.map(|(rate, freeze)| Stream { rate, freeze, last: chain.time, collected: Map::new() });
    m.units = units.iter().cloned().collect();
    let msg = World::inst_json(GOV, fee_json(COLL, None, None, stream), "index", units, RESERVE);
    let _ = chain.instantiate(Code::Core, CORE, OUT, &msg, &vec![]);
    World {
        chain,
        m,
        rng: Rng::new(1),
        denoms: units.iter().map(|u| u.0.clone()).collect(),
        scale: 1_000_000,
        paused_ever: false,
        reb_ever: false,
        gov_ever: false,
        next_pool: 1,
        steps: 0,
        wild: false,
    }
}

/// finding F-C16-dust: amounts are whole base units, finalisation wants exact zeros
pub fn finding_dust(ctx: &mut Ctx) -> bool {
    let mut w = fixed_world(&[("uatom".into(), E18)], None);
    let op = w.op_mint(USERS[0], 1_000_001);
    w.step(ctx, &op);
    for (id, d) in [(1, "uatom"), (2, "uosmo")] {
        let p = Pool { id, kind: Kind::Fixed(1, 1), assets: vec![(d.into(), RICH, 1), (RESERVE.into(), RICH, 1)], fee: 0 };
        w.chain.st.pools.insert(id, p);
    }
    let g = GOV.to_string();
    w.step(ctx, &Op::UpdateInfo { who: g.clone(), denom: "uatom".into(), routes: vec![(1, RESERVE.into())], cooldown: 0, max: RICH });
    w.step(ctx, &Op::UpdateInfo { who: g.clone(), denom: RESERVE.into(), routes: vec![(2, "uosmo".into())], cooldown: 0, max: RICH });
    let target = E18 / 10 * 7;
    w.step(ctx, &Op::Init { who: g.clone(), manager: None, defl: vec![("uatom".into(), target)], infl: vec![("uosmo".into(), E18)] });
    let mut stuck = 0;
    for _ in 0..20 {
        let Some(r) = w.m.reb.clone() else { return false };
        let gap = dmul(w.m.units["uatom"] - target, w.m.supply);
        let res = dmul(r.reserve.get("uosmo").copied().unwrap_or(0), w.m.supply);
        let mut any = false;
        if gap > 0 {
            any |= w.step(ctx, &Op::Deflate { who: OUT.into(), denom: "uatom".into(), out: gap, max_in: gap });
        }
        if res > 0 {
            any |= w.step(ctx, &Op::Inflate { who: OUT.into(), denom: "uosmo".into(), ain: res, min: 0 });
        }
        if w.step(ctx, &Op::Finalize { who: OUT.into() }) {
            return false;
        }
        if !any {
            stuck += 1;
        }
    }
    stuck > 10
}

/// finding F-C16-route: a venue that refuses equal in and out denoms never executes a deflation
pub fn finding_route(ctx: &mut Ctx) -> bool {
    let mut w = fixed_world(&[("uatom".into(), E18)], None);
    let op = w.op_mint(USERS[0], 1_000_000);
    w.step(ctx, &op);
    for (id, d) in [(1, "uatom"), (2, "uosmo")] {
        let p = Pool { id, kind: Kind::Fixed(1, 1), assets: vec![(d.into(), RICH, 1), (RESERVE.into(), RICH, 1)], fee: 0 };
        w.chain.st.pools.insert(id, p);
    }
    let g = GOV.to_string();
    w.step(ctx, &Op::UpdateInfo { who: g.clone(), denom: "uatom".into(), routes: vec![(1, RESERVE.into())], cooldown: 0, max: RICH });
    w.step(ctx, &Op::Init { who: g, manager: None, defl: vec![("uatom".into(), 0)], infl: vec![("uosmo".into(), E18)] });
    w.chain.strict = true;
    let op = Op::Deflate { who: OUT.into(), denom: "uatom".into(), out: 1000, max_in: 1000 };
    w.chain.exec(OUT, CORE, &op.json(), &vec![]).is_err()
}

/// finding F-C03-rate: the accrual factor reaches one and everything stops
pub fn finding_rate(ctx: &mut Ctx) -> bool {
    let mut w = fixed_world(&[("uatom".into(), E18)], Some((MAX_STREAM, false)));
    let op = w.op_mint(USERS[0], 1_000_000);
    w.step(ctx, &op);
    w.chain.advance(370 * 86_400);
    let r = w.chain.exec(USERS[0], CORE, &json!({"burn": {"redeem_to": null}}), &vec![(w.m.index.clone(), 1000)]);
    r.is_err()
}

/// finding F-C16-empty: without supply a started rebalance with a gap cannot be finished
pub fn finding_empty(ctx: &mut Ctx) -> bool {
    let mut w = fixed_world(&[("uatom".into(), E18)], None);
    w.chain.st.pools.insert(1, Pool { id: 1, kind: Kind::Fixed(1, 1), assets: vec![("uatom".into(), RICH, 1), (RESERVE.into(), RICH, 1)], fee: 0 });
    let g = GOV.to_string();
    w.step(ctx, &Op::UpdateInfo { who: g.clone(), denom: "uatom".into(), routes: vec![(1, RESERVE.into())], cooldown: 0, max: RICH });
    w.step(ctx, &Op::Init { who: g, manager: None, defl: vec![("uatom".into(), 0)], infl: vec![("uosmo".into(), E18)] });
    if w.m.reb.is_none() {
        return false;
    }
    let a = w.chain.exec(OUT, CORE, &Op::Deflate { who: OUT.into(), denom: "uatom".into(), out: 1, max_in: RICH }.json(), &vec![]);
    let b = w.chain.exec(OUT, CORE, &json!({"rebalance": {"finalize": {}}}), &vec![]);
    a.is_err() && b.is_err()
}
