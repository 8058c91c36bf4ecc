//! The monitored core contract: one world, its operations and the comparison of everything that
//! can be observed (bank, events, queries) with the reference semantics after each transaction.
use serde_json::{json, Value};

use crate::chain::*;
use crate::coremodel::*;
use crate::ctx::*;
use crate::util::*;
use crate::venue::{Kind, Pool};

pub const CORE: &str = "osmo1core0contract";
pub const GOV: &str = "osmo1gov000";
pub const GOV2: &str = "osmo1gov2nd";
pub const COLL: &str = "osmo1collector";
pub const COLL2: &str = "osmo1collector2";
pub const MGR: &str = "osmo1manager";
pub const OUT: &str = "osmo1outsider";
pub const ATT: &str = "osmo1attacker";
pub const USERS: [&str; 4] = ["osmo1alice0", "osmo1bobby0", "osmo1carol0", "osmo1david0"];
pub const RICH: u128 = 1_000_000_000_000_000_000_000_000_000_000_000; // 1e33

pub fn js(v: &Value) -> Option<String> {
    v.as_str().map(|s| s.to_string())
}
pub fn ju(v: &Value) -> Option<u128> {
    match v {
        Value::String(s) => s.parse().ok(),
        Value::Number(n) => n.as_u64().map(|v| v as u128),
        _ => None,
    }
}
pub fn jdec(v: &Value) -> Option<u128> {
    parse_dec(v.as_str()?)
}
pub fn jcoins(v: &Value) -> Option<Coins> {
    v.as_array()?.iter().map(|c| Some((js(&c["denom"])?, ju(&c["amount"])?))).collect()
}
pub fn junits(v: &Value) -> Option<Vec<(String, u128)>> {
    v.as_array()?.iter().map(|c| Some((js(&c[0])?, jdec(&c[1])?))).collect()
}
pub fn nz(v: &Map) -> Map {
    v.iter().filter(|x| *x.1 > 0).map(|(a, b)| (a.clone(), *b)).collect()
}
pub fn cmap(v: &Coins) -> Map {
    let mut m = Map::new();
    for (d, a) in v {
        *m.entry(d.clone()).or_default() += a;
    }
    nz(&m)
}

#[derive(Clone, Debug, PartialEq)]
pub struct FeeQ {
    pub collector: String,
    pub mint: Option<u128>,
    pub burn: Option<u128>,
    pub stream: Option<Stream>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct PortQ {
    pub supply: u128,
    pub assets: Coins,
    pub units: Vec<(String, u128)>,
}

pub fn q_fee(c: &Chain, core: &str, t: Option<u64>) -> R<FeeQ> {
    let v = c.query(core, &json!({"get_fee": {"time": t}}))?;
    let od = |x: &Value| if x.is_null() { Some(None) } else { jdec(x).map(Some) };
    (|| {
        let s = &v["streaming_fee"];
        let stream = if s.is_null() {
            None
        } else {
            Some(Stream {
                rate: jdec(&s["rate"])?,
                freeze: s["freeze"].as_bool()?,
                last: s["last_collected_at"].as_u64()?,
                collected: {
                    let c = jcoins(&s["collected"])?;
                    let m = cmap(&c);
                    m
                },
            })
        };
        Some(FeeQ { collector: js(&v["collector"])?, mint: od(&v["mint_fee"])?, burn: od(&v["burn_fee"])?, stream })
    })()
    .ok_or_else(|| format!("malformed fee answer {v}"))
}

pub fn q_port(c: &Chain, core: &str, t: Option<u64>) -> R<PortQ> {
    let v = c.query(core, &json!({"get_portfolio": {"time": t}}))?;
    (|| Some(PortQ { supply: ju(&v["total_supply"])?, assets: jcoins(&v["assets"])?, units: junits(&v["units"])? }))()
        .ok_or_else(|| format!("malformed portfolio answer {v}"))
}

#[derive(Clone, Debug, PartialEq)]
pub struct ConfQ {
    pub gov: String,
    pub pending: Option<String>,
    pub paused: bool,
    pub expires: Option<u64>,
    pub index: String,
    pub reserve: String,
}
pub fn q_conf(c: &Chain, core: &str, t: Option<u64>) -> R<ConfQ> {
    let v = c.query(core, &json!({"get_config": {"time": t}}))?;
    (|| {
        Some(ConfQ {
            gov: js(&v["gov"])?,
            pending: js(&v["pending_gov"]),
            paused: v["paused"]["paused"].as_bool()?,
            expires: v["paused"]["expires_at"].as_u64(),
            index: js(&v["index_denom"])?,
            reserve: js(&v["reserve_denom"])?,
        })
    })()
    .ok_or_else(|| format!("malformed config answer {v}"))
}

pub type RebQ = Option<(Option<String>, Vec<(String, u128)>, Vec<(String, u128)>)>;
pub fn q_reb(c: &Chain, core: &str) -> R<RebQ> {
    let v = c.query(core, &json!({"get_rebalance": {}}))?;
    let r = &v["rebalance"];
    if r.is_null() {
        return Ok(None);
    }
    (|| Some(Some((js(&r["manager"]), junits(&r["deflation"])?, junits(&r["inflation"])?))))()
        .ok_or_else(|| format!("malformed rebalance answer {v}"))
}

pub fn parse_info(v: &Value) -> Option<((String, String), Info)> {
    let routes = v["routes"]
        .as_array()?
        .iter()
        .map(|r| Some((r["pool_id"].as_u64()?, js(&r["token_denom"])?)))
        .collect::<Option<Vec<_>>>()?;
    Some((
        (js(&v["denom_in"])?, js(&v["denom_out"])?),
        Info {
            routes,
            cooldown: v["cooldown"].as_u64()?,
            max: ju(&v["max_trade_amount"])?,
            last: v["last_traded_at"].as_u64(),
        },
    ))
}
pub fn q_info(c: &Chain, core: &str, a: &str, b: &str) -> R<Option<Info>> {
    let v = c.query(core, &json!({"get_trade_info": {"denom_in": a, "denom_out": b}}))?;
    let i = &v["trade_info"];
    if i.is_null() {
        return Ok(None);
    }
    let (k, i) = parse_info(i).ok_or_else(|| format!("malformed trade info {v}"))?;
    if k != (a.to_string(), b.to_string()) {
        return Err(format!("trade info under the wrong pair: {v}"));
    }
    Ok(Some(i))
}

#[derive(Clone)]
pub struct World {
    pub chain: Chain,
    pub m: M,
    pub rng: Rng,
    pub denoms: Vec<String>,
    pub scale: u128,
    pub paused_ever: bool,
    pub reb_ever: bool,
    pub gov_ever: bool,
    pub next_pool: u64,
    pub steps: u64,
    pub wild: bool,
}

const DENOMS: [&str; 15] = [
    "uosmo",
    "uatom",
    "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2",
    "factory/osmo1zzz/token",
    "uaxl",
    "wei",
    "ibc/0CD3A0285E1341859B5E86B6AB7682F023D03E97607CCC1DC95706411D866DF7",
    "ujuno",
    "zz",
    "uato",
    "uatomx",
    "factory/osmo1zzz/token2",
    "gamm/pool/1",
    "uUSDC",
    "ibc/F",
];
pub const RESERVE: &str = "uusdc";
/// names that differ in their case, or begin with one another, or resemble the reserve or index denom
const ALIKE: [[&str; 4]; 4] = [
    ["uatom", "uato", "uatomx", "uAtom"],
    ["factory/osmo1zzz/token", "factory/osmo1zzz/token2", "factory/osmo1zzz/Token", "factory/osmo1zzz"],
    ["uusd", "uusdcx", "uUSDC", "Uusdc"],
    ["index", "factory/osmo1zzz/index", "ibc/F", "ibc/f"],
];

pub fn new_model(core: &str) -> M {
    M { core: core.into(), index: format!("factory/{core}/index"), ..Default::default() }
}

impl World {
    pub fn inst_json(gov: &str, fee: Value, denom: &str, units: &[(String, u128)], reserve: &str) -> Value {
        json!({"gov": gov, "fee": fee, "index_denom": denom, "index_units": units_json(units), "reserve_denom": reserve})
    }

    /// a world with random portfolio, fees and pools; scale: rough size of the index supply
    pub fn new(ctx: &mut Ctx, rng: Rng) -> World {
        Self::new_with(ctx, rng, false)
    }

    /// `sane`: units, fees and sizes as of a product in use, nothing degenerate
    pub fn new_with(ctx: &mut Ctx, mut rng: Rng, sane: bool) -> World {
        let scale = match rng.below(10) {
            // tokens of eighteen decimals too
            9 if sane => 10u128.pow(rng.below(6) as u32 + 16),
            _ if sane => 10u128.pow(rng.below(5) as u32 + 6),
            0 => 10u128.pow(rng.below(4) as u32 + 1),
            1 => 10u128.pow(rng.below(5) as u32 + 20),
            2 => 10u128.pow(rng.below(20) as u32 + 1),
            _ => 10u128.pow(rng.below(9) as u32 + 6),
        };
        let n = if rng.pct(4) { rng.urange(6, 13) } else { rng.urange(1, 5) };
        let mut ds: Vec<String> = DENOMS.iter().map(|s| s.to_string()).collect();
        // shuffle
        for i in (1..ds.len()).rev() {
            let j = rng.below(i as u64 + 1) as usize;
            ds.swap(i, j);
        }
        if rng.pct(15) {
            let mut like: Vec<&str> = rng.pick(&ALIKE).to_vec();
            like.sort_by_key(|_| rng.next());
            ds.retain(|d| !like.contains(&d.as_str()));
            for d in like {
                ds.insert(0, d.into());
            }
        }
        let with_reserve = rng.pct(30);
        let mut units = vec![];
        for i in 0..n {
            let d = if i == 0 && with_reserve { RESERVE.to_string() } else { ds[i].clone() };
            let u = if sane { rng.range(E18 / 1000, 20 * E18) } else { Self::gen_unit(&mut rng) };
            units.push((d, u));
        }
        let t0 = 1_700_000_000 + rng.below(1_000_000);
        let mut chain = Chain::new(t0);
        chain.nanos = rng.below(1_000_000_000);
        for u in USERS.iter().chain([&ATT, &OUT, &GOV, &COLL]) {
            for d in ds.iter().map(|s| s.as_str()).chain([RESERVE, "unewreserve"]) {
                chain.give(u, d, RICH);
            }
        }
        let mut m = new_model(CORE);
        m.gov = GOV.into();
        m.reserve_denom = RESERVE.into();
        m.collector = COLL.into();
        let rate = |rng: &mut Rng| match Self::gen_rate(rng) {
            Some(r) if sane && r > E18 / 2 => Some(E18 / 100),
            r => r,
        };
        m.mint_fee = rate(&mut rng);
        m.burn_fee = rate(&mut rng);
        let stream = Self::gen_stream(&mut rng, ctx.any(&["C06", "C07", "C08", "C01"]));
        m.stream = stream.map(|(rate, freeze)| Stream { rate, freeze, last: t0, collected: Map::new() });
        m.units = units.iter().cloned().collect();
        let msg = Self::inst_json(GOV, fee_json(COLL, m.mint_fee, m.burn_fee, stream), "index", &units, RESERVE);
        ctx.log(|| format!("t={t0} instantiate core {msg}"));
        if let Err(e) = chain.instantiate(Code::Core, CORE, OUT, &msg, &vec![]) {
            ctx.flag(&["U01", "C14"], format!("valid instantiation refused: {e}"));
        }
        let denoms = {
            let mut v: Vec<String> = ds[..(n + 2).min(ds.len())].to_vec();
            if with_reserve {
                v.push(RESERVE.into());
            }
            v
        };
        let mut w = World {
            chain,
            m,
            rng,
            denoms,
            scale,
            paused_ever: false,
            reb_ever: false,
            gov_ever: false,
            next_pool: 1,
            steps: 0,
            wild: false,
        };
        w.wild = w.rng.pct(30);
        w.make_pools();
        w
    }

    pub fn gen_unit(rng: &mut Rng) -> u128 {
        match rng.below(12) {
            0 => E18,
            1 => rng.range(1, 1000),
            2 => rng.range(1, 1_000_000_000_000),
            3 => E18 * rng.range(1, 1000),
            4 => rng.range(E18, 1000 * E18),
            5 => E18 / 10u128.pow(rng.below(7) as u32),
            6 if rng.pct(20) => 0,
            _ => rng.range(E18 / 10_000, 20 * E18),
        }
    }
    pub fn gen_rate(rng: &mut Rng) -> Option<u128> {
        match rng.below(8) {
            0 | 1 | 2 => None,
            3 => Some(E18 / 1000 * rng.range(1, 50)),
            4 => Some(rng.range(1, 1_000_000)),
            5 => Some(E18 - rng.range(1, E18 / 10)),
            _ => Some(rng.range(E18 / 10_000, E18 / 10)),
        }
    }
    pub fn gen_stream(rng: &mut Rng, want: bool) -> Option<(u128, bool)> {
        if rng.pct(if want { 12 } else { 35 }) {
            return None;
        }
        let r = match rng.below(6) {
            0 => MAX_STREAM,
            1 => rng.range(1, 100),
            2 => rng.range(1, MAX_STREAM),
            _ => rng.range(300_000_000, 3_000_000_000),
        };
        Some((r, rng.pct(12)))
    }

    fn make_pools(&mut self) {
        // one or two pools per asset against the reserve, one between assets for two-hop routes
        let ds: Vec<String> = self.denoms.iter().filter(|d| *d != RESERVE).cloned().collect();
        for d in &ds {
            self.add_pool(d, RESERVE);
            if self.rng.pct(40) {
                self.add_pool(d, RESERVE);
            }
        }
        for i in 1..ds.len() {
            let (a, b) = (ds[i - 1].clone(), ds[i].clone());
            self.add_pool(&a, &b);
        }
        if self.rng.pct(20) {
            // one pool of many assets, which a route may pass through several times
            let (lo, hi) = (self.scale.max(1000), self.scale.saturating_mul(1000).max(1_000_000));
            let id = self.next_pool;
            self.next_pool += 1;
            let mut assets: Vec<(String, u128, u128)> = vec![(RESERVE.into(), self.rng.range(lo, hi), 1)];
            for d in ds.iter().take(7) {
                assets.push((d.clone(), self.rng.range(lo, hi), 1));
            }
            let fee = *self.rng.pick(&[0, E18 / 1000, E18 / 10_000]);
            self.chain.st.pools.insert(id, Pool { id, kind: Kind::Stable, assets, fee });
        }
    }

    /// a pool between every asset and the reserve denom
    pub fn connect_reserve(&mut self) {
        let rd = self.m.reserve_denom.clone();
        for d in self.denoms.clone() {
            if d != rd && !self.chain.st.pools.values().any(|p| p.has(&d) && p.has(&rd)) {
                self.add_pool(&d, &rd);
            }
        }
    }

    pub fn add_pool(&mut self, a: &str, b: &str) -> u64 {
        let id = self.next_pool;
        self.next_pool += 1;
        let (lo, hi) = (self.scale.max(1000), self.scale.saturating_mul(1000).max(1_000_000));
        let mut assets = vec![
            (a.to_string(), self.rng.range(lo, hi), 1u128),
            (b.to_string(), self.rng.range(lo, hi), 1u128),
        ];
        let kind = match self.rng.below(10) {
            0..=3 => Kind::Fixed(1, 1),
            4 => Kind::Fixed(self.rng.range(1, 1000), self.rng.range(1, 1000)),
            5 => Kind::Stable,
            _ => Kind::Cl,
        };
        let fee = if matches!(kind, Kind::Fixed(..)) {
            for x in assets.iter_mut() {
                x.1 = RICH;
            }
            0
        } else {
            *self.rng.pick(&[0, E18 / 1000 * 3, E18 / 100, E18 / 10_000])
        };
        if self.rng.pct(50) {
            assets.swap(0, 1);
        }
        self.chain.st.pools.insert(id, Pool { id, kind, assets, fee });
        id
    }

    pub fn t(&self) -> u64 {
        self.chain.time
    }
    pub fn user(&mut self) -> String {
        self.rng.pick(&USERS).to_string()
    }
    /// total index supply held by one account
    pub fn ibal(&self, a: &str) -> u128 {
        self.chain.bal(a, &self.m.index)
    }

    pub fn ever_tags(&self, base: &[&'static str], op: &Op) -> Vec<&'static str> {
        let mut v = base.to_vec();
        if matches!(op, Op::Mint { .. } | Op::Burn { .. }) {
            if self.paused_ever {
                v.push("C09");
            }
            if self.reb_ever {
                v.push("C11");
                v.push("C16");
            }
        }
        if self.gov_ever && op.who() == self.m.gov {
            v.push("C10");
        }
        v
    }

    /// Execute and compare. Returns whether the transaction went through.
    pub fn step(&mut self, ctx: &mut Ctx, op: &Op) -> bool {
        self.step_skew(ctx, op, 0)
    }

    pub fn step_skew(&mut self, ctx: &mut Ctx, op: &Op, skew: i128) -> bool {
        let t = self.t();
        let before = self.chain.st.bank.clone();
        let m0 = self.m.clone();
        let mut m1 = self.m.clone();
        let pred = m1.apply(op, t, &self.chain.st.pools, skew, !self.chain.strict);
        self.chain.skew = skew;
        let got = self.chain.exec(op.who(), CORE, &op.json(), &op.funds());
        self.chain.skew = 0;
        self.steps += 1;
        ctx.count("tx");
        ctx.count(&format!("op_{}_{}", op.name(), if got.is_ok() { "ok" } else { "refused" }));
        ctx.log(|| {
            format!(
                "t={t} {} sends {} funds {}{} -> {}",
                op.who(),
                op.json(),
                coins_str(&op.funds()),
                if skew != 0 { format!(" while the market moves by {skew}e-4") } else { String::new() },
                match &got {
                    Ok(()) => "ok".to_string(),
                    Err(e) => format!("refused: {}", e.chars().take(160).collect::<String>()),
                }
            )
        });
        self.observe(ctx, op, &m0, &pred, &got);
        match (&pred, &got) {
            (Ok(d), Ok(())) => {
                let real = Chain::diff(&before, &self.chain.st.bank);
                self.m = m1;
                if real != *d {
                    self.bank_mismatch(ctx, op, &m0, d, &real);
                }
                if let Op::Deflate { denom, .. } | Op::Inflate { denom, .. } = op {
                    self.check_route(ctx, op, denom);
                }
            }
            (Err(_), Err(_)) => {
                if before != self.chain.st.bank {
                    ctx.flag(&["C10", "C02"], "a refused transaction moved coins".into());
                }
            }
            (Err(Why::RateOver), Ok(())) => {
                self.resync(ctx);
            }
            (Err(w), Ok(())) => {
                let mut tags = w.tags().to_vec();
                if *w == Why::NotDone {
                    tags.push("C13");
                }
                ctx.flag(&tags, format!("{} succeeded although it must be refused ({w:?})", op.name()));
                if *w == Why::Paused || *w == Why::Rebalancing {
                    // take the effects into account as if it had been allowed
                }
                self.resync(ctx);
            }
            (Ok(_), Err(e)) => {
                let tags = self.ever_tags(op.live_tags(), op);
                ctx.flag(&tags, format!("{} was refused although nothing forbids it: {e}", op.name()));
            }
        }
        if got.is_ok() {
            match op {
                Op::Pause { .. } => self.paused_ever = true,
                Op::Init { .. } => self.reb_ever = true,
                Op::AcceptGov { .. } => self.gov_ever = true,
                _ => {}
            }
        }
        self.check_state(ctx, op, got.is_ok());
        self.check_solvency(ctx);
        got.is_ok()
    }

    /// which properties this transaction was evidence for
    fn observe(&mut self, ctx: &mut Ctx, op: &Op, m0: &M, pred: &Result<Diff, Why>, got: &R<()>) {
        let why = match pred {
            Ok(_) => 0,
            Err(w) => 1 + *w as u64,
        };
        let t = self.t();
        let dt = m0.stream.as_ref().map(|s| if s.freeze { 1 } else { 2 + size((t - s.last.min(t)) as u128) }).unwrap_or(0);
        let amount = match op {
            Op::Mint { amount, .. } => *amount,
            Op::Burn { funds, .. } => funds.first().map(|f| f.1).unwrap_or(0),
            Op::Deflate { out, .. } => *out,
            Op::Inflate { ain, .. } => *ain,
            _ => 0,
        };
        let s = [
            hash_str(op.name()),
            why,
            dt,
            size(amount),
            size(m0.supply),
            m0.units.len() as u64,
            m0.reb.is_some() as u64,
            m0.paused(t) as u64,
            m0.mint_fee.is_some() as u64 * 2 + m0.burn_fee.is_some() as u64,
        ];
        let ok = got.is_ok();
        let key = format!("{}_{why}_{ok}", op.name());
        ctx.sample(&key, || format!("{} by {} amount {amount}: predicted {}, got {}", op.name(), op.who(),
            match pred { Ok(d) => format!("{} balance changes", d.len()), Err(w) => format!("refusal {w:?}") },
            if ok { "ok" } else { "refused" }));
        let p: &[&str] = match op {
            Op::Mint { .. } => &["C02"],
            Op::Burn { .. } => &["C03"],
            Op::Realize { .. } => &["C07"],
            Op::Pause { .. } | Op::Release { .. } => &["C09", "C10"],
            Op::UpdateGov { .. } | Op::AcceptGov { .. } | Op::RevokeGov { .. } => &["C10"],
            Op::UpdateFee { .. } => &["C14", "C07", "C10"],
            Op::UpdateManager { .. } | Op::UpdateReserve { .. } => &["C11", "C10"],
            Op::UpdateInfo { .. } => &["C15", "C10"],
            Op::Init { .. } | Op::Finalize { .. } => &["C11"],
            Op::Deflate { .. } | Op::Inflate { .. } => &["C12", "C13", "C11"],
        };
        for x in p {
            if *x == "C13" && !ok {
                continue;
            }
            ctx.obs(x, &s);
        }
        if matches!(op, Op::Mint { .. } | Op::Burn { .. }) {
            if m0.pause.is_some() {
                ctx.obs("C09", &s);
            }
            if self.reb_ever {
                ctx.obs("C11", &s);
            }
            if m0.mint_fee.is_some() || m0.burn_fee.is_some() {
                ctx.obs("C07", &s);
            }
        }
        if m0.stream.is_some() && ok {
            ctx.obs("C06", &s);
        }
        ctx.obs("C04", &s);
    }

    fn bank_mismatch(&mut self, ctx: &mut Ctx, op: &Op, m0: &M, want: &Diff, real: &Diff) {
        let mut bad: Vec<((String, String), i128, i128)> = vec![];
        for k in want.keys().chain(real.keys()) {
            let (a, b) = (want.get(k).copied().unwrap_or(0), real.get(k).copied().unwrap_or(0));
            if a != b && !bad.iter().any(|x| &x.0 == k) {
                bad.push((k.clone(), a, b));
            }
        }
        let mut tags: Vec<&'static str> = match op {
            Op::Mint { .. } => vec!["C02"],
            Op::Burn { .. } => vec!["C03"],
            Op::Realize { .. } | Op::UpdateFee { .. } => vec!["C07"],
            Op::Deflate { .. } | Op::Inflate { .. } => vec!["C12", "C13"],
            _ => vec!["C01"],
        };
        let idx = &m0.index;
        let mint_burn = matches!(op, Op::Mint { .. } | Op::Burn { .. });
        if mint_burn && bad.iter().any(|b| &b.0 .1 == idx) {
            let sw: i128 = want.iter().filter(|x| &x.0 .1 == idx).map(|x| x.1).sum();
            let sr: i128 = real.iter().filter(|x| &x.0 .1 == idx).map(|x| x.1).sum();
            if sw != sr {
                tags.push("C04");
            }
            if bad.iter().any(|b| &b.0 .1 == idx && (b.0 .0 == m0.collector || b.0 .0 != *op.who())) {
                tags.push("C07");
            }
        }
        // the contract kept less than it had to
        if mint_burn && bad.iter().any(|b| b.0 .0 == CORE && &b.0 .1 != idx && b.2 < b.1) {
            tags.push("C05");
            tags.push("C01");
        }
        if !mint_burn && real.keys().any(|k| &k.1 == idx) {
            tags.push("C04");
        }
        let txt: Vec<String> =
            bad.iter().map(|(k, a, b)| format!("{} of {}: expected {a}, got {b}", k.1, k.0)).collect();
        ctx.flag(&tags, format!("{} moved the wrong coins: {}", op.name(), txt.join("; ")));
    }

    fn check_route(&mut self, ctx: &mut Ctx, op: &Op, denom: &str) {
        let swaps: Vec<(Vec<u64>, String, String)> = self
            .chain
            .events
            .iter()
            .filter_map(|e| match e {
                Ev::Swap { pools, din, dout, .. } => Some((pools.clone(), din.clone(), dout.clone())),
                _ => None,
            })
            .collect();
        let rd = self.m.reserve_denom.clone();
        if denom == rd {
            if !swaps.is_empty() {
                ctx.flag(&["C13"], format!("a one to one move of the reserve denom swapped: {swaps:?}"));
            }
            return;
        }
        let key = if matches!(op, Op::Deflate { .. }) { (denom.to_string(), rd) } else { (rd, denom.to_string()) };
        let Some(i) = self.m.infos.get(&key) else { return };
        let route: Vec<u64> = i.routes.iter().map(|r| r.0).collect();
        if swaps.len() != 1 || swaps[0].0 != route || swaps[0].1 != key.0 || swaps[0].2 != key.1 {
            ctx.flag(&["C12"], format!("trade of {key:?} over {route:?} swapped {swaps:?}"));
        }
    }

    /// compare every stored fact with the model
    pub fn check_state(&mut self, ctx: &mut Ctx, op: &Op, ok: bool) {
        let t = self.t();
        let mut diffs: Vec<(Vec<&'static str>, String)> = vec![];
        // config
        match q_conf(&self.chain, CORE, None) {
            Err(e) => diffs.push((vec!["C10", "C09"], format!("config query: {e}"))),
            Ok(c) => {
                if c.gov != self.m.gov {
                    diffs.push((vec!["C10"], format!("governance is {}, expected {}", c.gov, self.m.gov)));
                }
                if c.pending != self.m.pending {
                    diffs.push((vec!["C10"], format!("pending governance is {:?}, expected {:?}", c.pending, self.m.pending)));
                }
                let p = self.m.paused(t);
                let e = if p { self.m.pause.unwrap() } else { None };
                if c.paused != p || (p && c.expires != e) {
                    diffs.push((vec!["C09"], format!("reported paused {} until {:?}, expected {p} until {e:?}", c.paused, c.expires)));
                }
                if c.index != self.m.index {
                    diffs.push((vec!["U01", "C04"], format!("index denom is {}", c.index)));
                }
                if c.reserve != self.m.reserve_denom {
                    diffs.push((vec!["C11", "C10", "U01"], format!("reserve denom is {}, expected {}", c.reserve, self.m.reserve_denom)));
                }
            }
        }
        // stored fees and units
        let last = self.m.stream.as_ref().map(|s| s.last);
        let at = Some(last.unwrap_or(t));
        match q_fee(&self.chain, CORE, at) {
            Err(e) => diffs.push((vec!["C06", "C08"], format!("fee query at {at:?}: {e}"))),
            Ok(f) => {
                if (&f.collector, f.mint, f.burn) != (&self.m.collector, self.m.mint_fee, self.m.burn_fee) {
                    let mut tags = vec!["C14"];
                    if f.collector != self.m.collector {
                        tags.push("C07");
                    }
                    diffs.push((tags, format!("fees are {f:?}, expected {} {:?} {:?}", self.m.collector, self.m.mint_fee, self.m.burn_fee)));
                }
                match (&f.stream, &self.m.stream) {
                    (None, None) => {}
                    (Some(a), Some(b)) => {
                        if a.rate != b.rate {
                            diffs.push((vec!["C14", "C06"], format!("streaming rate is {}, expected {}", dec_str(a.rate), dec_str(b.rate))));
                        }
                        if a.freeze != b.freeze || a.last != b.last {
                            let mut tags = vec!["C06"];
                            if matches!(op, Op::UpdateFee { .. }) {
                                tags.push("C14");
                            }
                            diffs.push((tags, format!("streaming state is frozen {} last {}, expected {} {}", a.freeze, a.last, b.freeze, b.last)));
                        }
                        if nz(&a.collected) != nz(&b.collected) {
                            let mut tags = vec!["C06", "C07"];
                            if matches!(op, Op::Deflate { .. } | Op::Inflate { .. }) {
                                tags.push("C13");
                            }
                            diffs.push((tags, format!("accrued fees are {:?}, expected {:?}", a.collected, b.collected)));
                        }
                    }
                    (a, b) => diffs.push((vec!["C14", "C06"], format!("streaming fee is {a:?}, expected {b:?}"))),
                }
            }
        }
        match q_port(&self.chain, CORE, at) {
            Err(e) => diffs.push((vec!["C06", "C08"], format!("portfolio query at {at:?}: {e}"))),
            Ok(p) => {
                let um: Map = p.units.iter().cloned().collect();
                if um.len() != p.units.len() {
                    diffs.push((vec!["C13", "C01", "U01"], format!("duplicate units {:?}", p.units)));
                } else if um != self.m.units {
                    let tags: Vec<&'static str> = match op {
                        Op::Deflate { .. } | Op::Inflate { .. } => vec!["C13"],
                        Op::Finalize { .. } => vec!["C11", "C13"],
                        Op::Init { .. } => vec!["C06", "C11"],
                        Op::Mint { .. } | Op::Burn { .. } | Op::Realize { .. } | Op::UpdateFee { .. } => vec!["C06"],
                        _ => vec!["C06", "C10"],
                    };
                    let d: Vec<String> = um
                        .keys()
                        .chain(self.m.units.keys())
                        .filter(|k| um.get(*k) != self.m.units.get(*k))
                        .map(|k| format!("{k}: {:?}, expected {:?}", um.get(k).map(|v| dec_str(*v)), self.m.units.get(k).map(|v| dec_str(*v))))
                        .collect();
                    diffs.push((tags, format!("units after {}: {}", op.name(), d.join("; "))));
                }
                if p.supply != self.m.supply {
                    diffs.push((vec!["C04"], format!("portfolio supply {}, expected {}", p.supply, self.m.supply)));
                }
                let want: Coins = p.units.iter().map(|(d, u)| (d.clone(), dmul(*u, p.supply))).collect();
                if cmap(&want) != cmap(&p.assets) {
                    diffs.push((vec!["C08"], format!("reported assets {:?} are not the units times the supply {:?}", p.assets, want)));
                }
            }
        }
        match self.chain.query(CORE, &json!({"get_total_supply": {}})).ok().and_then(|v| ju(&v)) {
            None => diffs.push((vec!["C04"], "no total supply".into())),
            Some(s) => {
                let bank = self.chain.supply(&self.m.index);
                if s != bank {
                    diffs.push((vec!["C04"], format!("reported supply {s}, bank supply {bank}")));
                }
                if s != self.m.supply {
                    let mut tags = vec!["C04"];
                    match op {
                        Op::Mint { .. } => tags.push("C02"),
                        Op::Burn { .. } => tags.push("C03"),
                        _ => {}
                    }
                    diffs.push((tags, format!("supply {s}, expected {}", self.m.supply)));
                }
            }
        }
        match q_reb(&self.chain, CORE) {
            Err(e) => diffs.push((vec!["C11"], e)),
            Ok(r) => {
                let want = self.m.reb.as_ref().map(|r| (r.manager.clone(), r.defl.clone(), r.infl.clone()));
                if r != want {
                    diffs.push((vec!["C11"], format!("rebalance is {r:?}, expected {want:?}")));
                }
            }
        }
        // registry: the touched pair, and sometimes all
        let trade = matches!(op, Op::Deflate { .. } | Op::Inflate { .. } | Op::UpdateInfo { .. });
        if (trade && ok) || self.steps % 16 == 0 || (ctx.is("C15") && self.steps % 4 == 0) {
            let keys: Vec<(String, String)> = self.m.infos.keys().cloned().collect();
            for (a, b) in keys {
                let want = self.m.infos.get(&(a.clone(), b.clone())).cloned();
                match q_info(&self.chain, CORE, &a, &b) {
                    Err(e) => diffs.push((vec!["C15"], e)),
                    Ok(i) if i != want => {
                        let mut tags = vec!["C15"];
                        if trade && i.as_ref().map(|x| x.last) != want.as_ref().map(|x| x.last) {
                            tags.push("C12");
                        }
                        diffs.push((tags, format!("trade info {a} -> {b} is {i:?}, expected {want:?}")));
                    }
                    _ => {}
                }
            }
            ctx.obs("C15", &[7, self.m.infos.len() as u64]);
        }
        if self.rng.pct(10) {
            let a = *self.rng.pick(&[USERS[0], USERS[1], COLL, CORE, ATT]);
            let v = self.chain.query(CORE, &json!({"get_balance": {"account": a}})).ok().and_then(|v| ju(&v));
            if v != Some(self.ibal(a)) {
                diffs.push((vec!["C04"], format!("reported balance of {a} {v:?}, bank {}", self.ibal(a))));
            }
        }
        // zero units after a rebalance
        if matches!(op, Op::Finalize { .. }) && ok {
            if let Ok(p) = q_port(&self.chain, CORE, at) {
                if p.units.iter().any(|u| u.1 == 0) {
                    diffs.push((vec!["C11"], "a finalised rebalance left a zero unit".into()));
                }
            }
        }
        if diffs.is_empty() {
            return;
        }
        for (tags, msg) in diffs {
            ctx.flag(&tags, format!("after {}: {msg}", op.name()));
        }
        self.resync(ctx);
    }

    /// adopt what the contract reports after a mismatch that is not the focus property's
    pub fn resync(&mut self, ctx: &mut Ctx) {
        ctx.count("resync");
        let t = self.t();
        if let Ok(c) = q_conf(&self.chain, CORE, None) {
            self.m.gov = c.gov;
            self.m.pending = c.pending;
            self.m.reserve_denom = c.reserve;
            self.m.index = c.index;
            if c.paused != self.m.paused(t) {
                self.m.pause = if c.paused { Some(c.expires) } else { None };
            }
        }
        if let Ok(f) = q_fee(&self.chain, CORE, None) {
            let stored = f.stream.as_ref().and_then(|s| q_fee(&self.chain, CORE, Some(s.last)).ok());
            let f = match stored {
                Some(s) => s,
                None => f,
            };
            // the stored last collection is not what a live answer shows: find it
            let f = match self.m.stream.as_ref().map(|s| s.last).and_then(|l| q_fee(&self.chain, CORE, Some(l)).ok()) {
                Some(x) => x,
                None => f,
            };
            self.m.collector = f.collector;
            self.m.mint_fee = f.mint;
            self.m.burn_fee = f.burn;
            self.m.stream = f.stream;
        }
        let at = self.m.stream.as_ref().map(|s| s.last).unwrap_or(t);
        if let Ok(p) = q_port(&self.chain, CORE, Some(at)) {
            self.m.units = p.units.into_iter().collect();
            self.m.supply = p.supply;
        }
        match q_reb(&self.chain, CORE) {
            Ok(Some((manager, defl, infl))) => {
                let reserve = self.m.reb.take().map(|r| r.reserve).unwrap_or_default();
                self.m.reb = Some(Reb { manager, defl, infl, reserve });
            }
            Ok(None) => self.m.reb = None,
            _ => {}
        }
        let keys: Vec<(String, String)> = self.m.infos.keys().cloned().collect();
        for (a, b) in keys {
            match q_info(&self.chain, CORE, &a, &b) {
                Ok(Some(i)) => {
                    self.m.infos.insert((a, b), i);
                }
                Ok(None) => {
                    self.m.infos.remove(&(a, b));
                }
                _ => {}
            }
        }
    }

    /// C01: what the contract holds covers what it owes, exact to the last decimal
    pub fn check_solvency(&mut self, ctx: &mut Ctx) {
        use cosmwasm_std::Uint512;
        let t = self.t();
        let last = self.m.stream.as_ref().map(|s| s.last).unwrap_or(t);
        let (Ok(p), Ok(f)) = (q_port(&self.chain, CORE, Some(last)), q_fee(&self.chain, CORE, Some(last))) else {
            return;
        };
        let coll = f.stream.map(|s| s.collected).unwrap_or_default();
        let supply = self.chain.supply(&self.m.index);
        let mut denoms: Vec<String> = p.units.iter().map(|u| u.0.clone()).collect();
        denoms.push(self.m.reserve_denom.clone());
        denoms.extend(coll.keys().cloned());
        denoms.sort();
        denoms.dedup();
        let b = |x: u128| Uint512::from(x);
        for d in denoms {
            let unit: u128 = p.units.iter().filter(|u| u.0 == d).map(|u| u.1).sum();
            let mut owed = b(unit) * b(supply) + b(coll.get(&d).copied().unwrap_or(0)) * b(E18);
            if d == self.m.reserve_denom {
                if let Some(r) = &self.m.reb {
                    for v in r.reserve.values() {
                        owed += b(*v) * b(supply);
                    }
                }
            }
            let have = self.chain.bal(CORE, &d);
            if b(have) * b(E18) < owed {
                ctx.flag(
                    &["C01"],
                    format!("holds {have}{d}, owes {} (unit {} x supply {supply}, accrued {:?}, reserve {:?})",
                        owed / b(E18), dec_str(unit), coll.get(&d), self.m.reb.as_ref().map(|r| &r.reserve)),
                );
            }
            ctx.obs("C01", &[size(have), size(unit), size(supply), self.m.reb.is_some() as u64, coll.contains_key(&d) as u64]);
        }
    }

    pub fn advance(&mut self, ctx: &mut Ctx, secs: u64) {
        self.chain.advance(secs);
        let t = self.t();
        ctx.log(|| format!("t={t} ({secs} s later)"));
    }

    /// a jump in time that the streaming rate in force can stand
    pub fn gen_dt(&mut self) -> u64 {
        let v = match self.rng.below(8) {
            _ if self.rng.pct(2) => self.rng.range(1, 6 * 365 * 86_400),
            0 => 0,
            1 => 1,
            2 => self.rng.range(1, 60),
            3 => self.rng.range(1, 86_400),
            4 => self.rng.range(1, 30 * 86_400),
            5 => self.rng.range(1, 3600),
            6 => self.rng.range(1, 100),
            _ => self.rng.range(1, 200 * 86_400),
        } as u64;
        v
    }
    /// would the accrual at time t exceed the whole portfolio?
    pub fn rate_over(&self, t: u64) -> bool {
        let mut m = self.m.clone();
        m.collect(t) == Err(Why::RateOver)
    }

    pub fn mint_funds(&self, amount: u128, t: u64) -> Option<Coins> {
        let mut m = self.m.clone();
        m.collect(t).ok()?;
        Some(m.required(amount).into_iter().collect())
    }

    pub fn op_mint(&mut self, who: &str, amount: u128) -> Op {
        let t = self.t();
        let funds = self.mint_funds(amount, t).unwrap_or_default();
        Op::Mint { who: who.into(), amount, receiver: None, refund: None, funds }
    }

    pub fn holders(&self) -> Vec<String> {
        self.chain
            .st
            .bank
            .iter()
            .filter(|(a, m)| a.as_str() != CORE && m.get(&self.m.index).copied().unwrap_or(0) > 0)
            .map(|x| x.0.clone())
            .collect()
    }
}
