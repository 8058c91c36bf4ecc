//! A single-chain simulator that runs the real contracts: bank, token factory, pool manager and
//! wasm message dispatch with all-or-nothing transactions. It is the boundary at which every
//! monitor observes: bank balances before and after, messages executed, query answers.
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{
    from_json, to_json_binary, Addr, Api, BankMsg, BankQuery, Binary, BlockInfo, CanonicalAddr, Coin,
    ContractInfo, ContractResult, CosmosMsg, Deps, DepsMut, Env, MessageInfo, Order, Querier,
    QuerierResult, QuerierWrapper, QueryRequest, Record, RecoverPubkeyError, Reply, ReplyOn, Response,
    StdError, StdResult, Storage, SubMsgResponse, SubMsgResult, SystemError, SystemResult, Timestamp,
    TransactionInfo, Uint128, VerificationError, WasmMsg, WasmQuery,
};
use osmosis_std::types::cosmos::base::v1beta1::Coin as PCoin;
use osmosis_std::types::osmosis::poolmanager::v1beta1 as pm;
use osmosis_std::types::osmosis::tokenfactory::v1beta1 as tf;
use prost::Message;

use crate::evlog;
use crate::sdk;
use crate::util::Coins;
use crate::venue::{self, Pools};

pub type Bank = BTreeMap<String, BTreeMap<String, u128>>;

#[derive(Clone, Default, Debug, PartialEq)]
pub struct Store(pub BTreeMap<Vec<u8>, Vec<u8>>);

impl Storage for Store {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.0.get(key).cloned()
    }
    fn range<'a>(
        &'a self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = Record> + 'a> {
        use std::ops::Bound;
        if let (Some(s), Some(e)) = (start, end) {
            if s >= e {
                return Box::new(std::iter::empty());
            }
        }
        let s = start.map_or(Bound::Unbounded, |v| Bound::Included(v.to_vec()));
        let e = end.map_or(Bound::Unbounded, |v| Bound::Excluded(v.to_vec()));
        let it = self.0.range((s, e)).map(|(k, v)| (k.clone(), v.clone()));
        match order {
            Order::Ascending => Box::new(it),
            Order::Descending => Box::new(it.rev()),
        }
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        if value.is_empty() {
            panic!("empty value written to storage");
        }
        self.0.insert(key.to_vec(), value.to_vec());
    }
    fn remove(&mut self, key: &[u8]) {
        self.0.remove(key);
    }
}

#[derive(Clone, Copy)]
pub struct ChainApi;

pub fn valid_addr(a: &str) -> bool {
    a.len() > 6
        && a.len() <= 90
        && a.starts_with("osmo1")
        && a.bytes().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit())
}

impl Api for ChainApi {
    fn addr_validate(&self, human: &str) -> StdResult<Addr> {
        if valid_addr(human) {
            Ok(Addr::unchecked(human))
        } else {
            Err(StdError::generic_err(format!("invalid address {human}")))
        }
    }
    fn addr_canonicalize(&self, human: &str) -> StdResult<CanonicalAddr> {
        self.addr_validate(human)?;
        Ok(CanonicalAddr::from(human.as_bytes().to_vec()))
    }
    fn addr_humanize(&self, c: &CanonicalAddr) -> StdResult<Addr> {
        let s = String::from_utf8(c.to_vec()).map_err(|_| StdError::generic_err("addr"))?;
        self.addr_validate(&s)
    }
    fn secp256k1_verify(&self, h: &[u8], s: &[u8], p: &[u8]) -> Result<bool, VerificationError> {
        MockApi::default().secp256k1_verify(h, s, p)
    }
    fn secp256k1_recover_pubkey(&self, h: &[u8], s: &[u8], r: u8) -> Result<Vec<u8>, RecoverPubkeyError> {
        MockApi::default().secp256k1_recover_pubkey(h, s, r)
    }
    fn ed25519_verify(&self, m: &[u8], s: &[u8], p: &[u8]) -> Result<bool, VerificationError> {
        MockApi::default().ed25519_verify(m, s, p)
    }
    fn ed25519_batch_verify(&self, m: &[&[u8]], s: &[&[u8]], p: &[&[u8]]) -> Result<bool, VerificationError> {
        MockApi::default().ed25519_batch_verify(m, s, p)
    }
    fn debug(&self, _m: &str) {}
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Code {
    Core,
    Airdrop,
    Periphery,
}

#[derive(Clone, Debug)]
#[allow(dead_code)]
pub enum Ev {
    Mint { denom: String, amount: u128 },
    Burn { denom: String, amount: u128 },
    Swap { sender: String, pools: Vec<u64>, din: String, ain: u128, dout: String, aout: u128 },
    Send { from: String, to: String, coins: Coins },
    Exec { contract: String, sender: String },
}

#[derive(Clone, Default)]
pub struct State {
    pub bank: Bank,
    pub admins: BTreeMap<String, String>,
    pub contracts: BTreeMap<String, (Option<Code>, Store)>,
    pub pools: Pools,
}

#[derive(Clone)]
pub struct Chain {
    pub height: u64,
    pub time: u64,
    pub nanos: u64,
    pub st: State,
    pub events: Vec<Ev>,
    /// worsens every executed swap (not the estimates) by this many 1e-4: the market moved
    pub skew: i128,
    /// refuse token_in == token_out denoms on exact-out swaps, as Osmosis does
    pub strict: bool,
    pub txs: u64,
    pub queries: u64,
}

pub type R<T> = Result<T, String>;

macro_rules! es {
    ($e:expr) => {
        $e.map_err(|e| e.to_string())
    };
}

fn pcoin(c: &Option<PCoin>) -> R<(String, u128)> {
    let c = c.as_ref().ok_or("missing coin")?;
    Ok((c.denom.clone(), c.amount.parse::<u128>().map_err(|e| e.to_string())?))
}

fn parse_coin(s: &str) -> R<(String, u128)> {
    let n = s.bytes().take_while(|b| b.is_ascii_digit()).count();
    let a: u128 = s[..n].parse().map_err(|_| format!("bad coin {s}"))?;
    if s[n..].is_empty() {
        return Err(format!("bad coin {s}"));
    }
    Ok((s[n..].to_string(), a))
}

impl Chain {
    pub fn new(time: u64) -> Self {
        Chain {
            height: 100,
            time,
            nanos: 0,
            st: State::default(),
            events: vec![],
            skew: 0,
            strict: false,
            txs: 0,
            queries: 0,
        }
    }

    pub fn bal(&self, a: &str, d: &str) -> u128 {
        self.st.bank.get(a).and_then(|m| m.get(d)).copied().unwrap_or(0)
    }
    pub fn supply(&self, d: &str) -> u128 {
        self.st.bank.values().map(|m| m.get(d).copied().unwrap_or(0)).sum()
    }
    pub fn give(&mut self, a: &str, d: &str, v: u128) {
        *self.st.bank.entry(a.into()).or_default().entry(d.into()).or_default() += v;
    }
    fn take(&mut self, a: &str, d: &str, v: u128) -> R<()> {
        if v == 0 {
            return Ok(());
        }
        let e = self
            .st
            .bank
            .get_mut(a)
            .and_then(|m| m.get_mut(d))
            .ok_or_else(|| format!("insufficient funds: {a} has no {d}"))?;
        *e = e.checked_sub(v).ok_or_else(|| format!("insufficient funds: {a} {v}{d}"))?;
        Ok(())
    }
    fn send(&mut self, from: &str, to: &str, coins: &Coins) -> R<()> {
        for (d, v) in coins {
            self.take(from, d, *v)?;
            self.give(to, d, *v);
        }
        if coins.iter().any(|c| c.1 > 0) {
            self.events.push(Ev::Send { from: from.into(), to: to.into(), coins: coins.clone() });
        }
        Ok(())
    }

    fn env(&self, addr: &str) -> Env {
        Env {
            block: BlockInfo {
                height: self.height,
                time: Timestamp::from_nanos(self.time * 1_000_000_000 + self.nanos),
                chain_id: "osmosis-1".into(),
            },
            transaction: Some(TransactionInfo { index: 0 }),
            contract: ContractInfo { address: Addr::unchecked(addr) },
        }
    }

    /// whole seconds, next block
    pub fn advance(&mut self, secs: u64) {
        self.time += secs;
        self.height += 1;
        self.nanos = (self.nanos + 123_456_789) % 1_000_000_000;
    }

    /// Send from a plain account, as a transaction.
    pub fn tx_send(&mut self, from: &str, to: &str, coins: &Coins) -> R<()> {
        let snap = self.st.clone();
        self.events.clear();
        let r = self.send(from, to, coins);
        if r.is_err() {
            self.st = snap;
        }
        r
    }

    /// Execute a contract message as one transaction; any error rolls everything back.
    pub fn exec(&mut self, sender: &str, contract: &str, msg: &serde_json::Value, funds: &Coins) -> R<()> {
        self.txs += 1;
        let snap = self.st.clone();
        self.events.clear();
        let bytes = serde_json::to_vec(msg).unwrap();
        let r = self.exec_inner(sender, contract, &bytes, funds);
        if r.is_err() {
            self.st = snap;
        }
        r
    }

    /// Would this transaction succeed? Runs it on a copy, returns the copy.
    pub fn dry(&self, sender: &str, contract: &str, msg: &serde_json::Value, funds: &Coins) -> (Chain, R<()>) {
        let mut c = self.clone();
        let r = c.exec(sender, contract, msg, funds);
        (c, r)
    }

    fn check_funds(funds: &Coins) -> R<Coins> {
        let mut f = funds.clone();
        f.sort();
        for w in f.windows(2) {
            if w[0].0 == w[1].0 {
                return Err("duplicate denoms in funds".into());
            }
        }
        if f.iter().any(|c| c.1 == 0) {
            return Err("zero coin in funds".into());
        }
        Ok(f)
    }

    fn exec_inner(&mut self, sender: &str, contract: &str, msg: &[u8], funds: &Coins) -> R<()> {
        let funds = Self::check_funds(funds)?;
        let (code, mut store) =
            self.st.contracts.get(contract).cloned().ok_or_else(|| format!("no contract {contract}"))?;
        let pre = evlog::on().then(|| self.clone());
        self.send(sender, contract, &funds)?;
        self.events.push(Ev::Exec { contract: contract.into(), sender: sender.into() });
        let env = self.env(contract);
        let info = MessageInfo {
            sender: Addr::unchecked(sender),
            funds: funds.iter().map(|(d, a)| Coin { denom: d.clone(), amount: Uint128::new(*a) }).collect(),
        };
        let resp = {
            let q = ChainQuerier { c: self };
            let deps = DepsMut { storage: &mut store, api: &ChainApi, querier: QuerierWrapper::new(&q) };
            guard(|| match code {
                Some(Code::Core) => es!(ibcx_core::contract::execute(deps, env, info, es!(from_json(msg))?)),
                Some(Code::Airdrop) => es!(ibcx_airdrop::contract::execute(deps, env, info, es!(from_json(msg))?)),
                Some(Code::Periphery) => {
                    es!(ibcx_periphery::contract::execute(deps, env, info, es!(from_json(msg))?))
                }
                None => Err("not a contract".into()),
            })?
        };
        self.st.contracts.get_mut(contract).unwrap().1 = store;
        if let (true, Some(code)) = (sdk::on(), code) {
            sdk::observe(code, "ExecuteMsg", msg, None);
        }
        let (n, attrs) = (self.events.len(), Self::attrs(&resp));
        self.dispatch(contract, resp)?;
        if let (Some(pre), Some(code), Ok(msg)) = (pre, code, serde_json::from_slice(msg)) {
            let moved = &self.events[n..];
            evlog::judge(evlog::Call { pre: &pre, post: self, sender, me: contract, code, msg, funds: &funds, attrs: &attrs, moved });
        }
        Ok(())
    }

    fn attrs(resp: &Response) -> Vec<(String, String)> {
        resp.attributes.iter().map(|a| (a.key.clone(), a.value.clone())).collect()
    }

    pub fn instantiate(
        &mut self,
        code: Code,
        addr: &str,
        sender: &str,
        msg: &serde_json::Value,
        funds: &Coins,
    ) -> R<()> {
        self.txs += 1;
        let snap = self.st.clone();
        self.events.clear();
        let bytes = serde_json::to_vec(msg).unwrap();
        let r = self.inst_inner(code, addr, sender, &bytes, funds);
        if r.is_err() {
            self.st = snap;
        }
        r
    }

    fn inst_inner(&mut self, code: Code, addr: &str, sender: &str, msg: &[u8], funds: &Coins) -> R<()> {
        let funds = Self::check_funds(funds)?;
        self.send(sender, addr, &funds)?;
        let mut store = Store::default();
        let env = self.env(addr);
        let info = MessageInfo {
            sender: Addr::unchecked(sender),
            funds: funds.iter().map(|(d, a)| Coin { denom: d.clone(), amount: Uint128::new(*a) }).collect(),
        };
        let resp = {
            let q = ChainQuerier { c: self };
            let deps = DepsMut { storage: &mut store, api: &ChainApi, querier: QuerierWrapper::new(&q) };
            guard(|| match code {
                Code::Core => es!(ibcx_core::contract::instantiate(deps, env, info, es!(from_json(msg))?)),
                Code::Airdrop => es!(ibcx_airdrop::contract::instantiate(deps, env, info, es!(from_json(msg))?)),
                Code::Periphery => {
                    es!(ibcx_periphery::contract::instantiate(deps, env, info, es!(from_json(msg))?))
                }
            })?
        };
        if sdk::on() {
            sdk::observe(code, "InstantiateMsg", msg, None);
        }
        self.st.contracts.insert(addr.into(), (Some(code), store));
        self.dispatch(addr, resp)
    }

    pub fn migrate(&mut self, addr: &str, code: Code, msg: &serde_json::Value) -> R<()> {
        self.txs += 1;
        let snap = self.st.clone();
        self.events.clear();
        let r = (|| {
            let (_, mut store) = self.st.contracts.get(addr).cloned().ok_or("no contract")?;
            let bytes = serde_json::to_vec(msg).unwrap();
            let env = self.env(addr);
            let resp = {
                let q = ChainQuerier { c: self };
                let deps = DepsMut { storage: &mut store, api: &ChainApi, querier: QuerierWrapper::new(&q) };
                guard(|| match code {
                    Code::Core => es!(ibcx_core::contract::migrate(deps, env, es!(from_json(&bytes))?)),
                    Code::Airdrop => es!(ibcx_airdrop::contract::migrate(deps, env, es!(from_json(&bytes))?)),
                    Code::Periphery => es!(ibcx_periphery::contract::migrate(deps, env, es!(from_json(&bytes))?)),
                })?
            };
            if sdk::on() {
                sdk::observe(code, "MigrateMsg", &bytes, None);
            }
            self.st.contracts.insert(addr.into(), (Some(code), store));
            self.dispatch(addr, resp)
        })();
        if r.is_err() {
            self.st = snap;
        }
        r
    }

    fn dispatch(&mut self, contract: &str, resp: Response) -> R<()> {
        evlog::well_formed(&Self::attrs(&resp))?;
        for sub in resp.messages {
            let snap = self.st.clone();
            let n = self.events.len();
            let r = self.message(contract, sub.msg);
            match r {
                Ok(data) => {
                    if matches!(sub.reply_on, ReplyOn::Success | ReplyOn::Always) {
                        let res = SubMsgResult::Ok(SubMsgResponse { events: vec![], data });
                        self.reply(contract, Reply { id: sub.id, result: res })?;
                    }
                }
                Err(e) => {
                    self.st = snap;
                    self.events.truncate(n);
                    if matches!(sub.reply_on, ReplyOn::Error | ReplyOn::Always) {
                        self.reply(contract, Reply { id: sub.id, result: SubMsgResult::Err(e) })?;
                    } else {
                        return Err(e);
                    }
                }
            }
        }
        Ok(())
    }

    fn reply(&mut self, contract: &str, reply: Reply) -> R<()> {
        let (code, mut store) = self.st.contracts.get(contract).cloned().ok_or("no contract")?;
        let env = self.env(contract);
        let resp = {
            let q = ChainQuerier { c: self };
            let deps = DepsMut { storage: &mut store, api: &ChainApi, querier: QuerierWrapper::new(&q) };
            guard(|| match code {
                Some(Code::Core) => es!(ibcx_core::contract::reply(deps, env, reply)),
                _ => Err("no reply entry point".into()),
            })?
        };
        self.st.contracts.get_mut(contract).unwrap().1 = store;
        let attrs = Self::attrs(&resp);
        self.dispatch(contract, resp)?;
        if evlog::on() {
            evlog::judge_reply(self, contract, &attrs);
        }
        Ok(())
    }

    fn message(&mut self, from: &str, msg: CosmosMsg) -> R<Option<Binary>> {
        match msg {
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                if !valid_addr(&to_address) {
                    return Err(format!("invalid recipient {to_address}"));
                }
                let c: Coins = amount.into_iter().map(|c| (c.denom, c.amount.u128())).collect();
                // as wasmd: an empty list is no message at all, zero coins are dropped, and a
                // message left without any coin is invalid
                if !c.is_empty() && c.iter().all(|c| c.1 == 0) {
                    return Err("invalid coins".into());
                }
                self.send(from, &to_address, &c)?;
                Ok(None)
            }
            CosmosMsg::Bank(BankMsg::Burn { amount }) => {
                for c in amount {
                    self.take(from, &c.denom, c.amount.u128())?;
                    self.events.push(Ev::Burn { denom: c.denom, amount: c.amount.u128() });
                }
                Ok(None)
            }
            CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
                // wasmd rejects funds that are not a valid coin set
                let f: Coins = funds.into_iter().map(|c| (c.denom, c.amount.u128())).collect();
                let mut s = f.clone();
                s.sort();
                if s != f {
                    return Err("funds not sorted".into());
                }
                self.exec_inner(from, &contract_addr, &msg, &f)?;
                Ok(None)
            }
            CosmosMsg::Stargate { type_url, value } => self.stargate(from, &type_url, &value),
            m => Err(format!("unsupported message {m:?}")),
        }
    }

    fn stargate(&mut self, from: &str, url: &str, value: &Binary) -> R<Option<Binary>> {
        match url {
            "/osmosis.tokenfactory.v1beta1.MsgCreateDenom" => {
                let m = es!(tf::MsgCreateDenom::decode(value.as_slice()))?;
                if m.sender != from {
                    return Err("signer mismatch".into());
                }
                let denom = format!("factory/{}/{}", m.sender, m.subdenom);
                if m.subdenom.is_empty() || self.st.admins.contains_key(&denom) {
                    return Err("denom exists or empty".into());
                }
                self.st.admins.insert(denom.clone(), m.sender);
                let r = tf::MsgCreateDenomResponse { new_token_denom: denom };
                Ok(Some(Binary::from(r.encode_to_vec())))
            }
            "/osmosis.tokenfactory.v1beta1.MsgMint" => {
                let m = es!(tf::MsgMint::decode(value.as_slice()))?;
                let (d, a) = pcoin(&m.amount)?;
                if m.sender != from || self.st.admins.get(&d).map(|s| s.as_str()) != Some(from) {
                    return Err("unauthorized mint".into());
                }
                if a == 0 {
                    return Err("mint amount must be positive".into());
                }
                let to = if m.mint_to_address.is_empty() { m.sender } else { m.mint_to_address };
                if !valid_addr(&to) {
                    return Err("bad mint address".into());
                }
                self.supply(&d).checked_add(a).ok_or("supply overflow")?;
                self.give(&to, &d, a);
                self.events.push(Ev::Mint { denom: d, amount: a });
                Ok(None)
            }
            "/osmosis.tokenfactory.v1beta1.MsgBurn" => {
                let m = es!(tf::MsgBurn::decode(value.as_slice()))?;
                let (d, a) = pcoin(&m.amount)?;
                if m.sender != from || self.st.admins.get(&d).map(|s| s.as_str()) != Some(from) {
                    return Err("unauthorized burn".into());
                }
                if a == 0 {
                    return Err("burn amount must be positive".into());
                }
                let a_from = if m.burn_from_address.is_empty() { m.sender } else { m.burn_from_address };
                self.take(&a_from, &d, a)?;
                self.events.push(Ev::Burn { denom: d, amount: a });
                Ok(None)
            }
            "/osmosis.poolmanager.v1beta1.MsgSwapExactAmountIn" => {
                let m = es!(pm::MsgSwapExactAmountIn::decode(value.as_slice()))?;
                let (d, a) = pcoin(&m.token_in)?;
                let min: u128 = m.token_out_min_amount.parse().map_err(|_| "min")?;
                if m.sender != from {
                    return Err("signer mismatch".into());
                }
                if a == 0 {
                    return Err("token in must be positive".into());
                }
                let route: Vec<(u64, String)> =
                    m.routes.iter().map(|r| (r.pool_id, r.token_out_denom.clone())).collect();
                self.take(from, &d, a)?;
                let (od, oa) = venue::swap_in(&mut self.st.pools, &d, a, &route, self.skew)?;
                if oa < min || oa == 0 {
                    return Err(format!("token out {oa} below minimum {min}"));
                }
                self.give(from, &od, oa);
                let pools = route.iter().map(|r| r.0).collect();
                self.events.push(Ev::Swap { sender: from.into(), pools, din: d, ain: a, dout: od, aout: oa });
                Ok(None)
            }
            "/osmosis.poolmanager.v1beta1.MsgSwapExactAmountOut" => {
                let m = es!(pm::MsgSwapExactAmountOut::decode(value.as_slice()))?;
                let (d, a) = pcoin(&m.token_out)?;
                let max: u128 = m.token_in_max_amount.parse().map_err(|_| "max")?;
                if m.sender != from {
                    return Err("signer mismatch".into());
                }
                if a == 0 {
                    return Err("token out must be positive".into());
                }
                let route: Vec<(u64, String)> =
                    m.routes.iter().map(|r| (r.pool_id, r.token_in_denom.clone())).collect();
                let (id, ia) = venue::swap_out(&mut self.st.pools, &route, &d, a, self.skew, !self.strict)?;
                if ia > max {
                    return Err(format!("token in {ia} above maximum {max}"));
                }
                self.take(from, &id, ia)?;
                self.give(from, &d, a);
                let pools = route.iter().map(|r| r.0).collect();
                self.events.push(Ev::Swap { sender: from.into(), pools, din: id, ain: ia, dout: d, aout: a });
                Ok(None)
            }
            _ => Err(format!("unsupported stargate message {url}")),
        }
    }

    pub fn query_raw(&self, contract: &str, msg: &[u8]) -> R<Binary> {
        let (code, store) = self.st.contracts.get(contract).ok_or_else(|| format!("no contract {contract}"))?;
        let q = ChainQuerier { c: self };
        let deps = Deps { storage: store, api: &ChainApi, querier: QuerierWrapper::new(&q) };
        let env = self.env(contract);
        let r = guard(|| match code {
            Some(Code::Core) => es!(ibcx_core::contract::query(deps, env, es!(from_json(msg))?)),
            Some(Code::Airdrop) => es!(ibcx_airdrop::contract::query(deps, env, es!(from_json(msg))?)),
            Some(Code::Periphery) => es!(ibcx_periphery::contract::query(deps, env, es!(from_json(msg))?)),
            None => Err("not a contract".into()),
        });
        if let (true, Some(code), Ok(a)) = (sdk::on(), code, &r) {
            sdk::observe(*code, "QueryMsg", msg, Some(a.as_slice()));
        }
        r
    }

    pub fn query(&self, contract: &str, msg: &serde_json::Value) -> R<serde_json::Value> {
        let b = self.query_raw(contract, &serde_json::to_vec(msg).unwrap())?;
        serde_json::from_slice(&b).map_err(|e| format!("unparsable answer: {e}"))
    }

    /// Bank differences against another state, zero entries left out.
    pub fn diff(before: &Bank, after: &Bank) -> BTreeMap<(String, String), i128> {
        let mut out = BTreeMap::new();
        let empty = BTreeMap::new();
        for a in before.keys().chain(after.keys()) {
            let (x, y) = (before.get(a).unwrap_or(&empty), after.get(a).unwrap_or(&empty));
            for d in x.keys().chain(y.keys()) {
                let v = y.get(d).copied().unwrap_or(0) as i128 - x.get(d).copied().unwrap_or(0) as i128;
                if v != 0 {
                    out.insert((a.clone(), d.clone()), v);
                }
            }
        }
        out
    }
}

fn guard<T>(f: impl FnOnce() -> R<T>) -> R<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => {
            let s = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Err(format!("contract panicked: {s}"))
        }
    }
}

pub struct ChainQuerier<'a> {
    pub c: &'a Chain,
}

fn json_ok(v: serde_json::Value) -> R<Binary> {
    Ok(Binary::from(serde_json::to_vec(&v).unwrap()))
}

impl ChainQuerier<'_> {
    fn handle(&self, req: QueryRequest<cosmwasm_std::Empty>) -> R<Binary> {
        let c = self.c;
        match req {
            QueryRequest::Bank(BankQuery::Balance { address, denom }) => {
                let amount = c.bal(&address, &denom).to_string();
                json_ok(serde_json::json!({"amount": {"denom": denom, "amount": amount}}))
            }
            QueryRequest::Bank(BankQuery::AllBalances { address }) => {
                let v: Vec<_> = c
                    .st
                    .bank
                    .get(&address)
                    .map(|m| {
                        m.iter()
                            .filter(|(_, a)| **a > 0)
                            .map(|(d, a)| serde_json::json!({"denom": d, "amount": a.to_string()}))
                            .collect()
                    })
                    .unwrap_or_default();
                json_ok(serde_json::json!({ "amount": v }))
            }
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) => c.query_raw(&contract_addr, &msg),
            QueryRequest::Wasm(WasmQuery::Raw { contract_addr, key }) => {
                let (_, s) = c.st.contracts.get(&contract_addr).ok_or("no contract")?;
                Ok(Binary::from(s.0.get(key.as_slice()).cloned().unwrap_or_default()))
            }
            QueryRequest::Stargate { path, data } => self.stargate(&path, &data),
            r => Err(format!("unsupported query {r:?}")),
        }
    }

    #[allow(deprecated)]
    fn stargate(&self, path: &str, data: &Binary) -> R<Binary> {
        let c = self.c;
        match path {
            "/osmosis.poolmanager.v1beta1.Query/Pool" => {
                let m = es!(pm::PoolRequest::decode(data.as_slice()))?;
                let p = c.st.pools.get(&m.pool_id).ok_or_else(|| format!("pool {} not found", m.pool_id))?;
                Ok(Binary::from(p.json().into_bytes()))
            }
            "/osmosis.poolmanager.v1beta1.Query/EstimateSwapExactAmountIn" => {
                let m = es!(pm::EstimateSwapExactAmountInRequest::decode(data.as_slice()))?;
                let (d, a) = parse_coin(&m.token_in)?;
                if a == 0 {
                    return Err("token in must be positive".into());
                }
                let route: Vec<_> = m.routes.iter().map(|r| (r.pool_id, r.token_out_denom.clone())).collect();
                let mut p = c.st.pools.clone();
                let (_, o) = venue::swap_in(&mut p, &d, a, &route, 0)?;
                json_ok(serde_json::json!({"token_out_amount": o.to_string()}))
            }
            "/osmosis.poolmanager.v1beta1.Query/EstimateSwapExactAmountOut" => {
                let m = es!(pm::EstimateSwapExactAmountOutRequest::decode(data.as_slice()))?;
                let (d, a) = parse_coin(&m.token_out)?;
                if a == 0 {
                    return Err("token out must be positive".into());
                }
                let route: Vec<_> = m.routes.iter().map(|r| (r.pool_id, r.token_in_denom.clone())).collect();
                let mut p = c.st.pools.clone();
                let (_, i) = venue::swap_out(&mut p, &route, &d, a, 0, !c.strict)?;
                json_ok(serde_json::json!({"token_in_amount": i.to_string()}))
            }
            _ => Err(format!("unsupported stargate query {path}")),
        }
    }
}

impl Querier for ChainQuerier<'_> {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let req: QueryRequest<cosmwasm_std::Empty> = match from_json(bin) {
            Ok(v) => v,
            Err(e) => {
                return SystemResult::Err(SystemError::InvalidRequest {
                    error: e.to_string(),
                    request: bin.into(),
                })
            }
        };
        match self.handle(req) {
            Ok(b) => SystemResult::Ok(ContractResult::Ok(b)),
            Err(e) => SystemResult::Ok(ContractResult::Err(e)),
        }
    }
}

#[allow(dead_code)]
fn _unused() -> StdResult<Binary> {
    to_json_binary(&0)
}
