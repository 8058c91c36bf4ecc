//! Airdrop contract: reference model of campaigns, claims and labels, hostile claim workloads.
use std::collections::BTreeMap;

use bech32::ToBase32;
use ibcx_interface::airdrop::{
    AirdropId, AirdropType, ClaimPayload, ExecuteMsg, ListAirdropsQueryOptions as L, QueryMsg, RegisterPayload,
};
use ibcx_interface::types::RangeOrder;
use k256::ecdsa::signature::hazmat::PrehashSigner;
use k256::ecdsa::{Signature, SigningKey};
use cosmwasm_std::Uint128;
use serde_json::{json, Value};
use sha2::{Digest, Sha256};

use crate::chain::{valid_addr, Chain, Code};
use crate::ctx::{size, Ctx};
use crate::util::{coins_str, Coins, Rng};

const DROP: &str = "osmo1airdrop0contract";
const CREATORS: [&str; 3] = ["osmo1creator0", "osmo1creator1", "osmo1creator2"];
const DENOMS: [&str; 3] = ["uosmo", "uatom", "factory/osmo1abc/idx"];
const MAX_PAGE: u32 = 30;

fn sha(b: &[u8]) -> [u8; 32] {
    Sha256::digest(b).into()
}
fn addr_of(pk: &[u8]) -> String {
    let h = ripemd::Ripemd160::digest(sha(pk));
    bech32::encode("osmo", h.to_vec().to_base32(), bech32::Variant::Bech32).unwrap()
}

#[derive(Clone)]
struct Signer {
    sk: SigningKey,
    pk: Vec<u8>,
    addr: String,
}
impl Signer {
    fn new(n: u64) -> Self {
        let sk = SigningKey::from_slice(&sha(format!("signer {n}").as_bytes())).unwrap();
        let pk = sk.verifying_key().to_encoded_point(n % 3 != 2).as_bytes().to_vec();
        let addr = addr_of(&pk);
        Signer { sk, pk, addr }
    }
    fn sign(&self, text: &str) -> Vec<u8> {
        let s: Signature = self.sk.sign_prehash(&sha(text.as_bytes())).unwrap();
        s.to_bytes().to_vec()
    }
}

#[derive(Clone)]
struct Tree {
    layers: Vec<Vec<[u8; 32]>>,
}
fn pair(a: [u8; 32], b: [u8; 32]) -> [u8; 32] {
    let mut v = [a, b];
    v.sort();
    sha(&v.concat())
}
impl Tree {
    fn new(leaves: Vec<[u8; 32]>) -> Self {
        let mut layers = vec![leaves];
        while layers.last().unwrap().len() > 1 {
            let n = layers
                .last()
                .unwrap()
                .chunks(2)
                .map(|c| if c.len() == 2 { pair(c[0], c[1]) } else { c[0] })
                .collect();
            layers.push(n);
        }
        Tree { layers }
    }
    fn root(&self) -> [u8; 32] {
        self.layers.last().unwrap()[0]
    }
    fn proof(&self, mut i: usize) -> Vec<[u8; 32]> {
        let mut out = vec![];
        for l in &self.layers[..self.layers.len() - 1] {
            if let Some(x) = l.get(i ^ 1) {
                out.push(*x);
            }
            i /= 2;
        }
        out
    }
}
fn leaf(key: &str, amount: u128) -> [u8; 32] {
    sha(format!("{key}:{amount}").as_bytes())
}

/// what was committed to: (key, amount, for bearer the account it was signed for)
#[derive(Clone)]
struct List {
    entries: Vec<(String, u128, String)>,
    tree: Tree,
}

#[derive(Clone)]
struct Camp {
    bearer: Option<Signer>,
    creator: String,
    denom: String,
    total: u128,
    claimed: u128,
    root: String,
    label: Option<String>,
    created: u64,
    closed: Option<u64>,
    claims: BTreeMap<String, u128>,
    list: usize,
}
impl Camp {
    fn json(&self, id: u64) -> Value {
        let mut v = json!({
            "id": id, "creator": self.creator, "denom": self.denom,
            "total_amount": self.total.to_string(), "total_claimed": self.claimed.to_string(),
            "merkle_root": self.root, "label": self.label, "created_at": self.created, "closed_at": self.closed,
        });
        if let Some(s) = &self.bearer {
            v["signer"] = json!(s.addr);
            v["signer_pub"] = json!(hex::encode(&s.pk));
            json!({ "bearer": v })
        } else {
            json!({ "open": v })
        }
    }
    fn left(&self) -> u128 {
        self.total - self.claimed
    }
}

#[derive(Clone, Debug)]
struct Claim {
    id: AirdropId,
    bearer: bool,
    amount: u128,
    account: Option<String>,
    hash: String,
    sig: String,
    proof: Vec<String>,
}
impl Claim {
    fn payload(&self) -> ClaimPayload {
        let (airdrop, amount, account) = (self.id.clone(), Uint128::new(self.amount), self.account.clone());
        let merkle_proof = self.proof.clone();
        if self.bearer {
            ClaimPayload::Bearer {
                airdrop,
                amount,
                account,
                claim_hash: self.hash.clone(),
                claim_sign: self.sig.clone(),
                merkle_proof,
            }
        } else {
            ClaimPayload::Open { airdrop, amount, account, merkle_proof }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum No {
    NoCampaign,
    Type,
    Closed,
    Claimed,
    Proof,
    Sig,
    Funds,
    Account,
}
impl No {
    fn tags(self) -> &'static [&'static str] {
        match self {
            No::NoCampaign => &["A05"],
            No::Type => &["A03"],
            No::Closed => &["A04"],
            No::Claimed => &["A02"],
            No::Proof | No::Sig | No::Account => &["A03"],
            No::Funds => &["A01"],
        }
    }
}

pub struct World {
    chain: Chain,
    rng: Rng,
    camps: Vec<Camp>,
    labels: BTreeMap<String, u64>,
    lists: Vec<std::sync::Arc<List>>,
    signers: Vec<Signer>,
    creators: Vec<String>,
    people: Vec<String>,
    gifts: BTreeMap<String, u128>,
    /// claims that were valid once, for retries
    past: Vec<(Claim, String)>,
}

fn v<T: serde::Serialize>(t: &T) -> Value {
    serde_json::to_value(t).unwrap()
}

impl World {
    pub fn new(ctx: &mut Ctx, mut rng: Rng) -> Self {
        let mut chain = Chain::new(1_700_000_000);
        let mut people: Vec<String> = vec![];
        for i in 0..rng.urange(2, 14) {
            let n = rng.below(1 << 40);
            people.push(if i % 2 == 0 {
                addr_of(format!("p{n}").as_bytes())
            } else {
                format!("osmo1p{n:x}")
            });
        }
        let signers: Vec<Signer> = (0..3).map(Signer::new).collect();
        let mut creators: Vec<String> = CREATORS.iter().map(|c| c.to_string()).collect();
        if rng.pct(40) {
            // a creator who also signs, or who is first in every list
            let i = rng.below(3) as usize;
            creators[0] = if rng.pct(70) { signers[i].addr.clone() } else { people[0].clone() };
        }
        for c in &creators {
            if !people.contains(c) {
                people.push(c.clone());
            }
            for d in DENOMS {
                chain.give(c, d, 1 << 100);
            }
        }
        for d in DENOMS {
            chain.give(&people[0], d, 1 << 90);
        }
        chain.instantiate(Code::Airdrop, DROP, CREATORS[0], &json!({}), &vec![]).unwrap();
        for (s, d) in signers.iter().flat_map(|s| DENOMS.iter().map(move |d| (s, d))) {
            chain.give(&s.addr, d, 1 << 90);
        }
        let mut w = World {
            chain,
            rng,
            camps: vec![],
            labels: BTreeMap::new(),
            lists: vec![],
            signers,
            creators,
            people,
            gifts: BTreeMap::new(),
            past: vec![],
        };
        ctx.log(|| "airdrop world".into());
        w.check(ctx, None, &["A05"]);
        w
    }

    fn new_list(&mut self, bearer: bool, sum_hint: u128) -> usize {
        let n = match self.rng.below(60) {
            0 => self.rng.urange(34, 300),
            1 if self.rng.pct(30) => self.rng.urange(300, 3000),
            _ => *self.rng.pick(&[1usize, 2, 3, 4, 5, 7, 8, 13, 33]),
        };
        let mut e: Vec<(String, u128, String)> = vec![];
        for i in 0..n {
            let who = if i < self.people.len() && self.rng.pct(80) {
                self.people[i].clone()
            } else if self.rng.pct(70) {
                addr_of(format!("x{}", self.rng.next()).as_bytes())
            } else {
                self.rng.pick(&self.people.clone()).clone()
            };
            let key = if bearer {
                match self.rng.below(12) {
                    0 => format!("{}", i),
                    1 => format!("a/{}:{}", who, i),
                    2 => format!("{}{}", "ABC".repeat(i % 4), i),
                    3 => who.clone(),
                    4 => hex::encode(sha(format!("h{i}").as_bytes())),
                    5 if i == 0 => String::new(),
                    // longer than a hash, and alike for most of their length
                    6 => format!("{}{}", "long/claim/name/".repeat(*self.rng.pick(&[4, 8, 9, 16, 40])), i),
                    7 => format!("{}{}", i, "long/claim/name/".repeat(*self.rng.pick(&[4, 8, 9, 16, 40]))),
                    _ => hex::encode(sha(&self.rng.next().to_be_bytes())),
                }
            } else {
                who.clone()
            };
            let amount = if self.rng.pct(1) { 0 } else { self.rng.amount(sum_hint.max(2)) };
            e.push((key, amount, who));
        }
        let tree = Tree::new(e.iter().map(|x| leaf(&x.0, x.1)).collect());
        self.lists.push(List { entries: e, tree }.into());
        self.lists.len() - 1
    }

    fn resolve(&self, id: &AirdropId) -> Option<u64> {
        match id {
            AirdropId::Id(i) => ((*i as usize) < self.camps.len()).then_some(*i),
            AirdropId::Label(l) => self.labels.get(l).copied(),
        }
    }

    /// a way to name campaign i
    fn name(&mut self, i: usize) -> AirdropId {
        match &self.camps[i].label {
            Some(l) if self.rng.pct(50) => AirdropId::Label(l.clone()),
            _ => AirdropId::Id(i as u64),
        }
    }
    fn some_name(&mut self) -> AirdropId {
        let n = self.camps.len() as u64;
        match self.rng.below(10) {
            0 => AirdropId::Id(n),
            1 => AirdropId::Id(n + self.rng.below(5)),
            // names that were never given, some of which look like another name of a campaign
            2 => AirdropId::Label(match self.rng.below(4) {
                0 | 1 => self.rng.below(n + 1).to_string(),
                2 => format!("{}/{}", self.creators[0], self.rng.below(n + 1)),
                _ => "nope".into(),
            }),
            3 if n > 0 && self.rng.pct(50) => match &self.rng.pick(&self.camps.clone()).label {
                Some(l) => AirdropId::Label(match self.rng.below(6) {
                    0 => format!("{l}/"),
                    1 => format!("{l} "),
                    2 => format!("/{l}"),
                    3 => l.to_uppercase(),
                    4 => l.chars().take(l.chars().count() - 1).collect(),
                    _ => l.replacen('/', "//", 1),
                }),
                None => AirdropId::Label(self.camps[0].creator.clone()),
            },
            3 => AirdropId::Label(format!("{}/nope", CREATORS[0])),
            4 if n > 0 => match &self.rng.pick(&self.camps.clone()).label {
                Some(l) => AirdropId::Label(l.split('/').skip(1).collect::<Vec<_>>().join("/")),
                None => AirdropId::Label(String::new()),
            },
            _ if n > 0 => {
                let i = self.rng.below(n) as usize;
                self.name(i)
            }
            _ => AirdropId::Id(0),
        }
    }

    /// runs a message, compares outcome and balance changes with the prediction
    fn tx(
        &mut self,
        ctx: &mut Ctx,
        who: &str,
        msg: &ExecuteMsg,
        funds: &Coins,
        want: Result<BTreeMap<(String, String), i128>, Vec<&'static str>>,
        ok_tags: &[&'static str],
    ) -> bool {
        let before = self.chain.st.bank.clone();
        let m = v(msg);
        let r = self.chain.exec(who, DROP, &m, funds);
        ctx.count("tx");
        let kind = m.as_object().and_then(|o| o.keys().next().cloned()).unwrap_or_default();
        ctx.count(&format!("{kind}_{}", if r.is_ok() { "ok" } else { "refused" }));
        let h = self.chain.height;
        ctx.log(|| {
            let o = r.as_ref().map_or_else(|e| format!("refused: {e}"), |_| "ok".into());
            format!("h={h} {who} sends {m} funds [{}] -> {o}", coins_str(funds))
        });
        match (&r, &want) {
            (Ok(()), Err(tags)) => {
                ctx.flag(tags, format!("{kind} by {who} went through but must not: {m}"));
            }
            (Err(e), Ok(_)) => {
                ctx.flag(ok_tags, format!("{kind} by {who} refused ({e}) but must work: {m}"));
            }
            (Ok(()), Ok(d)) => {
                let got = Chain::diff(&before, &self.chain.st.bank);
                if got != *d {
                    let tags: &[&str] = match kind.as_str() {
                        "claim" => &["A02", "A01"],
                        "close" => &["A04", "A01"],
                        _ => &["A01", "A04"],
                    };
                    ctx.flag(tags, format!("{kind} moved {got:?}, expected {d:?}"));
                }
            }
            _ => {}
        }
        r.is_ok()
    }

    fn register(&mut self, ctx: &mut Ctx) {
        let creator = self.rng.pick(&self.creators.clone()).clone();
        let bearer = self.rng.pct(50);
        let denom = self.rng.pick(&DENOMS).to_string();
        let hint = self.rng.amount(1 << 80);
        let list = if !self.lists.is_empty() && self.rng.pct(25) {
            self.rng.below(self.lists.len() as u64) as usize
        } else {
            self.new_list(bearer, hint)
        };
        let sum: u128 = self.lists[list].entries.iter().map(|e| e.1).sum();
        let amount = match self.rng.below(4) {
            0 => sum.saturating_sub(self.rng.amount(sum.max(1))).max(1),
            1 => sum + self.rng.amount(hint.max(1)),
            _ => sum.max(1),
        };
        let mut root = hex::encode(self.lists[list].tree.root());
        let mut no: Vec<&'static str> = vec![];
        if self.rng.pct(6) {
            root = match self.rng.below(4) {
                0 => root[..62].to_string(),
                1 => root.clone() + "00",
                2 => "zz".to_string() + &root[2..],
                _ => String::new(),
            };
            no.push("A03");
        } else if self.rng.pct(8) {
            root = root.to_uppercase();
        }
        let mut funds: Coins = vec![(denom.clone(), amount)];
        if self.rng.pct(10) {
            funds = match self.rng.below(3) {
                0 => vec![],
                1 => vec![(DENOMS.iter().find(|d| **d != denom).unwrap().to_string(), amount)],
                _ => DENOMS.iter().take(2).map(|d| (d.to_string(), amount)).collect(),
            };
            no.extend(["A01", "A04"]);
        }
        let text = match self.rng.below(9) {
            0 => Some(String::new()),
            1 => Some("a/b".into()),
            2 => Some(format!("l{}", self.rng.below(20))),
            3 => Some("A".into()),
            8 => {
                let odd = ["a", "a/", "/", "/a", "a//b", "a ", " a", "l1/", "L1", "l01", "l1 ", "0", "7", "null", "\u{e9}t\u{e9}", "osmo1creator1/l1", "a/b/", "a\u{0}"];
                match self.rng.below(8) {
                    0 => Some("long label ".repeat(self.rng.urange(20, 40))),
                    1 => Some(format!("{}{}", "long label ".repeat(24), self.rng.below(3))),
                    _ => Some(self.rng.pick(&odd).to_string()),
                }
            }
            4 | 5 => Some(format!("l{}", self.rng.below(4))),
            _ => None,
        };
        let label = text.as_ref().map(|t| format!("{creator}/{t}"));
        if label.as_ref().is_some_and(|l| self.labels.contains_key(l)) {
            no.push("A05");
        }
        let signer = self.rng.below(self.signers.len() as u64) as usize;
        let s = self.signers[signer].clone();
        let payload = if bearer {
            let mut pk = s.pk.clone();
            let mut sig = s.sign(&s.addr);
            if self.rng.pct(20) {
                let o = self.signers[(signer + 1) % self.signers.len()].clone();
                match self.rng.below(6) {
                    0 => sig = o.sign(&s.addr),
                    1 => sig = o.sign(&o.addr),
                    2 if creator != s.addr => sig = s.sign(&creator),
                    3 => pk = o.pk.clone(),
                    4 => sig.truncate(63),
                    _ => {
                        let n = pk.len() - 1;
                        pk.truncate(n)
                    }
                }
                no.push("A03");
            }
            RegisterPayload::Bearer {
                merkle_root: root.clone(),
                denom: denom.clone(),
                signer_pub: hex::encode(pk),
                signer_sig: hex::encode(sig),
                label: text.clone(),
            }
        } else {
            RegisterPayload::Open { merkle_root: root.clone(), denom: denom.clone(), label: text.clone() }
        };
        let want = if no.is_empty() {
            let mut d = BTreeMap::new();
            d.insert((creator.clone(), denom.clone()), -(amount as i128));
            d.insert((DROP.to_string(), denom.clone()), amount as i128);
            Ok(d)
        } else {
            Err(no.clone())
        };
        let ok = self.tx(ctx, &creator, &ExecuteMsg::Register(payload), &funds, want, &["A05", "A03"]);
        let sig = [10, bearer as u64, label.is_some() as u64, ok as u64, no.len() as u64, size(amount), self.camps.len() as u64];
        for p in ["A01", "A03", "A05"] {
            ctx.obs(p, &sig);
        }
        if ok && !no.is_empty() {
            ctx.broken = true;
        }
        if ok {
            let id = self.camps.len() as u64;
            if let Some(l) = &label {
                self.labels.insert(l.clone(), id);
            }
            self.camps.push(Camp {
                bearer: bearer.then_some(s),
                creator,
                denom,
                total: amount,
                claimed: 0,
                root,
                label,
                created: self.chain.height,
                closed: None,
                claims: BTreeMap::new(),
                list,
            });
        }
    }

    fn open_one(&mut self) -> Option<usize> {
        let o: Vec<usize> = (0..self.camps.len()).filter(|i| self.camps[*i].closed.is_none()).collect();
        (!o.is_empty()).then(|| *self.rng.pick(&o))
    }

    /// somebody with some part in campaign t, who is likely not its creator
    fn outsider(&mut self, t: Option<usize>) -> String {
        let camp = t.map(|i| self.camps[i].clone());
        match (self.rng.below(6), camp) {
            (0, Some(Camp { bearer: Some(s), .. })) => s.addr.clone(),
            (1, Some(c)) if !c.claims.is_empty() => {
                let l = &self.lists[c.list].entries;
                l[self.rng.below(l.len() as u64) as usize].2.clone()
            }
            (2, _) => {
                let i = self.rng.below(self.signers.len() as u64) as usize;
                self.signers[i].addr.clone()
            }
            (3, _) => self.rng.pick(&self.creators.clone()).clone(),
            (4, _) => self.people[0].clone(),
            _ => self.rng.pick(&self.people.clone()).clone(),
        }
    }

    fn fund(&mut self, ctx: &mut Ctx) {
        let id = match self.open_one() {
            Some(i) if self.rng.pct(65) => self.name(i),
            _ => self.some_name(),
        };
        let t = self.resolve(&id).map(|i| i as usize);
        let who = match t {
            Some(i) if self.rng.pct(75) => self.camps[i].creator.clone(),
            _ => {
                self.outsider(t)
            }
        };
        let denom = match t {
            Some(i) if self.rng.pct(80) => self.camps[i].denom.clone(),
            _ => self.rng.pick(&DENOMS).to_string(),
        };
        let amount = self.rng.amount(1 << 70);
        let mut funds = vec![(denom.clone(), amount)];
        if self.rng.pct(8) {
            funds = match self.rng.below(2) {
                0 => vec![],
                _ => DENOMS.iter().map(|d| (d.to_string(), amount)).collect(),
            };
        }
        let want = match t {
            None => Err(vec!["A05", "A04"]),
            Some(i) => {
                let c = &self.camps[i];
                if c.creator != who || c.closed.is_some() {
                    Err(vec!["A04"])
                } else if funds.len() != 1 || denom != c.denom {
                    Err(vec!["A04", "A01"])
                } else {
                    let mut d = BTreeMap::new();
                    d.insert((who.clone(), denom.clone()), -(amount as i128));
                    d.insert((DROP.to_string(), denom.clone()), amount as i128);
                    Ok(d)
                }
            }
        };
        let allowed = want.is_ok();
        let ok = self.tx(ctx, &who, &ExecuteMsg::Fund(id), &funds, want, &["A04"]);
        ctx.obs("A04", &[20, ok as u64, t.map_or(9, |i| self.camps[i].closed.is_some() as u64), size(amount), funds.len() as u64]);
        ctx.obs("A01", &[20, ok as u64, size(amount), self.camps.len() as u64]);
        if ok && allowed {
            self.camps[t.unwrap()].total += amount;
        }
    }

    fn close(&mut self, ctx: &mut Ctx, id: AirdropId, who: String, funds: Coins) -> bool {
        let t = self.resolve(&id).map(|i| i as usize);
        let want = match t {
            None => Err(vec!["A05", "A04"]),
            Some(i) => {
                let c = &self.camps[i];
                if c.creator != who || c.closed.is_some() {
                    Err(vec!["A04"])
                } else {
                    let mut d = BTreeMap::new();
                    if c.left() > 0 {
                        d.insert((who.clone(), c.denom.clone()), c.left() as i128);
                        d.insert((DROP.to_string(), c.denom.clone()), -(c.left() as i128));
                    }
                    for (x, a) in &funds {
                        for (k, s) in [(&who, -1i128), (&DROP.to_string(), 1)] {
                            let e = d.entry((k.clone(), x.clone())).or_default();
                            *e += s * *a as i128;
                        }
                    }
                    d.retain(|_, v| *v != 0);
                    Ok(d)
                }
            }
        };
        let allowed = want.is_ok();
        let ok = self.tx(ctx, &who, &ExecuteMsg::Close(id), &funds, want, &["A04"]);
        if let Some(i) = t {
            let c = &self.camps[i];
            ctx.obs("A04", &[30, ok as u64, c.closed.is_some() as u64, size(c.left()), size(c.claimed), c.bearer.is_some() as u64]);
            ctx.obs("A01", &[30, ok as u64, size(c.left()), self.camps.len() as u64]);
        }
        if ok && allowed {
            let h = self.chain.height;
            self.camps[t.unwrap()].closed = Some(h);
            for (x, a) in funds {
                *self.gifts.entry(x).or_default() += a;
            }
        }
        ok
    }

    /// the honest claim of entry e of campaign i
    fn honest(&mut self, i: usize, e: usize) -> Claim {
        let id = self.name(i);
        let c = &self.camps[i];
        let l = &self.lists[c.list];
        let (key, amount, who) = l.entries[e].clone();
        let proof = l.tree.proof(e).iter().map(hex::encode).collect();
        let sig = c.bearer.as_ref().map(|s| hex::encode(s.sign(&format!("{key}/{who}/{amount}")))).unwrap_or_default();
        Claim { id, bearer: c.bearer.is_some(), amount, account: Some(who), hash: key, sig, proof }
    }

    /// Is this claim to be paid, to whom, under which key? Decided from the committed list itself.
    fn judge(&self, c: &Claim, sender: &str) -> Result<(usize, String, String), No> {
        self.judged(c, sender, true)
    }

    /// `named`: the account has to be a proper address
    fn judged(&self, c: &Claim, sender: &str, named: bool) -> Result<(usize, String, String), No> {
        let Some(i) = self.resolve(&c.id) else { return Err(No::NoCampaign) };
        let i = i as usize;
        let camp = &self.camps[i];
        if camp.bearer.is_some() != c.bearer {
            return Err(No::Type);
        }
        if camp.closed.is_some() {
            return Err(No::Closed);
        }
        let who = c.account.clone().unwrap_or_else(|| sender.to_string());
        if named && !valid_addr(&who) {
            return Err(No::Account);
        }
        let key = if c.bearer { c.hash.clone() } else { who.clone() };
        if camp.claims.contains_key(&key) {
            return Err(No::Claimed);
        }
        let l = &self.lists[camp.list];
        if !l.entries.iter().any(|e| e.0 == key && e.1 == c.amount) {
            return Err(No::Proof);
        }
        // a proof is a path from the leaf to the root
        let mut h = leaf(&key, c.amount);
        for p in &c.proof {
            let mut b = [0u8; 32];
            if hex::decode_to_slice(p, &mut b).is_err() {
                return Err(No::Proof);
            }
            h = pair(h, b);
        }
        if h != l.tree.root() {
            return Err(No::Proof);
        }
        if let Some(s) = &camp.bearer {
            let want = sha(format!("{}/{who}/{}", c.hash, c.amount).as_bytes());
            let good = (|| {
                use k256::ecdsa::signature::hazmat::PrehashVerifier;
                let b = hex::decode(&c.sig).ok()?;
                let sig = Signature::from_slice(&b).ok()?;
                let sig = sig.normalize_s().unwrap_or(sig);
                s.sk.verifying_key().verify_prehash(&want, &sig).ok()
            })();
            if good.is_none() {
                return Err(No::Sig);
            }
        }
        if c.amount > camp.left() {
            return Err(No::Funds);
        }
        Ok((i, key, who))
    }

    fn do_claim(&mut self, ctx: &mut Ctx, c: &Claim, sender: &str, note: u64) -> bool {
        let j = self.judge(c, sender);
        // zero entries cannot be paid by the bank: either answer will do
        if c.amount == 0 && j.is_ok() {
            let before = self.chain.st.bank.clone();
            let r = self.chain.exec(sender, DROP, &v(&ExecuteMsg::Claim(c.payload())), &vec![]);
            if r.is_ok() {
                let (i, key, _) = j.unwrap();
                self.camps[i].claims.insert(key, 0);
                if before != self.chain.st.bank {
                    ctx.flag(&["A02", "A01"], "a claim of nothing moved coins".into());
                }
            }
            return r.is_ok();
        }
        let want = match &j {
            Ok((i, _, who)) => {
                let d = &self.camps[*i].denom;
                let mut m = BTreeMap::new();
                m.insert((who.clone(), d.clone()), c.amount as i128);
                m.insert((DROP.to_string(), d.clone()), -(c.amount as i128));
                Ok(m)
            }
            Err(n) => Err(n.tags().to_vec()),
        };
        self.check_verify(ctx, c, sender, &j);
        let ok = self.tx(ctx, sender, &ExecuteMsg::Claim(c.payload()), &vec![], want, &["A03"]);
        let why = j.as_ref().err().map_or(0, |n| 1 + *n as u64);
        let sig = [40, note, why, c.bearer as u64, size(c.amount), c.proof.len() as u64, matches!(c.id, AirdropId::Id(_)) as u64];
        for p in ["A01", "A02", "A03"] {
            ctx.obs(p, &sig);
        }
        if why == 3 {
            ctx.obs("A04", &sig);
        }
        ctx.count(&match &j {
            Ok(_) => "claim_judged_payable".to_string(),
            Err(n) => format!("claim_judged_{n:?}"),
        });
        if ok {
            match j {
                Ok((i, key, _)) => {
                    self.camps[i].claims.insert(key, c.amount);
                    self.camps[i].claimed += c.amount;
                    if self.past.len() < 40 {
                        self.past.push((c.clone(), sender.to_string()));
                    }
                }
                Err(_) => ctx.broken = true,
            }
        }
        ok
    }

    /// A06
    fn check_verify(&mut self, ctx: &mut Ctx, c: &Claim, sender: &str, j: &Result<(usize, String, String), No>) {
        if !ctx.is("A06") && self.rng.pct(80) {
            return;
        }
        let before = self.chain.st.contracts.get(DROP).cloned();
        let q = self.chain.query(DROP, &v(&QueryMsg::VerifyClaim { claim: c.payload() }));
        if before.map(|b| b.1) != self.chain.st.contracts.get(DROP).map(|b| b.1.clone()) {
            ctx.flag(&["A06"], "verification changed the state".into());
        }
        if c.account.is_none() {
            return; // names no account
        }
        let valid = matches!(&q, Ok(a) if a["valid"] == json!(true));
        if matches!(j, Err(No::Account)) {
            // nobody can be paid under this name, and what the list and the signer say still counts
            let l = self.judged(c, sender, false);
            if valid && !matches!(l, Ok(_) | Err(No::Claimed) | Err(No::Funds)) {
                ctx.flag(&["A06"], format!("verification says {q:?}, the list says {l:?}: {:?}", c));
            }
            ctx.obs("A06", &[51, c.bearer as u64, valid as u64, l.is_ok() as u64]);
            return;
        }
        if let Ok(a) = &q {
            if !a["valid"].is_boolean() {
                ctx.flag(&["A06"], format!("odd answer {a}"));
            }
        }
        // unclaimed and sufficiently funded: what executing would do
        if matches!(j, Err(No::Claimed) | Err(No::Funds)) {
            return;
        }
        let (_, r) = self.chain.dry(sender, DROP, &v(&ExecuteMsg::Claim(c.payload())), &vec![]);
        if valid != r.is_ok() {
            ctx.flag(&["A06"], format!("verification says {q:?}, executing says {r:?}: {:?}", c));
        }
        if valid != j.is_ok() {
            ctx.flag(&["A06", "A03"], format!("verification says {q:?}, the list says {j:?}: {:?}", c));
        }
        let why = j.as_ref().err().map_or(0, |n| 1 + *n as u64);
        ctx.obs("A06", &[50, why, c.bearer as u64, valid as u64, c.proof.len() as u64, size(c.amount), matches!(c.id, AirdropId::Id(_)) as u64]);
    }

    fn claim(&mut self, ctx: &mut Ctx) {
        if self.camps.is_empty() {
            return;
        }
        let mut i = self.rng.below(self.camps.len() as u64) as usize;
        if self.rng.pct(60) {
            i = self.open_one().unwrap_or(i);
        }
        let n = self.lists[self.camps[i].list].entries.len();
        let mut e = self.rng.below(n as u64) as usize;
        if self.rng.pct(60) {
            // somebody who has not claimed
            let (c, l) = (&self.camps[i], &self.lists[self.camps[i].list]);
            let o: Vec<usize> = (0..n).filter(|e| !c.claims.contains_key(&l.entries[*e].0)).collect();
            if !o.is_empty() {
                e = *self.rng.pick(&o);
            }
        }
        let mut c = self.honest(i, e);
        let mut sender = self.rng.pick(&self.people).clone();
        let who = c.account.clone().unwrap();
        let mut note = 0;
        if self.rng.pct(30) && valid_addr(&who) {
            sender = who.clone();
            if self.rng.pct(60) {
                c.account = None;
            }
        }
        if self.rng.pct(50) {
            note = 1 + self.rng.below(22);
            if c.bearer && self.rng.pct(40) {
                note = *self.rng.pick(&[4, 5, 14, 15, 16, 17, 20, 21, 22]);
            }
            let people = self.people.clone();
            let list = self.lists[self.camps[i].list].clone();
            let o = self.rng.below(n as u64) as usize;
            let other = list.entries[o].clone();
            let camp = self.camps[i].clone();
            let resign = |c: &mut Claim, camp: &Camp, who: &str| {
                if let Some(s) = &camp.bearer {
                    c.sig = hex::encode(s.sign(&format!("{}/{who}/{}", c.hash, c.amount)));
                }
            };
            match note {
                1 => {
                    c.amount += 1;
                    resign(&mut c, &camp, &who)
                }
                2 => {
                    c.amount = c.amount.saturating_mul(10);
                    resign(&mut c, &camp, &who)
                }
                3 => {
                    c.amount -= c.amount.min(1);
                    resign(&mut c, &camp, &who)
                }
                4 => {
                    // somebody else wants it
                    let a = self.rng.pick(&people).clone();
                    c.account = Some(a);
                }
                5 => {
                    // bearer: the signer names somebody else
                    let a = self.rng.pick(&people).clone();
                    c.account = Some(a.clone());
                    resign(&mut c, &camp, &a);
                }
                6 => {
                    c.proof.pop();
                }
                7 => c.proof.push(hex::encode(sha(b"x"))),
                8 => c.proof.reverse(),
                9 => c.proof = list.tree.proof(o).iter().map(hex::encode).collect(),
                10 => {
                    if let Some(p) = c.proof.first_mut() {
                        *p = p.to_uppercase();
                    }
                }
                11 => {
                    if let Some(p) = c.proof.last_mut() {
                        p.truncate(62);
                    }
                }
                12 => {
                    c.proof = vec![hex::encode(list.tree.root())];
                }
                13 => c.proof = vec![],
                14 => {
                    let s = self.rng.pick(&self.signers).clone();
                    c.sig = hex::encode(s.sign(&format!("{}/{who}/{}", c.hash, c.amount)));
                }
                15 => {
                    if let Some(s) = &camp.bearer {
                        c.sig = hex::encode(s.sign(&format!("{}/{}/{}", other.0, who, c.amount)));
                    }
                }
                16 => {
                    if let Some(s) = &camp.bearer {
                        c.sig = hex::encode(s.sign(&format!("{}/{}/{}", c.hash, who, other.1)));
                    }
                }
                17 => {
                    // the other root of the same signature
                    if let Ok(b) = hex::decode(&c.sig) {
                        if let Ok(s) = Signature::from_slice(&b) {
                            let (r, s2) = (s.r().to_bytes(), (-*s.s().as_ref()).to_bytes());
                            c.sig = hex::encode([&r[..], &s2[..]].concat());
                        }
                    }
                }
                18 => {
                    // same hash and key, other type
                    c.bearer = !c.bearer;
                }
                19 => {
                    c.id = self.some_name();
                }
                20 => {
                    c.hash = other.0.clone();
                }
                21 => {
                    c.hash = c.hash.to_uppercase();
                    resign(&mut c, &camp, &who);
                }
                _ => {
                    if self.rng.pct(30) {
                        c.account = Some("nobody".into());
                    } else if self.rng.pct(50) {
                        // white space about the name
                        let w = *self.rng.pick(&[" ", "\n", "\t"]);
                        c.account = Some(if self.rng.pct(50) { format!("{w}{who}") } else { format!("{who}{w}") });
                    } else {
                        // open: everything right except that the account is spelled differently
                        c.account = Some(who.to_uppercase());
                    }
                }
            }
        }
        let ok = self.do_claim(ctx, &c, &sender, note);
        // retries: by the same, by another, by the other name
        if ok && self.rng.pct(60) {
            let mut d = c.clone();
            d.id = self.name(i);
            if !d.bearer && d.account.is_none() {
                d.account = Some(sender.clone());
            }
            let s2 = if self.rng.pct(50) && d.account.is_some() { self.rng.pick(&self.people).clone() } else { sender };
            if d.bearer && self.rng.pct(30) {
                // the signer signed the same hash for somebody else, too
                let a = self.rng.pick(&self.people).clone();
                d.account = Some(a.clone());
                let camp = &self.camps[i];
                d.sig = hex::encode(camp.bearer.as_ref().unwrap().sign(&format!("{}/{a}/{}", d.hash, d.amount)));
            }
            self.do_claim(ctx, &d, &s2, 30);
        }
    }

    fn retry(&mut self, ctx: &mut Ctx) {
        if self.past.is_empty() {
            return;
        }
        let (mut c, s) = self.rng.pick(&self.past).clone();
        if self.rng.pct(50) {
            if let Some(i) = self.resolve(&c.id) {
                c.id = self.name(i as usize);
            }
        } else if self.rng.pct(30) {
            c.id = self.some_name();
        }
        self.do_claim(ctx, &c, &s, 31);
    }

    /// state as answered against the model
    fn check(&mut self, ctx: &mut Ctx, touched: Option<u64>, tags: &[&'static str]) {
        let _ = tags;
        // balances
        let mut want: BTreeMap<String, u128> = self.gifts.clone();
        for c in &self.camps {
            if c.closed.is_none() {
                *want.entry(c.denom.clone()).or_default() += c.left();
            }
        }
        for d in DENOMS {
            let (have, want) = (self.chain.bal(DROP, d), want.get(d).copied().unwrap_or(0));
            if have != want {
                ctx.flag(&["A01"], format!("holds {have}{d}, open campaigns (and gifts) come to {want}"));
            }
            ctx.obs("A01", &[1, size(want), self.camps.len() as u64, self.camps.iter().filter(|c| c.closed.is_some()).count() as u64]);
        }
        // latest id
        match self.chain.query(DROP, &v(&QueryMsg::LatestAirdropId {})) {
            Ok(a) if a == json!(self.camps.len()) => {}
            a => {
                ctx.flag(&["A05"], format!("next id {a:?}, registered {}", self.camps.len()));
            }
        }
        ctx.obs("A05", &[2, self.camps.len() as u64, self.labels.len() as u64]);
        // a name never given leads nowhere
        if self.rng.pct(25) {
            let nm = self.some_name();
            if self.resolve(&nm).is_none() {
                let a = self.chain.query(DROP, &v(&QueryMsg::GetAirdrop { id: nm.clone() }));
                ctx.count("unknown_name_asked");
                if let Ok(a) = a {
                    ctx.flag(&["A05"], format!("{nm:?} was never given but leads to {a}"));
                    return;
                }
            }
        }
        // campaigns: all of them now and then, else the touched one and another
        let all = self.rng.pct(15);
        let n = self.camps.len();
        let one = self.rng.below(n.max(1) as u64) as usize;
        for i in 0..n {
            if !(all || i == one || Some(i as u64) == touched) {
                continue;
            }
            let want = self.camps[i].json(i as u64);
            let mut names = vec![AirdropId::Id(i as u64)];
            if let Some(l) = &self.camps[i].label {
                names.push(AirdropId::Label(l.clone()));
            }
            for (k, nm) in names.iter().enumerate() {
                let a = self.chain.query(DROP, &v(&QueryMsg::GetAirdrop { id: nm.clone() }));
                if a.as_ref().ok() != Some(&want) {
                    let t: &[&str] = if k == 1 {
                        &["A05"]
                    } else {
                        let f = |x: &str| {
                            a.as_ref().ok().and_then(|a| a.as_object()).and_then(|o| o.values().next()).map(|o| o[x].clone())
                                == want.as_object().and_then(|o| o.values().next()).map(|o| o[x].clone())
                        };
                        if !f("total_amount") || !f("total_claimed") {
                            &["A01"]
                        } else if !f("closed_at") {
                            &["A04"]
                        } else {
                            &["A05"]
                        }
                    };
                    ctx.flag(t, format!("campaign {i} is answered as {a:?}, should be {want}"));
                }
            }
            ctx.obs("A01", &[3, size(self.camps[i].total), size(self.camps[i].claimed), self.camps[i].closed.is_some() as u64]);
            // its claims
            if self.rng.pct(if ctx.any(&["A02"]) { 100 } else { 20 }) {
                let c = self.camps[i].clone();
                let mut keys: Vec<String> = c.claims.keys().cloned().collect();
                for e in self.lists[c.list].entries.iter().take(6) {
                    keys.push(e.0.clone());
                }
                for k in keys {
                    let id = self.name(i);
                    let a = self.chain.query(DROP, &v(&QueryMsg::GetClaim { airdrop: id, claim_key: k.clone() }));
                    let want = c.claims.get(&k).map(|x| json!({"id": i, "amount": x.to_string(), "claim_key": k}));
                    if a.as_ref().ok() != want.as_ref() {
                        ctx.flag(&["A02"], format!("claim {k} of {i} is answered as {a:?}, should be {want:?}"));
                    }
                    ctx.obs("A02", &[4, want.is_some() as u64, c.closed.is_some() as u64, c.claims.len() as u64, c.bearer.is_some() as u64]);
                }
            }
        }
    }

    /// A05: every listing, page by page
    fn listings(&mut self, ctx: &mut Ctx) {
        let camps = self.camps.clone();
        let js = |ids: &[u64]| -> Vec<Value> { ids.iter().map(|i| camps[*i as usize].json(*i)).collect() };
        let ids: Vec<u64> = (0..camps.len() as u64).collect();
        let pages = |w: &mut Self, ctx: &mut Ctx, what: &str, tags: &[&str], want: Vec<Value>, q: &dyn Fn(Option<&Value>, Option<u32>, Option<RangeOrder>) -> Value| {
            let limit = match w.rng.below(7) {
                0 => None,
                1 => Some(1),
                6 => Some(0),
                2 => Some(MAX_PAGE),
                3 => Some(2),
                _ => Some(w.rng.range(1, 30) as u32),
            };
            let order = match w.rng.below(3) {
                0 => None,
                1 => Some(RangeOrder::Asc),
                _ => Some(RangeOrder::Desc),
            };
            let mut want = want;
            if matches!(order, Some(RangeOrder::Desc)) {
                want.reverse();
            }
            if limit == Some(0) {
                want.clear();
            }
            let mut got: Vec<Value> = vec![];
            loop {
                let m = q(got.last(), limit, order.clone());
                let a = w.chain.query(DROP, &m);
                let Ok(Value::Array(p)) = a else {
                    ctx.flag(tags, format!("{what}: {m} answered {a:?}"));
                    return;
                };
                let full = limit.unwrap_or(10) as usize;
                if p.len() > full {
                    ctx.flag(tags, format!("{what}: page of {} with limit {limit:?}", p.len()));
                    return;
                }
                if p.is_empty() {
                    break;
                }
                let short = p.len() < full;
                got.extend(p);
                if got.len() > want.len() + 5 {
                    break;
                }
                if short && w.rng.pct(50) {
                    break;
                }
            }
            if got != want {
                let (a, b) = (json!(got).to_string(), json!(want).to_string());
                ctx.flag(tags, format!("{what} (limit {limit:?}, order {order:?}) listed {a}, should be {b}"));
            }
            ctx.count("listings_paged");
            ctx.obs("A05", &[60, what.len() as u64, want.len() as u64, limit.unwrap_or(99) as u64, order.is_some() as u64]);
        };
        // the entry after which the next page starts
        let idof = |x: Option<&Value>| x.map(|x| x.as_object().unwrap().values().next().unwrap()["id"].as_u64().unwrap_or(0));
        let la = |o: L| v(&QueryMsg::ListAirdrops { option: o });
        pages(self, ctx, "by id", &["A05"], js(&ids), &|x, limit, order| la(L::ByID { start_after: idof(x), limit, order }));
        for (t, b) in [(AirdropType::Open, false), (AirdropType::Bearer, true)] {
            let w: Vec<u64> = ids.iter().copied().filter(|i| camps[*i as usize].bearer.is_some() == b).collect();
            pages(self, ctx, if b { "by type bearer" } else { "by type open" }, &["A05"], js(&w), &|x, limit, order| {
                la(L::ByType { typ: t.clone(), start_after: idof(x), limit, order })
            });
        }
        for c in self.creators.clone() {
            let w: Vec<u64> = ids.iter().copied().filter(|i| camps[*i as usize].creator == c).collect();
            pages(self, ctx, "by creator", &["A05"], js(&w), &|x, limit, order| {
                la(L::ByCreator { creator: c.to_string(), start_after: idof(x), limit, order })
            });
        }
        let w: Vec<u64> = self.labels.values().copied().collect();
        pages(self, ctx, "by label__", &["A05"], js(&w), &|x, limit, order| {
            let s = x.map(|x| x.as_object().unwrap().values().next().unwrap()["label"].as_str().unwrap_or("").to_string());
            la(L::ByLabel { start_after: s, limit, order })
        });
        let lab: Vec<Value> = self
            .labels
            .iter()
            .map(|(l, i)| {
                let (c, t) = l.split_once('/').unwrap();
                json!({"creator": c, "label": t, "airdrop_id": i})
            })
            .collect();
        for ((l, _), x) in self.labels.clone().iter().zip(&lab) {
            let a = self.chain.query(DROP, &v(&QueryMsg::GetLabel { label: l.clone() }));
            if a.as_ref().ok() != Some(x) {
                ctx.flag(&["A05"], format!("label {l} answered {a:?}, should be {x}"));
            }
        }
        pages(self, ctx, "labels", &["A05"], lab, &|x, limit, order| {
            let s = x.map(|x| format!("{}/{}", x["creator"].as_str().unwrap_or(""), x["label"].as_str().unwrap_or("")));
            v(&QueryMsg::ListLabels { start_after: s, limit, order })
        });
        for (i, c) in camps.iter().enumerate() {
            if self.rng.pct(40) {
                let w: Vec<Value> =
                    c.claims.iter().map(|(k, a)| json!({"id": i, "amount": a.to_string(), "claim_key": k})).collect();
                let id = self.name(i);
                pages(self, ctx, "claims of one", &["A05", "A02"], w, &|x, limit, order| {
                    let s = x.map(|x| x["claim_key"].as_str().unwrap_or("").to_string());
                    v(&QueryMsg::ListClaims { airdrop: id.clone(), start_after: s, limit, order })
                });
            }
        }
        // a page may start after an entry that is not, or no longer, among those listed
        if self.rng.pct(50) {
            let desc = self.rng.pct(50);
            let order = if desc { RangeOrder::Desc } else { RangeOrder::Asc };
            let k = self.rng.below(camps.len() as u64 + 3);
            let limit = self.rng.range(1, 6) as u32;
            let beyond = |mut v: Vec<u64>| -> Vec<Value> {
                if desc {
                    v.reverse();
                    v.retain(|i| *i < k);
                } else {
                    v.retain(|i| *i > k);
                }
                v.truncate(limit as usize);
                js(&v)
            };
            let typ = if self.rng.pct(50) { AirdropType::Open } else { AirdropType::Bearer };
            let b = typ == AirdropType::Bearer;
            let c = self.rng.pick(&self.creators.clone()).clone();
            let (s, o, l) = (Some(k), Some(order.clone()), Some(limit));
            let mut asked = vec![
                (la(L::ByID { start_after: s, limit: l, order: o.clone() }), beyond(ids.clone())),
                (
                    la(L::ByType { typ: typ.clone(), start_after: s, limit: l, order: o.clone() }),
                    beyond(ids.iter().copied().filter(|i| camps[*i as usize].bearer.is_some() == b).collect()),
                ),
                (
                    la(L::ByCreator { creator: c.clone(), start_after: s, limit: l, order: o.clone() }),
                    beyond(ids.iter().copied().filter(|i| camps[*i as usize].creator == c).collect()),
                ),
            ];
            let cut = format!("{c}/{}", self.rng.pick(&["", "a", "l", "l1", "l10", "z", "A", "a/a"]));
            let mut w: Vec<(&String, u64)> =
                self.labels.iter().filter(|x| if desc { *x.0 < cut } else { *x.0 > cut }).map(|(l, i)| (l, *i)).collect();
            if desc {
                w.reverse();
            }
            w.truncate(limit as usize);
            asked.push((
                la(L::ByLabel { start_after: Some(cut.clone()), limit: l, order: o.clone() }),
                js(&w.iter().map(|x| x.1).collect::<Vec<_>>()),
            ));
            asked.push((
                v(&QueryMsg::ListLabels { start_after: Some(cut.clone()), limit: l, order: o }),
                w.iter()
                    .map(|(l, i)| {
                        let (c, t) = l.split_once('/').unwrap();
                        json!({"creator": c, "label": t, "airdrop_id": i})
                    })
                    .collect(),
            ));
            if let Some(c) = camps.iter().position(|c| !c.claims.is_empty()) {
                let c = if self.rng.pct(50) { c } else { self.rng.below(camps.len() as u64) as usize };
                let near = camps[c].claims.keys().nth(self.rng.below(camps[c].claims.len().max(1) as u64) as usize);
                let cut = match (self.rng.below(3), near) {
                    (0, Some(k)) => format!("{k}!"),
                    (1, Some(k)) => k.chars().take(k.len() / 2).collect(),
                    _ => self.rng.pick(&["0", "a", "f", "osmo1m", "zz"]).to_string(),
                };
                let mut w: Vec<(&String, &u128)> =
                    camps[c].claims.iter().filter(|x| if desc { *x.0 < cut } else { *x.0 > cut }).collect();
                if desc {
                    w.reverse();
                }
                w.truncate(limit as usize);
                asked.push((
                    v(&QueryMsg::ListClaims { airdrop: AirdropId::Id(c as u64), start_after: Some(cut), limit: l, order: Some(order.clone()) }),
                    w.iter().map(|(k, a)| json!({"id": c, "amount": a.to_string(), "claim_key": k})).collect(),
                ));
            }
            for (q, want) in asked {
                let a = self.chain.query(DROP, &q);
                if a.as_ref().ok() != Some(&json!(want)) {
                    ctx.flag(&["A05"], format!("{q} answered {a:?}, should be {}", json!(want)));
                }
                ctx.obs("A05", &[61, desc as u64, want.len() as u64, limit as u64]);
            }
            ctx.count("listings_from_elsewhere");
        }
        // nobody gets more than a page
        let a = self.chain.query(DROP, &la(L::ByID { start_after: None, limit: Some(MAX_PAGE + 1), order: None }));
        if let Ok(Value::Array(p)) = &a {
            if p.len() > MAX_PAGE as usize {
                ctx.flag(&["A05"], "a page larger than the maximum".into());
            }
        }
    }

    /// every entry that must be payable is
    fn claim_everything(&mut self, ctx: &mut Ctx) {
        ctx.log(|| "probe: everybody claims".into());
        for i in 0..self.camps.len() {
            if self.camps[i].closed.is_some() {
                continue;
            }
            let n = self.lists[self.camps[i].list].entries.len();
            // of a long list, every so many-th entry
            for e in (0..n).step_by(1 + n / 60) {
                if ctx.broken {
                    return;
                }
                let c = self.honest(i, e);
                let s = self.rng.pick(&self.people).clone();
                self.do_claim(ctx, &c, &s, 32);
            }
        }
    }

    fn close_everything(&mut self, ctx: &mut Ctx) {
        ctx.log(|| "probe: everything is closed".into());
        for i in 0..self.camps.len() {
            if ctx.broken {
                return;
            }
            if self.camps[i].closed.is_some() {
                continue;
            }
            let id = self.name(i);
            let who = self.camps[i].creator.clone();
            self.close(ctx, id, who, vec![]);
        }
        self.check(ctx, None, &[]);
        for d in DENOMS {
            let (h, g) = (self.chain.bal(DROP, d), self.gifts.get(d).copied().unwrap_or(0));
            if h != g {
                ctx.flag(&["A01", "A04"], format!("after closing everything {h}{d} remain, given away {g}"));
            }
        }
        // closed is closed
        for _ in 0..6 {
            if ctx.broken || self.camps.is_empty() {
                return;
            }
            self.claim(ctx);
            self.fund(ctx);
            let id = self.some_name();
            if let Some(i) = self.resolve(&id) {
                let who = self.camps[i as usize].creator.clone();
                self.close(ctx, id, who, vec![]);
            }
            self.check(ctx, None, &[]);
        }
    }
}

pub fn history(ctx: &mut Ctx, rng: Rng) {
    let mut w = World::new(ctx, rng);
    let many = ctx.is("A05") && w.rng.pct(40);
    if many && w.rng.pct(3) {
        // more campaigns than a byte counts
        for _ in 0..w.rng.urange(240, 330) {
            w.register(ctx);
            let dt = w.rng.below(3);
            w.chain.advance(dt);
        }
        w.check(ctx, None, &[]);
    }
    let steps = if ctx.thorough { w.rng.urange(20, 160) } else { w.rng.urange(10, 60) };
    for s in 0..steps {
        if ctx.broken {
            return;
        }
        let op = if many {
            w.rng.weighted(&[70, 5, 20, 3, 2, 2])
        } else {
            w.rng.weighted(&[if s < 4 { 60 } else { 8 }, 10, 60, 4, 10, 5])
        };
        match op {
            0 => w.register(ctx),
            1 => w.fund(ctx),
            2 => w.claim(ctx),
            3 => {
                let id = w.some_name();
                let who = match w.resolve(&id) {
                    Some(i) if w.rng.pct(60) => w.camps[i as usize].creator.clone(),
                    t => w.outsider(t.map(|i| i as usize)),
                };
                // coins sent along are a gift
                let f = if w.rng.pct(5) && w.creators.contains(&who) { vec![(DENOMS[0].to_string(), 7)] } else { vec![] };
                w.close(ctx, id, who, f);
            }
            4 => w.retry(ctx),
            _ => {
                let d = w.rng.pick(&DENOMS).to_string();
                let a = w.rng.amount(1 << 40);
                let from = w.people[0].clone();
                if w.chain.tx_send(&from, DROP, &vec![(d.clone(), a)]).is_ok() {
                    *w.gifts.entry(d.clone()).or_default() += a;
                    ctx.log(|| format!("{from} gives {a}{d} to the contract"));
                }
            }
        }
        // now and then the next transaction falls into the same block
        if w.rng.pct(75) {
            let dt = w.rng.below(100);
            w.chain.advance(dt);
        }
        w.check(ctx, None, &[]);
        if ctx.is("A05") && w.rng.pct(8) {
            w.listings(ctx);
        }
    }
    if ctx.broken {
        return;
    }
    if ctx.any(&["A05", "A02"]) || w.rng.pct(10) {
        w.listings(ctx);
    }
    if ctx.any(&["A01", "A02", "A03", "A06"]) || w.rng.pct(30) {
        w.claim_everything(ctx);
        w.check(ctx, None, &[]);
    }
    if ctx.any(&["A05", "A02"]) {
        w.listings(ctx);
    }
    if !ctx.broken && (ctx.any(&["A01", "A04"]) || w.rng.pct(30)) {
        w.close_everything(ctx);
    }
    let c = w.camps.iter().map(|c| c.claims.len()).sum::<usize>();
    ctx.sample("history", || format!("{} campaigns, {} labels, {c} claims paid, {} txs", w.camps.len(), w.labels.len(), w.chain.txs));
}
