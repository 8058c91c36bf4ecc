//! The event log against what happened: each message a contract executed is compared, attribute by
//! attribute, with the state before it, the state after it and the coins it moved.
use std::cell::RefCell;
use std::collections::BTreeMap;

use serde_json::{json, Value};

use crate::chain::{Chain, Code, Ev};
use crate::corew::{js, ju, q_conf, q_port, q_reb};
use crate::ctx::{size, Ctx};
use crate::util::{hash_str, muldiv, Coins, E18};

#[derive(Default)]
struct Book {
    on: bool,
    wrong: Vec<String>,
    seen: Vec<(String, Vec<u64>)>,
}

thread_local! {
    static BOOK: RefCell<Book> = RefCell::new(Book::default());
}

pub fn start(on: bool) {
    BOOK.with(|b| *b.borrow_mut() = Book { on, ..Default::default() });
}
pub fn on() -> bool {
    BOOK.with(|b| b.borrow().on)
}
/// hand what was judged since to the run's context
pub fn drain(ctx: &mut Ctx) {
    let (wrong, seen) = BOOK.with(|b| {
        let mut b = b.borrow_mut();
        (std::mem::take(&mut b.wrong), std::mem::take(&mut b.seen))
    });
    for (k, sig) in seen {
        ctx.count(&format!("event_{k}"));
        ctx.obs("E01", &sig);
        ctx.sample(&format!("event_{k}"), || k.clone());
    }
    for w in wrong {
        ctx.flag(&["E01"], w);
    }
}

/// wasmd's rules for custom attributes
pub fn well_formed(attrs: &[(String, String)]) -> Result<(), String> {
    for (k, v) in attrs {
        if k.trim().is_empty() {
            return Err(format!("Empty attribute key. Value: {v}"));
        }
        if v.trim().is_empty() {
            return Err(format!("Empty attribute value. Key: {k}"));
        }
        if k.trim().starts_with('_') {
            return Err(format!("Attribute key starts with reserved prefix _: {k}"));
        }
    }
    Ok(())
}

/// what an attribute must say
enum W {
    Is(String),
    /// a coin of this denom whose amount is at most the first and at least the second bound
    Coin(String, u128, u128),
    Between(u128, u128),
    Mentions(Vec<String>),
}

pub struct Call<'a> {
    pub pre: &'a Chain,
    pub post: &'a Chain,
    pub sender: &'a str,
    pub me: &'a str,
    pub code: Code,
    pub msg: Value,
    pub funds: &'a Coins,
    pub attrs: &'a [(String, String)],
    pub moved: &'a [Ev],
}

/// the answer to the creation of the index denom
pub fn judge_reply(post: &Chain, me: &str, attrs: &[(String, String)]) {
    let Ok(conf) = q_conf(post, me, None) else { return };
    let ok = attrs.iter().any(|a| a.0 == "new_denom" && a.1 == conf.index && post.st.admins.contains_key(&a.1))
        && attrs.iter().any(|a| a.0 == "method" && a.1 == "reply_instantiate");
    BOOK.with(|b| {
        let mut b = b.borrow_mut();
        b.seen.push(("core reply_instantiate".into(), vec![hash_str(&conf.index)]));
        if !ok {
            b.wrong.push(format!("the event of the instantiation states {attrs:?}, the index denom is {}", conf.index));
        }
    });
}

fn coin(c: &(String, u128)) -> String {
    format!("{}{}", c.1, c.0)
}

pub fn judge(c: Call) {
    let r = expected(&c);
    let Some((name, sig, want)) = r else {
        BOOK.with(|b| b.borrow_mut().seen.push(("unjudged".into(), vec![hash_str(&c.msg.to_string())])));
        return;
    };
    let mut got: BTreeMap<&str, Vec<&str>> = BTreeMap::new();
    for (k, v) in c.attrs {
        got.entry(k).or_default().push(v);
    }
    let mut wrong = vec![];
    for (k, w) in &want {
        let vs = got.get(k).cloned().unwrap_or_default();
        if vs.is_empty() {
            wrong.push(format!("does not state {k}"));
        }
        for v in vs {
            let bad = match w {
                W::Is(x) => (v != x).then(|| x.clone()),
                W::Coin(d, hi, lo) => {
                    let n = v.bytes().take_while(|b| b.is_ascii_digit()).count();
                    let a: Option<u128> = v[..n].parse().ok();
                    let ok = &v[n..] == d && a.map_or(false, |a| a <= *hi && a >= *lo);
                    (!ok).then(|| format!("{lo}..{hi} {d}"))
                }
                W::Between(lo, hi) => {
                    let ok = v.parse::<u128>().map_or(false, |a| a >= *lo && a <= *hi);
                    (!ok).then(|| format!("{lo}..{hi}"))
                }
                W::Mentions(xs) => xs.iter().find(|x| !v.contains(x.as_str())).map(|x| format!("…{x}…")),
            };
            if let Some(b) = bad {
                wrong.push(format!("states {k} = {v:?} where it is {b}"));
            }
        }
    }
    BOOK.with(|b| {
        let mut b = b.borrow_mut();
        let mut s = vec![hash_str(&name)];
        s.extend(sig);
        b.seen.push((name.clone(), s));
        if !wrong.is_empty() {
            b.wrong.push(format!("the event of {name} (executed by {}, {} with funds {:?}) {}", c.sender, c.msg, c.funds, wrong.join("; ")));
        }
    });
}

type Want = Vec<(&'static str, W)>;

fn is(x: impl ToString) -> W {
    W::Is(x.to_string())
}

/// name of the operation, the situation, what its event must state; None if the state before or
/// after cannot be asked
fn expected(c: &Call) -> Option<(String, Vec<u64>, Want)> {
    let (kind, body) = c.msg.as_object()?.iter().next()?;
    let (name, sig, mut w) = match c.code {
        Code::Core => core(c, kind, body)?,
        Code::Airdrop => airdrop(c, kind, body)?,
        Code::Periphery => periphery(c, kind, body)?,
    };
    if name != "periphery finish_operation" {
        w.push(("executor", is(c.sender)));
    }
    Some((name, sig, w))
}

fn core(c: &Call, kind: &str, body: &Value) -> Option<(String, Vec<u64>, Want)> {
    let port = |x: &Chain| q_port(x, c.me, None).ok();
    let conf = |x: &Chain| q_conf(x, c.me, None).ok();
    let or_sender = |k: &str| js(&body[k]).unwrap_or_else(|| c.sender.to_string());
    let inner = || body.as_object().and_then(|o| o.iter().next()).map(|(k, v)| (k.clone(), v.clone()));
    let (name, sig, w): (String, Vec<u64>, Want) = match kind {
        "mint" => {
            let made = port(c.post)?.supply.checked_sub(port(c.pre)?.supply)?;
            let w = vec![
                ("method", is("mint")),
                ("receiver", is(or_sender("receiver"))),
                ("refund_to", is(or_sender("refund_to"))),
                ("amount", is(made)),
            ];
            ("mint".into(), vec![size(made), body["receiver"].is_null() as u64, body["refund_to"].is_null() as u64], w)
        }
        "burn" => {
            let gone = port(c.pre)?.supply.checked_sub(port(c.post)?.supply)?;
            let paid = c.funds.first()?.1;
            let w = vec![("method", is("burn")), ("redeem_to", is(or_sender("redeem_to"))), ("amount", is(gone))];
            ("burn".into(), vec![size(gone), (paid != gone) as u64, body["redeem_to"].is_null() as u64], w)
        }
        "realize" => ("realize".into(), vec![c.moved.len() as u64], vec![("method", is("realize"))]),
        "gov" => {
            let (k, v) = match body {
                Value::String(s) => (s.clone(), Value::Null),
                _ => inner()?,
            };
            let (pre, post) = (conf(c.pre)?, conf(c.post)?);
            let (sig, mut w): (Vec<u64>, Want) = match k.as_str() {
                "pause" => {
                    let e = v["expires_at"].as_u64();
                    if !post.paused || post.expires != e {
                        return None;
                    }
                    (vec![e.is_some() as u64], vec![("expires_at", e.map_or(is("never"), is))])
                }
                "release" | "update_fee_strategy" => (vec![], vec![]),
                "update_gov" => (vec![pre.pending.is_some() as u64], vec![("pending_gov", is(post.pending?))]),
                "accept_gov" => (vec![], vec![("gov", is(post.gov))]),
                "revoke_gov" => (vec![], vec![("pending_gov", is(pre.pending?))]),
                "update_rebalance_manager" => {
                    let m = q_reb(c.post, c.me).ok()??.0;
                    (vec![m.is_some() as u64], vec![("new_manager", m.map_or(is("none"), is))])
                }
                "update_reserve_denom" => (vec![], vec![("new_denom", is(post.reserve))]),
                "update_trade_info" => {
                    let last = v["routes"].as_array()?.last()?;
                    let (din, dout) = (js(&v["denom"])?, js(&last["token_denom"])?);
                    let i = c.post.query(c.me, &json!({"get_trade_info": {"denom_in": din, "denom_out": dout}})).ok()?;
                    let i = &i["trade_info"];
                    let mut names = vec![];
                    for r in i["routes"].as_array()? {
                        names.push(r["pool_id"].to_string());
                        names.push(js(&r["token_denom"])?);
                    }
                    let w = vec![
                        ("denom_in", is(&din)),
                        ("denom_out", is(&dout)),
                        ("cooldown", is(i["cooldown"].as_u64()?)),
                        ("max_trade_amount", is(ju(&i["max_trade_amount"])?)),
                        ("routes", W::Mentions(names)),
                    ];
                    (vec![i["routes"].as_array()?.len() as u64], w)
                }
                _ => return None,
            };
            let method = match k.as_str() {
                "update_fee_strategy" => "gov::update_fee".to_string(),
                _ => format!("gov::{k}"),
            };
            w.push(("method", is(method)));
            (k, sig, w)
        }
        "rebalance" => {
            let (k, v) = inner()?;
            match k.as_str() {
                "init" => {
                    let m = q_reb(c.post, c.me).ok()??.0;
                    let s = vec![m.is_some() as u64];
                    (k, s, vec![("method", is("rebalance::init")), ("manager", m.map_or(is("none"), is))])
                }
                "finalize" => {
                    let w = vec![("method", is("rebalance::finalize")), ("finalized_at", is(c.post.height))];
                    (k, vec![], w)
                }
                "trade" => {
                    let (k, v) = v.as_object()?.iter().next()?;
                    let deflate = k == "deflate";
                    let denom = js(&v["target_denom"])?;
                    let (a, b) = (port(c.pre)?, port(c.post)?);
                    let unit = |p: &crate::corew::PortQ| p.units.iter().find(|u| u.0 == denom).map_or(0, |u| u.1);
                    let reserve = denom == conf(c.pre)?.reserve;
                    let swap = c.moved.iter().rev().find_map(|e| match e {
                        Ev::Swap { sender, ain, aout, .. } if sender == c.me => Some((*ain, *aout)),
                        _ => None,
                    });
                    let mut w = vec![
                        ("method", is(k)),
                        ("denom", is(&denom)),
                        ("is_reserve", is(reserve)),
                    ];
                    let sig;
                    match swap {
                        None if reserve => {
                            let (hi, lo) = if deflate { (unit(&a), unit(&b)) } else { (unit(&b), unit(&a)) };
                            let n = muldiv(hi.checked_sub(lo)?, a.supply, E18)?;
                            w.push(("amount_in", is(n)));
                            w.push(("amount_out", is(n)));
                            sig = vec![deflate as u64, 1, size(n)];
                        }
                        Some((i, o)) if !reserve => {
                            // while the market moves the amounts stated are the bounds of the trade
                            w.push(("amount_in", if c.post.skew == 0 { is(i) } else { W::Between(i, u128::MAX) }));
                            w.push(("amount_out", if c.post.skew == 0 { is(o) } else { W::Between(0, o) }));
                            sig = vec![deflate as u64, 0, size(i), size(o)];
                        }
                        _ => return None,
                    }
                    (k.clone(), sig, w)
                }
                _ => return None,
            }
        }
        _ => return None,
    };
    Some((format!("core {name}"), sig, w))
}

fn airdrop(c: &Call, kind: &str, body: &Value) -> Option<(String, Vec<u64>, Want)> {
    let get = |x: &Chain, id: &Value| -> Option<(String, Value)> {
        let v = x.query(c.me, &json!({"get_airdrop": {"id": id}})).ok()?;
        let (k, v) = v.as_object()?.iter().next()?;
        Some((k.clone(), v.clone()))
    };
    let sent = || -> Option<(String, String, u128)> {
        c.moved.iter().rev().find_map(|e| match e {
            Ev::Send { from, to, coins } if from == c.me => Some((to.clone(), coins.first()?.0.clone(), coins.first()?.1)),
            _ => None,
        })
    };
    let (sig, w): (Vec<u64>, Want) = match kind {
        "register" => {
            let id = c.post.query(c.me, &json!({"latest_airdrop_id": {}})).ok()?.as_u64()?.checked_sub(1)?;
            let (t, a) = get(c.post, &json!({ "id": id }))?;
            let mut w = vec![
                ("action", is("register")),
                ("id", is(id)),
                ("type", is(&t)),
                ("merkle_root", is(js(&a["merkle_root"])?)),
                ("total_amount", is(ju(&a["total_amount"])?)),
            ];
            if t == "bearer" {
                w.push(("signer", is(js(&a["signer"])?)));
            }
            if let Some(l) = js(&a["label"]) {
                w.push(("label", is(l)));
            }
            (vec![(t == "bearer") as u64, a["label"].is_null() as u64], w)
        }
        "fund" | "close" => {
            let (t, a) = get(c.pre, body)?;
            let (_, b) = get(c.post, body)?;
            let mut w = vec![("airdrop_type", is(&t)), ("airdrop_id", is(a["id"].as_u64()?))];
            let n = if kind == "fund" {
                let n = ju(&b["total_amount"])?.checked_sub(ju(&a["total_amount"])?)?;
                w.push(("action", is("fund")));
                w.push(("amount", is(n)));
                n
            } else {
                let n = sent().map_or(0, |s| s.2);
                w.push(("method", is("close")));
                w.push(("redeemed", is(n)));
                n
            };
            (vec![(t == "bearer") as u64, body.get("label").is_some() as u64, size(n)], w)
        }
        "claim" => {
            let (_, p) = body.as_object()?.iter().next()?;
            let (t, a) = get(c.pre, &p["airdrop"])?;
            let (to, _, n) = sent()?;
            let mut w = vec![
                ("action", is("claim")),
                ("airdrop_type", is(&t)),
                ("airdrop_id", is(a["id"].as_u64()?)),
                ("claimer", is(to)),
                ("amount", is(n)),
            ];
            if t == "bearer" {
                w.push(("signer", is(js(&a["signer"])?)));
            }
            (vec![(t == "bearer") as u64, p["airdrop"].get("label").is_some() as u64, p["account"].is_null() as u64, size(n)], w)
        }
        _ => return None,
    };
    Some((format!("airdrop {kind}"), sig, w))
}

fn periphery(c: &Call, kind: &str, b: &Value) -> Option<(String, Vec<u64>, Want)> {
    let paid = c.funds.first().map(|f| f.clone());
    let index = || -> Option<String> { Some(q_conf(c.pre, &js(&b["core_addr"])?, None).ok()?.index) };
    let mut w: Want = vec![("method", is(kind))];
    let mut sig = vec![];
    match kind {
        "mint_exact_amount_in" | "mint_exact_amount_out" => {
            let (p, d) = (paid?, index()?);
            if p.0 == d {
                return None;
            }
            // stated after the mint fee, to within a base unit
            let n = c.post.bal(c.sender, &d).checked_sub(c.pre.bal(c.sender, &d))?;
            let stated = W::Coin(d, n, n.saturating_sub(1));
            sig.extend([size(n), size(p.1)]);
            if kind == "mint_exact_amount_in" {
                w.push(("input", is(coin(&p))));
                w.push(("min_output", stated));
            } else {
                w.push(("max_input", is(coin(&p))));
                w.push(("output", stated));
                let q = json!({"simulate_mint_exact_amount_out": {"core_addr": b["core_addr"],
                    "output_amount": b["output_amount"], "input_asset": b["input_asset"], "swap_info": b["swap_info"]}});
                let q = c.pre.query(c.me, &q).ok()?;
                let cost = ju(&q["swap_result_amount"]["amount"])?;
                w.push(("refund", is(p.1.checked_sub(cost)?)));
            }
        }
        "burn_exact_amount_in" => {
            let p = paid?;
            sig.push(size(p.1));
            w.push(("input_amount", is(coin(&p))));
            w.push(("min_output_amount", is(coin(&(js(&b["output_asset"])?, ju(&b["min_output_amount"])?)))));
        }
        "burn_exact_amount_out" => {
            let p = paid?;
            sig.push(size(p.1));
            w.push(("max_input", is(coin(&p))));
            w.push(("output", is(coin(&(js(&b["output_asset"]["denom"])?, ju(&b["output_asset"]["amount"])?)))));
        }
        "finish_operation" => {
            let (to, d) = (js(&b["refund_to"])?, js(&b["refund_asset"])?);
            let n = c.pre.bal(c.me, &d).checked_sub(c.post.bal(c.me, &d))?;
            sig.push(size(n));
            w.push(("refund_to", is(to)));
            w.push(("refund_asset", is(d)));
            w.push(("amount", is(n)));
        }
        _ => return None,
    }
    Some((format!("periphery {kind}"), sig, w))
}
