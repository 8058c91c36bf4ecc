//! The published TypeScript SDK against the contracts: a reader for the types it declares, values
//! drawn from them, and a judge for the messages it composes and the answers it promises.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::path::Path;

use cosmwasm_std::{from_json, to_json_vec};
use serde_json::{json, Map, Value};

use crate::chain::Code;
use crate::ctx::Ctx;
use crate::util::{dec_str, hash_str, Rng};

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Obj(Vec<(String, bool, T)>, bool),
    Arr(Box<T>),
    Tup(Vec<T>),
    Lit(String),
    Union(Vec<T>),
    Ref(String),
    Null,
}

pub type Types = BTreeMap<String, T>;

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

type R<X> = Result<X, String>;

impl<'a> P<'a> {
    fn ws(&mut self) {
        loop {
            while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() {
                self.i += 1;
            }
            if self.s[self.i..].starts_with(b"/*") {
                while self.i < self.s.len() && !self.s[self.i..].starts_with(b"*/") {
                    self.i += 1;
                }
                self.i = (self.i + 2).min(self.s.len());
            } else if self.s[self.i..].starts_with(b"//") {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
            } else {
                return;
            }
        }
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn need(&mut self, t: &str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            let a = &self.s[self.i..self.s.len().min(self.i + 40)];
            Err(format!("expected {t} at {:?}", String::from_utf8_lossy(a)))
        }
    }
    fn ident(&mut self) -> Option<String> {
        self.ws();
        let n = self.s[self.i..].iter().take_while(|c| c.is_ascii_alphanumeric() || **c == b'_' || **c == b'$').count();
        if n == 0 {
            return None;
        }
        let r = String::from_utf8_lossy(&self.s[self.i..self.i + n]).to_string();
        self.i += n;
        Some(r)
    }
    fn string(&mut self) -> Option<String> {
        self.ws();
        let q = *self.s.get(self.i)?;
        if q != b'"' && q != b'\'' {
            return None;
        }
        let n = self.s[self.i + 1..].iter().position(|c| *c == q)?;
        let r = String::from_utf8_lossy(&self.s[self.i + 1..self.i + 1 + n]).to_string();
        self.i += n + 2;
        Some(r)
    }
    fn ty(&mut self) -> R<T> {
        let _ = self.eat("|");
        let mut v = vec![self.post()?];
        while self.eat("|") {
            v.push(self.post()?);
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { T::Union(v) })
    }
    fn post(&mut self) -> R<T> {
        let mut t = self.prim()?;
        while self.eat("[]") {
            t = T::Arr(Box::new(t));
        }
        Ok(t)
    }
    fn prim(&mut self) -> R<T> {
        if self.eat("(") {
            let t = self.ty()?;
            self.need(")")?;
            return Ok(t);
        }
        if self.eat("{") {
            return self.body();
        }
        if self.eat("[") {
            let mut v = vec![];
            while !self.eat("]") {
                v.push(self.ty()?);
                let _ = self.eat(",");
            }
            return Ok(T::Tup(v));
        }
        if let Some(s) = self.string() {
            return Ok(T::Lit(s));
        }
        let n = self.ident().ok_or_else(|| "type expected".to_string())?;
        if (n == "Array" || n == "ReadonlyArray") && self.eat("<") {
            let t = self.ty()?;
            self.need(">")?;
            return Ok(T::Arr(Box::new(t)));
        }
        Ok(match n.as_str() {
            "null" | "undefined" => T::Null,
            _ => T::Ref(n),
        })
    }
    fn body(&mut self) -> R<T> {
        let (mut f, mut open) = (vec![], false);
        while !self.eat("}") {
            if self.eat("[") {
                while !self.eat("]") {
                    self.i += 1;
                }
                self.need(":")?;
                self.ty()?;
                open = true;
            } else {
                let _ = self.eat("readonly ");
                let n = match self.string() {
                    Some(s) => s,
                    None => self.ident().ok_or("field expected")?,
                };
                let opt = self.eat("?");
                self.need(":")?;
                let t = self.ty()?;
                f.push((n, opt, t));
            }
            let _ = self.eat(";") || self.eat(",");
        }
        f.sort_by(|a, b| a.0.cmp(&b.0));
        Ok(T::Obj(f, open))
    }
}

pub fn parse(s: &str) -> R<Types> {
    let mut p = P { s: s.as_bytes(), i: 0 };
    let mut out = Types::new();
    loop {
        p.ws();
        if p.i >= p.s.len() {
            return Ok(out);
        }
        let _ = p.eat("export ");
        let _ = p.eat("declare ");
        if p.eat("interface ") {
            let n = p.ident().ok_or("name")?;
            p.need("{")?;
            let t = p.body()?;
            out.insert(n, t);
        } else if p.eat("type ") {
            let n = p.ident().ok_or("name")?;
            p.need("=")?;
            let t = p.ty()?;
            out.insert(n, t);
        } else {
            p.need("export type")?;
        }
        let _ = p.eat(";");
    }
}

/// does the value have the declared shape
pub fn fits(ts: &Types, t: &T, v: &Value) -> R<()> {
    let short = || v.to_string().chars().take(120).collect::<String>();
    match t {
        T::Null => v.is_null().then_some(()).ok_or(format!("{} is not null", short())),
        T::Lit(s) => (v == s).then_some(()).ok_or(format!("{} is not {s:?}", short())),
        T::Arr(t) => {
            let a = v.as_array().ok_or(format!("{} is no list", short()))?;
            a.iter().try_for_each(|x| fits(ts, t, x))
        }
        T::Tup(t) => {
            let a = v.as_array().ok_or(format!("{} is no tuple", short()))?;
            if a.len() != t.len() {
                return Err(format!("{} has not {} members", short(), t.len()));
            }
            t.iter().zip(a).try_for_each(|(t, x)| fits(ts, t, x))
        }
        T::Union(u) => {
            let mut why = String::new();
            for t in u {
                match fits(ts, t, v) {
                    Ok(()) => return Ok(()),
                    // the alternative of the same name explains best
                    Err(e) => match t {
                        T::Obj(f, _) if f.len() == 1 && v.get(&f[0].0).is_some() => why = e,
                        _ if why.is_empty() => why = e,
                        _ => {}
                    },
                }
            }
            Err(why)
        }
        T::Obj(f, open) => {
            let o = v.as_object().ok_or(format!("{} is no object", short()))?;
            for (n, opt, t) in f {
                match o.get(n) {
                    None if *opt => {}
                    None => return Err(format!("{} lacks {n}", short())),
                    Some(x) => fits(ts, t, x).map_err(|e| format!("{n}: {e}"))?,
                }
            }
            match o.keys().find(|k| !open && !f.iter().any(|x| &x.0 == *k)) {
                Some(k) => Err(format!("{} has the undeclared field {k}", short())),
                None => Ok(()),
            }
        }
        T::Ref(n) => match n.as_str() {
            "string" => v.is_string().then_some(()).ok_or(format!("{} is no string", short())),
            "number" => (v.is_u64() || v.is_i64()).then_some(()).ok_or(format!("{} is no number", short())),
            "boolean" => v.is_boolean().then_some(()).ok_or(format!("{} is no boolean", short())),
            "unknown" | "any" => Ok(()),
            _ => fits(ts, ts.get(n).ok_or(format!("undeclared type {n}"))?, v),
        },
    }
}

/// a value of the declared shape
pub fn draw(ts: &Types, t: &T, r: &mut Rng, name: &str) -> Value {
    match t {
        T::Null => Value::Null,
        T::Lit(s) => json!(s),
        T::Arr(t) => {
            let n = r.below(4);
            (0..n).map(|_| draw(ts, t, r, name)).collect()
        }
        T::Tup(t) => t.iter().map(|t| draw(ts, t, r, name)).collect(),
        T::Union(u) => {
            let t = r.pick(u).clone();
            draw(ts, &t, r, name)
        }
        T::Obj(f, _) => {
            let mut m = Map::new();
            for (n, opt, t) in f {
                if !(*opt && r.pct(25)) {
                    m.insert(n.clone(), draw(ts, t, r, n));
                }
            }
            Value::Object(m)
        }
        T::Ref(n) => match n.as_str() {
            "Decimal" => json!(dec_str(r.amount(u128::MAX >> 1))),
            "Uint128" => json!(r.amount(u128::MAX >> 1).to_string()),
            "number" => match r.below(4) {
                0 => json!(r.below(3)),
                1 if !name.contains("limit") => json!(r.below(1 << 53)),
                _ => json!(r.below(1 << 32)),
            },
            "boolean" => json!(r.pct(50)),
            "string" | "unknown" | "any" => {
                let pool = ["uosmo", "osmo1someone", "factory/osmo1abc/idx", "a,b", "", "über \"quoted\" \\ \n", "1,uatom"];
                match r.below(3) {
                    0 => json!(*r.pick(&pool)),
                    _ => json!(format!("{name}{}", r.below(1 << 40))),
                }
            }
            _ => match ts.get(n) {
                Some(t) => draw(ts, &t.clone(), r, name),
                None => Value::Null,
            },
        },
    }
}

/// null is the same as left out
pub fn strip(v: &Value) -> Value {
    match v {
        Value::Object(o) => Value::Object(o.iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k.clone(), strip(v))).collect()),
        Value::Array(a) => a.iter().map(strip).collect(),
        _ => v.clone(),
    }
}

pub const CONTRACTS: [(&str, Code); 3] = [("Core", Code::Core), ("Airdrop", Code::Airdrop), ("Periphery", Code::Periphery)];

pub struct Sdk {
    /// contract name -> its types, and the declared answer of each query
    pub types: BTreeMap<&'static str, (Types, BTreeMap<String, T>)>,
    pub drift: Vec<String>,
}

fn camel(s: &str) -> String {
    let mut o = String::new();
    for (i, w) in s.split('_').enumerate() {
        if i == 0 {
            o += w;
        } else if let Some(c) = w.chars().next() {
            o.extend(c.to_uppercase());
            o += &w[c.len_utf8()..];
        }
    }
    o
}

/// method -> type promised, of the query client's interface
fn promises(text: &str) -> R<BTreeMap<String, T>> {
    let a = text.find("ReadOnlyInterface {").ok_or("no query interface")?;
    let mut p = P { s: text.as_bytes(), i: a + 19 };
    let mut out = BTreeMap::new();
    while !p.eat("}") {
        let n = p.ident().ok_or("method expected")?;
        let _ = p.eat(":");
        if !p.eat("(") {
            // the address, a property
            p.ty()?;
            let _ = p.eat(";") || p.eat(",");
            continue;
        }
        let mut depth = 1;
        while depth > 0 {
            match p.s.get(p.i) {
                Some(b'(') => depth += 1,
                Some(b')') => depth -= 1,
                Some(_) => {}
                None => return Err("unbalanced".into()),
            }
            p.i += 1;
        }
        if !p.eat("=>") && !p.eat(":") {
            return Err(format!("{n} is no method"));
        }
        p.need("Promise<")?;
        let t = p.ty()?;
        p.need(">")?;
        let _ = p.eat(";") || p.eat(",");
        out.insert(n, t);
    }
    Ok(out)
}

impl Sdk {
    pub fn load(root: &str) -> R<Sdk> {
        let mut s = Sdk { types: BTreeMap::new(), drift: vec![] };
        for (c, _) in CONTRACTS {
            let rd = |f: &str| {
                let p = Path::new(root).join(f);
                std::fs::read_to_string(&p).map_err(|e| format!("{}: {e}", p.display()))
            };
            let ts = parse(&rd(&format!("src/contracts/{c}.types.ts"))?).map_err(|e| format!("{c}.types.ts: {e}"))?;
            let ds = parse(&rd(&format!("types/contracts/{c}.types.d.ts"))?).map_err(|e| format!("{c}.types.d.ts: {e}"))?;
            for n in ts.keys().chain(ds.keys()) {
                if ts.get(n) != ds.get(n) {
                    s.drift.push(format!("{c}.types.ts and the published {c}.types.d.ts declare {n} differently"));
                }
            }
            // what the client promises each query to answer
            let of = |f: &str| rd(f).and_then(|x| promises(&x)).map_err(|e| format!("{f}: {e}"));
            let answers = of(&format!("types/contracts/{c}.client.d.ts"))?;
            if let Ok(src) = of(&format!("src/contracts/{c}.client.ts")) {
                if src != answers {
                    s.drift.push(format!("{c}.client.ts and the published {c}.client.d.ts declare different answers"));
                }
            }
            s.types.insert(c, (ts, answers));
        }
        Ok(s)
    }
}

/// the contract's own reading of a message, written out again
fn reread(code: Code, kind: &str, msg: &Value) -> R<Value> {
    use ibcx_interface as i;
    let b = serde_json::to_vec(msg).unwrap();
    macro_rules! rt {
        ($t:ty) => {{
            let m: $t = from_json(&b).map_err(|e| e.to_string())?;
            to_json_vec(&m).map_err(|e| e.to_string())?
        }};
    }
    let o = match (code, kind) {
        (Code::Core, "ExecuteMsg") => rt!(i::core::ExecuteMsg),
        (Code::Core, "QueryMsg") => rt!(i::core::QueryMsg),
        (Code::Core, "InstantiateMsg") => rt!(i::core::InstantiateMsg),
        (Code::Core, _) => rt!(i::core::MigrateMsg),
        (Code::Airdrop, "ExecuteMsg") => rt!(i::airdrop::ExecuteMsg),
        (Code::Airdrop, "QueryMsg") => rt!(i::airdrop::QueryMsg),
        (Code::Airdrop, "InstantiateMsg") => rt!(i::airdrop::InstantiateMsg),
        (Code::Airdrop, _) => rt!(i::airdrop::MigrateMsg),
        (Code::Periphery, "ExecuteMsg") => rt!(i::periphery::ExecuteMsg),
        (Code::Periphery, "QueryMsg") => rt!(i::periphery::QueryMsg),
        (Code::Periphery, "InstantiateMsg") => rt!(i::periphery::InstantiateMsg),
        (Code::Periphery, _) => rt!(i::periphery::MigrateMsg),
    };
    serde_json::from_slice(&o).map_err(|e| e.to_string())
}

/// the value with one field renamed, dropped, added or retyped somewhere
fn mutilate(v: &Value, r: &mut Rng) -> Value {
    match v {
        Value::Object(o) if !o.is_empty() && r.pct(60) => {
            let k = r.pick(&o.keys().cloned().collect::<Vec<_>>()).clone();
            let mut o = o.clone();
            if r.pct(15) {
                o.remove(&k);
                return Value::Object(o);
            }
            let x = mutilate(&o[&k], r);
            o.insert(k, x);
            Value::Object(o)
        }
        Value::Object(o) => {
            let mut o = o.clone();
            o.insert(format!("extra{}", r.below(9)), json!(1));
            Value::Object(o)
        }
        Value::Array(a) if !a.is_empty() && r.pct(80) => {
            let mut a = a.clone();
            let i = r.below(a.len() as u64) as usize;
            a[i] = mutilate(&a[i], r);
            Value::Array(a)
        }
        Value::String(_) => json!(7),
        Value::Number(_) => json!("7"),
        Value::Bool(_) => json!("true"),
        _ => json!({"odd": true}),
    }
}

#[derive(Default)]
struct Book {
    sdk: Option<std::sync::Arc<Sdk>>,
    wrong: Vec<String>,
    seen: Vec<(String, u64)>,
}
thread_local! {
    static BOOK: RefCell<Book> = RefCell::new(Book::default());
}
pub fn start(sdk: Option<std::sync::Arc<Sdk>>) {
    BOOK.with(|b| {
        let mut b = b.borrow_mut();
        b.sdk = sdk;
        b.wrong.clear();
        b.seen.clear();
    });
}
fn shape(v: &Value) -> u64 {
    // presence and size of each part
    fn go(v: &Value, o: &mut String) {
        match v {
            Value::Null => o.push('0'),
            Value::Object(m) => m.iter().for_each(|(k, v)| {
                o.push_str(k);
                go(v, o)
            }),
            Value::Array(a) => {
                o.push_str(&a.len().min(4).to_string());
                a.first().map(|x| go(x, o));
            }
            Value::String(s) => o.push(if s.is_empty() { 'e' } else { 's' }),
            _ => o.push('v'),
        }
    }
    let mut s = String::new();
    go(v, &mut s);
    hash_str(&s)
}

/// an answer, or a message that a contract accepted
pub fn observe(code: Code, kind: &str, msg: &[u8], answer: Option<&[u8]>) {
    let Some(sdk) = BOOK.with(|b| b.borrow().sdk.clone()) else { return };
    let c = CONTRACTS.iter().find(|x| x.1 == code).unwrap().0;
    let (ts, answers) = &sdk.types[c];
    let Ok(m) = serde_json::from_slice::<Value>(msg) else { return };
    let name = m.as_object().and_then(|o| o.keys().next().cloned()).unwrap_or_else(|| m.to_string());
    let mut wrong = vec![];
    if let Err(e) = fits(ts, &T::Ref(kind.into()), &m) {
        wrong.push(format!("{c} took a {kind} outside the SDK's types: {m}: {e}"));
    }
    let mut sig = shape(&m);
    if let Some(a) = answer {
        match serde_json::from_slice::<Value>(a) {
            Err(e) => wrong.push(format!("{c} answered {m} with something unparsable: {e}")),
            Ok(a) => {
                sig ^= shape(&a).rotate_left(7);
                match answers.get(&camel(&name)) {
                    None => wrong.push(format!("the SDK has no query {name} of {c}")),
                    Some(t) => {
                        if let Err(e) = fits(ts, t, &a) {
                            wrong.push(format!("{c} answered {m} otherwise than the SDK declares ({t:?}): {e}"));
                        }
                    }
                }
            }
        }
    }
    BOOK.with(|b| {
        let mut b = b.borrow_mut();
        b.seen.push((format!("{} {c} {name}", if answer.is_some() { "answer" } else { "accepted" }), sig));
        b.wrong.extend(wrong);
    });
}
pub fn on() -> bool {
    BOOK.with(|b| b.borrow().sdk.is_some())
}
pub fn drain(ctx: &mut Ctx) {
    let (wrong, seen) = BOOK.with(|b| {
        let mut b = b.borrow_mut();
        (std::mem::take(&mut b.wrong), std::mem::take(&mut b.seen))
    });
    for (k, sig) in seen {
        ctx.count(&k);
        ctx.obs("W01", &[hash_str(&k), sig]);
    }
    for w in wrong {
        ctx.flag(&["W01"], w);
    }
}

/// messages drawn from the declared types, whole and mutilated
pub fn history(ctx: &mut Ctx, mut r: Rng) {
    let Some(sdk) = BOOK.with(|b| b.borrow().sdk.clone()) else { return };
    for d in &sdk.drift {
        ctx.flag(&["W01"], d.clone());
    }
    for _ in 0..40 {
        let (c, code) = *r.pick(&CONTRACTS);
        let kind = *r.pick(&["ExecuteMsg", "ExecuteMsg", "QueryMsg", "QueryMsg", "InstantiateMsg", "MigrateMsg"]);
        let (ts, _) = &sdk.types[c];
        let t = T::Ref(kind.into());
        let m = draw(ts, &t, &mut r, "x");
        let name = m.as_object().and_then(|o| o.keys().next().cloned()).unwrap_or_default();
        ctx.log(|| format!("{c} {kind} {m}"));
        let got = reread(code, kind, &m);
        ctx.count(&format!("drawn {c} {kind}"));
        ctx.obs("W01", &[hash_str(c), hash_str(kind), hash_str(&name), shape(&m)]);
        match got {
            Err(e) => {
                ctx.flag(&["W01"], format!("{c} does not understand the {kind} {m} that the SDK's types allow: {e}"));
            }
            Ok(g) => {
                if strip(&g) != strip(&m) {
                    ctx.flag(&["W01"], format!("{c} reads the {kind} {m} as {g}"));
                }
            }
        }
        let bad = mutilate(&m, &mut r);
        if fits(ts, &t, &bad).is_err() {
            ctx.count("mutilated");
            ctx.obs("W01", &[hash_str(c), hash_str(kind), hash_str(&name), shape(&bad), 1]);
            // a renamed optional field and the like must not be dropped silently
            if let Ok(g) = reread(code, kind, &bad) {
                if strip(&g) != strip(&bad) {
                    ctx.flag(&["W01"], format!("{c} takes the malformed {kind} {bad} for {g}"));
                }
            }
        }
    }
}

/// calls for the SDK's own client, composer and hooks to make (see sdk/drive.mjs)
pub fn cases(sdk: &Sdk, n: u64, seed: u64) -> Vec<Value> {
    let mut r = Rng::new(seed);
    let mut out = vec![];
    for (c, _) in CONTRACTS {
        let (ts, _) = &sdk.types[c];
        for kind in ["ExecuteMsg", "QueryMsg"] {
            let Some(T::Union(u)) = ts.get(kind).cloned() else { continue };
            for t in u {
                let T::Obj(f, _) = &t else { continue };
                let (name, _, arg) = &f[0];
                for _ in 0..n {
                    let v = draw(ts, &t, &mut r, "x");
                    let a = &v[name];
                    // fields of an inline object are passed by camel-case name, a named type as it is
                    let args = match arg {
                        T::Obj(f, _) if f.is_empty() => json!([]),
                        T::Obj(..) => json!([a.as_object().unwrap().iter().map(|(k, v)| (camel(k), v.clone())).collect::<Map<_, _>>()]),
                        _ => json!([a]),
                    };
                    let funds: Vec<Value> = (0..r.below(3)).map(|i| json!({"denom": format!("d{i}"), "amount": r.below(1000).to_string()})).collect();
                    out.push(json!({"contract": c, "kind": kind, "name": name, "method": camel(name), "args": args, "want": v,
                        "sender": format!("osmo1sender{}", r.below(100)), "address": format!("osmo1contract{}", r.below(100)), "funds": funds,
                        "fee": if r.pct(50) { json!("auto") } else { json!({"gas": r.below(1000000).to_string(), "amount": []}) },
                        "memo": format!("memo{}", r.below(100)), "options": {"staleTime": r.below(1000)}}));
                }
            }
        }
    }
    out
}

/// what the SDK composed for those calls
pub fn judge_composed(ctx: &mut Ctx, file: &str) -> R<()> {
    let text = std::fs::read_to_string(file).map_err(|e| format!("{file}: {e}"))?;
    let mut n = 0u64;
    // cache entry of a hook -> the question it answers
    let mut keys: BTreeMap<String, String> = BTreeMap::new();
    for l in text.lines() {
        let x: Value = serde_json::from_str(l).map_err(|e| format!("{file}: {e}"))?;
        let c = x["contract"].as_str().unwrap_or("").to_string();
        let code = CONTRACTS.iter().find(|y| y.0 == c).map(|y| y.1).ok_or("contract")?;
        let (kind, name) = (x["kind"].as_str().unwrap_or("").to_string(), x["name"].as_str().unwrap_or("").to_string());
        for g in x["got"].as_array().ok_or("no result")? {
            n += 1;
            let via = g["via"].as_str().unwrap_or("?").to_string();
            ctx.count(&format!("composed by {via}"));
            ctx.obs("W01", &[hash_str(&via), hash_str(&c), hash_str(&name), shape(&x["want"])]);
            let what = format!("the SDK's {via} for {c} {name}, called with {} from {} on {} with funds {},", x["args"], x["sender"], x["address"], x["funds"]);
            ctx.trace.clear();
            if let Some(e) = g["error"].as_str() {
                ctx.flag(&["W01"], format!("{what} fails: {e}"));
                continue;
            }
            if strip(&g["msg"]) != strip(&x["want"]) {
                ctx.flag(&["W01"], format!("{what} sends {}", g["msg"]));
            }
            if g["address"] != x["address"] || (kind == "ExecuteMsg" && (g["sender"] != x["sender"] || g["funds"] != x["funds"])) {
                ctx.flag(&["W01"], format!("{what} addresses it wrongly: {g}"));
            }
            if via == "client" && (g["fee"] != x["fee"] || g["memo"] != x["memo"]) {
                ctx.flag(&["W01"], format!("{what} with fee {} and memo {} pays and notes otherwise: {g}", x["fee"], x["memo"]));
            }
            if via == "message composer" && g["typeUrl"] != "/cosmwasm.wasm.v1.MsgExecuteContract" {
                ctx.flag(&["W01"], format!("{what} composes a {}", g["typeUrl"]));
            }
            if via == "query hook" {
                let q = format!("{c} {} {}", x["address"], strip(&x["want"]));
                let o = keys.entry(g["key"].to_string()).or_insert_with(|| q.clone());
                if *o != q {
                    ctx.flag(&["W01"], format!("the SDK's hooks keep the answers to {o} and {q} under the same key {}", g["key"]));
                }
                if g["options"] != x["options"] {
                    ctx.flag(&["W01"], format!("{what} hands on the options {}", g["options"]));
                }
            }
            match reread(code, &kind, &g["msg"]) {
                Ok(m) if strip(&m) == strip(&x["want"]) => {}
                r => {
                    ctx.flag(&["W01"], format!("{what} sends {}, which {c} reads as {r:?}", g["msg"]));
                }
            }
        }
    }
    if n == 0 {
        return Err("nothing composed".into());
    }
    Ok(())
}
