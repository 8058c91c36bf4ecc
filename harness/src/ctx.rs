//! What a monitored run collects: evaluations of the focus property's oracle, distinct situations
//! it was evaluated in, counters, the trace of the running episode, and violations.
use std::collections::{BTreeMap, HashSet};

use crate::util::{hash_str, mix, Rng};

#[derive(Clone, Debug)]
pub struct Violation {
    pub ep: u64,
    pub msg: String,
    pub trace: Vec<String>,
}

pub struct Ctx {
    pub focus: String,
    pub seed: u64,
    pub ep: u64,
    pub thorough: bool,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    /// one example per kind of observation
    pub samples: BTreeMap<String, String>,
    pub viol: Vec<Violation>,
    pub known: BTreeMap<String, u64>,
    pub trace: Vec<String>,
    /// the running episode broke the focus property
    pub broken: bool,
    pub verbose: bool,
}

impl Ctx {
    pub fn new(focus: &str, seed: u64) -> Self {
        Ctx {
            focus: focus.to_string(),
            seed,
            ep: 0,
            thorough: false,
            evals: 0,
            distinct: HashSet::new(),
            counters: BTreeMap::new(),
            samples: BTreeMap::new(),
            viol: vec![],
            known: BTreeMap::new(),
            trace: vec![],
            broken: false,
            verbose: false,
        }
    }
    pub fn start(&mut self, ep: u64) -> Rng {
        self.ep = ep;
        self.trace.clear();
        self.broken = false;
        Rng::new(mix(&[self.seed, hash_str(&self.focus), ep]))
    }
    pub fn is(&self, p: &str) -> bool {
        self.focus == p
    }
    pub fn any(&self, ps: &[&str]) -> bool {
        ps.contains(&self.focus.as_str())
    }
    /// the oracle of property p was evaluated in situation sig
    pub fn obs(&mut self, p: &str, sig: &[u64]) {
        if self.focus == p {
            self.evals += 1;
            if self.distinct.len() < 2_000_000 {
                self.distinct.insert(mix(sig));
            }
        }
    }
    pub fn count(&mut self, k: &str) {
        match self.counters.get_mut(k) {
            Some(v) => *v += 1,
            None => {
                self.counters.insert(k.to_string(), 1);
            }
        }
    }
    pub fn sample(&mut self, key: &str, f: impl FnOnce() -> String) {
        if self.samples.len() < 24 && !self.samples.contains_key(key) {
            let s = f();
            self.samples.insert(key.to_string(), s);
        }
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        let s = f();
        if self.verbose {
            eprintln!("{s}");
        }
        self.trace.push(s);
    }
    /// An observation contradicts the properties named. Returns true if the focus is among them.
    pub fn flag(&mut self, tags: &[&str], msg: String) -> bool {
        if self.verbose {
            eprintln!("!! {tags:?} {msg}");
        }
        if tags.contains(&self.focus.as_str()) {
            if !self.broken {
                self.broken = true;
                let n = self.trace.len();
                let mut trace = self.trace[n.saturating_sub(400)..].to_vec();
                trace.push(format!("VIOLATED {}: {msg}", self.focus));
                self.viol.push(Violation { ep: self.ep, msg, trace });
            }
            true
        } else {
            for t in tags {
                self.count(&format!("mismatch_attributed_to_{t}"));
            }
            if tags.is_empty() {
                self.count("mismatch_unattributed");
                self.samples.entry("unattributed".into()).or_insert(msg);
            }
            false
        }
    }
    pub fn merge(&mut self, o: Ctx) {
        self.evals += o.evals;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_default() += v;
        }
        for (k, s) in o.samples {
            if self.samples.len() < 24 {
                self.samples.entry(k).or_insert(s);
            }
        }
        self.viol.extend(o.viol);
    }
}

/// coarse size class, for telling situations apart
pub fn size(v: u128) -> u64 {
    if v == 0 {
        0
    } else {
        1 + (128 - v.leading_zeros() as u64) / 8
    }
}
