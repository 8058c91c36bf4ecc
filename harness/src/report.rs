//! Evidence, replay files, known findings and the verdict of one check.
use std::fmt::Write as _;
use std::path::Path;

use serde_json::json;

use crate::ctx::Ctx;

fn rule(p: &str) -> &'static str {
    match p {
        "M01" => "Bases (log-uniform around one and near both ends of the domain) and exponents (weight ratios, whole, fractional) drawn from the seed; one evaluation compares one result with log/exp, with another exponent, or with the refusal due. Distinct: size class of the base's distance to one, whole part and eighth of the exponent.",
        "M02" => "Weighted pools of 2-4 assets with drawn balances, weights and fees; one evaluation judges one simulated swap (and its monotone partner, way back and inverse) by the invariant in floating point. Distinct: size classes of amount and balances, weight ratio, fee.",
        "M03" => "Zap instructions drawn over weighted, concentrated and stable pools, also broken in thirteen ways; one evaluation judges one estimate (leg by leg on pool copies), quote or executed set of swaps. Distinct: operation, number of legs and hops, size class, kind of defect, outcome.",
        "U01" => "Instantiations valid and broken, and migrations from recorded names and versions near and far from the contract's own; one evaluation judges one transaction or one version pair. Distinct: contract, force, name match, order of the versions and the part deciding it.",
        "E01" => "The histories of all three contracts' workloads drawn from the seed; one evaluation compares the event of one executed message (also those sent by contracts) with the state before, the state after and the coins moved. Distinct: operation, optional fields given or not, id or label, kind of airdrop, size classes.",
        "W01" => "Messages drawn from the SDK's types and mutilated ones, read by the contracts' own types; calls drawn from them, made through the SDK's client, composer and hooks under node; and every message accepted and answer given in histories of all contracts. One evaluation judges one message, call or answer. Distinct: contract, message, which optional parts are there, list sizes, way of calling.",
        p if p.starts_with('A') => "Histories of several airdrops (open and bearer), claims, claim attempts by others, funding, closing and paging drawn from the seed; one evaluation applies the property's oracle to one observed transaction, query or state. Distinct: operation, kind of airdrop, outcome, size classes, position in the airdrop's life, kind of mutilated proof or signature.",
        p if p.starts_with('P') => "Zap operations by several users against pools of a moving market, with the index paused, rebalancing, accruing fees, changing hands; one evaluation applies the property's oracle to one executed, quoted or refused operation. Distinct: operation, size classes, legs, hops, kinds of pool, direction of the market, fees configured, outcome.",
        _ => "Histories of mints, burns, accruals, realisations, configuration changes, rebalances, trades and idle time by users, governance, manager, collector and outsiders drawn from the seed, executed on the real contract; one evaluation applies the property's oracle to one observed transaction, query, state or probe on a copy of the state. Distinct: operation, outcome and reason, size classes, phase (paused, rebalancing, frozen), fees configured, number of assets.",
    }
}

fn known(dir: &str) -> Vec<(String, String, String)> {
    // KNOWN-FINDING: property=<P> id=<id> <text>
    let s = std::fs::read_to_string(Path::new(dir).join("known_findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let r = l.strip_prefix("KNOWN-FINDING: property=")?;
            let (p, r) = r.split_once(" id=")?;
            let (id, text) = r.split_once(' ')?;
            Some((p.to_string(), id.to_string(), text.to_string()))
        })
        .collect()
}

pub fn finish(p: &str, c: Ctx, wall: f64, eps: u64, dir: &str, out: &str) -> i32 {
    let mut text = String::new();
    let mut code = 0;
    let replays = Path::new(dir).join("replays");
    let _ = std::fs::create_dir_all(&replays);
    let evid = Path::new(dir).join("evidence");
    let _ = std::fs::create_dir_all(&evid);
    let tier = if c.thorough { "thorough" } else { "quick" };
    let list = known(dir);
    let mut viol = c.viol.len();
    let mut probes = vec![];
    for (id, holds) in crate::findings(p) {
        probes.push(json!({"finding": id, "reproduced": holds}));
        if !holds {
            continue;
        }
        match list.iter().find(|k| k.0 == p && k.1 == id) {
            Some(k) => {
                let _ = writeln!(text, "KNOWN-FINDING: property={p} id={id} {}", k.2);
            }
            None => {
                let f = replays.join(format!("{p}-finding-{id}.json"));
                let _ = std::fs::write(&f, serde_json::to_string_pretty(&json!({"property": p, "finding": id})).unwrap());
                let _ = writeln!(text, "VIOLATION property={p} replay={}", f.display());
                viol += 1;
                code = 1;
            }
        }
    }
    if let Some(v) = c.viol.first() {
        let f = replays.join(format!("{p}-{}-{}.json", c.seed, v.ep));
        let j = json!({"property": p, "seed": c.seed, "episode": v.ep, "what": v.msg, "trace": v.trace});
        let _ = std::fs::write(&f, serde_json::to_string_pretty(&j).unwrap());
        let _ = writeln!(text, "{p}: {}", v.msg.chars().take(2000).collect::<String>());
        let _ = writeln!(text, "VIOLATION property={p} replay={}", f.display());
        code = 1;
    }
    let panics = c.counters.get("monitor_panics").copied().unwrap_or(0);
    if panics > 0 {
        let _ = writeln!(text, "{p}: {panics} of {eps} episodes ended by a panic of the monitor and judged only up to it");
    }
    if code == 0 && (c.evals == 0 || panics * 50 > eps) {
        let _ = writeln!(text, "{p}: inconclusive ({} evaluations, {panics} episodes ended by a panic of the monitor)", c.evals);
        code = 2;
    }
    let samples: Vec<String> = c.samples.iter().map(|(k, s)| format!("{k}: {}", s.chars().take(600).collect::<String>())).collect();
    let ev = json!({
        "property": p,
        "tier": tier,
        "seed": c.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": c.evals,
            "distinct_nontrivial": c.distinct.len(),
            "rule": rule(p),
            "samples": samples,
            "episodes": eps,
            "observed": c.counters,
            "known_finding_probes": probes,
        },
        "assumptions": [
            "The chain around the contracts (bank, token factory, wasm message dispatch, atomicity of transactions) is the harness's simulation of Osmosis; the contracts themselves are /repo's own, compiled natively with overflow checks on.",
            "The swap venue is the harness's own implementation of Osmosis weighted-pool arithmetic; concentrated pools are constant-product, stable pools fixed-price stand-ins.",
            "Exploration: what no drawn history reaches is not judged.",
        ],
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": viol,
    });
    let _ = std::fs::write(evid.join(format!("{p}.json")), serde_json::to_string_pretty(&ev).unwrap());
    let _ = writeln!(text, "{p} [{tier}, seed {}]: {eps} episodes, {} evaluations, {} distinct situations, {viol} violations, {wall:.1} s", c.seed, c.evals, c.distinct.len());
    let _ = std::fs::write(out, text);
    code
}
