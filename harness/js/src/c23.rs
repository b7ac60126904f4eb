//! The JS client's fetchers report what is on the ledger.
use crate::js::{self, call, k, num, n, same};
use crate::req;
use rand::Rng;
use rand_chacha::ChaCha8Rng;
use serde_json::{json, Map, Value};
use solana_sdk::pubkey::Pubkey;
use std::collections::BTreeMap;
use std::str::FromStr;
use xvcore::engine::Acct;
use xvcore::history::*;
use xvcore::node::*;
use xvcore::report::*;
use xvcore::spec::{self, PendV, StateV};
use xvcore::world::*;

/// Plain JSON numbers as the client library delivers them.
fn bigints(v: &Value, key: &str) -> Value {
    match v {
        Value::Number(x) if !matches!(key, "decimals" | "uiAmount") => n(x),
        Value::Array(a) => Value::Array(a.iter().map(|x| bigints(x, key)).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (k.clone(), bigints(x, k))).collect::<Map<_, _>>()),
        _ => v.clone(),
    }
}
/// RPC parameters as they travel: bigints are written as numbers.
fn plain(v: &Value) -> Value {
    match v {
        Value::Object(o) if o.len() == 1 && o.contains_key("$n") => o["$n"].as_str().and_then(|s| s.parse::<u64>().ok()).map_or(Value::Null, |x| json!(x)),
        Value::Object(o) => Value::Object(o.iter().filter(|(_, x)| x.get("$u").is_none()).map(|(k, x)| (k.clone(), plain(x))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(plain).collect()),
        _ => v.clone(),
    }
}
/// The node's answer in the encoding the request asked for.
fn encoded(method: &str, params: &Value, mut out: Value) -> Result<Value, String> {
    let enc = params[1]["encoding"].as_str();
    let one = |a: &mut Value, legacy: bool| -> Result<(), String> {
        if a.is_null() {
            return Ok(());
        }
        use base64::{engine::general_purpose::STANDARD as B64, Engine as _};
        let raw = B64.decode(a["data"][0].as_str().unwrap_or("")).unwrap_or_default();
        if raw.len() > 128 {
            return Err("Encoded binary (base 58) data should be less than 128 bytes, please use Base64 encoding.".into());
        }
        let t = bs58::encode(&raw).into_string();
        a["data"] = if legacy { json!(t) } else { json!([t, "base58"]) };
        Ok(())
    };
    let legacy = enc.is_none() && method != "getMultipleAccounts";
    match enc {
        Some("base64") => {}
        Some("base58") | None if enc.is_some() || legacy => match &mut out["value"] {
            Value::Array(v) => {
                for a in v {
                    one(if a.get("account").is_some() { &mut a["account"] } else { a }, legacy)?;
                }
            }
            v if v.get("data").is_some() => one(v, legacy)?,
            _ => {}
        },
        None => {}
        Some(e) => return Err(format!("encoding {e} not offered by this node")),
    }
    Ok(out)
}

fn pend(v: &Value) -> Option<PendV> {
    let zero = |f: &str, len: usize| js::bytes(&v[f]).is_some_and(|b| b.len() == len && b.iter().all(|x| *x == 0));
    if num(&v["discriminator"])? != 2 {
        return None;
    }
    Some(PendV {
        bump: num(&v["bump"])?.try_into().ok()?,
        index: num(&v["withdrawIndex"])?.try_into().ok()?,
        unstaker: Pubkey::from_str(v["unstaker"].as_str()?).ok()?,
        amount: num(&v["withdrawableOrcaAmount"])?.try_into().ok()?,
        ts: num(&v["withdrawableTimestamp"])?.try_into().ok()?,
        padding_zero: zero("padding1", 5) && zero("padding2", 968),
        lamports: 0,
    })
}
fn state(v: &Value) -> Option<StateV> {
    let zero = |f: &str, len: usize| js::bytes(&v[f]).is_some_and(|b| b.len() == len && b.iter().all(|x| *x == 0));
    if num(&v["discriminator"])? != 1 {
        return None;
    }
    Some(StateV {
        bump: num(&v["bump"])?.try_into().ok()?,
        vault_bump: num(&v["vaultBump"])?.try_into().ok()?,
        escrow: num(&v["escrowedOrcaAmount"])?.try_into().ok()?,
        cooldown: num(&v["coolDownPeriodS"])?.try_into().ok()?,
        authority: Pubkey::from_str(v["updateAuthority"].as_str()?).ok()?,
        padding_zero: zero("padding1", 5) && zero("padding2", 1992),
    })
}
/// A whole account as the generated fetchers answer it.
fn account(v: &Value, at: &Pubkey, l: &Ledger, data: Option<bool>) -> bool {
    l.get(at).is_some_and(|a| {
        v["address"] == at.to_string() && v["programAddress"] == a.owner.to_string() && num(&v["lamports"]) == Some(a.lamports as i128)
            && v["executable"] == false && same(&v["space"], &json!(a.data.len())) && data == Some(true)
    })
}

fn one(case: u64, r: &mut ChaCha8Rng, st: &mut Stats) -> CaseResult {
    let mut w = with_base(|b| reachable_world(b, r, 2, case));
    let mut p = Profile::base();
    p.few_indices = r.gen_bool(0.5);
    p.dust = 12;
    p.warp = 6;
    for _ in 0..r.gen_range(0..3) {
        let k = r.gen_range(1..60);
        let mut sum = 0u64;
        // claims may agree in everything but the index
        let twins = r.gen_bool(0.3).then(|| (r.gen_range(1..1u64 << 40), r.gen_range(-5..5)));
        for _ in 0..k {
            let (u, i) = (r.gen_range(0..2), if r.gen_bool(0.5) { r.gen() } else { r.gen_range(0..20) });
            if w.chain.get(&spec::pending(&w.users[u].key, i)).is_some() {
                continue;
            }
            let (a, d) = twins.filter(|_| r.gen_bool(0.9)).unwrap_or_else(|| (r.gen_range(1..1u64 << 40), r.gen_range(-5..5)));
            w.inject_claim(u, i, a, w.chain.now + d);
            sum += a;
        }
        let v = w.view();
        let s = v.state.clone().unwrap();
        if let Some((e, n)) = s.escrow.checked_add(sum).zip(v.vault.checked_add(sum)) {
            w.chain.put(spec::state(), Acct { lamports: v.state_lamports, owner: spec::program_id(), data: spec::encode_state(&StateV { escrow: e, ..s }) });
            w.chain.put(spec::vault(), token_acct(&spec::orca_mint(), &spec::state(), n));
        }
    }
    let step = |w: &mut World, r: &mut ChaCha8Rng| {
        let v = w.view();
        let op = gen_op(r, w, &v, &p);
        w.apply(&op);
    };
    for _ in 0..r.gen_range(0..15) {
        step(&mut w, r);
    }
    let mut snaps = vec![ledger(&w)];
    for _ in 0..r.gen_range(0..6) {
        for _ in 0..r.gen_range(1..4) {
            step(&mut w, r);
        }
        snaps.push(ledger(&w));
    }
    let log = w.log.clone();
    let staker = if r.gen_bool(0.95) { w.users[r.gen_range(0..2)].key } else { derive_key("nobody", r.gen(), 0) };
    let mut node = Node { snaps: snaps.clone(), ..Default::default() };

    for _ in 0..14 {
        let which = r.gen_range(0..9);
        let (max, limit): (Value, Option<u8>) = match r.gen_range(0..9) {
            0 => (json!({"$u": 1}), Some(15)),
            1 => (json!(255), Some(255)),
            2 => { let m = r.gen_range(99..103u8); (json!(m), Some(m)) }
            3 => { let m = r.gen_range(0..20u8); (json!(m), Some(m)) }
            4 => { let m = r.gen_range(199..203u8); (json!(m), Some(m)) }
            5 => ([json!(-1), json!(256), json!(1.5), json!(254.5), json!(1000), json!({"$x": "NaN"}), json!({"$x": "Infinity"}), json!(0.5), json!(255.5)][r.gen_range(0..9)].clone(), None),
            _ => { let m = r.gen::<u8>(); (json!(m), Some(m)) }
        };
        node.calls = 0;
        node.served.clear();
        node.log.clear();
        node.fired = false;
        node.too_many = false;
        let mut t = r.gen_range(0..snaps.len());
        node.schedule = (0..4)
            .map(|_| {
                let x = t;
                t = (t + r.gen_range(0..2)).min(snaps.len() - 1);
                x
            })
            .collect();
        node.fault = match r.gen_range(0..10) {
            0 => Some((r.gen_range(0..3), Fault::Error)),
            1 => Some((0, Fault::Missing([spec::state(), spec::vault(), spec::xorca_mint()][r.gen_range(0..3)]))),
            2 => Some(match r.gen_range(0..3) {
                0 => (0, Fault::Short(spec::state(), r.gen_range(0..2048))),
                1 => (0, Fault::Short(spec::vault(), r.gen_range(0..165))),
                _ => (0, Fault::Short(spec::xorca_mint(), r.gen_range(0..82))),
            }),
            _ => None,
        };
        let rpc = json!({"$rpc": true});
        let mut keys: Vec<Pubkey> = vec![];
        let mut absent = false;
        let (name, c) = match which {
            0 => ("state", call("fetchStateAccountData", json!([rpc]))),
            1 => ("cooldown", call("fetchStateAccountCoolDownPeriodS", json!([rpc]))),
            2 => ("vault", call("fetchVaultState", json!([rpc]))),
            3 => ("supply", call("fetchXorcaMintSupply", json!([rpc]))),
            4 => ("rate", call("fetchStakingExchangeRate", json!([rpc]))),
            5 | 6 => ("claims", call("fetchPendingWithdrawsForStaker", json!([rpc, k(&staker), max]))),
            7 => {
                let l = &snaps[node.schedule[0]];
                keys = l.iter().filter(|(_, a)| a.data.len() == spec::PENDING_LEN && a.owner == spec::program_id()).map(|(k, _)| *k).take(90).collect();
                absent = r.gen_bool(0.5);
                if absent {
                    keys.insert(r.gen_range(0..=keys.len()), derive_key("absent", r.gen(), 1));
                }
                let single = r.gen_bool(0.3) && !keys.is_empty();
                if single {
                    keys = vec![keys[r.gen_range(0..keys.len())]];
                    absent = !l.contains_key(&keys[0]);
                }
                let ks: Vec<Value> = keys.iter().map(k).collect();
                match (single, r.gen()) {
                    (true, true) => ("one_pending", call("fetchPendingWithdraw", json!([rpc, ks[0]]))),
                    (true, false) => ("maybe_one_pending", call("fetchMaybePendingWithdraw", json!([rpc, ks[0]]))),
                    (false, true) => ("all_pending", call("fetchAllPendingWithdraw", json!([rpc, ks]))),
                    (false, false) => ("maybe_pending", call("fetchAllMaybePendingWithdraw", json!([rpc, ks]))),
                }
            }
            _ => {
                let s = k(&spec::state());
                match r.gen_range(0..4) {
                    0 => ("fetch_state", call("fetchState", json!([rpc, s]))),
                    1 => ("maybe_state", call("fetchMaybeState", json!([rpc, s]))),
                    2 => ("all_state", call("fetchAllState", json!([rpc, [s]]))),
                    _ => ("maybe_all_state", call("fetchAllMaybeState", json!([rpc, [s]]))),
                }
            }
        };
        let mut late: Vec<u32> = (0..6).map(|_| r.gen_range(0..5)).collect();
        let mut refused_encoding = None;
        let out = {
            let node = &mut node;
            js::batch_with(&[c.clone()], &mut |m, params| {
                let params = plain(params);
                let a = node.answer(m, &params).map_err(|e| e.1).and_then(|v| encoded(m, &params, v).inspect_err(|e| refused_encoding = Some(e.clone()))).map(|v| bigints(&v, ""));
                (a, late.pop().unwrap_or(0))
            })
        };
        let mut all = log.clone();
        all.extend(node.log.iter().cloned());
        let what = format!("{name} (staker {staker}, limit {max}, fault {:?}, snapshots served {:?})", node.fault, node.served);
        let ans = match out {
            Ok(mut o) => o.remove(0),
            Err(e) => return fail(format!("{what}: {e}"), &all),
        };
        let during: Vec<&Ledger> = match (node.served.iter().min(), node.served.iter().max()) {
            (Some(a), Some(b)) => snaps[*a..=*b].iter().collect(),
            _ => vec![],
        };
        let missing = matches!(node.fault, Some((_, Fault::Missing(_))));
        let maybe = name.starts_with("maybe");
        let failing = node.fired && !(maybe && missing);
        let bad_limit = name == "claims" && limit.is_none();
        let must_fail = bad_limit || (absent && !maybe);
        st.eval(Some((name, case, node.served.clone(), max.to_string(), node.fired)));
        st.count(&format!("{name}:{}", if ans.is_ok() { "ok" } else { "err" }));
        if node.served.iter().any(|s| *s != node.served[0]) {
            st.count("reads-straddling-transactions");
        }
        if node.fired {
            st.count("faulted-requests");
        }
        if bad_limit {
            st.count("limits-refused");
            if !node.served.is_empty() {
                return fail(format!("{what}: contacts the node for a limit out of range"), &all);
            }
        }
        if node.too_many {
            return fail(format!("{what}: asked the node for more than 100 accounts at once"), &all);
        }
        let v = match ans {
            Err(e) => {
                if !failing && !must_fail {
                    return fail(format!("{what}: failed on a healthy ledger: {e} {refused_encoding:?}"), &all);
                }
                continue;
            }
            Ok(v) => v,
        };
        if failing || must_fail {
            return fail(format!("{what}: reported success ({v}) although a request failed, an account was missing or unusable, or the limit is not an index count"), &all);
        }
        let decoded_pending = |v: &Value, l: &Ledger, at: &Pubkey| pend(&v["data"]).is_some_and(|p| l.get(at).and_then(|a| spec::decode_pending(&a.owner, &a.data, 0)) == Some(p));
        let decoded_state = |v: &Value, l: &Ledger| state(&v["data"]).is_some_and(|s| state_of(l) == Some(s));
        let not_found = |v: &Value, at: &Pubkey| v["exists"] == false && v["address"] == at.to_string();
        let mut claims_seen = 0;
        let mut moving = false;
        let ok = match name {
            "state" => during.iter().any(|l| state(&v).is_some_and(|s| state_of(l) == Some(s))),
            "cooldown" => during.iter().any(|l| state_of(l).map(|s| s.cooldown as i128) == num(&v)),
            "vault" => during.iter().any(|l| {
                vault_of(l).is_some_and(|(m, o, a)| v["address"] == spec::vault().to_string() && v["mint"] == m.to_string() && v["owner"] == o.to_string() && num(&v["amount"]) == Some(a as i128))
            }),
            "supply" => during.iter().any(|l| supply_of(l).map(|s| s as i128) == num(&v)),
            "rate" => during.iter().any(|l| {
                let (Some(s), Some(va)) = (state_of(l), vault_of(l)) else { return false };
                num(&v["numerator"]) == Some(va.2 as i128 - s.escrow as i128) && num(&v["denominator"]) == supply_of(l).map(|x| x as i128)
            }),
            "claims" => {
                let limit = limit.unwrap();
                let sets: Vec<BTreeMap<u8, PendV>> = during.iter().map(|l| claims(l, &staker, limit)).collect();
                let list = v.as_array().cloned().unwrap_or_default();
                let got: BTreeMap<u8, PendV> = list.iter().filter_map(pend).map(|p| (p.index, p)).collect();
                claims_seen = got.len();
                moving = sets.len() > 1;
                let none = sets.is_empty();
                v.is_array() && got.len() == list.len()
                    && if none { limit == 0 && got.is_empty() } else {
                        got.iter().all(|(i, p)| sets.iter().any(|s| s.get(i) == Some(p)))
                            && sets[0].keys().all(|i| got.contains_key(i) || sets.iter().any(|s| s.get(i) != sets[0].get(i)))
                    }
            }
            "one_pending" | "maybe_one_pending" => {
                let at = &keys[0];
                during.iter().any(|l| account(&v, at, l, Some(decoded_pending(&v, l, at)))) && (!maybe || v["exists"] == true)
                    || (maybe && not_found(&v, at) && during.iter().any(|l| !l.contains_key(at)))
            }
            "all_pending" | "maybe_pending" => {
                let list = v.as_array().cloned().unwrap_or_default();
                list.len() == keys.len() && list.iter().zip(&keys).all(|(v, at)| {
                    during.iter().any(|l| account(v, at, l, Some(decoded_pending(v, l, at)))) && (!maybe || v["exists"] == true)
                        || (maybe && not_found(v, at) && during.iter().any(|l| !l.contains_key(at)))
                })
            }
            _ => {
                let x = if name.contains("all") { v.as_array().and_then(|a| (a.len() == 1).then(|| a[0].clone())).unwrap_or(Value::Null) } else { v.clone() };
                let at = spec::state();
                during.iter().any(|l| account(&x, &at, l, Some(decoded_state(&x, l)))) && (!maybe || x["exists"] == true) || (maybe && node.fired && not_found(&x, &at))
            }
        };
        st.add("claims-compared", claims_seen as u64);
        if moving {
            st.count("claims-moving-ledger");
        }
        if name == "claims" && node.served.len() > 1 {
            st.count("claims-many-requests");
        }
        if !ok {
            return fail(format!("{what}: answered {v}, which the ledger did not hold"), &all);
        }
    }
    st.sample(|| json!({"snapshots": snaps.len(), "claims_of_staker": claims(&snaps[0], &staker, 255).len()}));
    Ok(())
}

pub fn run(ctx: &Ctx) -> i32 {
    let a = run_cases(ctx, "fetch", ctx.scale(600, 60_000), ctx.scale(25, 500), |c, r, st| one(c, r, st));
    finish(ctx, vec![("fetch".into(), a)], Report {
        rule: "One evaluation per fetcher call of the JS client (bundled from js-client/src, executed by node) against a simulated RPC node whose ledger is produced by the real program and moves on between requests, whose answers arrive in any order; answers compared with the snapshots served during the call. Distinct by ledger, requests and limit.".into(),
        assumptions: vec!["The node answers each request from one consistent ledger snapshot and refuses more than 100 accounts per request, as Solana RPC nodes do.".into(),
            "Indices searched are those below the limit (default 15), as documented.".into(),
            "@solana/kit and @solana-program/token are replaced by stand-ins written from their documentation; the originals are not installed here.".into()],
        require: req(&[("claims:ok", 300), ("rate:ok", 150), ("rate:err", 20), ("claims:err", 20), ("limits-refused", 20), ("claims-compared", 1000), ("claims-many-requests", 100), ("faulted-requests", 100), ("state:ok", 100), ("vault:ok", 100), ("supply:ok", 100)]),
        min_distinct: 5_000,
    })
}
