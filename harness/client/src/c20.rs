//! The Rust client's fetchers report what is on the ledger.
use crate::req;
use async_trait::async_trait;
use rand::Rng;
use rand_chacha::ChaCha8Rng;
use serde_json::{json, Value};
use solana_client::client_error::{ClientErrorKind, Result as RpcResult};
use solana_client::rpc_client::{RpcClient, RpcClientConfig};
use solana_client::rpc_request::{RpcError, RpcRequest, RpcResponseErrorData};
use solana_client::rpc_sender::{RpcSender, RpcTransportStats};
use solana_sdk::pubkey::Pubkey;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use xvcore::engine::Acct;
use xvcore::history::*;
use xvcore::node::*;
use xvcore::report::*;
use xvcore::spec::{self, PendV, StateV};
use xvcore::world::*;

#[derive(Clone)]
struct Sender(Arc<Mutex<Node>>);

fn rpc_err(code: i64, m: &str) -> solana_client::client_error::ClientError {
    ClientErrorKind::RpcError(RpcError::RpcResponseError { code, message: m.into(), data: RpcResponseErrorData::Empty }).into()
}

#[async_trait]
impl RpcSender for Sender {
    async fn send(&self, request: RpcRequest, params: Value) -> RpcResult<Value> {
        let name = request.to_string();
        self.0.lock().unwrap().answer(&name, &params).map_err(|(c, m)| rpc_err(c, &m))
    }
    fn get_transport_stats(&self) -> RpcTransportStats {
        RpcTransportStats::default()
    }
    fn url(&self) -> String {
        "monitor://".into()
    }
}

fn conv(p: &xorca::PendingWithdraw) -> PendV {
    PendV { bump: p.bump, index: p.withdraw_index, unstaker: p.unstaker, amount: p.withdrawable_orca_amount, ts: p.withdrawable_timestamp, padding_zero: true, lamports: 0 }
}
fn conv_state(s: &xorca::State) -> StateV {
    StateV { bump: s.bump, vault_bump: s.vault_bump, escrow: s.escrowed_orca_amount, cooldown: s.cool_down_period_s, authority: s.update_authority, padding_zero: true }
}

fn one(case: u64, r: &mut ChaCha8Rng, st: &mut Stats) -> CaseResult {
    // a ledger and how it goes on while a client reads it
    let mut w = with_base(|b| reachable_world(b, r, 2, case));
    let mut p = Profile::base();
    p.few_indices = r.gen_bool(0.5);
    p.dust = 12;
    p.warp = 6;
    for _ in 0..r.gen_range(0..3) {
        let k = r.gen_range(1..60);
        let mut sum = 0u64;
        // claims may agree in everything but the index
        let twins = r.gen_bool(0.3).then(|| (r.gen_range(1..1u64 << 40), r.gen_range(-5..5)));
        for _ in 0..k {
            let (u, i) = (r.gen_range(0..2), if r.gen_bool(0.5) { r.gen() } else { r.gen_range(0..20) });
            let key = spec::pending(&w.users[u].key, i);
            if w.chain.get(&key).is_some() {
                continue;
            }
            let (a, d) = twins.filter(|_| r.gen_bool(0.9)).unwrap_or_else(|| (r.gen_range(1..1u64 << 40), r.gen_range(-5..5)));
            w.inject_claim(u, i, a, w.chain.now + d);
            sum += a;
        }
        let v = w.view();
        let s = v.state.clone().unwrap();
        if let Some((e, n)) = s.escrow.checked_add(sum).zip(v.vault.checked_add(sum)) {
            let l = v.state_lamports;
            w.chain.put(spec::state(), Acct { lamports: l, owner: spec::program_id(), data: spec::encode_state(&StateV { escrow: e, ..s }) });
            w.chain.put(spec::vault(), token_acct(&spec::orca_mint(), &spec::state(), n));
        }
    }
    let step = |w: &mut World, r: &mut ChaCha8Rng| {
        let v = w.view();
        let op = gen_op(r, w, &v, &p);
        w.apply(&op);
    };
    for _ in 0..r.gen_range(0..15) {
        step(&mut w, r);
    }
    let mut snaps = vec![ledger(&w)];
    for _ in 0..r.gen_range(0..6) {
        for _ in 0..r.gen_range(1..4) {
            step(&mut w, r);
        }
        snaps.push(ledger(&w));
    }
    if r.gen_bool(0.1) {
        // an under-backed vault: no rate exists
        if let Some((s, v)) = state_of(&snaps[0]).zip(vault_of(&snaps[0])) {
            let l = snaps[0].clone();
            let mut a = l[&spec::state()].clone();
            a.data = spec::encode_state(&StateV { escrow: v.2.saturating_add(r.gen_range(1..5)).max(s.escrow), ..s });
            let mut l = l;
            l.insert(spec::state(), a);
            snaps = vec![l];
        }
    }
    let node = Arc::new(Mutex::new(Node { snaps: snaps.clone(), ..Default::default() }));
    let rpc = RpcClient::new_sender(Sender(node.clone()), RpcClientConfig::default());
    let log = w.log.clone();
    let staker = if r.gen_bool(0.95) { w.users[r.gen_range(0..2)].key } else { derive_key("nobody", r.gen(), 0) };

    for _ in 0..14 {
        let call = r.gen_range(0..9);
        let max: Option<u8> = match r.gen_range(0..6) {
            0 => None,
            1 => Some(255),
            2 => Some(r.gen_range(99..103)),
            3 => Some(r.gen_range(0..20)),
            4 => Some(r.gen_range(199..203)),
            _ => Some(r.gen()),
        };
        {
            let mut n = node.lock().unwrap();
            n.calls = 0;
            n.served.clear();
            n.log.clear();
            n.fired = false;
            n.too_many = false;
            let mut t = r.gen_range(0..snaps.len());
            n.schedule = (0..4)
                .map(|_| {
                    let x = t;
                    t = (t + r.gen_range(0..2)).min(snaps.len() - 1);
                    x
                })
                .collect();
            n.fault = match r.gen_range(0..10) {
                0 => Some((r.gen_range(0..3), Fault::Error)),
                1 => Some((0, Fault::Missing([spec::state(), spec::vault(), spec::xorca_mint()][r.gen_range(0..3)]))),
                2 => {
                    let live: Vec<Pubkey> = snaps[0].iter().filter(|(_, a)| a.data.len() == spec::PENDING_LEN).map(|(k, _)| *k).collect();
                    Some(match r.gen_range(0..6) {
                        4 => (0, Fault::Zeroed(spec::vault())),
                        5 => (0, Fault::Zeroed(spec::xorca_mint())),
                        0 => (0, Fault::Short(spec::state(), r.gen_range(0..2048))),
                        1 => (0, Fault::Short(spec::vault(), r.gen_range(0..165))),
                        2 => (0, Fault::Short(spec::xorca_mint(), r.gen_range(0..82))),
                        _ if !live.is_empty() => (0, Fault::Short(live[r.gen_range(0..live.len())], r.gen_range(0..1024))),
                        _ => (0, Fault::Error),
                    })
                }
                _ => None,
            };
        }
        // (name, failed, judgement of a successful answer against the served snapshots)
        let name;
        let mut failed: Option<String> = None;
        let mut bad: Option<String> = None;
        let mut must_fail = false;
        macro_rules! during {
            () => {{
                let n = node.lock().unwrap();
                let (a, b) = (n.served.iter().min().copied().unwrap_or(0), n.served.iter().max().copied().unwrap_or(0));
                snaps[a..=b].to_vec()
            }};
        }
        macro_rules! judge {
            ($res:expr, $n:expr, |$v:ident, $d:ident| $ok:expr, $show:expr) => {{
                name = $n;
                match $res {
                    Err(e) => failed = Some(e.to_string()),
                    Ok($v) => {
                        let $d: Vec<Ledger> = during!();
                        if !$ok {
                            bad = Some(format!("{:?}", $show(&$v)));
                        }
                    }
                }
            }};
        }
        match call {
            0 => judge!(xorca::fetch_state_account_data(&rpc), "state", |x, d| d.iter().any(|l| state_of(l) == Some(conv_state(&x))), conv_state),
            1 => judge!(xorca::fetch_state_account_cool_down_period_s(&rpc), "cooldown", |x, d| d.iter().any(|l| state_of(l).map(|s| s.cooldown) == Some(x)), |x: &i64| *x),
            2 => judge!(xorca::fetch_vault_state(&rpc), "vault", |x, d| x.address == spec::vault() && d.iter().any(|l| vault_of(l) == Some((x.mint, x.owner, x.amount))), |x: &xorca::VaultState| x.clone()),
            3 => judge!(xorca::fetch_xorca_mint_supply(&rpc), "supply", |x, d| d.iter().any(|l| supply_of(l) == Some(x)), |x: &u64| *x),
            4 => {
                must_fail = snaps.len() == 1 && state_of(&snaps[0]).zip(vault_of(&snaps[0])).is_some_and(|(s, v)| v.2 < s.escrow);
                judge!(xorca::fetch_staking_exchange_rate(&rpc), "rate", |x, d| d.iter().any(|l| {
                    let (Some(s), Some(v)) = (state_of(l), vault_of(l)) else { return false };
                    v.2.checked_sub(s.escrow) == Some(x.numerator) && supply_of(l) == Some(x.denominator)
                }), |x: &xorca::StakingExchangeRate| x.clone())
            }
            5 | 6 => {
                let limit = max.unwrap_or(15);
                judge!(xorca::fetch_pending_withdraws_for_staker(&rpc, &staker, max), "claims", |x, d| {
                    let sets: Vec<BTreeMap<u8, PendV>> = d.iter().map(|l| claims(l, &staker, limit)).collect();
                    let mut got: BTreeMap<u8, PendV> = BTreeMap::new();
                    let mut ok = true;
                    for p in &x {
                        ok &= got.insert(p.withdraw_index, conv(p)).is_none();
                    }
                    // every answer existed during the call, everything that existed throughout is answered
                    ok &= got.iter().all(|(i, p)| sets.iter().any(|s| s.get(i) == Some(p)));
                    ok &= sets[0].keys().all(|i| got.contains_key(i) || sets.iter().any(|s| s.get(i) != sets[0].get(i)));
                    st.add("claims-compared", got.len() as u64);
                    if sets.len() > 1 { st.count("claims-moving-ledger"); }
                    if limit > 100 { st.count("claims-many-requests"); }
                    if d[0].iter().any(|(_, a)| a.data.is_empty()) { st.count("ledger-with-dust"); }
                    ok
                }, |x: &Vec<xorca::PendingWithdraw>| x.iter().map(conv).collect::<Vec<_>>())
            }
            7 => {
                // generated account fetchers, states and claims that exist
                let l = &snaps[node.lock().unwrap().schedule[0]];
                let mut live: Vec<Pubkey> = l.iter().filter(|(_, a)| a.data.len() == spec::PENDING_LEN && a.owner == spec::program_id()).map(|(k, _)| *k).take(90).collect();
                let absent = derive_key("absent", r.gen(), 1);
                let with_absent = r.gen_bool(0.5);
                if with_absent {
                    live.insert(r.gen_range(0..=live.len()), absent);
                }
                let exact = |d: &xorca::DecodedAccount<xorca::PendingWithdraw>, ls: &Vec<Ledger>| ls.iter().any(|l| l.get(&d.address).is_some_and(|a| a.data == d.account.data && a.lamports == d.account.lamports && a.owner == d.account.owner && spec::decode_pending(&a.owner, &a.data, 0) == Some(conv(&d.data))));
                if r.gen() {
                    must_fail = with_absent;
                    judge!(xorca::fetch_all_pending_withdraw(&rpc, &live), "all_pending", |x, d| x.len() == live.len() && x.iter().zip(&live).all(|(a, k)| a.address == *k && exact(a, &d)), |x: &Vec<xorca::DecodedAccount<xorca::PendingWithdraw>>| x.len())
                } else {
                    judge!(xorca::fetch_all_maybe_pending_withdraw(&rpc, &live), "maybe_pending", |x, d| x.len() == live.len() && x.iter().zip(&live).all(|(a, k)| match a {
                        xorca::MaybeAccount::Exists(a) => a.address == *k && exact(a, &d),
                        xorca::MaybeAccount::NotFound(n) => n == k && d.iter().any(|l| !l.contains_key(k)),
                    }), |x: &Vec<xorca::MaybeAccount<xorca::PendingWithdraw>>| x.len())
                }
            }
            _ => {
                let k = spec::state();
                let exact = |d: &xorca::DecodedAccount<xorca::State>, ls: &Vec<Ledger>| d.address == k && ls.iter().any(|l| l.get(&k).is_some_and(|a| a.data == d.account.data && a.lamports == d.account.lamports && a.owner == d.account.owner) && state_of(l) == Some(conv_state(&d.data)));
                if r.gen() {
                    judge!(xorca::fetch_state(&rpc, &k), "fetch_state", |x, d| exact(&x, &d), |x: &xorca::DecodedAccount<xorca::State>| conv_state(&x.data))
                } else {
                    judge!(xorca::fetch_maybe_state(&rpc, &k), "fetch_maybe_state", |x, d| match &x {
                        xorca::MaybeAccount::Exists(a) => exact(a, &d),
                        xorca::MaybeAccount::NotFound(n) => *n == k && node.lock().unwrap().fired,
                    }, |x: &xorca::MaybeAccount<xorca::State>| matches!(x, xorca::MaybeAccount::Exists(_)))
                }
            }
        }
        let n = node.lock().unwrap();
        let fault = n.fault.clone();
        let mut all = log.clone();
        all.extend(n.log.iter().cloned());
        let what = format!("{name} (staker {staker}, limit {max:?}, fault {fault:?}, snapshots served {:?})", n.served);
        st.eval(Some((name, case, n.served.clone(), max, n.fired)));
        st.count(&format!("{name}:{}", if failed.is_some() { "err" } else { "ok" }));
        if n.served.iter().any(|s| *s != n.served[0]) {
            st.count("reads-straddling-transactions");
        }
        if n.too_many {
            return fail(format!("{what}: asked the node for more than 100 accounts at once"), &all);
        }
        if let Some(b) = bad {
            return fail(format!("{what}: answered {b}, which the ledger did not hold"), &all);
        }
        let maybe = name.starts_with("maybe") || name.starts_with("fetch_maybe");
        let failing = n.fired && !(maybe && matches!(fault, Some((_, Fault::Missing(_)))));
        if n.fired {
            st.count("faulted-requests");
        }
        if failed.is_none() && (failing || must_fail) {
            return fail(format!("{what}: reported success although a request failed or an account was missing or unusable"), &all);
        }
        if let Some(e) = failed {
            if !failing && !must_fail {
                return fail(format!("{what}: failed on a healthy ledger: {e}"), &all);
            }
        }
    }
    st.sample(|| json!({"snapshots": snaps.len(), "claims_of_staker": claims(&snaps[0], &staker, 255).len()}));
    Ok(())
}

pub fn run(ctx: &Ctx) -> i32 {
    let a = run_cases(ctx, "fetch", ctx.scale(1500, 60_000), ctx.scale(20, 500), |c, r, st| one(c, r, st));
    finish(ctx, vec![("fetch".into(), a)], Report {
        rule: "One evaluation per fetcher call of the Rust client against a simulated node whose ledger is produced by the real program and moves on between requests; answers compared with the snapshots served during the call. Distinct by ledger, requests and limit.".into(),
        assumptions: vec!["The node answers each request from one consistent ledger snapshot and refuses more than 100 accounts per request, as Solana RPC nodes do.".into(),
            "Indices searched are those below the limit (default 15), as documented.".into()],
        require: req(&[("claims:ok", 300), ("rate:ok", 200), ("rate:err", 20), ("claims:err", 20), ("claims-compared", 1000), ("claims-many-requests", 100), ("faulted-requests", 100), ("state:ok", 100), ("vault:ok", 100), ("supply:ok", 100)]),
        min_distinct: 5_000,
    })
}
