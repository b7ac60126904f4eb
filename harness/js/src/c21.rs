//! JS client quotes are what the deployed program does.
use crate::js::{self, n};
use crate::req;
use ethnum::U256;
use rand::Rng;
use rand_chacha::ChaCha8Rng;
use serde_json::{json, Value};
use xvcore::checks::run::*;
use xvcore::engine::Chain;
use xvcore::history::*;
use xvcore::report::*;
use xvcore::spec::{self, code, Quote};
use xvcore::world::*;

fn exact(a: u64, num: u64, den: u64) -> U256 {
    U256::from(a) * (U256::from(num) + U256::from(100u64)) / (U256::from(den) + U256::from(100u64))
}
fn to_xorca(a: u64, nn: u64, s: u64) -> U256 {
    if nn == 0 || s == 0 { U256::from(a) } else { exact(a, s, nn) }
}
fn to_orca(x: u64, nn: u64, s: u64) -> Option<U256> {
    (nn != 0 && s != 0).then(|| exact(x, nn, s))
}
fn big(v: &Value) -> Option<U256> {
    U256::from_str_radix(v.get("$n")?.as_str()?, 10).ok()
}
fn ask(f: &str, a: u64, nn: u64, s: u64) -> Value {
    js::call(f, json!([n(a), n(nn), n(s)]))
}
const TO_X: &str = "convertOrcaToXorca";
const TO_O: &str = "convertXorcaToOrca";

fn numeric(r: &mut ChaCha8Rng, st: &mut Stats) -> CaseResult {
    let mut q = vec![];
    let mut calls = vec![];
    for _ in 0..500 {
        let (v, s, e) = gen_pool(r);
        let nn = v.saturating_sub(e);
        let (nn, s) = if r.gen_bool(0.5) { (nn, s) } else { (amount(r, &[s]), s) };
        let x = match r.gen_range(0..4) {
            0 => ((u64::MAX as u128 * (nn as u128 + 100) / (s as u128 + 100)).min(u64::MAX as u128) as u64).saturating_add(r.gen_range(0..3)).saturating_sub(1),
            1 => ((u64::MAX as u128 * (s as u128 + 100) / (nn as u128 + 100)).min(u64::MAX as u128) as u64).saturating_add(r.gen_range(0..3)).saturating_sub(1),
            _ => amount(r, &[nn, s]),
        };
        q.push((x, nn, s));
        calls.push(ask(TO_X, x, nn, s));
        calls.push(ask(TO_O, x, nn, s));
    }
    let out = match js::batch(&calls) {
        Ok(o) => o,
        Err(e) => return fail(e, &[]),
    };
    for (i, (x, nn, s)) in q.into_iter().enumerate() {
        st.eval(Some((x, nn, s)));
        let (a, b) = (&out[2 * i], &out[2 * i + 1]);
        let want = to_xorca(x, nn, s);
        st.count(if want == 0 { "quote:0" } else { "quote:>0" });
        if a.as_ref().ok().and_then(big) != Some(want) {
            return fail(format!("{TO_X}({x}, {nn}, {s}) gives {a:?}, exact arithmetic {want}"), &[]);
        }
        match to_orca(x, nn, s) {
            Some(w) => {
                if b.as_ref().ok().and_then(big) != Some(w) {
                    return fail(format!("{TO_O}({x}, {nn}, {s}) gives {b:?}, exact arithmetic {w}"), &[]);
                }
            }
            None => {
                st.count("quote:error");
                if b.is_ok() {
                    return fail(format!("{TO_O}({x}, {nn}, {s}) quotes {b:?} from an empty pool"), &[]);
                }
            }
        }
    }
    Ok(())
}

fn onchain(r: &mut ChaCha8Rng, st: &mut Stats, base: &Chain) -> CaseResult {
    let mut init = Init::simple(r.gen(), 1);
    init.vault = 0;
    let mut w = World::new(base, &init);
    for _ in 0..20 {
        let (v, s, e) = gen_pool(r);
        if v < e {
            continue;
        }
        let nn = v - e;
        let stake = r.gen_bool(0.5);
        let a = amount(r, &[nn, s]);
        let a = if stake { a } else { a.min(s) };
        let (orca, xorca) = if stake { (a, 0) } else { (0, a) };
        set_pool(&mut w, v, s, e, orca, xorca);
        let pre = w.view();
        let op = if stake { Op::Stake { u: 0, a } } else { Op::Unstake { u: 0, x: a, i: 0 } };
        let q = match js::batch(&[ask(if stake { TO_X } else { TO_O }, a, nn, s)]) {
            Ok(mut o) => o.remove(0),
            Err(e) => return fail(e, &w.log),
        };
        let exec = if stake { spec::to_xorca(a, nn, s) } else { spec::to_orca(a, nn, s) };
        let step = w.apply(&op);
        let (ok, c) = (step.out.ok, step.out.code);
        st.eval(Some((stake, a, v, s, e)));
        st.count(&format!("chain-{}:{}", op.kind(), if ok { "ok" } else { "refused" }));
        let quote = q.as_ref().ok().and_then(big);
        let what = format!("{op:?} with N={nn} S={s} escrow={e}: quote {q:?}, executed={ok} code={c:?}");
        if ok {
            let got = if stake { step.post.users[0].xorca - pre.users[0].xorca } else { step.post.slots.get(&(0, 0)).and_then(|s| s.claim.as_ref()).map_or(0, |c| c.amount) };
            if quote != Some(U256::from(got)) {
                return fail(format!("{what}, received {got}"), &w.log);
            }
            if st.samples.is_empty() {
                st.sample(|| json!({"op": format!("{op:?}"), "N": nn, "S": s, "received": got}));
            }
        } else if c == Some(if stake { code::SMALL_STAKE } else { code::SMALL_UNSTAKE }) && a > 0 {
            st.count("refused-as-too-small");
            if quote != Some(U256::ZERO) {
                return fail(format!("{what}: refused as too small"), &w.log);
            }
        } else if exec == Quote::Out(0) && a > 0 {
            return fail(format!("{what}: not refused as too small"), &w.log);
        }
        if ok && !stake {
            let p = spec::pending(&w.users[0].key, 0);
            w.chain.put(p, xvcore::engine::Acct { lamports: 0, owner: spec::system_program(), data: vec![] });
        }
    }
    Ok(())
}

pub fn run(ctx: &Ctx) -> i32 {
    let a = run_cases(ctx, "numeric", ctx.scale(400, 40_000), ctx.scale(25, 300), |_, r, st| numeric(r, st));
    let b = run_cases(ctx, "onchain", ctx.scale(500, 30_000), ctx.scale(25, 400), |_, r, st| with_base(|b| onchain(r, st, b)));
    finish(ctx, vec![("numeric".into(), a), ("onchain".into(), b)], Report {
        rule: "One evaluation per quote of the JS client (bundled from js-client/src, executed by node): an (amount, N, S) triple compared with 256-bit arithmetic, or a quote followed by executing the same stake/unstake on the real program in a pool with those reserves. Distinct by inputs.".into(),
        assumptions: vec!["A quote is requested with exactly the reserves the transaction later sees.".into()],
        require: req(&[("quote:>0", 50_000), ("quote:0", 500), ("quote:error", 500), ("chain-stake:ok", 300), ("chain-unstake:ok", 300), ("refused-as-too-small", 50)]),
        min_distinct: 50_000,
    })
}
