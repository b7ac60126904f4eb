//! Rust client quotes are what the deployed program does.
use crate::req;
use rand::Rng;
use rand_chacha::ChaCha8Rng;
use serde_json::json;
use xorca::{convert_orca_to_xorca, convert_xorca_to_orca, ConversionError};
use xvcore::checks::run::*;
use xvcore::engine::Chain;
use xvcore::history::*;
use xvcore::report::*;
use xvcore::spec::{self, code, Quote};
use xvcore::world::*;

fn same(got: &Result<u64, ConversionError>, want: Quote) -> bool {
    match (got, want) {
        (Ok(a), Quote::Out(b)) => *a == b,
        (Err(_), Quote::Arith) => true,
        _ => false,
    }
}

/// Numeric phase: millions of triples against 256-bit arithmetic.
fn numeric(r: &mut ChaCha8Rng, st: &mut Stats) -> CaseResult {
    for _ in 0..2000 {
        let (v, s, e) = gen_pool(r);
        let n = v.saturating_sub(e);
        let (n, s) = if r.gen_bool(0.5) { (n, s) } else { (amount(r, &[s]), s) };
        let x = match r.gen_range(0..4) {
            // near the point where the result stops fitting
            0 => ((u64::MAX as u128 * (n as u128 + 100) / (s as u128 + 100)).min(u64::MAX as u128) as u64).saturating_add(r.gen_range(0..3)).saturating_sub(1),
            1 => ((u64::MAX as u128 * (s as u128 + 100) / (n as u128 + 100)).min(u64::MAX as u128) as u64).saturating_add(r.gen_range(0..3)).saturating_sub(1),
            _ => amount(r, &[n, s]),
        };
        st.eval(Some((x, n, s)));
        let (a, b) = (convert_orca_to_xorca(x, n, s), convert_xorca_to_orca(x, n, s));
        for (name, got, want) in [("ORCA to xORCA", &a, spec::to_xorca(x, n, s)), ("xORCA to ORCA", &b, spec::to_orca(x, n, s))] {
            st.count(match want { Quote::Out(0) => "quote:0", Quote::Out(_) => "quote:>0", Quote::Arith => "quote:error" });
            if !same(got, want) {
                return fail(format!("{name} of {x} with N={n} S={s}: client says {got:?}, exact arithmetic {want:?}"), &[]);
            }
        }
        // an empty pool is reported as such
        if (n == 0 || s == 0) && b != Err(ConversionError::ZeroSupplyOrNonEscrowed) {
            return fail(format!("xORCA to ORCA of {x} with N={n} S={s} gives {b:?}"), &[]);
        }
    }
    Ok(())
}

/// Execute what was quoted.
fn onchain(r: &mut ChaCha8Rng, st: &mut Stats, base: &Chain) -> CaseResult {
    let mut init = Init::simple(r.gen(), 1);
    init.vault = 0;
    let mut w = World::new(base, &init);
    for _ in 0..40 {
        let (v, s, e) = gen_pool(r);
        if v < e {
            continue;
        }
        let n = v - e;
        let stake = r.gen_bool(0.5);
        let a = amount(r, &[n, s]);
        let (orca, xorca) = if stake { (a, 0) } else { (0, a.min(s)) };
        let a = if stake { a } else { a.min(s) };
        set_pool(&mut w, v, s, e, orca, xorca);
        let pre = w.view();
        let i = 0;
        let op = if stake { Op::Stake { u: 0, a } } else { Op::Unstake { u: 0, x: a, i } };
        let q = if stake { convert_orca_to_xorca(a, n, s) } else { convert_xorca_to_orca(a, n, s) };
        // other arithmetic limits of the pool (balances that would not fit)
        let fits = match (&q, stake) {
            (Ok(q), true) => s.checked_add(*q).is_some() && v.checked_add(a).is_some(),
            (Ok(q), false) => e.checked_add(*q).is_some(),
            _ => true,
        };
        let step = w.apply(&op);
        let (ok, c) = (step.out.ok, step.out.code);
        st.eval(Some((stake, a, v, s, e)));
        st.count(&format!("chain-{}:{}", op.kind(), if ok { "ok" } else { "refused" }));
        let log = &w.log;
        let what = format!("{op:?} with N={n} S={s} escrow={e}: quote {q:?}, executed={ok} code={c:?}");
        match q {
            Ok(0) if ok || (c != Some(if stake { code::SMALL_STAKE } else { code::SMALL_UNSTAKE }) && a > 0) => return fail(what, log),
            Ok(0) => {}
            Ok(q) if fits => {
                let got = if stake { step.post.users[0].xorca - pre.users[0].xorca } else { step.post.slots.get(&(0, i)).and_then(|s| s.claim.as_ref()).map_or(0, |c| c.amount) };
                if !ok || got != q {
                    return fail(format!("{what}, received {got}"), log);
                }
                if st.samples.is_empty() {
                    st.sample(|| json!({"op": format!("{op:?}"), "N": n, "S": s, "quote": q, "received": got}));
                }
            }
            Ok(_) => {
                st.count("pool-limit");
                if ok {
                    return fail(what, log);
                }
            }
            Err(_) => {
                st.count("quote-refused");
                if ok || c != Some(code::ARITH) {
                    return fail(what, log);
                }
            }
        }
        if ok && !stake {
            // free the claim slot again
            let p = spec::pending(&w.users[0].key, i);
            w.chain.put(p, xvcore::engine::Acct { lamports: 0, owner: spec::system_program(), data: vec![] });
        }
    }
    Ok(())
}

pub fn run(ctx: &Ctx) -> i32 {
    let a = run_cases(ctx, "numeric", ctx.scale(2000, 120_000), ctx.scale(20, 200), |_, r, st| numeric(r, st));
    let b = run_cases(ctx, "onchain", ctx.scale(1500, 60_000), ctx.scale(20, 400), |_, r, st| with_base(|b| onchain(r, st, b)));
    finish(ctx, vec![("numeric".into(), a), ("onchain".into(), b)], Report {
        rule: "One evaluation per quote: a (amount, N, S) triple converted by the client and compared with 256-bit arithmetic, or a quote followed by executing the same stake/unstake on the real program in a pool with those reserves. Distinct by inputs.".into(),
        assumptions: vec!["A quote is requested with exactly the reserves the transaction later sees.".into()],
        require: req(&[("quote:>0", 100_000), ("quote:0", 1000), ("quote:error", 1000), ("chain-stake:ok", 500), ("chain-unstake:ok", 500), ("chain-stake:refused", 50)]),
        min_distinct: 100_000,
    })
}
