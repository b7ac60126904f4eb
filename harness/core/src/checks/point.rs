//! Properties judged on single operations from arbitrary pool states, plus histories.
use super::run::*;
use crate::history::*;
use crate::report::*;
use crate::spec::{self, code, Quote};
use crate::world::*;
use rand::Rng;
use rand_chacha::ChaCha8Rng;
use serde_json::json;
use solana_sdk::pubkey::Pubkey;

fn req(v: &[(&str, u64)]) -> Vec<(String, u64)> {
    v.iter().map(|(k, n)| (k.to_string(), *n)).collect()
}
const ENGINE: &str = "The program runs natively inside LiteSVM's Agave runtime with the real SPL Token program.";

fn base_world(r: &mut ChaCha8Rng, users: usize) -> World {
    let mut init = Init::simple(r.gen(), users);
    init.mix_roles(r);
    init.cooldown = r.gen_range(0..1_000_000);
    with_base(|b| World::new(b, &init))
}

/// Input amounts whose quotient lands on or next to an integer boundary, or
/// near the ends of the representable range.
fn edge_amount(r: &mut ChaCha8Rng, num: u64, den: u64, anchors: &[u64]) -> u64 {
    // result = a * (num+100) / (den+100)
    let (p, q) = (num as u128 + 100, den as u128 + 100);
    match r.gen_range(0..6) {
        0 | 1 => {
            let m = amount(r, anchors) as u128;
            let a = (m.saturating_mul(q) / p) as i128 + r.gen_range(-1..3);
            a.clamp(0, u64::MAX as i128) as u64
        }
        2 => {
            let a = ((u64::MAX as u128).saturating_mul(q) / p) as i128 + r.gen_range(-2..3);
            a.clamp(0, u64::MAX as i128) as u64
        }
        3 => {
            let a = (u128::MAX / p) as i128 + r.gen_range(-2..3);
            a.clamp(0, u64::MAX as i128) as u64
        }
        _ => amount(r, anchors),
    }
}

fn judge_stake(s: &Step, w: &World) -> CaseResult {
    let Op::Stake { u, .. } = &s.op else { return Ok(()) };
    let (pre, post) = (&s.pre, &s.post);
    let f = |m: String| fail(format!("{m} [{:?} vault {} escrow {} supply {}]", s.op, pre.vault, pre.escrow(), pre.supply), &w.log);
    match (&s.pred, s.out.ok) {
        (Ok((e, _)), true) => {
            let m = e.supply - pre.supply;
            let got = post.users[*u].xorca as i128 - pre.users[*u].xorca as i128;
            if got != m as i128 {
                return f(format!("minted {got} xORCA, the quote is {m}"));
            }
            if post.supply != e.supply {
                return f(format!("supply became {}, expected {}", post.supply, e.supply));
            }
            if post.users[*u].orca != e.users[*u].orca || post.vault != e.vault {
                return f(format!("took {} ORCA, vault gained {}", pre.users[*u].orca as i128 - post.users[*u].orca as i128, post.vault as i128 - pre.vault as i128));
            }
            if post.escrow() != pre.escrow() {
                return f("stake changed the escrow".into());
            }
        }
        (Ok((e, _)), false) => return f(format!("stake worth {} xORCA was refused: {:?}", e.supply - pre.supply, s.out.err)),
        (Err(x), true) => return f(format!("stake had to be refused ({x:?}) but succeeded, minting {}", post.users[*u].xorca as i128 - pre.users[*u].xorca as i128)),
        (Err(_), false) => {
            if post.users != pre.users || post.vault != pre.vault || post.supply != pre.supply || post.escrow() != pre.escrow() {
                return f("a refused stake had effects".into());
            }
        }
    }
    Ok(())
}

fn judge_unstake(s: &Step, w: &World) -> CaseResult {
    let Op::Unstake { u, x, i } = &s.op else { return Ok(()) };
    let (pre, post) = (&s.pre, &s.post);
    let f = |m: String| fail(format!("{m} [{:?} vault {} escrow {} supply {}]", s.op, pre.vault, pre.escrow(), pre.supply), &w.log);
    match (&s.pred, s.out.ok) {
        (Ok((e, _)), true) => {
            let owed = e.escrow() - pre.escrow();
            if post.escrow() != e.escrow() {
                return f(format!("escrow grew by {}, the quote is {owed}", post.escrow() as i128 - pre.escrow() as i128));
            }
            if pre.users[*u].xorca as i128 - post.users[*u].xorca as i128 != *x as i128 || post.supply != e.supply {
                return f(format!("burned {} (supply {} -> {})", pre.users[*u].xorca as i128 - post.users[*u].xorca as i128, pre.supply, post.supply));
            }
            if post.vault != pre.vault || post.users[*u].orca != pre.users[*u].orca {
                return f("unstake moved ORCA".into());
            }
            let slot = post.slots.get(&(*u, *i)).cloned().unwrap_or_default();
            let want = e.slots[&(*u, *i)].claim.clone().unwrap();
            match slot.claim {
                None => return f("no claim was recorded".into()),
                Some(c) => {
                    if c.amount != owed || c.unstaker != want.unstaker || c.index != *i || c.bump != want.bump {
                        return f(format!("recorded claim {c:?}, expected {want:?}"));
                    }
                }
            }
        }
        (Ok((e, _)), false) => return f(format!("unstake worth {} ORCA was refused: {:?}", e.escrow() - pre.escrow(), s.out.err)),
        (Err(x), true) => {
            if !only(x, &[code::CD_OVERFLOW]) {
                return f(format!("unstake had to be refused ({x:?}) but succeeded"));
            }
        }
        (Err(_), false) => {
            if post.users != pre.users || post.vault != pre.vault || post.supply != pre.supply || post.escrow() != pre.escrow() || post.slots != pre.slots {
                return f("a refused unstake had effects".into());
            }
        }
    }
    Ok(())
}

pub fn c03(ctx: &Ctx) -> i32 {
    let a = run_cases(ctx, "pools", ctx.scale(9000, 250_000), ctx.scale(40, 500), |_, r, st| {
        let mut w = base_world(r, 1);
        for _ in 0..40 {
            let (v, s, e) = gen_pool(r);
            let n = v.saturating_sub(e);
            let a = edge_amount(r, s, n, &[n, s, v]);
            let orca = if r.gen_bool(0.9) { a.saturating_add(if r.gen_bool(0.5) { 0 } else { amount(r, &[]) }) } else { amount(r, &[a]) };
            let xorca = amount_upto(r, s, &[]);
            set_pool(&mut w, v, s, e, orca, xorca);
            w.log.truncate(1);
            w.log.push(format!("vault={v} supply={s} escrow={e} user orca={orca} xorca={xorca}"));
            let t = w.apply(&Op::Stake { u: 0, a });
            st.eval(Some((v, s, e, a, orca, xorca)));
            st.count(if t.out.ok { "accepted" } else { "refused" });
            match &t.pred {
                Err(f) if only(f, &[code::SMALL_STAKE]) => st.count("dust-refused"),
                Err(f) if only(f, &[code::ARITH]) => st.count("overflow-refused"),
                Ok(_) if n == 0 || s == 0 => st.count("one-to-one"),
                _ => {}
            }
            st.sample(|| json!({"vault": v, "supply": s, "escrow": e, "stake": a, "minted": t.post.supply.wrapping_sub(t.pre.supply), "ok": t.out.ok}));
            judge_stake(&t, &w)?;
        }
        Ok(())
    });
    let mut p = Profile::base();
    p.stake = 45;
    p.multi = 0;
    let b = histories(ctx, "hist", &Plan { profile: p, hostile: 0.0, cases: ctx.scale(2500, 80_000), secs: ctx.scale(30, 300) },
        |o, _: &mut (), st| {
            if matches!(o.s.op, Op::Stake { .. }) {
                st.eval(Some(sig(o.s)));
                return judge_stake(o.s, o.w);
            }
            Ok(())
        }, no_end);
    finish(ctx, vec![("pools".into(), a), ("hist".into(), b)], Report {
        rule: "One evaluation per stake: outcome, xORCA minted, ORCA taken, vault and supply against exact 256-bit arithmetic. Pools are arbitrary (vault, supply, escrow) triples with boundary amounts, plus stakes inside random histories; distinct by all inputs.".into(),
        assumptions: vec![ENGINE.into(), "Pool states of the first phase are written directly into the accounts, also unreachable ones.".into()],
        require: req(&[("accepted", 20_000), ("refused", 10_000), ("dust-refused", 500), ("overflow-refused", 300), ("one-to-one", 1000)]),
        min_distinct: 50_000,
    })
}

pub fn c04(ctx: &Ctx) -> i32 {
    let a = run_cases(ctx, "pools", ctx.scale(6000, 200_000), ctx.scale(40, 500), |_, r, st| {
        let mut w = base_world(r, 1);
        for k in 0..40u16 {
            let (v, mut s, e) = gen_pool(r);
            let n = v.saturating_sub(e);
            let mut x = edge_amount(r, n, s, &[n, s, v]);
            if r.gen_bool(0.85) {
                // make the holding possible
                if x > s {
                    if r.gen_bool(0.5) { s = x } else { x = if s > 0 { x % s } else { 0 } }
                }
            }
            let xorca = if r.gen_bool(0.9) { x.min(s).saturating_add(amount_upto(r, s - x.min(s), &[])) } else { amount_upto(r, s, &[x]) };
            set_pool(&mut w, v, s, e, amount(r, &[]), xorca);
            w.log.truncate(1);
            w.log.push(format!("vault={v} supply={s} escrow={e} user xorca={xorca}"));
            // fresh index; the address is cleared again afterwards
            let i = if r.gen_bool(0.2) { r.gen() } else { (k % 256) as u8 };
            if let Some(c) = w.view().slots.get(&(0, i)) {
                if c.claim.is_some() {
                    w.chain.put(spec::pending(&w.users[0].key, i), crate::engine::Acct { lamports: 0, owner: spec::system_program(), data: vec![] });
                }
            }
            let t = w.apply(&Op::Unstake { u: 0, x, i });
            st.eval(Some((v, s, e, x, xorca, i)));
            st.count(if t.out.ok { "accepted" } else { "refused" });
            match &t.pred {
                Err(f) if only(f, &[code::SMALL_UNSTAKE]) => st.count("dust-refused"),
                Err(f) if only(f, &[code::ARITH]) => st.count("overflow-refused"),
                _ => {}
            }
            st.sample(|| json!({"vault": v, "supply": s, "escrow": e, "unstake": x, "owed": t.post.escrow().wrapping_sub(t.pre.escrow()), "ok": t.out.ok}));
            judge_unstake(&t, &w)?;
        }
        Ok(())
    });
    let mut p = Profile::base();
    p.unstake = 45;
    p.multi = 0;
    let b = histories(ctx, "hist", &Plan { profile: p, hostile: 0.0, cases: ctx.scale(2500, 80_000), secs: ctx.scale(30, 300) },
        |o, _: &mut (), st| {
            if matches!(o.s.op, Op::Unstake { .. }) {
                st.eval(Some(sig(o.s)));
                return judge_unstake(o.s, o.w);
            }
            Ok(())
        }, no_end);
    finish(ctx, vec![("pools".into(), a), ("hist".into(), b)], Report {
        rule: "One evaluation per unstake: outcome, xORCA burned, escrow increase, stored claim against exact 256-bit arithmetic. Arbitrary pools with boundary amounts, plus unstakes inside random histories; distinct by all inputs.".into(),
        assumptions: vec![ENGINE.into(), "Pool states of the first phase are written directly into the accounts, also unreachable ones.".into()],
        require: req(&[("accepted", 20_000), ("refused", 10_000), ("dust-refused", 500), ("overflow-refused", 300)]),
        min_distinct: 50_000,
    })
}

/// Cool-down: fixed at unstake time, enforced to the second.
pub fn c06(ctx: &Ctx) -> i32 {
    let a = run_cases(ctx, "clock", ctx.scale(6000, 200_000), ctx.scale(40, 500), |case, r, st| {
        let mut init = Init::simple(r.gen(), 2);
        init.mix_roles(r);
        init.xorca_each = vec![1 << 40, 1 << 40];
        init.vault = (1 << 41) + r.gen_range(0..1u64 << 41);
        init.cooldown = cooldown(r);
        init.now = match r.gen_range(0..8) {
            0 => -(r.gen_range(0..1i64 << 40)),
            1 => r.gen_range(-3..4),
            2 => u32::MAX as i64 + r.gen_range(-2..3),
            3 => i32::MAX as i64 + r.gen_range(-2..3),
            4 => i64::MAX - r.gen_range(0..100_000),
            5 => i64::MIN + r.gen_range(0..100_000),
            _ => r.gen_range(1_600_000_000..2_200_000_000),
        };
        let mut w = with_base(|b| World::new(b, &init));
        let auth = init.authority;
        // expected maturity per slot, recorded by the monitor itself
        let mut due: std::collections::BTreeMap<(usize, u8), i128> = Default::default();
        for _ in 0..24 {
            let v = w.view();
            let cd = v.state.as_ref().unwrap().cooldown;
            match r.gen_range(0..10) {
                0 | 1 => {
                    let val = if r.gen_bool(0.3) {
                        // around the point where now + cool-down overflows
                        (i64::MAX as i128 - v.now as i128 + r.gen_range(-2..3)).clamp(0, i64::MAX as i128) as i64
                    } else {
                        cooldown(r)
                    };
                    w.apply(&Op::SetCd { by: auth, v: val });
                }
                2 | 3 | 4 => {
                    let (u, i) = (r.gen_range(0..2), index(r));
                    if due.contains_key(&(u, i)) {
                        continue;
                    }
                    let s = w.apply(&Op::Unstake { u, x: r.gen_range(1000..1_000_000), i });
                    let t = v.now as i128 + cd as i128;
                    st.eval(Some(("unstake", v.now, cd)));
                    if t > i64::MAX as i128 {
                        st.count("overflow");
                        if s.out.ok {
                            return fail(format!("unstake at {} with cool-down {cd} cannot mature within i64 but succeeded", v.now), &w.log);
                        }
                        continue;
                    }
                    if !s.out.ok {
                        return fail(format!("unstake at {} with cool-down {cd} refused: {:?}", v.now, s.out.err), &w.log);
                    }
                    let c = s.post.slots[&(u, i)].claim.clone();
                    if c.as_ref().map(|c| c.ts as i128) != Some(t) {
                        return fail(format!("claim matures at {:?}, expected {} + {cd}", c.map(|c| c.ts), v.now), &w.log);
                    }
                    due.insert((u, i), t);
                }
                5 | 6 => {
                    if due.is_empty() {
                        continue;
                    }
                    let k = r.gen_range(0..due.len());
                    let t = *due.values().nth(k).unwrap();
                    let t = match r.gen_range(0..8) {
                        0 => t,
                        1 | 2 => t - 1,
                        3 => t + 1,
                        4 => t - r.gen_range(0..100_000),
                        5 => t + r.gen_range(0..100_000),
                        6 => {
                            let d = dictionary();
                            t - (d[r.gen_range(0..d.len())] as i128) + r.gen_range(-1..2)
                        }
                        _ => v.now as i128 + r.gen_range(0..1000),
                    };
                    // clocks may step back between slots as well
                    if t >= i64::MIN as i128 && t <= i64::MAX as i128 {
                        w.apply(&Op::Warp { t: t as i64 });
                    }
                }
                7 if r.gen_bool(0.3) => {
                    w.apply(&Op::Warp { t: match r.gen_range(0..4) { 0 => 0, 1 => -1, 2 => i64::MAX, _ => i64::MIN } });
                }
                _ => {
                    // try every outstanding claim at this very second
                    let keys: Vec<_> = due.keys().cloned().collect();
                    for (u, i) in keys {
                        let t = due[&(u, i)];
                        let now = w.chain.now as i128;
                        let s = w.apply(&Op::Withdraw { u, i });
                        st.eval(Some(("withdraw", now as i64, t as i64)));
                        st.count(if t == now { "exact" } else if t == now + 1 { "one-early" } else if t > now { "early" } else { "late" });
                        if s.out.ok != (now >= t) {
                            return fail(format!("claim due at {t}, clock {now}: withdraw {}", if s.out.ok { "succeeded" } else { "was refused" }), &w.log);
                        }
                        st.sample(|| json!({"due": t as i64, "clock": now as i64, "paid": s.out.ok, "case": case}));
                        if s.out.ok {
                            due.remove(&(u, i));
                        }
                    }
                }
            }
        }
        Ok(())
    });
    let mut p = Profile::base();
    p.warp = 22;
    p.set_cd = 10;
    p.withdraw = 30;
    p.multi = 8;
    p.multi_kinds = &["unstake", "withdraw", "set_cooldown"];
    #[derive(Default)]
    struct M {
        due: std::collections::BTreeMap<solana_sdk::pubkey::Pubkey, i64>,
    }
    let b = histories(ctx, "hist", &Plan { profile: p, hostile: 0.0, cases: ctx.scale(2500, 80_000), secs: ctx.scale(30, 300) },
        |o, m: &mut M, st| {
            let cp = cmap(o.claims_pre);
            for (k, c) in &cp {
                m.due.entry(*k).or_insert(c.ts);
            }
            let cn = cmap(o.claims_post);
            if let Op::Multi(_) = o.s.op {
                match (&o.s.pred, o.s.out.ok) {
                    (Err(f), true) if only(f, &[code::COOLDOWN, code::CD_OVERFLOW]) => return o.fail("a sequence breaking the cool-down succeeded"),
                    (Ok((e, _)), true) => {
                        for (k, s) in &o.s.post.slots {
                            let want = e.slots.get(k).and_then(|s| s.claim.as_ref()).map(|c| c.ts);
                            if want != s.claim.as_ref().map(|c| c.ts) {
                                return o.fail(format!("claim {k:?} matures at {:?}, expected {want:?}", s.claim.as_ref().map(|c| c.ts)));
                            }
                        }
                    }
                    _ => {}
                }
                m.due = cn.iter().map(|(k, c)| (*k, c.ts)).collect();
                return Ok(());
            }
            match &o.s.op {
                Op::Unstake { u, i, .. } if o.s.out.ok => {
                    let k = spec::pending(&o.w.users[*u].key, *i);
                    let want = o.s.pre.now.checked_add(o.s.pre.state.as_ref().unwrap().cooldown);
                    st.eval(Some(sig(o.s)));
                    if want.is_none() || cn.get(&k).map(|c| c.ts) != want {
                        return o.fail(format!("claim matures at {:?}, expected {want:?}", cn.get(&k).map(|c| c.ts)));
                    }
                    m.due.insert(k, want.unwrap());
                }
                Op::Withdraw { u, i } => {
                    let k = spec::pending(&o.w.users[*u].key, *i);
                    if let Some(due) = m.due.get(&k).copied().filter(|_| cp.contains_key(&k)) {
                        st.eval(Some(sig(o.s)));
                        if o.s.out.ok && o.s.pre.now < due {
                            return o.fail(format!("paid at {} although due at {due}", o.s.pre.now));
                        }
                        if !o.s.out.ok && o.s.pred.is_ok() && o.s.pre.now >= due {
                            return o.fail(format!("refused at {} although due at {due}", o.s.pre.now));
                        }
                    }
                    if o.s.out.ok {
                        m.due.remove(&k);
                    }
                }
                _ => {}
            }
            for (k, c) in &cn {
                if m.due.get(k).is_some_and(|d| *d != c.ts) {
                    return o.fail(format!("maturity of claim {k} moved to {}", c.ts));
                }
            }
            Ok(())
        }, no_end);
    finish(ctx, vec![("clock".into(), a), ("hist".into(), b)], Report {
        rule: "One evaluation per unstake (stored maturity = clock + cool-down, or refusal on overflow) and per withdrawal attempt (allowed iff clock >= maturity recorded by the monitor), with cool-down changes in between and clocks over the whole i64 range including steps back. Distinct by (operation, clock, cool-down/maturity).".into(),
        assumptions: vec![ENGINE.into(), "The clock is the Clock sysvar set by the harness.".into()],
        require: req(&[("exact", 500), ("one-early", 500), ("late", 500), ("early", 500), ("overflow", 200)]),
        min_distinct: 10_000,
    })
}

/// Inflation / donation attacks do not pay.
pub fn c08(ctx: &Ctx) -> i32 {
    let a = run_cases(ctx, "attacks", ctx.scale(12_000, 400_000), ctx.scale(50, 600), |case, r, st| {
        // 0: attacker, 1..: victims, last: an honest holder
        let mut init = Init::simple(r.gen(), 5);
        init.mix_roles(r);
        init.cooldown = 0;
        let big = u64::MAX / 32;
        init.orca_each = vec![big; 5];
        let fresh = case % 2 == 0;
        if !fresh {
            let s = match r.gen_range(0..3) { 0 => r.gen_range(1..10), 1 => r.gen_range(1..100_000), _ => amount_upto(r, big, &[]).max(1) };
            init.xorca_each = vec![0, 0, 0, 0, s];
            init.vault = s;
        }
        let mut w = with_base(|b| World::new(b, &init));
        let small = |r: &mut ChaCha8Rng| match r.gen_range(0..6) {
            0 => r.gen_range(1..12),
            1 => r.gen_range(1..400),
            2 => r.gen_range(1..1_000_000),
            3 => r.gen_range(1..10u64.pow(13)),
            4 => 10u64.pow(r.gen_range(0..14)),
            _ => amount_upto(r, big / 4, &[]).max(1),
        };
        let start = w.view().users[0].orca;
        let mut donated = 0u64;
        // set-up by the attacker
        for _ in 0..r.gen_range(1..4) {
            let v = w.view();
            if r.gen_bool(0.5) || v.users[0].xorca == 0 {
                let a = small(r).min(v.users[0].orca / 4);
                w.apply(&Op::Stake { u: 0, a });
            } else {
                let a = small(r).min(v.users[0].orca / 4);
                donated += a;
                w.apply(&Op::Donate { u: 0, a });
            }
        }
        let victims = if r.gen_bool(0.2) { r.gen_range(4..=40usize) } else { r.gen_range(1..4) };
        let mut refused = 0;
        for d in 0..victims {
            let k = d % 3;
            let v = w.view();
            let n = v.free().unwrap_or(0);
            let price = (n as u128 + 100) / (v.supply as u128 + 100);
            let a = match r.gen_range(0..5) {
                // amounts that lose the most to rounding
                0..=2 => {
                    let m = r.gen_range(1..4u128);
                    ((m + 1) * (n as u128 + 100) / (v.supply as u128 + 100)).saturating_sub(r.gen_range(0..3)).min(big as u128 / 4) as u64
                }
                3 => price.min(big as u128 / 4) as u64,
                _ => small(r),
            };
            let a = a.min(v.users[1 + k].orca / 16);
            let before = v.users[1 + k].clone();
            let s = w.apply(&Op::Stake { u: 1 + k, a });
            if s.out.ok {
                let got = s.post.users[1 + k].xorca - before.xorca;
                if got == 0 && a > 0 {
                    return fail(format!("a deposit of {a} ORCA was accepted for no xORCA"), &w.log);
                }
                st.count("victim-deposits");
                // the depositor loses less than the price of one unit of xORCA (plus rounding)
                let p = &s.post;
                if let (Some(n1), true) = (p.free(), a > 0) {
                    let worth = match spec::to_orca(got, n1, p.supply) { Quote::Out(q) => q, _ => 0 };
                    let unit = (n1 as u128 + 100).div_ceil(p.supply as u128 + 100);
                    if (worth as u128) + unit + 1 < a as u128 {
                        return fail(format!("a deposit of {a} ORCA is worth {worth} right afterwards (unit price {unit})"), &w.log);
                    }
                }
            } else {
                refused += 1;
            }
            if r.gen_bool(0.3) {
                let a = small(r).min(w.view().users[0].orca / 4);
                donated += a;
                w.apply(&Op::Donate { u: 0, a });
            }
        }
        // the attacker leaves
        let v = w.view();
        let x = v.users[0].xorca;
        if x > 0 {
            let s = w.apply(&Op::Unstake { u: 0, x, i: 7 });
            if s.out.ok {
                w.apply(&Op::Withdraw { u: 0, i: 7 });
                st.count("attacks-completed");
            }
        }
        let end = w.view().users[0].orca;
        st.eval(Some((case, donated, start.wrapping_sub(end), refused)));
        st.count(if donated > 0 { "with-donation" } else { "no-donation" });
        st.sample(|| json!({"donated": donated, "victims": victims, "refused": refused, "attacker_profit": end as i64 - start as i64}));
        // The last base unit of each deposit may round in favour of the holders; a
        // price that makes the victims lose more costs more than it brings.
        if end > start.saturating_add(victims as u64) {
            return fail(format!("the attacker ends with {} ORCA more than it started with ({victims} deposits)", end - start), &w.log);
        }
        Ok(())
    });
    finish(ctx, vec![("attacks".into(), a)], Report {
        rule: "One evaluation per complete attack on a pool at par: the attacker stakes and donates around one to forty victim deposits chosen to lose the most to rounding, then exits; judged on the attacker's final ORCA balance (no gain beyond one base unit per deposit) and on what each deposit is worth right after it. Distinct by (case, amounts).".into(),
        assumptions: vec![ENGINE.into(), "Pools start empty or at par (ORCA backing = supply); the attacker's own later passive income from other users' rounding in an already inflated pool is out of scope.".into()],
        require: req(&[("attacks-completed", 5000), ("with-donation", 3000), ("victim-deposits", 5000)]),
        min_distinct: 5000,
    })
}

/// Documented error codes for single faults.
pub fn c24(ctx: &Ctx) -> i32 {
    let mut p = Profile::base();
    p.multi = 0;
    p.set_cd = 10;
    p.set_auth = 5;
    let a = histories(ctx, "hist", &Plan { profile: p, hostile: 0.0, cases: ctx.scale(3500, 100_000), secs: ctx.scale(35, 400) },
        |o, _: &mut (), st| {
            if let Err(f) = &o.s.pred {
                let all_same = !f.is_empty() && f.iter().all(|x| *x == f[0]);
                if let (true, Some(c)) = (all_same, f.first().copied().flatten()) {
                    st.eval(Some((sig(o.s), c)));
                    st.count(&format!("code{c}"));
                    if !o.s.out.ok && o.s.out.code != Some(c) {
                        return o.fail(format!("refused with {:?}, documented code is {c}", o.s.out.err));
                    }
                    if o.s.out.ok {
                        return o.fail(format!("must be refused with {c} but succeeded"));
                    }
                    st.sample(|| json!({"op": format!("{:?}", o.s.op), "code": c}));
                }
            }
            Ok(())
        }, no_end);
    let b = run_cases(ctx, "pools", ctx.scale(4000, 100_000), ctx.scale(30, 300), |_, r, st| {
        let mut w = base_world(r, 1);
        for k in 0..24u8 {
            let (v, s, e) = gen_pool(r);
            let n = v.saturating_sub(e);
            let stake = r.gen_bool(0.5);
            let a = if stake { edge_amount(r, s, n, &[n, s]) } else { edge_amount(r, n, s, &[n, s]) };
            let hold = if r.gen_bool(0.85) { a } else { a.saturating_sub(1) };
            set_pool(&mut w, v, s.max(if stake { 0 } else { hold }), e, if stake { hold } else { 0 }, if stake { 0 } else { hold });
            w.log.truncate(1);
            w.log.push(format!("vault={v} supply={s} escrow={e} holding={hold}"));
            let op = if stake { Op::Stake { u: 0, a } } else { Op::Unstake { u: 0, x: a, i: k } };
            let t = w.apply(&op);
            // insufficient funds is a program code for stake too
            if let Err(f) = &t.pred {
                let mut f = f.clone();
                if stake && hold < a {
                    f = f.into_iter().filter(|x| x.is_some()).collect();
                    f.push(Some(code::FUNDS));
                    if v.checked_add(a).is_none() || t.pre.supply.checked_add(a).is_none() {
                        f.push(None);
                    }
                }
                if f.len() == 1 {
                    if let Some(c) = f[0] {
                        st.eval(Some((v, s, e, a, c)));
                        st.count(&format!("code{c}"));
                        if t.out.ok || t.out.code != Some(c) {
                            return fail(format!("{op:?}: got {:?}, documented code is {c}", t.out.err), &w.log);
                        }
                    }
                }
            }
        }
        Ok(())
    });
    // single faults that need crafted accounts or data
    let c = run_cases(ctx, "crafted", ctx.scale(600, 20_000), ctx.scale(30, 200), |_, r, st| {
        let mut init = Init::simple(r.gen(), 2);
        init.xorca_each = vec![1_000_000, 1_000_000];
        init.vault = 3_000_000;
        let mut w = with_base(|b| World::new(b, &init));
        let g = crate::hostile::add_rogues(&mut w, r.gen());
        let (i, j) = (index(r), index(r));
        w.inject_claim(0, i, 1000, init.now - 1);
        let mut st0 = w.view().state.unwrap();
        st0.escrow = 1000;
        let lam = w.chain.rent(2048);
        w.chain.put(spec::state(), crate::engine::Acct { lamports: lam, owner: spec::program_id(), data: spec::encode_state(&st0) });
        let u = w.users[0].clone();
        let free = if i == j { j.wrapping_add(1) } else { j };
        let honest = [
            spec::ix_stake(&u.key, &u.orca, &u.xorca, 1000),
            spec::ix_unstake(&u.key, &u.xorca, 1000, free),
            spec::ix_withdraw(&u.key, &u.orca, i),
            spec::ix_set_cooldown(&init.authority, 5),
            spec::ix_set_authority(&init.authority, &u.key),
        ];
        let run = |label: String, ix: solana_sdk::instruction::Instruction, want: u32, st: &mut Stats| -> CaseResult {
            let mut c = w.chain.clone();
            let out = c.exec(&[ix]);
            st.eval(Some((label.clone(), want, i, j)));
            st.count(&format!("code{want}"));
            if out.ok || out.code != Some(want) {
                return fail(format!("{label}: got {:?}, documented code is {want}", out.err), &w.log);
            }
            Ok(())
        };
        let k = r.gen_range(0..honest.len());
        let ix = honest[k].clone();
        // too few accounts
        let mut t = ix.clone();
        t.accounts.truncate(r.gen_range(0..t.accounts.len()));
        run(format!("ix{k} with {} accounts", t.accounts.len()), t, code::NOT_ENOUGH, st)?;
        // missing signature
        let mut t = ix.clone();
        t.accounts[0].is_signer = false;
        run(format!("ix{k} unsigned"), t, code::ROLE, st)?;
        // read-only where writable is required
        let wr: Vec<usize> = (0..ix.accounts.len()).filter(|p| ix.accounts[*p].is_writable).collect();
        let p = wr[r.gen_range(0..wr.len())];
        let mut t = ix.clone();
        t.accounts[p].is_writable = false;
        run(format!("ix{k} account {p} read-only"), t, code::ROLE, st)?;
        // unknown or short data
        let mut t = ix.clone();
        t.data[0] = r.gen_range(5..=255);
        run(format!("discriminator {}", t.data[0]), t, code::UNKNOWN_IX, st)?;
        let mut t = ix.clone();
        let n = r.gen_range(0..t.data.len());
        t.data.truncate(n);
        run(format!("ix{k} data cut to {n}"), t, code::UNKNOWN_IX, st)?;
        // fixed addresses
        let fixed: &[&[(usize, u32)]] = &[
            &[(7, code::ADDRESS), (1, code::SEEDS)],
            &[(7, code::ADDRESS), (8, code::ADDRESS), (6, code::SEEDS)],
            &[(6, code::ADDRESS), (7, code::ADDRESS), (4, code::SEEDS)],
            &[],
            &[],
        ];
        if !fixed[k].is_empty() {
            let (p, want) = fixed[k][r.gen_range(0..fixed[k].len())];
            let mut t = ix.clone();
            t.accounts[p].pubkey = if want == code::SEEDS { g.state_orca } else { g.empty };
            run(format!("ix{k} account {p} substituted"), t, want, st)?;
        }
        // token accounts that are not the caller's account of the mint
        let at: Vec<usize> = (0..ix.accounts.len()).filter(|p| ix.accounts[*p].pubkey == u.orca || ix.accounts[*p].pubkey == u.xorca).collect();
        if !at.is_empty() {
            let p = at[r.gen_range(0..at.len())];
            let orca = ix.accounts[p].pubkey == u.orca;
            let v = &w.users[1];
            let mut t = ix.clone();
            let mut c = w.chain.clone();
            let (what, to, want) = match r.gen_range(0..4) {
                0 => ("of the other mint", if orca { u.xorca } else { u.orca }, code::DATA),
                1 => ("of another holder", if orca { v.orca } else { v.xorca }, code::DATA),
                n => {
                    let k = derive_key("c24-token", r.gen(), n);
                    let mint = if orca { spec::orca_mint() } else { spec::xorca_mint() };
                    let mut a = token_acct(&mint, &u.key, 1 << 40);
                    let (what, want) = if n == 2 {
                        a.owner = [spec::program_id(), spec::system_program(), u.key][r.gen_range(0..3)];
                        ("of another program", code::OWNER)
                    } else {
                        a.data.truncate([0, 1, 82, 100, 164][r.gen_range(0..5)]);
                        ("too short", code::DATA)
                    };
                    c.put(k, a);
                    (what, k, want)
                }
            };
            t.accounts[p].pubkey = to;
            let out = c.exec(&[t]);
            st.eval(Some((format!("token {what}"), want, k as u8, p as u8)));
            st.count(&format!("code{want}"));
            st.count(&format!("token account {what}"));
            if out.ok || out.code != Some(want) {
                return fail(format!("ix{k} account {p}, a token account {what}: got {:?}, documented code is {want}", out.err), &w.log);
            }
        }
        // state or claim accounts that are not what they should be
        {
            let mut c = w.chain.clone();
            let (key, claim) = match ix.accounts.iter().find(|m| m.pubkey == spec::pending(&u.key, i)) {
                Some(m) if r.gen_bool(0.5) => (m.pubkey, true),
                _ => (spec::state(), false),
            };
            let rec = if claim { "claim" } else { "state" };
            let mut a = c.get(&key).unwrap();
            let (what, want) = match r.gen_range(0..3) {
                0 => {
                    a.owner = [spec::token_program(), spec::system_program(), u.key][r.gen_range(0..3)];
                    ("of another program", code::OWNER)
                }
                1 => {
                    a.data[0] = a.data[0].wrapping_add(r.gen_range(1..=255));
                    ("of another kind", code::DATA)
                }
                _ => {
                    let n = a.data.len();
                    a.data.truncate([1, 8, 24, n / 2, n - 1][r.gen_range(0..5)]);
                    ("too short", code::DATA)
                }
            };
            c.put(key, a);
            let out = c.exec(&[ix.clone()]);
            st.eval(Some((format!("{rec} {what}"), want, k as u8, i)));
            st.count(&format!("code{want}"));
            st.count(&format!("{rec} {what}"));
            if out.ok || out.code != Some(want) {
                return fail(format!("ix{k}, {rec} {what}: got {:?}, documented code is {want}", out.err), &w.log);
            }
        }
        // another user's claim
        if k == 2 {
            let mut t = ix.clone();
            let p = t.accounts.iter().position(|m| m.pubkey == spec::pending(&u.key, i)).unwrap();
            let mut w2 = w.clone();
            w2.inject_claim(1, i, 1000, init.now - 1);
            t.accounts[p].pubkey = spec::pending(&w.users[1].key, i);
            let out = w2.chain.exec(&[t]);
            st.eval(Some((i, "another user's claim")));
            st.count("code6005");
            if out.ok || out.code != Some(code::SEEDS) {
                return fail(format!("another user's claim: got {:?}, documented code is {}", out.err, code::SEEDS), &w.log);
            }
        }
        // claim already there / not there
        run("unstake into a live claim".into(), spec::ix_unstake(&u.key, &u.xorca, 1000, i), code::OWNER, st)?;
        run("withdraw without a claim".into(), spec::ix_withdraw(&u.key, &u.orca, free), code::OWNER, st)?;
        // not the update authority
        run("set by a stranger".into(), spec::ix_set_cooldown(&u.key, 5), code::ADDRESS, st)?;
        run("set by a stranger".into(), spec::ix_set_authority(&u.key, &u.key), code::ADDRESS, st)?;
        for cd in [-1, i64::MIN, i64::MIN + 1, i64::MIN / 2, i32::MIN as i64, i32::MIN as i64 - 1, -(1 << 32), -1 - (r.gen::<u64>() >> r.gen_range(1..64)) as i64] {
            run(format!("negative cool-down {cd}"), spec::ix_set_cooldown(&init.authority, cd), code::BAD_COOLDOWN, st)?;
        }
        // pool below its escrow, claim above the escrow
        let mut c = w.chain.clone();
        let mut s = st0.clone();
        s.escrow = 999;
        c.put(spec::state(), crate::engine::Acct { lamports: lam, owner: spec::program_id(), data: spec::encode_state(&s) });
        let out = c.exec(&[spec::ix_withdraw(&u.key, &u.orca, i)]);
        st.count(&format!("code{}", code::ESCROW));
        if out.code != Some(code::ESCROW) {
            return fail(format!("claim above escrow: {:?}", out.err), &w.log);
        }
        // initialization
        let mut init2 = Init::simple(r.gen(), 1);
        init2.users = 0;
        init2.orca_each.clear();
        init2.xorca_each.clear();
        let mut run2 = |label: &str, ix: solana_sdk::instruction::Instruction, c: &mut crate::engine::Chain, want: u32| -> CaseResult {
            let out = c.exec(&[ix]);
            st.eval(Some((label.to_string(), want, i)));
            st.count(&format!("code{want}"));
            if out.ok || out.code != Some(want) {
                return fail(format!("{label}: got {:?}, documented code is {want}", out.err), &[]);
            }
            Ok(())
        };
        let mut c = super::init::blank(r, 0, Some(&spec::state()), 6, None, 6);
        c.exec(&[spec::ix_initialize(&spec::deployer(), &init.authority, 5)]);
        run2("initialize twice", spec::ix_initialize(&spec::deployer(), &init.authority, 5), &mut c, code::ALREADY_INIT)?;
        let mut c = super::init::blank(r, 0, Some(&spec::state()), 6, None, 6);
        run2("initialize by a stranger", spec::ix_initialize(&u.key, &init.authority, 5), &mut c, code::DEPLOYER)?;
        let mut c = super::init::blank(r, 0, Some(&spec::state()), 6, None, 6);
        for cd in [-1, -5, i64::MIN, i64::MIN + 1, i32::MIN as i64, -(1 << 32), -1 - (r.gen::<u64>() >> r.gen_range(1..64)) as i64] {
            run2(&format!("initialize with the cool-down {cd}"), spec::ix_initialize(&spec::deployer(), &init.authority, cd), &mut c, code::BAD_COOLDOWN)?;
        }
        let mut c = super::init::blank(r, 1, Some(&spec::state()), 6, None, 6);
        run2("initialize with xORCA in circulation", spec::ix_initialize(&spec::deployer(), &init.authority, 5), &mut c, code::DATA)?;
        let (other, d) = (Pubkey::new_from_array(r.gen()), 6u8.wrapping_add(r.gen_range(1..=255)));
        let good = spec::ix_initialize(&spec::deployer(), &init.authority, 5);
        let kind = r.gen_range(0..5);
        let (label, mut c, want) = match kind {
            0 => ("another mint authority", super::init::blank(r, 0, Some(&other), 6, None, 6), code::ADDRESS),
            1 => ("a freeze authority", super::init::blank(r, 0, Some(&spec::state()), 6, Some(&other), 6), code::DATA),
            2 => ("other xORCA decimals", super::init::blank(r, 0, Some(&spec::state()), d, None, 6), code::DATA),
            3 => ("other ORCA decimals", super::init::blank(r, 0, Some(&spec::state()), 6, None, d), code::DATA),
            _ => ("the authority not signing", super::init::blank(r, 0, Some(&spec::state()), 6, None, 6), code::ROLE),
        };
        let mut t = good.clone();
        t.accounts[1].is_signer = kind != 4;
        run2(label, t, &mut c, want)?;
        let p = r.gen_range(6..9);
        let mut c = super::init::blank(r, 0, Some(&spec::state()), 6, None, 6);
        let mut t = good.clone();
        t.accounts[p].pubkey = other;
        run2("initialize with another program", t, &mut c, code::ADDRESS)?;
        Ok(())
    });
    finish(ctx, vec![("hist".into(), a), ("pools".into(), b), ("crafted".into(), c)], Report {
        rule: "One evaluation per operation with exactly one kind of fault according to the model: the custom error number returned. Distinct by (operation, numbers, code).".into(),
        assumptions: vec![ENGINE.into(), "Operations with several simultaneous faults are not judged: any of their codes is acceptable.".into()],
        require: req(&[("code6000", 500), ("code6002", 500), ("code6003", 300), ("code6004", 300), ("code6005", 100), ("code6006", 300), ("code6007", 500), ("code6008", 300), ("code6009", 300),
            ("code6010", 300), ("code6011", 300), ("code6013", 300), ("code6014", 300), ("code6015", 300), ("code6016", 300), ("code6017", 20), ("code6018", 300), ("code6019", 300)]),
        min_distinct: 5000,
    })
}
