//! Properties judged on whole histories of transactions.
use super::run::*;
use crate::history::*;
use crate::hostile::signers_of;
use crate::report::*;
use crate::spec::{self, code, cmp_rate};
use crate::world::*;
use rand::seq::SliceRandom;
use rand::Rng;
use serde_json::json;
use solana_sdk::pubkey::Pubkey;
use std::cmp::Ordering;
use std::collections::BTreeMap;

fn req(v: &[(&str, u64)]) -> Vec<(String, u64)> {
    v.iter().map(|(k, n)| (k.to_string(), *n)).collect()
}
const ASSUME_ENGINE: &str = "The program runs natively inside LiteSVM's Agave runtime; SPL Token, ATA and System are the real programs; syscalls are delegated to the runtime.";

fn pool_sample(o: &Obs) -> serde_json::Value {
    json!({"op": format!("{:?}", o.s.op), "ok": o.s.out.ok, "vault": o.s.post.vault, "escrow": o.s.post.escrow(),
           "supply": o.s.post.supply, "claims": o.claims_post.len()})
}

/// Escrow equals the sum of outstanding claims.
pub fn c01(ctx: &Ctx) -> i32 {
    let judge = |o: &Obs, _: &mut (), st: &mut Stats| {
        let Some(s) = &o.s.post.state else { return o.fail("pool state disappeared") };
        let total = sum(o.claims_post);
        let nt = o.s.out.ok && (total > 0 || o.s.pre.escrow() > 0);
        st.eval(nt.then(|| sig(o.s)));
        st.sample(|| pool_sample(o));
        if s.escrow as u128 != total {
            return o.fail(format!(
                "escrow is {} but the {} outstanding claims total {total}",
                s.escrow,
                o.claims_post.len()
            ));
        }
        Ok(())
    };
    let mut p = Profile::base();
    p.multi_kinds = &["stake", "unstake", "withdraw", "donate", "dust", "set_cooldown", "unstake", "withdraw"];
    p.multi = 14;
    let a = histories(ctx, "mixed", &Plan { profile: p.clone(), hostile: 0.0, cases: ctx.scale(4000, 120_000), secs: ctx.scale(40, 500) }, judge, no_end);
    let b = histories(ctx, "hostile", &Plan { profile: p.clone(), hostile: 0.35, cases: ctx.scale(2500, 80_000), secs: ctx.scale(25, 400) }, judge, no_end);
    let mut q = Profile::base();
    q.few_indices = false;
    q.unstake = 60;
    q.withdraw = 25;
    q.steps = 200;
    let c = histories(ctx, "many-claims", &Plan { profile: q, hostile: 0.0, cases: ctx.scale(150, 5000), secs: ctx.scale(20, 200) }, judge, no_end);
    finish(ctx, vec![("mixed".into(), a), ("hostile".into(), b), ("many-claims".into(), c)], Report {
        rule: "One evaluation per executed transaction: the stored escrow counter against the sum of all live claim records found anywhere on the chain. Non-trivial: the transaction succeeded and claims are or were outstanding; distinct by (operation, vault, supply, escrow, time, outcome).".into(),
        assumptions: vec![ASSUME_ENGINE.into()],
        require: req(&[("unstake:ok", 2000), ("withdraw:ok", 1000), ("hostile:err", 2000)]),
        min_distinct: 5000,
    })
}

/// The vault always covers the claims and the supply.
pub fn c02(ctx: &Ctx) -> i32 {
    let judge = |o: &Obs, _: &mut (), st: &mut Stats| {
        let v = &o.s.post;
        st.eval(o.s.out.ok.then(|| sig(o.s)));
        st.sample(|| pool_sample(o));
        let total = sum(o.claims_post);
        if (v.vault as u128) < total {
            return o.fail(format!("vault holds {} ORCA but outstanding claims total {total}", v.vault));
        }
        if v.vault < v.escrow() {
            return o.fail(format!("vault holds {} ORCA but {} are escrowed", v.vault, v.escrow()));
        }
        let n = v.vault - v.escrow();
        if n < v.supply {
            return o.fail(format!("non-escrowed ORCA {n} is below the xORCA supply {}", v.supply));
        }
        // what every holder could redeem now, next to what is owed already
        let red: u128 = v.users.iter().filter_map(|u| match spec::to_orca(u.xorca, n, v.supply) {
            spec::Quote::Out(q) => Some(q as u128),
            _ => None,
        }).sum();
        if red + total > v.vault as u128 {
            return o.fail(format!("redeemable {red} plus owed {total} exceeds the vault {}", v.vault));
        }
        Ok(())
    };
    let mut p = Profile::base();
    p.donate = 3;
    p.unstake = 28;
    let a = histories(ctx, "mixed", &Plan { profile: p.clone(), hostile: 0.0, cases: ctx.scale(5000, 150_000), secs: ctx.scale(45, 500) }, judge, no_end);
    let b = histories(ctx, "hostile", &Plan { profile: p, hostile: 0.3, cases: ctx.scale(2000, 80_000), secs: ctx.scale(25, 300) }, judge, no_end);
    finish(ctx, vec![("mixed".into(), a), ("hostile".into(), b)], Report {
        rule: "One evaluation per executed transaction of histories starting in solvent pools: vault >= outstanding claims, vault - escrow >= xORCA supply, and all holders' redemption values plus claims fit in the vault. Non-trivial: the transaction succeeded; distinct by (operation, pool numbers, time).".into(),
        assumptions: vec![ASSUME_ENGINE.into(), "Histories start from pools in which the non-escrowed ORCA covers the supply, as every deployment does (empty pool).".into()],
        require: req(&[("unstake:ok", 2000), ("withdraw:ok", 1000), ("stake:ok", 2000)]),
        min_distinct: 5000,
    })
}

/// Withdrawals: exact and exactly once.
pub fn c05(ctx: &Ctx) -> i32 {
    #[derive(Default)]
    struct Ledger {
        paid: BTreeMap<(Pubkey, u8), u64>,
    }
    let judge = |o: &Obs, m: &mut Ledger, st: &mut Stats| {
        let (pre, post) = (&o.s.pre, &o.s.post);
        let cp = cmap(o.claims_pre);
        let cn = cmap(o.claims_post);
        match &o.s.op {
            Op::Withdraw { u, i } => {
                let key = spec::pending(&o.w.users[*u].key, *i);
                let claim = cp.get(&key);
                st.eval(Some(sig(o.s)));
                if o.s.out.ok {
                    let Some(c) = claim else { return o.fail("a withdrawal without a claim succeeded") };
                    if c.unstaker != o.w.users[*u].key {
                        return o.fail("withdrawal of somebody else's claim");
                    }
                    let got = post.users[*u].orca as i128 - pre.users[*u].orca as i128;
                    if got != c.amount as i128 {
                        return o.fail(format!("claim of {} paid {got}", c.amount));
                    }
                    if pre.vault as i128 - post.vault as i128 != c.amount as i128 {
                        return o.fail(format!("claim of {} took {} from the vault", c.amount, pre.vault as i128 - post.vault as i128));
                    }
                    if pre.escrow() as i128 - post.escrow() as i128 != c.amount as i128 {
                        return o.fail(format!("claim of {} released {} of escrow", c.amount, pre.escrow() as i128 - post.escrow() as i128));
                    }
                    if cn.contains_key(&key) {
                        return o.fail("claim still stored after being paid");
                    }
                    if post.supply != pre.supply || post.users.iter().zip(&pre.users).any(|(a, b)| a.xorca != b.xorca) {
                        return o.fail("withdrawal changed xORCA balances");
                    }
                    *m.paid.entry((o.w.users[*u].key, *i)).or_default() += 1;
                    st.sample(|| json!({"claim": c.amount, "index": i, "vault_before": pre.vault, "vault_after": post.vault}));
                } else {
                    if cn != cp || post.vault != pre.vault || post.escrow() != pre.escrow() {
                        return o.fail("a refused withdrawal had effects");
                    }
                    if let Some(c) = claim {
                        if c.unstaker == o.w.users[*u].key && pre.now >= c.ts && o.s.pred.is_ok() {
                            return o.fail(format!("a matured claim of {} could not be withdrawn: {:?}", c.amount, o.s.out.err));
                        }
                    }
                }
            }
            Op::Multi(_) => {
                st.eval(Some(sig(o.s)));
                // model: each claim consumed at most once, in order
                match (&o.s.pred, o.s.out.ok) {
                    (Ok((e, _)), true) => {
                        for (a, b) in e.users.iter().zip(&post.users) {
                            if a.orca != b.orca {
                                return o.fail(format!("transaction paid {} instead of {}", b.orca, a.orca));
                            }
                        }
                        if e.vault != post.vault || e.escrow() != post.escrow() || e.claims() != post.claims() {
                            return o.fail("vault, escrow or claims after the transaction differ from the ledger");
                        }
                    }
                    (Ok(_), false) => return o.fail(format!("a valid sequence was refused: {:?}", o.s.out.err)),
                    (Err(f), true) if !only(f, &[code::COOLDOWN]) => {
                        return o.fail("a sequence that withdraws an absent or already paid claim succeeded")
                    }
                    _ => {}
                }
            }
            Op::Unstake { .. } | Op::Warp { .. } => {}
            _ => {
                // nothing else may consume a claim
                for (k, c) in &cp {
                    if !cn.contains_key(k) {
                        // (hostile transactions may be genuine withdrawals by the owner)
                        let owner_signed = signers_of(&o.w.ixs(&o.s.op)).contains(&c.unstaker);
                        if !(matches!(o.s.op, Op::Raw { .. }) && owner_signed && o.s.out.ok) {
                            return o.fail(format!("claim of {} vanished without a withdrawal", c.amount));
                        }
                        // conservation for genuine ones: vault pays what the records said
                    }
                }
                if matches!(o.s.op, Op::Raw { .. }) {
                    let gone: u128 = cp.iter().filter(|(k, _)| !cn.contains_key(*k)).map(|(_, c)| c.amount as u128).sum();
                    st.eval((o.s.out.ok && gone > 0).then(|| sig(o.s)));
                    if post.vault < pre.vault && (pre.vault - post.vault) as u128 != gone {
                        return o.fail(format!("vault paid {} for claims worth {gone}", pre.vault - post.vault));
                    }
                    if gone > 0 && pre.vault as i128 - post.vault as i128 != gone as i128 {
                        return o.fail(format!("claims worth {gone} consumed, vault changed from {} to {}", pre.vault, post.vault));
                    }
                }
            }
        }
        Ok(())
    };
    let mut p = Profile::base();
    p.withdraw = 40;
    p.warp = 20;
    p.unstake = 26;
    p.multi = 16;
    p.multi_kinds = &["withdraw", "withdraw", "unstake"];
    p.spend = 5;
    let end = |w: &mut World, m: &mut Ledger, r: &mut rand_chacha::ChaCha8Rng, st: &mut Stats| {
        // everything again, after all: nothing is paid twice, what is left is paid once
        let far = w.view().slots.values().filter_map(|s| s.claim.as_ref()).map(|c| c.ts).max().unwrap_or(0);
        if far > w.chain.now {
            w.apply(&Op::Warp { t: far });
        }
        let mut keys: Vec<_> = w.touched.iter().cloned().collect();
        keys.shuffle(r);
        for (u, i) in keys {
            let live = w.view().slots[&(u, i)].claim.is_some();
            let s = w.apply(&Op::Withdraw { u, i });
            st.eval(Some(sig(&s)));
            if s.out.ok != live {
                return fail(format!("at the end of the history, withdrawing ({u},{i}) {} (live claim: {live})", if s.out.ok { "succeeded" } else { "failed" }), &w.log);
            }
            let s = w.apply(&Op::Withdraw { u, i });
            if s.out.ok {
                return fail(format!("second withdrawal of ({u},{i}) succeeded"), &w.log);
            }
            st.count("double-withdraw-refused");
            *m.paid.entry((w.users[u].key, i)).or_default() += live as u64;
        }
        Ok(())
    };
    let a = histories(ctx, "mixed", &Plan { profile: p.clone(), hostile: 0.0, cases: ctx.scale(4000, 120_000), secs: ctx.scale(45, 500) }, judge, end);
    let b = histories(ctx, "hostile", &Plan { profile: p, hostile: 0.35, cases: ctx.scale(2000, 60_000), secs: ctx.scale(25, 300) }, judge, no_end);
    finish(ctx, vec![("mixed".into(), a), ("hostile".into(), b)], Report {
        rule: "One evaluation per withdrawal attempt or multi-instruction transaction, judged against the claim record stored before it; at the end of every history all claim addresses are withdrawn twice. Distinct by (operation, pool numbers, time, outcome).".into(),
        assumptions: vec![ASSUME_ENGINE.into()],
        require: req(&[("withdraw:ok", 2000), ("withdraw:err", 1000), ("multi:ok", 200), ("double-withdraw-refused", 1000)]),
        min_distinct: 4000,
    })
}

/// Redemption rate never falls; no free round trips.
pub fn c07(ctx: &Ctx) -> i32 {
    let rate_ok = |pre: &View, post: &View| -> bool {
        let (Some(n0), Some(n1)) = (pre.free(), post.free()) else { return false };
        if pre.supply == 0 && n0 > 0 {
            return true; // documented restart of an emptied pool at 1:1
        }
        cmp_rate(n1, post.supply, n0, pre.supply) != Ordering::Less
    };
    let judge = |o: &Obs, _: &mut (), st: &mut Stats| {
        let (pre, post) = (&o.s.pre, &o.s.post);
        // a transaction with several instructions may restart an emptied pool inside
        if matches!(o.s.op, Op::Multi(_)) && o.s.out.ok {
            if let Ok((_, evs)) = &o.s.pred {
                if evs.iter().any(|e| matches!(e, spec::Ev::Unstake { supply: 0, .. })) {
                    return Ok(());
                }
            }
        }
        st.eval(o.s.out.ok.then(|| sig(o.s)));
        st.sample(|| json!({"op": format!("{:?}", o.s.op), "before": [pre.free(), Some(pre.supply)], "after": [post.free(), Some(post.supply)]}));
        if !rate_ok(pre, post) {
            return o.fail(format!(
                "ORCA per xORCA fell: ({:?}+100)/({}+100) -> ({:?}+100)/({}+100)",
                pre.free(), pre.supply, post.free(), post.supply
            ));
        }
        Ok(())
    };
    let mut p = Profile::base();
    p.stake = 30;
    p.unstake = 30;
    p.multi_kinds = &["stake", "unstake", "withdraw", "donate"];
    // at the end: round trips by one user from the reached state
    let end = |w: &mut World, _: &mut (), r: &mut rand_chacha::ChaCha8Rng, st: &mut Stats| {
        for _ in 0..6 {
            let v = w.view();
            let (Some(n), s) = (v.free(), v.supply) else { return Ok(()) };
            if s == 0 && n > 0 {
                break;
            }
            let u = r.gen_range(0..w.users.len());
            if v.users[u].orca == 0 {
                continue;
            }
            let a = amount_upto(r, v.users[u].orca, &[n, s, 1, 100]).max(1);
            let x0 = v.users[u].xorca;
            let mut back = 0u128;
            let st1 = w.apply(&Op::Stake { u, a });
            if !st1.out.ok {
                continue;
            }
            let minted = st1.post.users[u].xorca - x0;
            let parts = r.gen_range(1..4u64);
            let mut left = minted;
            for k in 0..parts {
                let x = if k + 1 == parts { left } else { amount_upto(r, left, &[left / 2]) };
                if x == 0 {
                    continue;
                }
                let free = (0..=255u8).find(|i| w.view().slots.get(&(u, *i)).map_or(true, |s| s.claim.is_none())).unwrap();
                let e0 = w.view().escrow();
                let q = w.apply(&Op::Unstake { u, x, i: free });
                if q.out.ok {
                    back += (q.post.escrow() - e0) as u128;
                    left -= x;
                }
            }
            st.eval(Some((a, n, s, parts, u)));
            st.count("round-trips");
            if back > a as u128 {
                return fail(format!("round trip: {a} ORCA in, {back} ORCA out (pool {n}/{s})"), &w.log);
            }
        }
        Ok(())
    };
    let a = histories(ctx, "mixed", &Plan { profile: p.clone(), hostile: 0.0, cases: ctx.scale(4500, 120_000), secs: ctx.scale(45, 500) }, judge, end);
    let b = histories(ctx, "hostile", &Plan { profile: p, hostile: 0.3, cases: ctx.scale(1500, 60_000), secs: ctx.scale(20, 300) }, judge, no_end);
    finish(ctx, vec![("mixed".into(), a), ("hostile".into(), b)], Report {
        rule: "One evaluation per executed transaction (rate before vs after by exact cross multiplication) and per stake-then-unstake round trip. Non-trivial: the transaction succeeded; distinct by (operation, pool numbers, time).".into(),
        assumptions: vec![
            ASSUME_ENGINE.into(),
            "Excluded: the documented 1:1 restart when the supply is zero while ORCA remains in the pool.".into(),
        ],
        require: req(&[("stake:ok", 2000), ("unstake:ok", 2000), ("round-trips", 2000)]),
        min_distinct: 5000,
    })
}

/// Claims are isolated per (user, index), indices are reusable.
pub fn c14(ctx: &Ctx) -> i32 {
    let judge = |o: &Obs, _: &mut (), st: &mut Stats| {
        let cp = cmap(o.claims_pre);
        let cn = cmap(o.claims_post);
        let target = match &o.s.op {
            Op::Unstake { u, i, .. } | Op::Withdraw { u, i } => Some(spec::pending(&o.w.users[*u].key, *i)),
            _ => None,
        };
        if matches!(o.s.op, Op::Multi(_)) {
            // model comparison of the whole claim table
            if let (Ok((e, _)), true) = (&o.s.pred, o.s.out.ok) {
                st.eval(Some(sig(o.s)));
                for (k, s) in &o.s.post.slots {
                    let m = e.slots.get(k).cloned().unwrap_or_default();
                    if m.claim.as_ref().map(|c| (c.amount, c.unstaker, c.index, c.ts)) != s.claim.as_ref().map(|c| (c.amount, c.unstaker, c.index, c.ts)) {
                        return o.fail(format!("claim {k:?} is {:?}, expected {:?}", s.claim, m.claim));
                    }
                }
            }
            return Ok(());
        }
        st.eval(target.map(|_| (sig(o.s), cp.len())));
        for (k, c) in &cp {
            if Some(*k) == target {
                continue;
            }
            let mut c = c.clone();
            match cn.get(k) {
                None => return o.fail(format!("operation on another claim removed claim index {} of {}", c.index, c.unstaker)),
                Some(d) => {
                    c.lamports = d.lamports;
                    if c != *d {
                        return o.fail(format!("operation on another claim changed {c:?} to {d:?}"));
                    }
                }
            }
        }
        for k in cn.keys() {
            if !cp.contains_key(k) && Some(*k) != target {
                return o.fail(format!("a claim appeared at {k}, which is not the address of the named (user, index)"));
            }
        }
        match &o.s.op {
            Op::Unstake { u, i, .. } if o.s.out.ok => {
                let k = target.unwrap();
                if cp.contains_key(&k) {
                    return o.fail(format!("unstake overwrote the outstanding claim at index {i}"));
                }
                let Some(c) = cn.get(&k) else { return o.fail("no claim at the address of (user, index)") };
                if c.unstaker != o.w.users[*u].key || c.index != *i {
                    return o.fail(format!("stored claim names ({}, {})", c.unstaker, c.index));
                }
                st.count(&format!("idx{}", (*i as u32) / 64));
            }
            Op::Unstake { i, .. } => {
                if o.s.pred.is_ok() {
                    return o.fail(format!("free index {i} could not be used: {:?}", o.s.out.err));
                }
            }
            Op::Withdraw { .. } if !o.s.out.ok && o.s.pred.is_ok() => {
                return o.fail(format!("claim could not be withdrawn: {:?}", o.s.out.err));
            }
            _ => {}
        }
        st.sample(|| json!({"op": format!("{:?}", o.s.op), "claims": cn.len()}));
        Ok(())
    };
    let mut p = Profile::base();
    p.multi_kinds = &["unstake", "withdraw"];
    p.unstake = 45;
    p.withdraw = 30;
    p.warp = 14;
    let a = histories(ctx, "reuse", &Plan { profile: p.clone(), hostile: 0.0, cases: ctx.scale(2500, 80_000), secs: ctx.scale(30, 400) }, judge, no_end);
    p.few_indices = false;
    p.steps = 120;
    let b = histories(ctx, "wide", &Plan { profile: p, hostile: 0.0, cases: ctx.scale(500, 20_000), secs: ctx.scale(25, 300) }, judge, no_end);
    // all 256 indices of one user alive at once, released in random order
    let c = run_cases(ctx, "all-indices", ctx.scale(8, 100), ctx.scale(40, 300), |case, r, st| {
        let mut init = Init::simple(r.gen(), 2);
        init.mix_roles(r);
        init.xorca_each = vec![1_000_000_000, 1_000_000_000];
        init.vault = 2_500_000_000;
        init.cooldown = 10;
        let mut w = with_base(|b| World::new(b, &init));
        let mut order: Vec<u8> = (0..=255).collect();
        order.shuffle(r);
        let mut expect = BTreeMap::new();
        for i in &order {
            for u in 0..2 {
                let x = r.gen_range(1..3_000_000);
                let s = w.apply(&Op::Unstake { u, x, i: *i });
                if !s.out.ok {
                    return fail(format!("unstake at index {i} with {} live claims refused: {:?}", expect.len(), s.out.err), &w.log);
                }
                st.eval(Some((case, u, *i, x)));
                expect.insert((u, *i), s.post.escrow() - s.pre.escrow());
            }
        }
        for ((u, i), amt) in &expect {
            let c = w.view().slots[&(*u, *i)].claim.clone();
            if c.as_ref().map(|c| (c.amount, c.index)) != Some((*amt, *i)) {
                return fail(format!("claim ({u},{i}) is {c:?}, recorded {amt}"), &w.log);
            }
        }
        w.apply(&Op::Warp { t: init.now + 10 });
        // one index's withdrawal or unstaking with the account of another
        let whole = w.scan_claims();
        for n in 0..60 {
            let (u, v) = (r.gen_range(0..2usize), r.gen_range(0..2usize));
            let (i, j): (u8, u8) = (r.gen(), r.gen());
            if (u, i) == (v, j) {
                continue;
            }
            let user = w.users[u].clone();
            let mut ix = if n % 3 > 0 { spec::ix_withdraw(&user.key, &user.orca, i) } else { spec::ix_unstake(&user.key, &user.xorca, r.gen_range(1..5000), i) };
            ix.accounts[2].pubkey = spec::pending(&w.users[v].key, j);
            let out = w.chain.exec(&[ix.clone()]);
            st.eval(Some((case, "crossed", n, i, j)));
            st.count("crossed");
            if out.ok || w.scan_claims() != whole {
                return fail(format!("claim ({v},{j}) accepted as that of ({u},{i}): {ix:?}"), &w.log);
            }
        }
        order.shuffle(r);
        for i in &order {
            for u in 0..2 {
                let s = w.apply(&Op::Withdraw { u, i: *i });
                let got = s.post.users[u].orca - s.pre.users[u].orca;
                if !s.out.ok || got != expect[&(u, *i)] {
                    return fail(format!("claim ({u},{i}) of {} paid {got}: {:?}", expect[&(u, *i)], s.out.err), &w.log);
                }
                st.eval(Some((case, u, *i, got)));
                st.count("all-indices-withdrawn");
            }
        }
        Ok(())
    });
    finish(ctx, vec![("reuse".into(), a), ("wide".into(), b), ("all-indices".into(), c)], Report {
        rule: "One evaluation per transaction: the complete claim table before and after, only the named (user, index) may differ. Non-trivial: unstake or withdraw attempts; distinct by (operation, pool numbers, live claims). Plus all 256 indices of two users live at once.".into(),
        assumptions: vec![ASSUME_ENGINE.into()],
        require: req(&[("idx0", 100), ("idx1", 100), ("idx2", 100), ("idx3", 100), ("all-indices-withdrawn", 2000), ("crossed", 200)]),
        min_distinct: 4000,
    })
}

/// Events.
pub fn c16(ctx: &Ctx) -> i32 {
    let judge = |o: &Obs, _: &mut (), st: &mut Stats| {
        let recs = &o.s.out.notes.records;
        match &o.s.op {
            Op::Raw { .. } | Op::Warp { .. } => return Ok(()),
            _ => {}
        }
        if !o.s.out.ok {
            // a failed instruction leaves no event of its own (earlier instructions of the same transaction may)
            if !matches!(o.s.op, Op::Multi(_)) {
                st.eval(None::<u8>);
                if !recs.is_empty() {
                    return o.fail(format!("a refused operation logged {} event(s)", recs.len()));
                }
            }
            return Ok(());
        }
        let Ok((_, evs)) = &o.s.pred else { return Ok(()) };
        st.eval((!evs.is_empty()).then(|| sig(o.s)));
        let want: Vec<Vec<u8>> = evs.iter().map(spec::encode_event).collect();
        if want != *recs {
            return o.fail(format!("logged events {:?}, expected {evs:?}", recs.iter().map(hex).collect::<Vec<_>>()));
        }
        // cross-check against observed state, independently of the model's prediction
        for e in evs {
            st.count(match e {
                spec::Ev::Stake { .. } => "ev-stake",
                spec::Ev::Unstake { .. } => "ev-unstake",
                spec::Ev::Withdraw { .. } => "ev-withdraw",
                spec::Ev::Authority { .. } => "ev-authority",
            });
        }
        st.sample(|| json!({"op": format!("{:?}", o.s.op), "events": format!("{evs:?}")}));
        Ok(())
    };
    let mut p = Profile::base();
    p.set_auth = 6;
    p.multi = 10;
    p.multi_kinds = &["stake", "unstake", "withdraw", "set_cooldown", "set_authority", "donate"];
    let a = histories(ctx, "mixed", &Plan { profile: p, hostile: 0.0, cases: ctx.scale(5000, 150_000), secs: ctx.scale(50, 600) }, judge, no_end);
    // setting a pool up announces nothing, whoever it is set up for
    let b = run_cases(ctx, "initialize", ctx.scale(600, 20_000), ctx.scale(15, 100), |_, r, st| {
        let mut c = super::init::blank(r, 0, Some(&spec::state()), 6, None, 6);
        let auth = match r.gen_range(0..4) {
            0 => spec::deployer(),
            1 => any_key(r, &[spec::deployer()]),
            _ => derive_key("auth", r.gen(), 0),
        };
        let cd = cooldown(r);
        let cd = if r.gen_bool(0.2) { -cd } else { cd };
        for again in 0..2 {
            let out = c.exec(&[spec::ix_initialize(&spec::deployer(), &auth, cd)]);
            st.eval(Some((auth, cd, again)));
            st.count(if out.ok { "initialize:ok" } else { "initialize:err" });
            if !out.notes.records.is_empty() {
                return fail(format!("initialize (ok: {}) logged {} event(s)", out.ok, out.notes.records.len()), &[]);
            }
        }
        Ok(())
    });
    finish(ctx, vec![("mixed".into(), a), ("initialize".into(), b)], Report {
        rule: "One evaluation per transaction: the raw records passed to the log syscall, byte for byte and in order, against the independently encoded expected events. Non-trivial: at least one event expected; distinct by (operation, pool numbers, time).".into(),
        assumptions: vec![ASSUME_ENGINE.into(), "Hook: under cfg(xorca_verif) the event log call reaches the harness instead of being compiled out on the host.".into()],
        require: req(&[("ev-stake", 1000), ("ev-unstake", 1000), ("ev-withdraw", 500), ("ev-authority", 200), ("initialize:ok", 100), ("initialize:err", 100)]),
        min_distinct: 4000,
    })
}
fn hex(v: &Vec<u8>) -> String {
    v.iter().map(|b| format!("{b:02x}")).collect()
}

/// Frame and conservation.
pub fn c25(ctx: &Ctx) -> i32 {
    let judge = |o: &Obs, _: &mut (), st: &mut Stats| {
        let (pre, post) = (&o.s.pre, &o.s.post);
        if matches!(o.s.op, Op::Warp { .. }) {
            return Ok(());
        }
        st.eval(o.s.out.ok.then(|| sig(o.s)));
        // per-account view of the transaction
        let (a, b) = (&o.s.out.pre, &o.s.out.post);
        let lam = |s: &crate::engine::Snap| -> u128 { s.values().flatten().map(|x| x.lamports as u128).sum() };
        if lam(a) != lam(b) {
            return o.fail(format!("lamports not conserved: {} -> {}", lam(a), lam(b)));
        }
        let tok = |s: &crate::engine::Snap, mint: &Pubkey| -> u128 {
            s.values().flatten().filter_map(|x| spec::decode_token(&x.owner, &x.data)).filter(|t| t.0 == *mint).map(|t| t.2 as u128).sum()
        };
        if tok(a, &spec::orca_mint()) != tok(b, &spec::orca_mint()) || pre.orca_supply != post.orca_supply {
            return o.fail("ORCA was created or destroyed");
        }
        let dx = tok(b, &spec::xorca_mint()) as i128 - tok(a, &spec::xorca_mint()) as i128;
        if dx != post.supply as i128 - pre.supply as i128 {
            return o.fail("xORCA supply and balances moved apart");
        }
        if !o.s.out.ok {
            for (k, x) in a {
                if b[k] != *x {
                    return o.fail(format!("a refused transaction changed account {k}"));
                }
            }
            return Ok(());
        }
        if !post.mints_sane || (!post.vault_sane && pre.vault_sane) {
            return o.fail("mint or vault account fields other than amounts changed");
        }
        // token accounts: only the amount may differ
        for (k, x) in a {
            let (Some(x), Some(y)) = (x, &b[k]) else { continue };
            if x.owner == spec::token_program() && x.data.len() == 165 {
                if y.owner != x.owner || y.data.len() != 165 || y.data[..64] != x.data[..64] || y.data[72..] != x.data[72..] {
                    return o.fail(format!("token account {k} changed beyond its amount"));
                }
            }
            if x.data != y.data || x.owner != y.owner {
                let own = x.owner == spec::token_program() || x.owner == spec::program_id()
                    || (x.owner == spec::system_program() && o.w.users.iter().enumerate().any(|(u, _)| o.s.post.slots.keys().any(|(uu, i)| *uu == u && spec::pending(&o.w.users[u].key, *i) == *k)));
                if !own && !matches!(o.s.op, Op::Raw { .. }) {
                    return o.fail(format!("account {k} was rewritten"));
                }
            }
        }
        let Some(s1) = &post.state else { return o.fail("pool state destroyed") };
        if let (Some(Some(x)), Some(Some(y))) = (a.get(&spec::state()), b.get(&spec::state())) {
            if x.data.len() != y.data.len() || x.data[..8] != y.data[..8] || x.data[56..] != y.data[56..] {
                return o.fail("reserved bytes of the pool state were written");
            }
            if x.data[56..].iter().any(|v| *v != 0) {
                st.count("reserved-in-use");
            }
        }
        let s0 = pre.state.as_ref().unwrap();
        if s0.bump != s1.bump || s0.vault_bump != s1.vault_bump {
            return o.fail("stored bumps changed");
        }
        if post.state_lamports < o.w.chain.rent(spec::STATE_LEN) {
            return o.fail("pool state no longer rent exempt");
        }
        for (k, c) in o.claims_post.iter() {
            if c.lamports < o.w.rent_pending {
                return o.fail(format!("claim {k} is not rent exempt ({} lamports)", c.lamports));
            }
            if !c.padding_zero {
                return o.fail(format!("reserved bytes of claim {k} are not zero"));
            }
        }
        // frame: which totals each operation may touch
        let same_users = |skip: Option<usize>| -> bool {
            pre.users.iter().zip(&post.users).enumerate().all(|(i, (x, y))| Some(i) == skip || x == y)
        };
        let cfg_same = s0.cooldown == s1.cooldown && s0.authority == s1.authority;
        let bad = match &o.s.op {
            Op::Stake { u, .. } => {
                (!same_users(Some(*u))).then_some("another user's balances")
                    .or((pre.users[*u].lamports != post.users[*u].lamports).then_some("lamports"))
                    .or((s0 != s1).then_some("the pool state"))
                    .or((o.claims_pre != o.claims_post).then_some("claims"))
            }
            Op::Unstake { u, .. } => (!same_users(Some(*u))).then_some("another user's balances")
                .or((pre.users[*u].orca != post.users[*u].orca).then_some("the unstaker's ORCA"))
                .or((pre.vault != post.vault).then_some("the vault"))
                .or((!cfg_same).then_some("the configuration")),
            Op::Withdraw { u, .. } => (!same_users(Some(*u))).then_some("another user's balances")
                .or((pre.users[*u].xorca != post.users[*u].xorca).then_some("xORCA"))
                .or((pre.supply != post.supply).then_some("the supply"))
                .or((!cfg_same).then_some("the configuration")),
            Op::SetCd { .. } | Op::SetAuth { .. } => (!same_users(None)).then_some("user balances")
                .or((pre.vault != post.vault || pre.supply != post.supply).then_some("pool balances"))
                .or((pre.escrow() != post.escrow()).then_some("the escrow"))
                .or((o.claims_pre != o.claims_post).then_some("claims")),
            _ => None,
        };
        if let Some(b) = bad {
            return o.fail(format!("the operation changed {b}"));
        }
        // lamports: every balance exactly as the contract says
        if let Ok((want, _)) = &o.s.pred {
            let lam = |v: &View| {
                let s: Vec<_> = v.slots.iter().filter(|(_, s)| s.lamports > 0).map(|(k, s)| (*k, s.lamports, s.odd)).collect();
                (v.state_lamports, v.vault_lamports, v.users.iter().map(|u| u.lamports).collect::<Vec<_>>(), s)
            };
            if lam(want) != lam(post) {
                return o.fail(format!("lamports (state, vault, users, claims) are {:?}, expected {:?}", lam(post), lam(want)));
            }
            st.count("lamports-exact");
        }
        // (in a bundle, later transfers may put dust on an address just closed)
        if let Some(k) = o.s.out.rent_paying.filter(|_| !matches!(o.s.op, Op::Multi(_))) {
            return o.fail(format!("account {k} is left below rent exemption"));
        }
        st.count("judged-ok");
        st.sample(|| pool_sample(o));
        Ok(())
    };
    let mut p = Profile::base();
    p.set_auth = 5;
    p.set_cd = 6;
    p.spend = 4;
    p.reserved = true;
    let a = histories(ctx, "mixed", &Plan { profile: p.clone(), hostile: 0.0, cases: ctx.scale(3500, 120_000), secs: ctx.scale(45, 500) }, judge, no_end);
    let b = histories(ctx, "hostile", &Plan { profile: p, hostile: 0.4, cases: ctx.scale(2000, 60_000), secs: ctx.scale(25, 300) }, judge, no_end);
    finish(ctx, vec![("mixed".into(), a), ("hostile".into(), b)], Report {
        rule: "One evaluation per transaction over full before/after images of every account it names: lamport and token conservation, untouched fields, untouched third parties, rent exemption, reserved bytes. Non-trivial: the transaction succeeded.".into(),
        assumptions: vec![ASSUME_ENGINE.into(), "A transaction can only change accounts it names (enforced by the runtime).".into()],
        require: req(&[("judged-ok", 5000), ("lamports-exact", 5000), ("reserved-in-use", 1000), ("hostile:ok", 50), ("hostile:err", 1000)]),
        min_distinct: 5000,
    })
}

/// Nobody else can move a user's funds or claims, nor the configuration.
pub fn c09_histories(ctx: &Ctx) -> Outcome {
    let judge = |o: &Obs, _: &mut (), st: &mut Stats| {
        if matches!(o.s.op, Op::Warp { .. }) {
            return Ok(());
        }
        let ixs = o.w.ixs(&o.s.op);
        let signers = signers_of(&ixs);
        let (pre, post) = (&o.s.pre, &o.s.post);
        st.eval(Some(sig(o.s)));
        if o.s.out.ok && matches!(o.s.op, Op::Raw { .. }) {
            st.count("hostile-accepted");
        }
        authority_monitor(o.w, pre, post, &signers, o.claims_pre, o.claims_post, ixs.len() == 1).map_or(Ok(()), |m| o.fail(m))
    };
    let mut p = Profile::base();
    p.set_auth = 3;
    histories(ctx, "hostile", &Plan { profile: p, hostile: 0.7, cases: ctx.scale(3500, 120_000), secs: ctx.scale(40, 500) }, judge, no_end)
}
pub fn authority_monitor(
    w: &World,
    pre: &View,
    post: &View,
    signers: &std::collections::BTreeSet<Pubkey>,
    cpre: &Claims,
    cpost: &Claims,
    one_instruction: bool,
) -> Option<String> {
    for (i, u) in w.users.iter().enumerate() {
        if signers.contains(&u.key) {
            continue;
        }
        let (a, b) = (&pre.users[i], &post.users[i]);
        if b.orca < a.orca || b.xorca < a.xorca || b.lamports < a.lamports {
            return Some(format!("user {i} did not sign but lost funds: {a:?} -> {b:?}"));
        }
    }
    let cn = cmap(cpost);
    for (k, c) in cpre {
        if signers.contains(&c.unstaker) {
            continue;
        }
        match cn.get(k) {
            None => return Some(format!("claim of {} ORCA was consumed without its owner's signature", c.amount)),
            Some(d) => {
                let mut d = d.clone();
                if d.lamports >= c.lamports {
                    d.lamports = c.lamports;
                }
                if d != *c {
                    return Some(format!("claim {c:?} was changed to {d:?} without its owner's signature"));
                }
            }
        }
    }
    for (k, c) in cpost {
        if !cpre.iter().any(|x| x.0 == *k) && !signers.contains(&c.unstaker) {
            return Some(format!("a claim in the name of {} was created without its signature", c.unstaker));
        }
    }
    let (Some(s0), Some(s1)) = (&pre.state, &post.state) else {
        return (pre.state.is_some() != post.state.is_some()).then(|| "pool state destroyed".to_string());
    };
    if (s0.cooldown != s1.cooldown || s0.authority != s1.authority) && !signers.contains(&s0.authority) {
        return Some(format!("configuration changed without the update authority: {s0:?} -> {s1:?}"));
    }
    // the vault only pays signers' own claims (a claim made and paid within one
    // transaction is not visible here)
    if !one_instruction {
        return None;
    }
    let gone: u128 = cpre.iter().filter(|(k, c)| !cn.contains_key(k) && signers.contains(&c.unstaker)).map(|x| x.1.amount as u128).sum();
    if (pre.vault as u128).saturating_sub(post.vault as u128) > gone {
        return Some(format!("the vault lost {} ORCA against {gone} of claims of the signers", pre.vault - post.vault));
    }
    None
}

/// Bounded progress: claims and holdings can always be turned back into ORCA.
pub fn c27(ctx: &Ctx) -> i32 {
    let judge = |_: &Obs, _: &mut (), _: &mut Stats| Ok(());
    let end = |w: &mut World, _: &mut (), r: &mut rand_chacha::ChaCha8Rng, st: &mut Stats| {
        // the authority sets any sane cool-down, time goes on
        let auth = w.view().state.unwrap().authority;
        let cd = r.gen_range(0..1_000_000);
        if can_act(&auth) {
            w.apply(&Op::SetCd { by: auth, v: cd });
        }
        // 1. every holder exits
        let nu = w.users.len();
        let mut order: Vec<usize> = (0..nu).collect();
        order.shuffle(r);
        for u in order {
            let v = w.view();
            let x = v.users[u].xorca;
            let Some(n) = v.free() else { return fail("vault below escrow", &w.log) };
            let worth = spec::to_orca(x, n, v.supply);
            let spec::Quote::Out(worth) = worth else { continue };
            let Some(free) = (0..=255u8).rev().find(|i| v.slots.get(&(u, *i)).map_or(true, |s| s.claim.is_none())) else { continue };
            if worth == 0 || v.now.checked_add(v.state.as_ref().unwrap().cooldown).is_none() {
                continue;
            }
            if r.gen_bool(0.5) {
                // an adversary pre-funds the address first
                w.apply(&Op::Dust { u, i: free, l: [1, 890_880, 5_000_000, 20_000_000][r.gen_range(0..4)] });
            }
            let s = w.apply(&Op::Unstake { u, x, i: free });
            st.eval(Some(("exit", x, n, v.supply)));
            st.count("exits");
            if let Some(k) = s.out.rent_paying.filter(|_| s.out.ok) {
                return fail(format!("unstake leaves {k} below rent exemption, which the cluster refuses"), &w.log);
            }
            if !s.out.ok {
                return fail(format!("a holder of {x} xORCA worth {worth} cannot unstake: {:?}", s.out.err), &w.log);
            }
        }
        // 2. every claim is paid once matured, whatever the order and interference
        let v = w.view();
        let mut live: Vec<(usize, u8, i64, u64)> = v.slots.iter().filter_map(|(k, s)| s.claim.as_ref().map(|c| (k.0, k.1, c.ts, c.amount))).collect();
        let reach = |t: i64| t < i64::MAX - 10_000_000_000;
        let far = live.iter().map(|c| c.2).filter(|t| reach(*t)).max().unwrap_or(v.now);
        if far > v.now {
            w.apply(&Op::Warp { t: far });
        }
        live.retain(|c| c.2 <= w.chain.now);
        live.shuffle(r);
        for (u, i, _, amt) in live {
            match r.gen_range(0..5) {
                0 => {
                    w.apply(&Op::Dust { u, i, l: r.gen_range(1..10_000_000) });
                }
                1 => {
                    let k = r.gen_range(0..nu);
                    let a = w.view().users[k].orca / 3;
                    w.apply(&Op::Donate { u: k, a });
                }
                2 => {
                    let k = r.gen_range(0..nu);
                    let a = w.view().users[k].orca / 3;
                    w.apply(&Op::Stake { u: k, a });
                }
                3 if can_act(&auth) => {
                    w.apply(&Op::SetCd { by: auth, v: i64::MAX });
                }
                _ => {}
            }
            let s = w.apply(&Op::Withdraw { u, i });
            st.eval(Some(("claim", amt, s.pre.vault, s.pre.escrow(), w.chain.now)));
            st.count("claims-paid");
            if let Some(k) = s.out.rent_paying.filter(|_| s.out.ok) {
                return fail(format!("withdrawal of ({u},{i}) leaves {k} below rent exemption, which the cluster refuses"), &w.log);
            }
            if !s.out.ok {
                return fail(format!("matured claim ({u},{i}) of {amt} cannot be withdrawn: {:?}", s.out.err), &w.log);
            }
            st.sample(|| json!({"claim": amt, "vault": s.post.vault, "escrow": s.post.escrow()}));
        }
        Ok(())
    };
    let mut p = Profile::base();
    p.steps = 30;
    p.unstake = 30;
    p.withdraw = 8;
    let a = histories(ctx, "mixed", &Plan { profile: p.clone(), hostile: 0.0, cases: ctx.scale(3500, 100_000), secs: ctx.scale(40, 500) }, judge, end);
    let b = histories(ctx, "hostile", &Plan { profile: p, hostile: 0.35, cases: ctx.scale(2000, 60_000), secs: ctx.scale(25, 300) }, judge, end);
    finish(ctx, vec![("mixed".into(), a), ("hostile".into(), b)], Report {
        rule: "Every history (random or hostile) ends with a drain: each holder whose xORCA is worth at least one unit unstakes all of it and each claim whose time has come is withdrawn, in random order with interference in between. One evaluation per exit or claim; distinct by amounts and pool numbers.".into(),
        assumptions: vec![
            ASSUME_ENGINE.into(),
            "Liveness is judged as bounded progress: one transaction after the maturity time. Users hold lamports for rent; maturity times near the end of the i64 range are not waited for.".into(),
        ],
        require: req(&[("exits", 2000), ("claims-paid", 2000)]),
        min_distinct: 3000,
    })
}
