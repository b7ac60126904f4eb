//! Shared history runner.
use crate::engine::Acct;
use crate::history::*;
use crate::hostile::{self, Rogues};
use crate::report::*;
use crate::spec::{self, PendV};
use crate::world::*;
use rand::Rng;
use rand_chacha::ChaCha8Rng;
use solana_sdk::pubkey::Pubkey;
use std::collections::BTreeMap;

pub type Claims = Vec<(Pubkey, PendV)>;

/// One observed transition, with the stored claims before and after.
pub struct Obs<'a> {
    pub s: &'a Step,
    pub w: &'a World,
    pub claims_pre: &'a Claims,
    pub claims_post: &'a Claims,
}
impl Obs<'_> {
    pub fn fail(&self, m: impl Into<String>) -> CaseResult {
        fail(format!("{} [{:?}]", m.into(), self.s.op), &self.w.log)
    }
}

pub struct Plan {
    pub profile: Profile,
    /// Probability of a hostile transaction at each step.
    pub hostile: f64,
    pub cases: u64,
    pub secs: u64,
}

pub fn histories<M: Default>(
    ctx: &Ctx,
    stream: &str,
    plan: &Plan,
    judge: impl Fn(&Obs, &mut M, &mut Stats) -> CaseResult + Sync,
    end: impl Fn(&mut World, &mut M, &mut ChaCha8Rng, &mut Stats) -> CaseResult + Sync,
) -> Outcome {
    run_cases(ctx, stream, plan.cases, plan.secs, |case, r, st| {
        let mut p = plan.profile.clone();
        if case % 16 == 5 {
            p.steps *= 4;
        }
        if case % 16 == 9 {
            p.few_indices = false;
        }
        let mut w = with_base(|b| reachable_world(b, r, p.users, case));
        if p.reserved && case % 3 == 1 {
            let mut a = w.chain.get(&spec::state()).unwrap();
            let at = r.gen_range(56..spec::STATE_LEN);
            r.fill(&mut a.data[at..]);
            if r.gen_bool(0.5) {
                r.fill(&mut a.data[1..6]);
            }
            w.chain.put(spec::state(), a);
        }
        let rogues: Option<Rogues> =
            if plan.hostile > 0.0 { Some(hostile::add_rogues(&mut w, case)) } else { None };
        let mut mem = M::default();
        let mut claims = w.scan_claims();
        for _ in 0..p.steps {
            let v = w.view();
            let op = match &rogues {
                Some(g) if r.gen_bool(plan.hostile) => hostile::gen(r, &w, &v, &p, g),
                _ => gen_op(r, &w, &v, &p),
            };
            let s = w.apply(&op);
            let now = w.scan_claims();
            st.count(&format!("{}:{}", s.op.kind(), if s.out.ok { "ok" } else { "err" }));
            let o = Obs { s: &s, w: &w, claims_pre: &claims, claims_post: &now };
            judge(&o, &mut mem, st)?;
            claims = now;
        }
        end(&mut w, &mut mem, r, st)
    })
}
pub fn no_end<M>(_: &mut World, _: &mut M, _: &mut ChaCha8Rng, _: &mut Stats) -> CaseResult {
    Ok(())
}

pub fn cmap(c: &Claims) -> BTreeMap<Pubkey, PendV> {
    c.iter().cloned().collect()
}
pub fn sum(c: &Claims) -> u128 {
    c.iter().map(|x| x.1.amount as u128).sum()
}

/// Short hash key of an observed situation: kind, outcome and the numbers that matter.
pub fn sig(s: &Step) -> (String, u64, u64, u64, u64, i64, bool) {
    (
        format!("{:?}", s.op),
        s.pre.vault,
        s.pre.supply,
        s.pre.escrow(),
        s.post.vault,
        s.post.now,
        s.out.ok,
    )
}

/// Faults other than the listed codes (used to leave a refusal to its own property).
pub fn only(f: &Faults, codes: &[u32]) -> bool {
    !f.is_empty() && f.iter().all(|x| x.is_some_and(|c| codes.contains(&c)))
}

/// Overwrite the pool and user 0's balances in place.
#[allow(clippy::too_many_arguments)]
pub fn set_pool(w: &mut World, n: u64, s: u64, e: u64, orca: u64, xorca: u64) {
    let st = w.view().state.unwrap();
    let lam = w.chain.rent(spec::STATE_LEN);
    w.chain.put(
        spec::state(),
        Acct {
            lamports: lam,
            owner: spec::program_id(),
            data: spec::encode_state(&spec::StateV { escrow: e, ..st }),
        },
    );
    // `n` counts the whole vault here
    w.chain.put(spec::vault(), token_acct(&spec::orca_mint(), &spec::state(), n));
    set_u64(&mut w.chain, &spec::xorca_mint(), 36, s);
    let u = w.users[0].clone();
    set_u64(&mut w.chain, &u.orca, 64, orca);
    set_u64(&mut w.chain, &u.xorca, 64, xorca);
}

/// Arbitrary (vault, supply, escrow): extremes, near-equal and tiny pools.
pub fn gen_pool(r: &mut ChaCha8Rng) -> (u64, u64, u64) {
    let s = match r.gen_range(0..8) {
        0 => 0,
        1 => r.gen_range(1..200),
        2 => u64::MAX - r.gen_range(0..200),
        _ => amount(r, &[]),
    };
    let n = match r.gen_range(0..8) {
        0 => 0,
        1 => r.gen_range(1..200),
        2 => s,
        3 => s.saturating_add(r.gen_range(0..1000)),
        4 => s.saturating_add(s / r.gen_range(1..1000)),
        5 => u64::MAX - r.gen_range(0..200),
        _ => amount(r, &[s]),
    };
    let room = u64::MAX - n;
    let e = match r.gen_range(0..6) {
        0 | 1 => 0,
        2 => room - room.min(r.gen_range(0..3)),
        _ => amount_upto(r, room, &[n, s]),
    };
    let v = if r.gen_bool(0.04) && e > 0 {
        // an under-backed vault
        e - 1 - r.gen_range(0..e).min(e - 1)
    } else {
        n + e
    };
    (v, s, e)
}
