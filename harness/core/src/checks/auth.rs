//! Authorization and account validation.
use crate::engine::{Acct, TxOut};
use crate::history::*;
use crate::hostile::{self, Rogues};
use crate::report::*;
use crate::spec::{self, StateV};
use crate::world::*;
use rand::seq::SliceRandom;
use rand::Rng;
use rand_chacha::ChaCha8Rng;
use serde_json::json;
use solana_sdk::instruction::{AccountMeta, Instruction};
use solana_sdk::pubkey::Pubkey;

fn req(v: &[(&str, u64)]) -> Vec<(String, u64)> {
    v.iter().map(|(k, n)| (k.to_string(), *n)).collect()
}
const ENGINE: &str = "The program runs natively inside LiteSVM's Agave runtime with the real SPL Token program.";

struct Bed {
    w: World,
    init: Init,
    g: Rogues,
    /// matured live claims of user 0 at i and i2, of user 1 at i
    i: u8,
    i2: u8,
    free: u8,
}
fn bed(r: &mut ChaCha8Rng) -> Bed {
    let mut init = Init::simple(r.gen(), 3);
    let rich = |r: &mut ChaCha8Rng| 1_000_000 + (r.gen::<u64>() >> r.gen_range(24..44));
    init.xorca_each = (0..3).map(|_| rich(r)).collect();
    let s: u64 = init.xorca_each.iter().sum();
    let (i, mut i2, mut free) = (index(r), index(r), index(r));
    while i2 == i {
        i2 = r.gen();
    }
    while free == i || free == i2 {
        free = r.gen();
    }
    let amts: Vec<u64> = (0..3).map(|_| rich(r)).collect();
    init.escrow = amts.iter().sum();
    init.vault = init.escrow + s + (r.gen::<u64>() >> 30);
    let mut w = with_base(|b| World::new(b, &init));
    w.inject_claim(0, i, amts[0], init.now - r.gen_range(0..1000));
    w.inject_claim(0, i2, amts[1], init.now - r.gen_range(0..1000));
    w.inject_claim(1, i, amts[2], init.now - r.gen_range(0..1000));
    let g = hostile::add_rogues(&mut w, r.gen());
    Bed { w, init, g, i, i2, free }
}
const NAMES: [&str; 5] = ["stake", "unstake", "withdraw", "set_cooldown", "set_authority"];
fn honest(b: &Bed, r: &mut ChaCha8Rng) -> Vec<Instruction> {
    let u = &b.w.users[0];
    let v = b.w.view();
    let keys: Vec<Pubkey> = b.w.users.iter().map(|u| u.key).chain([b.init.authority]).collect();
    vec![
        spec::ix_stake(&u.key, &u.orca, &u.xorca, r.gen_range(100_000..=v.users[0].orca.min(10_000_000))),
        spec::ix_unstake(&u.key, &u.xorca, r.gen_range(1000..=v.users[0].xorca), b.free),
        spec::ix_withdraw(&u.key, &u.orca, b.i),
        spec::ix_set_cooldown(&b.init.authority, cooldown(r)),
        spec::ix_set_authority(&b.init.authority, &any_key(r, &keys)),
    ]
}

pub fn c09(ctx: &Ctx) -> i32 {
    let a = run_cases(ctx, "matrix", ctx.scale(2500, 60_000), ctx.scale(40, 400), |case, r, st| {
        let mut b = bed(r);
        let hs = honest(&b, r);
        let mallory = b.w.users[2].clone();
        for (k, h) in hs.iter().enumerate() {
            let mut c = b.w.chain.clone();
            if c.exec(&[h.clone()]).ok {
                st.count("honest-accepted");
            }
            let mut tries: Vec<(String, Instruction)> = vec![];
            // unsigned, alone or accompanied by a signing bystander
            let mut t = h.clone();
            t.accounts[0].is_signer = false;
            tries.push(("unsigned".into(), t.clone()));
            t.accounts.push(AccountMeta::new(mallory.key, true));
            tries.push(("unsigned + signing bystander at the end".into(), t));
            // the attacker acts on the victim's accounts
            let mut t = h.clone();
            t.accounts[0].pubkey = mallory.key;
            tries.push(("attacker acting on the owner's accounts".into(), t.clone()));
            for p in 1..h.accounts.len() {
                for x in [mallory.orca, mallory.xorca, mallory.key, spec::pending(&mallory.key, b.i), spec::pending(&mallory.key, b.free)] {
                    let mut t = t.clone();
                    t.accounts[p].pubkey = x;
                    tries.push((format!("attacker acting, own account at {p}"), t));
                }
            }
            // the attacker redirects the victim's claim to itself, every index
            if k == 2 {
                for (vic, i) in [(0usize, b.i), (0, b.i2), (1, b.i)] {
                    let mut t = spec::ix_withdraw(&mallory.key, &mallory.orca, i);
                    t.accounts[2].pubkey = spec::pending(&b.w.users[vic].key, i);
                    tries.push(("attacker withdraws a victim's claim".into(), t.clone()));
                    t.data[1] = r.gen();
                    tries.push(("attacker withdraws a victim's claim with another index".into(), t.clone()));
                    // names the victim without its signature, pays to itself
                    let mut t = spec::ix_withdraw(&b.w.users[vic].key, &mallory.orca, i);
                    t.accounts[0].is_signer = false;
                    tries.push(("claim redirected, owner not signing".into(), t.clone()));
                    t.accounts[3].pubkey = b.w.users[vic].orca;
                    tries.push(("forced withdrawal, owner not signing".into(), t));
                }
            }
            // somebody with a special part elsewhere: the deployer, keys named in the sources
            for x in special_keys().iter().filter(|x| **x != b.init.authority).chain([&mallory.key]) {
                let mut t = h.clone();
                t.accounts[0].pubkey = *x;
                t.accounts[0].is_signer = true;
                tries.push(("a special identity acting".into(), t.clone()));
                if k >= 3 {
                    t.accounts.push(AccountMeta::new_readonly(b.init.authority, false));
                    tries.push(("a special identity acting, the authority named".into(), t));
                }
            }
            // the owner's claim is paid to its owner, whatever rights it holds elsewhere
            if k == 2 {
                for x in [mallory.orca, derive_key("may close", case, 0), derive_key("may spend", case, 0)] {
                    if x != mallory.orca {
                        let mut a = token_acct(&spec::orca_mint(), &mallory.key, r.gen::<u64>() >> r.gen_range(14..64));
                        let o = if x == derive_key("may close", case, 0) { 129 } else { 72 };
                        a.data[o] = 1;
                        a.data[o + 4..o + 36].copy_from_slice(h.accounts[0].pubkey.as_ref());
                        if o == 72 {
                            a.data[121..129].copy_from_slice(&u64::MAX.to_le_bytes());
                        }
                        b.w.chain.put(x, a);
                    }
                    let mut t = h.clone();
                    t.accounts[3].pubkey = x;
                    tries.push(("claim paid out to somebody else".into(), t));
                }
            }
            if k == 0 {
                // stake the victim's ORCA into the attacker's xORCA
                let mut t = h.clone();
                t.accounts[0].pubkey = mallory.key;
                t.accounts[3].pubkey = mallory.xorca;
                tries.push(("stake of the victim's ORCA for the attacker".into(), t));
            }
            if k == 1 {
                let mut t = spec::ix_unstake(&mallory.key, &b.w.users[0].xorca, 5000, b.free);
                tries.push(("burn the victim's xORCA for the attacker's claim".into(), t.clone()));
                t.accounts[2].pubkey = spec::pending(&b.w.users[0].key, b.free);
                tries.push(("burn the victim's xORCA".into(), t));
            }
            if k == 3 {
                // an authority that handed over keeps no say
                let mut c = b.w.clone();
                let new = derive_key("successor", case, 0);
                if c.apply(&Op::SetAuth { by: b.init.authority, new }).out.ok {
                    for op in [Op::SetCd { by: b.init.authority, v: cooldown(r) }, Op::SetAuth { by: b.init.authority, new: b.init.authority }] {
                        let t = c.apply(&op);
                        st.eval(Some((case, "former authority", format!("{op:?}"))));
                        st.count("former-authority");
                        if t.out.ok || t.pre.state != t.post.state {
                            return fail(format!("a former authority still changes the configuration: {op:?}"), &c.log);
                        }
                    }
                }
            }
            for (label, ix) in tries {
                let pre = b.w.view();
                let cpre = b.w.scan_claims();
                let out = b.w.chain.exec(&[ix.clone()]);
                let post = b.w.view();
                let cpost = b.w.scan_claims();
                let signers = hostile::signers_of(&[ix.clone()]);
                st.eval(Some((case, k, &label, &ix.data)));
                st.count(&format!("{}:attacks", NAMES[k]));
                b.w.log.truncate(4);
                b.w.log.push(format!("{}: {label}: {ix:?}", NAMES[k]));
                if let Some(m) = super::hist::authority_monitor(&b.w, &pre, &post, &signers, &cpre, &cpost, true) {
                    return fail(format!("{}: {label}: {m}", NAMES[k]), &b.w.log);
                }
                // an unsigned action must not take effect at all
                if out.ok && label.starts_with("unsigned") {
                    return fail(format!("{} executed without the acting account's signature", NAMES[k]), &b.w.log);
                }
                if label.starts_with("claim paid out") {
                    st.count("payout-redirected");
                    if out.ok {
                        return fail(format!("{}: {label}: a claim is paid to an account its owner does not own", NAMES[k]), &b.w.log);
                    }
                }
                st.sample(|| json!({"instruction": NAMES[k], "attack": label, "refused": !out.ok}));
            }
        }
        Ok(())
    });
    let h = super::hist::c09_histories(ctx);
    finish(ctx, vec![("matrix".into(), a), ("histories".into(), h)], Report {
        rule: "One evaluation per (mostly hostile) transaction: accounts and claims of users who did not sign must not lose anything, the vault must pay only signers' own claims, the configuration must not change without the update authority. A matrix of impersonations per instruction plus histories in which 70% of the transactions are mutated. Distinct by (case, instruction, attack, data).".into(),
        assumptions: vec![ENGINE.into(), "Signature verification itself is the runtime's; the harness sets signer flags directly.".into()],
        require: req(&[("stake:attacks", 1000), ("unstake:attacks", 1000), ("withdraw:attacks", 1000), ("set_cooldown:attacks", 1000), ("set_authority:attacks", 1000), ("honest-accepted", 1000), ("former-authority", 400), ("payout-redirected", 1000), ("hostile:err", 5000), ("hostile-accepted", 100)]),
        min_distinct: 5000,
    })
}

/// Extra account images for substitution.
fn forge(b: &mut Bed, r: &mut ChaCha8Rng) -> Vec<(String, Pubkey)> {
    let salt: u64 = r.gen();
    let k = |t: &str| derive_key(t, salt, 0);
    let tok = spec::token_program();
    let a = b.w.users[0].clone();
    let m = b.w.users[1].clone();
    let mut v: Vec<(String, Pubkey)> = vec![];
    let c = &mut b.w.chain;
    let st = c.get(&spec::state()).unwrap();
    let mut put = |n: &str, acct: Acct, v: &mut Vec<(String, Pubkey)>| {
        let key = k(n);
        c.put(key, acct);
        v.push((n.to_string(), key));
        key
    };
    // copies of genuine accounts elsewhere
    let fs = put("copy of the pool state", st.clone(), &mut v);
    let mut st2 = st.clone();
    st2.data[24..56].copy_from_slice(a.key.as_ref());
    st2.data[8..16].copy_from_slice(&0u64.to_le_bytes());
    put("pool state naming the user as authority", st2.clone(), &mut v);
    let mut st3 = st.clone();
    st3.owner = spec::system_program();
    put("state bytes in a system account", st3, &mut v);
    let pend = c_get(&b.w, &spec::pending(&a.key, b.i));
    let c = &mut b.w.chain;
    let mut put = |n: &str, acct: Acct, v: &mut Vec<(String, Pubkey)>| {
        let key = k(n);
        c.put(key, acct);
        v.push((n.to_string(), key));
        key
    };
    put("copy of the claim", pend.clone(), &mut v);
    let mut p2 = pend.clone();
    p2.owner = k("alien program");
    put("claim bytes owned by another program", p2, &mut v);
    let orca = spec::orca_mint();
    let xorca = spec::xorca_mint();
    let deleg = |mint: &Pubkey, owner: &Pubkey, to: &Pubkey| {
        let mut t = token_acct(mint, owner, 1 << 50);
        t.data[72..76].copy_from_slice(&1u32.to_le_bytes());
        t.data[76..108].copy_from_slice(to.as_ref());
        t.data[121..129].copy_from_slice(&u64::MAX.to_le_bytes());
        t
    };
    put("another user's ORCA delegated to the actor", deleg(&orca, &m.key, &a.key), &mut v);
    put("another user's xORCA delegated to the actor", deleg(&xorca, &m.key, &a.key), &mut v);
    put("ORCA owned by the forged state", token_acct(&orca, &fs, 1 << 50), &mut v);
    put("state's ORCA delegated to the actor", deleg(&orca, &spec::state(), &a.key), &mut v);
    let mut t = token_acct(&orca, &a.key, 1 << 50);
    t.owner = Pubkey::from(spl2022());
    put("user's ORCA under another token program", t, &mut v);
    let mut t = token_acct(&xorca, &a.key, 1 << 50);
    t.owner = Pubkey::from(spl2022());
    put("user's xORCA under another token program", t, &mut v);
    let mut t = token_acct(&orca, &a.key, 1 << 50);
    t.owner = spec::system_program();
    put("token bytes in a system account", t, &mut v);
    let mut t = token_acct(&orca, &a.key, 1 << 50);
    t.owner = spec::program_id();
    put("token bytes owned by the staking program", t, &mut v);
    for (n, mint) in [("ORCA", &orca), ("xORCA", &xorca)] {
        for (who, owner) in [("another user's", m.key), ("the state's", spec::state()), ("the update authority's", b.init.authority), ("a stranger's", k("stranger"))] {
            if owner == a.key { continue; }
            put(&format!("{who} empty {n} account"), token_acct(mint, &owner, 0), &mut v);
        }
        // an empty account whose close authority or delegate is the actor
        let mut t = token_acct(mint, &m.key, 0);
        t.data[129..133].copy_from_slice(&1u32.to_le_bytes());
        t.data[133..165].copy_from_slice(a.key.as_ref());
        put(&format!("another user's empty {n} account the actor may close"), t, &mut v);
        let mut t = deleg(mint, &m.key, &a.key);
        t.data[64..72].copy_from_slice(&0u64.to_le_bytes());
        put(&format!("another user's empty {n} account delegated to the actor"), t, &mut v);
    }
    put("uninitialized token account", Acct { lamports: 2_039_280, owner: tok, data: vec![0; 165] }, &mut v);
    put("multisig", Acct { lamports: 3_558_720, owner: tok, data: { let mut d = vec![0; 355]; d[0] = 1; d[1] = 1; d[2] = 1; d[3..35].copy_from_slice(a.key.as_ref()); d } }, &mut v);
    put("foreign mint with the right shape", Acct { lamports: 1_461_600, owner: tok, data: spec::encode_mint(Some(&spec::state()), 1 << 40, 6, None) }, &mut v);
    put("user token of a fake mint", token_acct(&b.g.fake_mint, &a.key, 1 << 50), &mut v);
    put("plain wallet", Acct { lamports: 1 << 40, owner: spec::system_program(), data: vec![] }, &mut v);
    v.push(("nonexistent".into(), k("nobody")));
    v.push(("vault of the forged state".into(), spec::ata(&fs, &orca)));
    let va = spec::ata(&fs, &orca);
    b.w.chain.put(va, token_acct(&orca, &fs, 1 << 50));
    // other real addresses
    for key in hostile::pool(&b.w, &b.w.view(), &b.g) {
        v.push((format!("{key}"), key));
    }
    for (n, i) in [("owner's other claim", b.i2), ("owner's empty claim address", b.free), ("claim", b.i)] {
        v.push((n.into(), spec::pending(&a.key, i)));
        v.push((format!("other user's {n}"), spec::pending(&m.key, i)));
    }
    v.push(("vault ATA of xORCA".into(), spec::ata(&spec::state(), &spec::xorca_mint())));
    v.push(("token-2022".into(), Pubkey::from(spl2022())));
    v
}
fn c_get(w: &World, k: &Pubkey) -> Acct {
    w.chain.get(k).unwrap()
}
fn spl2022() -> [u8; 32] {
    use std::str::FromStr;
    Pubkey::from_str("TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb").unwrap().to_bytes()
}

/// Every call that differs from an accepted one in one privilege, one account left out, or two accounts
/// exchanged or aliased. `any` is a position where any account may stand.
fn matrix(h: &Instruction, bystander: Pubkey, any: Option<usize>) -> Vec<(String, Instruction, &'static str)> {
    let mut v = vec![];
    let n = h.accounts.len();
    for p in 0..n {
        if h.accounts[p].is_writable {
            let mut t = h.clone();
            t.accounts[p].is_writable = false;
            v.push((format!("account {p} read-only"), t, "privilege-refused"));
        }
        if h.accounts[p].is_signer {
            let mut t = h.clone();
            t.accounts[p].is_signer = false;
            v.push((format!("account {p} not signing"), t.clone(), "privilege-refused"));
            t.accounts.push(AccountMeta::new(bystander, true));
            v.push((format!("account {p} not signing, a bystander signing"), t, "privilege-refused"));
        }
        let mut t = h.clone();
        t.accounts.truncate(p);
        v.push((format!("only {p} accounts"), t, "left-out-refused"));
        let mut t = h.clone();
        t.accounts.remove(p);
        v.push((format!("account {p} left out"), t, "left-out-refused"));
        for q in 0..n {
            if q == p {
                continue;
            }
            let mut t = h.clone();
            t.accounts[p].pubkey = h.accounts[q].pubkey;
            if any != Some(p) {
                v.push((format!("account {p} an alias of {q}"), t.clone(), "alias-refused"));
            }
            t.accounts[q].pubkey = h.accounts[p].pubkey;
            v.push((format!("accounts {p} and {q} exchanged"), t, "alias-refused"));
        }
    }
    v
}

pub fn c10(ctx: &Ctx) -> i32 {
    let a = run_cases(ctx, "substitution", ctx.scale(350, 8_000), ctx.scale(45, 500), |case, r, st| {
        let mut b = bed(r);
        let cands = forge(&mut b, r);
        let hs = honest(&b, r);
        for (k, h) in hs.iter().enumerate() {
            let mut c = b.w.chain.clone();
            if !c.exec(&[h.clone()]).ok {
                continue;
            }
            st.count(&format!("{}:honest", NAMES[k]));
            let mut go = |label: String, ix: Instruction, st: &mut Stats| -> CaseResult {
                let out = b.w.chain.exec(&[ix.clone()]);
                st.eval(Some((case, k, label.clone())));
                st.count(&format!("{}:refusals", NAMES[k]));
                if out.ok {
                    return fail(format!("{} accepted with {label}", NAMES[k]), &[format!("{ix:?}"), b.w.log.join("\n")]);
                }
                Ok(())
            };
            for p in 0..h.accounts.len() {
                for (name, key) in &cands {
                    if *key == h.accounts[p].pubkey {
                        continue;
                    }
                    let mut t = h.clone();
                    t.accounts[p].pubkey = *key;
                    go(format!("account {p} replaced by {name}"), t, st)?;
                }
            }
            for _ in 0..120 {
                let n = h.accounts.len();
                if n < 2 {
                    break;
                }
                let (p, q) = (r.gen_range(0..n), r.gen_range(0..n));
                let (x, y) = (cands.choose(r).unwrap(), cands.choose(r).unwrap());
                if p == q || h.accounts[p].pubkey == x.1 || h.accounts[q].pubkey == y.1 {
                    continue;
                }
                let mut t = h.clone();
                t.accounts[p].pubkey = x.1;
                t.accounts[q].pubkey = y.1;
                go(format!("accounts {p},{q} replaced by {}, {}", x.0, y.0), t, st)?;
            }
            for (label, t, kind) in matrix(h, b.w.users[1].key, None) {
                go(label, t, st)?;
                st.count(kind);
            }
            // the derived claim address is that of the named index and no other
            if k == 1 || k == 2 {
                let at = h.data.len() - 1;
                for x in [b.i, b.i2, b.free, b.free.wrapping_add(1), r.gen()] {
                    let mut t = h.clone();
                    t.data[at] = x;
                    if x != h.data[at] {
                        go(format!("index {x} with the claim account of index {}", h.data[at]), t, st)?;
                        st.count("index-mismatch");
                    }
                }
            }
            // coordinated: forged state together with its own vault
            let f = |n: &str| cands.iter().find(|c| c.0 == n).unwrap().1;
            let (ps, pv) = [(5, 1), (1, 6), (1, 4), (1, 1), (1, 1)][k];
            for s in ["copy of the pool state", "pool state naming the user as authority"] {
                for v in ["vault of the forged state", "ORCA owned by the forged state"] {
                    let mut t = h.clone();
                    t.accounts[ps].pubkey = f(s);
                    if pv != ps {
                        t.accounts[pv].pubkey = f(v);
                    }
                    go(format!("{s} with {v}"), t.clone(), st)?;
                    if k >= 3 {
                        t.accounts[0].pubkey = b.w.users[0].key;
                        go(format!("{s}, user acting as authority"), t, st)?;
                    }
                }
            }
            st.sample(|| json!({"instruction": NAMES[k], "positions": h.accounts.len(), "candidates": cands.len()}));
        }
        Ok(())
    });
    // the same for an initialization that would be accepted
    let i = run_cases(ctx, "initialize", ctx.scale(150, 4_000), ctx.scale(30, 300), |case, r, st| {
        let mut b = bed(r);
        let cands = forge(&mut b, r);
        let gone = Acct { lamports: 0, owner: spec::system_program(), data: vec![] };
        b.w.chain.put(spec::state(), gone.clone());
        b.w.chain.put(spec::vault(), gone);
        b.w.chain.put(spec::xorca_mint(), Acct { lamports: 1_461_600, owner: spec::token_program(), data: spec::encode_mint(Some(&spec::state()), 0, 6, None) });
        b.w.chain.put(spec::deployer(), Acct { lamports: 1 << 40, owner: spec::system_program(), data: vec![] });
        let h = spec::ix_initialize(&spec::deployer(), &b.w.users[0].key, cooldown(r).max(0));
        if !b.w.chain.clone().exec(&[h.clone()]).ok {
            return fail("a valid initialization is refused", &[format!("{h:?}")]);
        }
        st.count("initialize:honest");
        let mut tries = matrix(&h, b.w.users[1].key, Some(1));
        for p in [0usize, 2, 3, 4, 5, 6, 7, 8] {
            for (name, key) in cands.iter().filter(|c| c.1 != h.accounts[p].pubkey) {
                let mut t = h.clone();
                t.accounts[p].pubkey = *key;
                tries.push((format!("account {p} replaced by {name}"), t, "substitution-refused"));
            }
        }
        for (label, t, kind) in tries {
            let out = b.w.chain.exec(&[t.clone()]);
            st.eval(Some((case, "initialize", label.clone())));
            st.count("initialize:refusals");
            st.count(kind);
            if out.ok || b.w.chain.get(&spec::state()).is_some_and(|a| !a.data.is_empty()) {
                return fail(format!("initialize accepted with {label}"), &[format!("{t:?}")]);
            }
        }
        Ok(())
    });
    // right addresses, wrong contents
    let c = run_cases(ctx, "contents", ctx.scale(1200, 30_000), ctx.scale(40, 400), |case, r, st| {
        let b = bed(r);
        let hs = honest(&b, r);
        let other = derive_key("other", r.gen(), 0);
        type Mutator = (&'static str, Pubkey, Box<dyn Fn(&mut Acct, &mut ChaCha8Rng)>, [bool; 5]);
        let u = b.w.users[0].clone();
        let alien = move |a: &mut Acct, r: &mut ChaCha8Rng| a.owner = [other, spec::system_program(), spec::token_program()][r.gen_range(0..3)];
        let alien_t = move |a: &mut Acct, r: &mut ChaCha8Rng| a.owner = [other, spec::system_program(), spec::program_id(), Pubkey::from(spl2022())][r.gen_range(0..4)];
        let all = [true; 5];
        let swd = [true, true, true, false, false];
        let muts: Vec<Mutator> = vec![
            ("state with a foreign owner", spec::state(), Box::new(alien), all),
            ("state with another discriminator", spec::state(), Box::new(|a, r| a.data[0] = [0, 2, 3, 4, 255, 129][r.gen_range(0..6)]), all),
            ("short state", spec::state(), Box::new(|a, r| a.data.truncate([0, 1, 8, 56, 1024, 2047][r.gen_range(0..6)])), all),
            ("state with a wrong bump", spec::state(), Box::new(|a, r| a.data[6] = a.data[6].wrapping_add(r.gen_range(1..=255))), all),
            ("state with a wrong vault bump", spec::state(), Box::new(|a, r| a.data[7] = a.data[7].wrapping_add(r.gen_range(1..=255))), swd),
            ("vault with a foreign owner program", spec::vault(), Box::new(alien_t), swd),
            ("vault owned by somebody else", spec::vault(), Box::new(move |a, _| a.data[32..64].copy_from_slice(other.as_ref())), swd),
            ("vault of another mint", spec::vault(), Box::new(move |a, _| a.data[..32].copy_from_slice(other.as_ref())), swd),
            ("short vault", spec::vault(), Box::new(|a, r| a.data.truncate(r.gen_range(0..165))), swd),
            ("claim with a foreign owner", spec::pending(&u.key, b.i), Box::new(alien), [false, false, true, false, false]),
            ("claim with another discriminator", spec::pending(&u.key, b.i), Box::new(|a, r| a.data[0] = [0, 1, 3, 4, 255, 130][r.gen_range(0..6)]), [false, false, true, false, false]),
            ("short claim", spec::pending(&u.key, b.i), Box::new(|a, r| a.data.truncate([1, 8, 56, 1023][r.gen_range(0..4)])), [false, false, true, false, false]),
            ("claim with a wrong bump", spec::pending(&u.key, b.i), Box::new(|a, r| a.data[6] = a.data[6].wrapping_add(r.gen_range(1..=255))), [false, false, true, false, false]),
            ("claim address already holding data", spec::pending(&u.key, b.free), Box::new(|a, r| {
                a.lamports = 20_000_000;
                a.owner = spec::program_id();
                a.data = vec![0; [1024, 1, 56, 2048][r.gen_range(0..4)]];
                a.data[0] = r.gen_range(0..4);
            }), [false, true, false, false, false]),
            ("xORCA mint with a foreign owner program", spec::xorca_mint(), Box::new(alien_t), [true, true, false, false, false]),
            ("xORCA mint with another mint authority", spec::xorca_mint(), Box::new(move |a, _| a.data[4..36].copy_from_slice(other.as_ref())), [true, true, false, false, false]),
            ("xORCA mint without mint authority", spec::xorca_mint(), Box::new(|a, _| a.data[0] = 0), [true, true, false, false, false]),
            ("xORCA mint with a freeze authority", spec::xorca_mint(), Box::new(move |a, _| { a.data[46] = 1; a.data[50..82].copy_from_slice(other.as_ref()) }), [false, true, false, false, false]),
            ("short xORCA mint", spec::xorca_mint(), Box::new(|a, r| a.data.truncate(r.gen_range(0..82))), [true, true, false, false, false]),
            ("ORCA mint with a foreign owner program", spec::orca_mint(), Box::new(alien_t), swd),
            ("user ORCA account of another owner", u.orca, Box::new(move |a, r| { a.data[32..64].copy_from_slice(other.as_ref()); if r.gen_bool(0.4) { a.data[64..72].fill(0) } }), [true, false, true, false, false]),
            ("user ORCA account of another mint", u.orca, Box::new(move |a, r| { a.data[..32].copy_from_slice(other.as_ref()); if r.gen_bool(0.4) { a.data[64..72].fill(0) } }), [true, false, true, false, false]),
            ("user ORCA account under another program", u.orca, Box::new(alien_t), [true, false, true, false, false]),
            ("frozen user ORCA account", u.orca, Box::new(|a, _| a.data[108] = 2), [true, false, true, false, false]),
            ("user xORCA account of another owner", u.xorca, Box::new(move |a, r| { a.data[32..64].copy_from_slice(other.as_ref()); if r.gen_bool(0.4) { a.data[64..72].fill(0) } }), [true, true, false, false, false]),
            ("user xORCA account of another mint", u.xorca, Box::new(move |a, r| { a.data[..32].copy_from_slice(other.as_ref()); if r.gen_bool(0.4) { a.data[64..72].fill(0) } }), [true, true, false, false, false]),
            ("user xORCA account under another program", u.xorca, Box::new(alien_t), [true, true, false, false, false]),
            ("frozen user xORCA account", u.xorca, Box::new(|a, _| a.data[108] = 2), [true, true, false, false, false]),
        ];
        for (name, key, f, applies) in &muts {
            let orig = b.w.chain.get(key);
            let mut acct = orig.clone().unwrap_or(Acct { lamports: 0, owner: spec::system_program(), data: vec![] });
            f(&mut acct, r);
            let mut c = b.w.chain.clone();
            c.put(*key, acct.clone());
            for (k, h) in hs.iter().enumerate() {
                if !applies[k] {
                    continue;
                }
                let out = c.exec(&[h.clone()]);
                st.eval(Some((case, k, *name, acct.data.len(), acct.owner)));
                st.count("contents-refused");
                if out.ok {
                    return fail(format!("{} accepted with {name}", NAMES[k]), &[format!("{:?} {} bytes, first {:?}", acct.owner, acct.data.len(), acct.data.first()), b.w.log.join("\n")]);
                }
            }
        }
        let _: Option<StateV> = None;
        Ok(())
    });
    finish(ctx, vec![("substitution".into(), a), ("initialize".into(), i), ("contents".into(), c)], Report {
        rule: "One evaluation per transaction that would succeed but for one or two substituted accounts (about sixty candidates at every position, random pairs, coordinated forgeries) or one account with wrong contents at the right address; all must be refused. Distinct by (case, instruction, substitution).".into(),
        assumptions: vec![ENGINE.into(), "Some candidates (program-owned copies) cannot be created on a real chain; refusing them is the documented defence in depth. Other token accounts of the acting user are legitimate and not used as candidates.".into()],
        require: req(&[("stake:refusals", 5000), ("unstake:refusals", 5000), ("withdraw:refusals", 5000), ("set_cooldown:refusals", 2000), ("set_authority:refusals", 2000), ("contents-refused", 5000), ("privilege-refused", 1000), ("index-mismatch", 500), ("left-out-refused", 1000), ("alias-refused", 1000), ("initialize:honest", 50), ("initialize:refusals", 5000)]),
        min_distinct: 20_000,
    })
}

/// The heap (and time) an execution would have used on chain; refused when it is more than there is.
fn heap(out: &TxOut, st: &mut Stats) -> Option<String> {
    let (bytes, n) = out.notes.heap;
    if n > 0 {
        st.count("heap-metered");
        st.count(match bytes {
            0..=1023 => "heap:<1KiB",
            1024..=4095 => "heap:<4KiB",
            4096..=16383 => "heap:<16KiB",
            _ => "heap:16KiB+",
        });
    }
    if out.notes.entered > 0 {
        st.count(match out.notes.cpu.as_micros() {
            0 => "cpu:<1us",
            1..=199 => "cpu:<200us",
            200..=4999 => "cpu:<5ms",
            _ => "cpu:5ms+",
        });
    }
    (bytes > crate::meter::ROOM).then(|| {
        format!("the program ran out of memory: {bytes} bytes in {n} allocations, of {} there are on chain", crate::meter::ROOM)
    })
}

/// Arbitrary input never crashes the program and is never half-applied.
pub fn c15(ctx: &Ctx) -> i32 {
    // reference parser: the instruction kind, if the bytes are a well-formed call
    fn parse(d: &[u8]) -> Option<u8> {
        let need = match d.first()? {
            0 => 9,
            1 => 10,
            2 => 2,
            3 => 9,
            4 => match d.get(1)? {
                0 => 10,
                1 => 34,
                _ => return None,
            },
            _ => return None,
        };
        (d.len() >= need).then(|| d[0])
    }
    let a = run_cases(ctx, "bytes", ctx.scale(1800, 50_000), ctx.scale(45, 500), |case, r, st| {
        let mut b = bed(r);
        let cands: Vec<Pubkey> = forge(&mut b, r).into_iter().map(|c| c.1).collect();
        // a few accounts full of noise under interesting owners
        let mut noise = vec![];
        for i in 0..4u64 {
            let k = derive_key("noise", case, i);
            let n = [0usize, 1, 7, 82, 164, 165, 355, 1024, 2047, 2048, 10_240][r.gen_range(0..11)];
            let mut d: Vec<u8> = (0..n).map(|_| r.gen()).collect();
            if n > 0 && r.gen_bool(0.7) {
                d[0] = r.gen_range(0..4);
            }
            let owner = [spec::program_id(), spec::token_program(), spec::system_program()][r.gen_range(0..3)];
            b.w.chain.put(k, Acct { lamports: 1 << 40, owner, data: d });
            noise.push(k);
        }
        let users: Vec<Pubkey> = b.w.users.iter().map(|u| u.key).collect();
        for _ in 0..60 {
            let hs = honest(&b, r);
            let mut ix = hs.choose(r).unwrap().clone();
            match r.gen_range(0..7) {
                0 => {
                    let n = r.gen_range(0..64);
                    ix.data = (0..n).map(|_| r.gen()).collect();
                    if n > 0 && r.gen_bool(0.7) {
                        ix.data[0] = r.gen_range(0..8);
                    }
                    if n > 1 && r.gen_bool(0.5) {
                        ix.data[1] = r.gen_range(0..4);
                    }
                }
                1 => {
                    let n = r.gen_range(0..=ix.data.len());
                    ix.data.truncate(n);
                }
                2 => {
                    let n = if r.gen_bool(0.2) { r.gen_range(40..10_000) } else { r.gen_range(1..40) };
                    ix.data.extend((0..n).map(|_| r.gen::<u8>()));
                }
                3 => {
                    for _ in 0..r.gen_range(1..4) {
                        let i = r.gen_range(0..ix.data.len());
                        ix.data[i] = [0, 1, 127, 128, 255, r.gen()][r.gen_range(0..6)];
                    }
                }
                4 => ix.data = vec![],
                _ => {}
            }
            match r.gen_range(0..5) {
                0 => {
                    let n = r.gen_range(0..14);
                    ix.accounts = (0..n)
                        .map(|_| {
                            let k = *[cands.choose(r).unwrap(), noise.choose(r).unwrap()][r.gen_range(0..2)];
                            AccountMeta { pubkey: k, is_signer: users.contains(&k) && r.gen(), is_writable: r.gen() }
                        })
                        .collect();
                }
                1 => {
                    for _ in 0..r.gen_range(1..4) {
                        let i = r.gen_range(0..ix.accounts.len());
                        ix.accounts[i].pubkey = if r.gen() { *noise.choose(r).unwrap() } else { *cands.choose(r).unwrap() };
                    }
                }
                2 => {
                    // aliasing
                    let (i, j) = (r.gen_range(0..ix.accounts.len()), r.gen_range(0..ix.accounts.len()));
                    ix.accounts[i].pubkey = ix.accounts[j].pubkey;
                }
                3 => {
                    // noise at a well-known address
                    let i = r.gen_range(0..ix.accounts.len());
                    let k = ix.accounts[i].pubkey;
                    if let Some(mut acct) = b.w.chain.get(&k) {
                        if !acct.data.is_empty() && acct.data.len() <= 2048 {
                            let saved = acct.clone();
                            match r.gen_range(0..3) {
                                0 => acct.data.truncate(r.gen_range(0..=saved.data.len())),
                                1 => {
                                    let p = r.gen_range(0..acct.data.len());
                                    acct.data[p] = r.gen();
                                }
                                _ => acct.data.iter_mut().for_each(|x| *x = r.gen()),
                            }
                            let mut c = b.w.chain.clone();
                            c.put(k, acct);
                            let out = c.exec(&[ix.clone()]);
                            st.eval(Some((case, ix.data.clone(), "noise", i)));
                            st.count("noisy-accounts");
                            if let Some(m) = heap(&out, st) {
                                return fail(m, &[format!("{ix:?}")]);
                            }
                            if let Some(p) = out.notes.panicked {
                                return fail(format!("the program crashed ({p}) on a damaged account {i}"), &[format!("{ix:?}")]);
                            }
                            continue;
                        }
                    }
                }
                _ => {}
            }
            for m in ix.accounts.iter_mut() {
                if m.pubkey == b.init.authority && r.gen_bool(0.5) {
                    m.is_signer = true;
                }
            }
            let parsed = parse(&ix.data);
            let mut c = b.w.chain.clone();
            let out = c.exec(&[ix.clone()]);
            st.eval(Some((case, ix.data.clone(), ix.accounts.len())));
            st.count(match (parsed.is_some(), out.ok) {
                (true, true) => "well-formed:ok",
                (true, false) => "well-formed:err",
                _ => "malformed",
            });
            st.add("program-entries", out.notes.entered as u64);
            if let Some(p) = &out.notes.panicked {
                return fail(format!("the program crashed: {p}"), &[format!("{ix:?}")]);
            }
            if let Some(m) = heap(&out, st) {
                return fail(m, &[format!("{ix:?}")]);
            }
            if parsed.is_none() && out.ok {
                return fail("malformed instruction data was accepted", &[format!("{ix:?}")]);
            }
            if !out.ok && out.pre != out.post {
                return fail("a refused instruction had effects", &[format!("{ix:?}")]);
            }
            st.sample(|| json!({"data": ix.data, "accounts": ix.accounts.len(), "ok": out.ok, "code": out.code}));
        }
        Ok(())
    });
    // every possible prefix of every call, every discriminator byte
    let d = run_cases(ctx, "prefixes", ctx.scale(40, 400), 60, |case, r, st| {
        let b = bed(r);
        for ix in honest(&b, r) {
            for n in 0..ix.data.len() {
                let mut t = ix.clone();
                t.data.truncate(n);
                let mut c = b.w.chain.clone();
                let out = c.exec(&[t.clone()]);
                st.eval(Some((case, t.data.clone())));
                st.count("prefixes");
                if out.ok || out.notes.panicked.is_some() {
                    return fail(format!("truncated data of {n} bytes: ok={} {:?}", out.ok, out.notes.panicked), &[format!("{t:?}")]);
                }
            }
            for d in 5..=255u8 {
                let mut t = ix.clone();
                t.data[0] = d;
                let out = b.w.chain.clone().exec(&[t.clone()]);
                st.eval(Some((case, t.data.clone())));
                if out.ok || out.notes.panicked.is_some() {
                    return fail(format!("discriminator {d}: ok={} {:?}", out.ok, out.notes.panicked), &[format!("{t:?}")]);
                }
            }
        }
        Ok(())
    });
    // well-formed calls with amounts, pools and times of every magnitude
    let m = run_cases(ctx, "magnitudes", ctx.scale(3500, 100_000), ctx.scale(25, 300), |_, r, st| {
        let mut init = Init::simple(r.gen(), 1);
        init.cooldown = cooldown(r);
        init.now = match r.gen_range(0..6) {
            0 => i64::MAX - r.gen_range(0..100_000),
            1 => i64::MIN + r.gen_range(0..100_000),
            2 => r.gen_range(-3..4),
            3 => r.gen::<i64>() >> r.gen_range(0..63),
            _ => r.gen_range(1_600_000_000..2_200_000_000),
        };
        let mut w = with_base(|b| World::new(b, &init));
        let near = |r: &mut ChaCha8Rng, v: u64| v.saturating_sub(r.gen_range(0..3));
        for k in 0..40u8 {
            let (v, s, e) = super::run::gen_pool(r);
            let n = v.saturating_sub(e);
            let any = |r: &mut ChaCha8Rng| match r.gen_range(0..8) {
                0 => near(r, u64::MAX),
                1 => near(r, s),
                2 => near(r, n),
                3 => near(r, e),
                4 => near(r, u64::MAX - v),
                5 => near(r, u64::MAX - s),
                _ => amount(r, &[v, s, e, n]),
            };
            let (orca, xorca, a) = (any(r), any(r).min(s), any(r));
            super::run::set_pool(&mut w, v, s, e, orca.max(a), if r.gen_bool(0.8) { xorca.max(a.min(s)) } else { xorca });
            w.log.truncate(1);
            w.log.push(format!("vault={v} supply={s} escrow={e} orca={orca} xorca={xorca}"));
            let op = match r.gen_range(0..5) {
                0 => Op::Stake { u: 0, a },
                1 | 2 => Op::Unstake { u: 0, x: a.min(if r.gen_bool(0.8) { s } else { u64::MAX }), i: k },
                3 => {
                    w.inject_claim(0, 100 + k, a.min(if r.gen_bool(0.7) { e.min(v) } else { u64::MAX }), if r.gen() { init.now } else { cooldown(r) });
                    Op::Withdraw { u: 0, i: 100 + k }
                }
                _ => Op::SetCd { by: init.authority, v: if r.gen() { cooldown(r) } else { r.gen::<i64>() >> r.gen_range(0..63) } },
            };
            let t = w.apply(&op);
            st.eval(Some((v, s, e, orca, xorca, format!("{op:?}"))));
            st.count(if t.out.ok { "magnitudes:ok" } else { "magnitudes:err" });
            if let Some(p) = &t.out.notes.panicked {
                return fail(format!("the program crashed: {p} ({op:?})"), &w.log);
            }
            if let Some(m) = heap(&t.out, st) {
                return fail(m, &w.log);
            }
            st.sample(|| json!({"op": format!("{op:?}"), "vault": v, "supply": s, "escrow": e, "ok": t.out.ok, "code": t.out.code}));
        }
        Ok(())
    });
    finish(ctx, vec![("bytes".into(), a), ("prefixes".into(), d), ("magnitudes".into(), m)], Report {
        rule: "One evaluation per program execution on random, mutated or truncated data and account lists (noise accounts, aliases, damaged well-known accounts): no panic, malformed data refused, refusals without effects; and on well-formed calls with pools, amounts, cool-downs and times of every magnitude. Distinct by (case, data, accounts).".into(),
        assumptions: vec![ENGINE.into(), "A panic is observed by unwinding in the native build.".into()],
        require: req(&[("malformed", 10_000), ("well-formed:err", 10_000), ("well-formed:ok", 500), ("noisy-accounts", 2000), ("prefixes", 1000), ("program-entries", 30_000), ("magnitudes:ok", 5000), ("magnitudes:err", 5000), ("heap-metered", 20_000)]),
        min_distinct: 20_000,
    })
}
