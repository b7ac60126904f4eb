//! Random histories over the deployed program.
use crate::engine::Chain;
use crate::spec;
use crate::world::*;
use rand::seq::SliceRandom;
use rand::Rng;
use rand_chacha::ChaCha8Rng;
use solana_sdk::pubkey::Pubkey;

#[derive(Clone, Debug)]
pub struct Profile {
    pub stake: u32,
    pub unstake: u32,
    pub withdraw: u32,
    pub set_cd: u32,
    pub set_auth: u32,
    pub donate: u32,
    pub moves: u32,
    pub burn: u32,
    pub dust: u32,
    pub warp: u32,
    pub multi: u32,
    pub spend: u32,
    /// Some pools carry data in the reserved bytes of their state.
    pub reserved: bool,
    /// Kinds allowed inside a multi-instruction transaction.
    pub multi_kinds: &'static [&'static str],
    pub users: usize,
    pub steps: usize,
    /// Restrict the set of claim indices used.
    pub few_indices: bool,
}
impl Profile {
    pub fn base() -> Profile {
        Profile {
            stake: 20,
            unstake: 22,
            withdraw: 20,
            set_cd: 4,
            set_auth: 2,
            donate: 6,
            moves: 3,
            burn: 2,
            dust: 4,
            warp: 12,
            multi: 6,
            spend: 0,
            reserved: false,
            multi_kinds: &["stake", "unstake", "withdraw", "donate", "dust", "set_cooldown"],
            users: 4,
            steps: 40,
            few_indices: true,
        }
    }
}

/// Initial situations a real deployment can reach: claims = escrow,
/// non-escrowed ORCA >= xORCA supply.
pub fn reachable_world(base: &Chain, r: &mut ChaCha8Rng, users: usize, case: u64) -> World {
    reachable_world_in(base, r, users, case, false)
}
pub fn reachable_world_in(base: &Chain, r: &mut ChaCha8Rng, users: usize, case: u64, ata_only: bool) -> World {
    let mut init = Init::simple(r.gen(), users);
    init.mix_roles(r);
    init.ata_only = ata_only;
    init.cooldown = cooldown(r);
    init.now = match r.gen_range(0..8) {
        0 => 0,
        1 => -(r.gen_range(1..1_000_000_000i64)),
        2 => r.gen_range(0..1000),
        3 => i64::from(u32::MAX) + r.gen_range(-2..3),
        _ => r.gen_range(1_600_000_000..2_000_000_000),
    };
    let scale: u64 = match case % 4 {
        0 => 1_000_000_000_000_000, // ORCA-like
        1 => 1000,
        2 => u64::MAX / 4,
        _ => 1u64 << r.gen_range(4..60),
    };
    init.orca_each = (0..users).map(|_| r.gen_range(0..=scale / users as u64)).collect();
    init.via_initialize = r.gen_bool(0.3);
    if !init.via_initialize && r.gen_bool(0.7) {
        let budget = scale;
        init.xorca_each = (0..users)
            .map(|_| if r.gen_bool(0.2) { 0 } else { amount_upto(r, budget / users as u64, &[]) })
            .collect();
        if case % 8 == 6 {
            // one holder with nearly everything
            let all = r.gen_range(budget / 2..=budget);
            init.xorca_each.fill(0);
            init.xorca_each[r.gen_range(0..users)] = all;
        }
        init.extra_supply = if r.gen_bool(0.5) { r.gen_range(0..=1) } else { amount_upto(r, budget / 4, &[]) };
        let s: u64 = init.xorca_each.iter().sum::<u64>() + init.extra_supply;
        let n = match r.gen_range(0..4) {
            0 => s,
            1 => s + r.gen_range(0..=s / 1000 + 1),
            2 => s + r.gen_range(0..=s / 2 + 1),
            _ => s + amount_upto(r, (u64::MAX / 2).saturating_sub(s), &[s, 100, 1]),
        };
        init.vault = n;
    }
    let claims: Vec<(usize, u8, u64, i64)> = if !init.via_initialize && r.gen_bool(0.4) {
        let k = r.gen_range(1..6);
        let mut used = std::collections::BTreeSet::new();
        (0..k)
            .filter_map(|_| {
                let (u, i) = (r.gen_range(0..users), index(r));
                if !used.insert((u, i)) {
                    return None;
                }
                let room = (u64::MAX - init.vault) / 8;
                let a = amount_upto(r, room.min(scale), &[]).max(1);
                let ts = init.now.saturating_add(r.gen_range(-100..100));
                Some((u, i, a, ts))
            })
            .collect()
    } else {
        vec![]
    };
    for c in &claims {
        init.vault += c.2;
        init.escrow += c.2;
    }
    let mut w = World::new(base, &init);
    for (u, i, a, ts) in claims {
        w.inject_claim(u, i, a, ts);
    }
    w
}

pub fn gen_op(r: &mut ChaCha8Rng, w: &World, v: &View, p: &Profile) -> Op {
    let kinds: [(&str, u32); 12] = [
        ("stake", p.stake),
        ("unstake", p.unstake),
        ("withdraw", p.withdraw),
        ("set_cooldown", p.set_cd),
        ("set_authority", p.set_auth),
        ("donate", p.donate),
        ("move", p.moves),
        ("burn", p.burn),
        ("dust", p.dust),
        ("warp", p.warp),
        ("multi", p.multi),
        ("spend", p.spend),
    ];
    let total: u32 = kinds.iter().map(|k| k.1).sum();
    let mut x = r.gen_range(0..total);
    let mut kind = "warp";
    for (k, n) in kinds {
        if x < n {
            kind = k;
            break;
        }
        x -= n;
    }
    if kind == "multi" {
        let n = r.gen_range(2..4);
        let mut ops = vec![];
        let mut cur = v.clone();
        for _ in 0..n {
            let k = p.multi_kinds.choose(r).unwrap();
            let op = gen_kind(r, w, &cur, p, k);
            if let Ok((nv, _)) = w.predict(&cur, &op) {
                cur = nv;
            }
            ops.push(op);
        }
        return Op::Multi(ops);
    }
    gen_kind(r, w, v, p, kind)
}

fn idx(r: &mut ChaCha8Rng, p: &Profile) -> u8 {
    if p.few_indices {
        if r.gen_bool(0.8) { [0u8, 1, 255][r.gen_range(0..3)] } else { index(r) }
    } else {
        index(r)
    }
}

pub fn gen_kind(r: &mut ChaCha8Rng, w: &World, v: &View, p: &Profile, kind: &str) -> Op {
    let nu = w.users.len();
    let u = r.gen_range(0..nu);
    let n = v.free().unwrap_or(0);
    let auth = v.state.as_ref().map_or(Pubkey::default(), |s| s.authority);
    match kind {
        "stake" => {
            let rich: Vec<usize> = (0..nu).filter(|i| v.users[*i].orca > 0).collect();
            let u = if rich.is_empty() || r.gen_bool(0.05) { u } else { *rich.choose(r).unwrap() };
            let b = v.users[u].orca;
            let anchors = [b, n, v.supply, n / 100, if v.supply > 0 { n / v.supply.max(1) + 1 } else { 1 }];
            let a = if r.gen_bool(0.92) { amount_upto(r, b, &anchors) } else { amount(r, &anchors) };
            Op::Stake { u, a }
        }
        "unstake" => {
            let rich: Vec<usize> = (0..nu).filter(|i| v.users[*i].xorca > 0).collect();
            let u = if rich.is_empty() || r.gen_bool(0.05) { u } else { *rich.choose(r).unwrap() };
            let b = v.users[u].xorca;
            let anchors = [b, v.supply, b / 2, 1];
            let x = if r.gen_bool(0.92) { amount_upto(r, b, &anchors) } else { amount(r, &anchors) };
            Op::Unstake { u, x, i: idx(r, p) }
        }
        "withdraw" => {
            let live: Vec<(usize, u8)> =
                v.slots.iter().filter(|(_, s)| s.claim.is_some()).map(|(k, _)| *k).collect();
            if live.is_empty() || r.gen_bool(0.12) {
                Op::Withdraw { u, i: idx(r, p) }
            } else {
                let (u, i) = *live.choose(r).unwrap();
                Op::Withdraw { u, i }
            }
        }
        "set_cooldown" => {
            let by = if r.gen_bool(0.85) && can_act(&auth) { auth } else { w.users[u].key };
            let val = if r.gen_bool(0.15) { -cooldown(r).max(1) } else { cooldown(r) };
            Op::SetCd { by, v: val }
        }
        "set_authority" => {
            let by = if r.gen_bool(0.8) && can_act(&auth) { auth } else { w.users[u].key };
            let new = match r.gen_range(0..20) {
                0..=3 => w.users[u].key,
                4 => auth,
                5 => *special_keys().choose(r).unwrap(),
                6 => any_key(r, &[]),
                _ => derive_key("authority", r.gen_range(0..4), 7),
            };
            Op::SetAuth { by, new }
        }
        "donate" => Op::Donate { u, a: amount_upto(r, v.users[u].orca, &[v.supply, n, 1]) },
        "move" => {
            let t = r.gen_range(0..nu);
            if r.gen_bool(0.5) {
                Op::MoveO { f: u, t, a: amount_upto(r, v.users[u].orca, &[]) }
            } else {
                Op::MoveX { f: u, t, a: amount_upto(r, v.users[u].xorca, &[]) }
            }
        }
        "burn" => Op::BurnX { u, a: amount_upto(r, v.users[u].xorca, &[1, v.supply / 2]) },
        "spend" => {
            // mostly everything, by somebody who has a claim
            let owners: Vec<usize> = v.slots.iter().filter(|(_, s)| s.claim.is_some()).map(|(k, _)| k.0).collect();
            let u = if r.gen_bool(0.8) { *owners.choose(r).unwrap_or(&u) } else { u };
            let have = v.users[u].lamports;
            let keep = match r.gen_range(0..6) {
                0 => 890_880,
                1 => w.rent_pending,
                _ => 0,
            };
            Op::Spend { u, l: have - have.min(keep) }
        }
        "dust" => {
            let l = match r.gen_range(0..5) {
                0 => 1,
                1 => 890_880,
                2 => w.rent_pending - 1 + r.gen_range(0..3),
                3 => r.gen_range(1..20_000_000),
                _ => 2 * w.rent_pending,
            };
            match r.gen_range(0..8) {
                0 => Op::DustState { l },
                1 => Op::DustVault { l },
                _ => Op::Dust { u, i: idx(r, p), l },
            }
        }
        _ => {
            // to just before / at / after the maturity of some claim, or anywhere
            let ts: Vec<i64> = v.slots.values().filter_map(|s| s.claim.as_ref()).map(|c| c.ts).collect();
            let t = match r.gen_range(0..7) {
                6 => {
                    let d = dictionary();
                    let s = d[r.gen_range(0..d.len())];
                    v.now.saturating_add((s & 0xFFFF_FFFF_FF) as i64 + r.gen_range(-1..2))
                }
                0 | 1 | 2 if !ts.is_empty() => ts.choose(r).unwrap().saturating_add(r.gen_range(-1..2)),
                3 => v.now.saturating_add(r.gen_range(0..3)),
                4 => v.now.saturating_add(cooldown(r)).min(i64::MAX - 5_000_000_000),
                _ => v.now.saturating_add(r.gen_range(0..1_000_000)),
            };
            Op::Warp { t: t.max(v.now) }
        }
    }
}

/// Human-readable mismatch between the model's view and the observed one.
pub fn diff(exp: &View, got: &View) -> Option<String> {
    if exp == got {
        return None;
    }
    let mut d = vec![];
    macro_rules! c {
        ($($f:ident),*) => { $( if exp.$f != got.$f {
            d.push(format!("{}: expected {:?}, observed {:?}", stringify!($f), exp.$f, got.$f)); } )* };
    }
    c!(state, state_lamports, vault, vault_lamports, vault_sane, supply, orca_supply, mints_sane, users, slots);
    if d.is_empty() { None } else { Some(d.join("; ")) }
}

/// A reusable base chain per thread.
pub fn with_base<T>(f: impl FnOnce(&Chain) -> T) -> T {
    thread_local! {
        static BASE: std::cell::RefCell<Option<Chain>> = const { std::cell::RefCell::new(None) };
    }
    BASE.with(|b| {
        let mut b = b.borrow_mut();
        let c = b.get_or_insert_with(Chain::new);
        f(c)
    })
}
pub fn vault_key() -> Pubkey {
    spec::vault()
}
