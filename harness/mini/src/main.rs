//! Instruction streams over the mini runtime, to be run under AddressSanitizer,
//! with overflow checks and debug assertions, or under Miri.
//! usage: xm <seed> <first case> <cases> [verbose]
mod minisvm;
use minisvm::*;
use std::collections::{BTreeMap, BTreeSet};
use xorca_staking_program::entrypoint::process_instruction as entry;

struct Rng(u64);
impl Rng {
    fn new(seed: u64, case: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ case.wrapping_mul(0xD1B54A32D192ED03) ^ 0x5851F42D4C957F2D);
        for _ in 0..4 {
            r.u64();
        }
        r
    }
    fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.u64() % n.max(1)
    }
    fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a)
    }
    fn p(&mut self, percent: u64) -> bool {
        self.below(100) < percent
    }
    fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// Boundary-heavy.
    fn amount(&mut self, anchors: &[u64]) -> u64 {
        match self.below(8) {
            0 => self.below(4),
            1 => u64::MAX - self.below(220),
            2 => (1u64 << self.below(64)).wrapping_add(self.below(3)).wrapping_sub(1),
            3 | 4 if !anchors.is_empty() => {
                let a = *self.pick(anchors);
                a.saturating_add(self.below(3)).saturating_sub(1)
            }
            5 => [99, 100, 101, 1_000_000][self.below(4) as usize],
            _ => self.u64() >> self.below(64),
        }
    }
    fn time(&mut self) -> i64 {
        match self.below(7) {
            0 => 0,
            1 => i64::MAX - self.below(3) as i64,
            2 => i64::MIN + self.below(3) as i64,
            3 => -(self.below(1 << 40) as i64),
            _ => 1_700_000_000 + self.below(1 << 31) as i64,
        }
    }
}

fn claim_data(u: &Key, i: u8, amount: u64, ts: i64, bump: u8) -> Vec<u8> {
    let mut d = vec![0u8; 1024];
    d[0] = 2;
    d[6] = bump;
    d[7] = i;
    d[8..40].copy_from_slice(u);
    d[40..48].copy_from_slice(&amount.to_le_bytes());
    d[48..56].copy_from_slice(&ts.to_le_bytes());
    d
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, first, cases) = (n(1), n(2), n(3));
    let verbose = a.len() > 4;
    std::panic::set_hook(Box::new(|_| {}));
    let mut count: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: BTreeSet<u64> = BTreeSet::new();
    for case in first..first + cases {
        // the last line tells the parent which case died
        eprintln!("case {case}");
        run(seed, case, verbose, &mut count, &mut distinct);
    }
    for (k, v) in &count {
        println!("count {v} {k}");
    }
    let mut out = String::new();
    for d in &distinct {
        out.push_str(&format!("distinct {d:x}\n"));
    }
    print!("{out}");
    println!("done");
}

fn bad(m: String) -> ! {
    eprintln!("FOUND {m}");
    std::process::exit(17)
}

const KIND: [&str; 6] = ["stake", "unstake", "withdraw", "initialize", "set_cooldown", "set_authority"];

fn run(seed: u64, case: u64, verbose: bool, count: &mut BTreeMap<String, u64>, distinct: &mut BTreeSet<u64>) {
    let r = &mut Rng::new(seed, case);
    let auth = user(200);
    let fresh = r.p(12);
    let s = if r.p(25) { 0 } else { r.amount(&[]) };
    let nn = if r.p(20) { 0 } else { r.amount(&[s, s]) };
    let e = if r.p(50) { 0 } else { r.amount(&[]).min(u64::MAX - nn) };
    let v = if r.p(5) { e.saturating_sub(1) } else { nn.saturating_add(e) };
    let cd = if r.p(30) { r.time() } else { r.below(1 << 20) as i64 };
    let mut p = Pool::new(entry, auth, cd, v, s, e);
    if fresh {
        p.svm.accts.remove(&state());
        p.svm.accts.remove(&vault());
        p.set_supply(0);
        p.fund(deployer(), FUND);
        if r.p(40) {
            p.fund(state(), 1 + r.below(20_000_000));
        }
        if r.p(30) {
            p.set_token(vault(), orca(), state(), r.below(3));
        }
    }
    if r.p(60) {
        p.svm.now = r.time();
    }
    let users = [user(1), user(2)];
    for u in &users {
        let (o, x) = (r.amount(&[v, e]), r.amount(&[s]));
        p.add_user(*u, o, x);
        if r.p(70) {
            let i = *r.pick(&[0u8, 1, 255]);
            let amt = r.amount(&[e, v, o]);
            let ts = if r.p(70) { p.svm.now.saturating_sub(r.below(3) as i64) } else { r.time() };
            let (k, b) = find(&[b"pending_withdraw", u, &[i]], &program());
            p.svm.accts.insert(k, Acct { lamports: rent(1024), owner: program(), data: claim_data(u, i, amt, ts, b), executable: false });
        }
    }
    // accounts an attacker could present: every owner, awkward lengths, noise
    let mut noise = vec![];
    for i in 0..3u8 {
        let k = user(100 + i);
        let n = *r.pick(&[0u64, 1, 2, 7, 8, 9, 55, 56, 57, 71, 72, 81, 82, 164, 165, 166, 1023, 1024, 2047, 2048]) as usize;
        let mut d: Vec<u8> = (0..n.div_ceil(8)).flat_map(|_| r.u64().to_le_bytes()).collect();
        d.truncate(n);
        if n > 0 && r.p(70) {
            d[0] = r.below(5) as u8;
        }
        let owner = *r.pick(&[program(), token(), SYSTEM, [7; 32]]);
        p.svm.accts.insert(k, Acct { lamports: rent(n), owner, data: d, executable: false });
        noise.push(k);
    }
    for _ in 0..6 {
        let u = *r.pick(&users);
        let kind = if fresh && r.p(60) { 3 } else { r.below(6) as usize };
        let i = *r.pick(&[0u8, 0, 1, 255, 128]);
        let (mut metas, mut data) = match kind {
            0 => (p.stake_metas(&u), [&[0u8][..], &r.amount(&[p.orca_of(&u), u64::MAX - p.vault_orca()]).to_le_bytes()].concat()),
            1 => (p.unstake_metas(&u, i), [&[1u8][..], &r.amount(&[p.xorca_of(&u), p.supply()]).to_le_bytes(), &[i]].concat()),
            2 => (p.withdraw_metas(&u, i), vec![2, i]),
            3 => (initialize_metas(&auth), initialize_data(r.time())),
            4 => (p.set_cooldown_metas(&auth), [&[4u8, 0][..], &r.time().to_le_bytes()].concat()),
            _ => (p.set_cooldown_metas(&auth), [&[4u8, 1][..], &user(r.below(256) as u8)].concat()),
        };
        let mut what = String::new();
        let saved = p.svm.clone();
        if r.p(55) {
            for _ in 0..r.range(1, 3) {
                if metas.is_empty() {
                    break;
                }
                let j = r.below(metas.len() as u64) as usize;
                match r.below(9) {
                    0 => {
                        metas[j].key = *r.pick(&noise);
                        what += " noise";
                    }
                    1 => {
                        let k = r.below(metas.len() as u64) as usize;
                        metas[j].key = metas[k].key;
                        what += " alias";
                    }
                    2 => {
                        metas.truncate(j);
                        what += " fewer";
                    }
                    3 => {
                        if r.p(50) {
                            metas[j].s = !metas[j].s;
                        } else {
                            metas[j].w = !metas[j].w;
                        }
                        what += " roles";
                    }
                    4 => {
                        let c = r.below(data.len() as u64 + 1) as usize;
                        data.truncate(c);
                        what += " short-data";
                    }
                    5 => {
                        let c = r.below(5);
                        (0..c).for_each(|_| data.push(r.u64() as u8));
                        if !data.is_empty() {
                            let b = r.below(data.len() as u64) as usize;
                            data[b] = r.u64() as u8;
                        }
                        what += " odd-data";
                    }
                    _ => {
                        // wrong contents at the right address
                        let k = metas[j].key;
                        if let Some(x) = p.svm.accts.get_mut(&k) {
                            if !x.executable {
                                match r.below(6) {
                                    0 | 1 => {
                                        let n = r.below(x.data.len() as u64 + 1) as usize;
                                        x.data.truncate(n);
                                    }
                                    2 => {
                                        let n = *r.pick(&[0usize, 1, 7, 8, 56, 72, 165, 1024]);
                                        x.data.truncate(n);
                                    }
                                    3 => {
                                        let b = r.u64() as usize % x.data.len().max(1);
                                        if let Some(y) = x.data.get_mut(b) {
                                            *y = r.u64() as u8;
                                        }
                                    }
                                    4 => x.owner = *r.pick(&[program(), token(), SYSTEM, [7; 32]]),
                                    _ => {
                                        let f = [0u8, 0xff][r.below(2) as usize];
                                        let n = x.data.len();
                                        if n > 8 {
                                            x.data[8..n.min(80)].fill(f);
                                        }
                                    }
                                }
                                what += " contents";
                            }
                        }
                    }
                }
            }
        }
        let out = p.run(&metas, &data);
        let class = match &out {
            Ok(()) => "accepted".into(),
            Err(Fail::Panic(m)) => bad(format!("case {case}: {}{what}: the program panicked: {m}", KIND[kind])),
            Err(Fail::Corrupt(m)) => bad(format!("case {case}: {}{what}: {m}", KIND[kind])),
            Err(Fail::Program(c)) => format!("refused {c}"),
            Err(Fail::Cpi(_)) => "refused by a called program".into(),
            Err(Fail::Runtime(m)) => format!("refused by the runtime: {}", m.split(':').next().unwrap()),
        };
        if verbose {
            println!("case {case} {}{what} accounts {} data {} -> {out:?}", KIND[kind], metas.len(), data.len());
        }
        *count.entry(format!("{}{}: {class}", KIND[kind], if what.is_empty() { "" } else { " mutated" })).or_default() += 1;
        let mut h = 0xcbf29ce484222325u64;
        for b in data.iter().copied().chain(metas.iter().flat_map(|m| m.key[..4].iter().copied())).chain(class.bytes()).chain(what.bytes()) {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        distinct.insert(h);
        if what.contains("contents") {
            // a damaged world is used once
            p.svm = saved;
        }
        if r.p(30) {
            p.svm.now = p.svm.now.saturating_add(r.below(1 << 21) as i64);
        }
    }
}
