//! The JS client and the deployed program speak the same language.
use crate::js::{self, b, bytes, call, constant, decode, encode, k, n, same, Answer};
use crate::req;
use rand::Rng;
use rand_chacha::ChaCha8Rng;
use serde_json::{json, Map, Value};
use solana_sdk::instruction::{AccountMeta, Instruction};
use solana_sdk::pubkey::Pubkey;
use std::str::FromStr;
use xvcore::history::*;
use xvcore::report::*;
use xvcore::spec::{self, Ev, PendV, StateV};
use xvcore::world::*;

fn key(r: &mut ChaCha8Rng) -> Pubkey {
    match r.gen_range(0..12) {
        0 => special_keys()[r.gen_range(0..special_keys().len())],
        1 => {
            // leading zero bytes: the shortest base58 texts
            let mut x: [u8; 32] = r.gen();
            let z = r.gen_range(1..32);
            x[..z].fill(0);
            Pubkey::new_from_array(x)
        }
        _ => Pubkey::new_from_array(r.gen()),
    }
}
fn u64s(r: &mut ChaCha8Rng) -> u64 {
    amount(r, &[])
}
fn i64s(r: &mut ChaCha8Rng) -> i64 {
    let v = u64s(r) as i64;
    if r.gen_bool(0.3) { v.wrapping_neg() } else { v }
}
fn b5() -> Value {
    b(&[0; 5])
}
/// An amount as a caller may pass it.
fn amt(r: &mut ChaCha8Rng, v: i128) -> Value {
    if v.unsigned_abs() <= (1 << 53) && r.gen_bool(0.3) { json!(v as i64) } else { n(v) }
}

pub struct Form {
    pub name: &'static str,
    pub disc: u8,
    /// Account names with flags: "s" signer, "w" writable.
    pub accounts: &'static [(&'static str, &'static str)],
}
pub const FORMS: [Form; 5] = [
    Form { name: "Stake", disc: 0, accounts: &[("stakerAccount", "sw"), ("vaultAccount", "w"), ("stakerOrcaAta", "w"), ("stakerXorcaAta", "w"), ("xorcaMintAccount", "w"), ("stateAccount", ""), ("orcaMintAccount", ""), ("tokenProgramAccount", "")] },
    Form { name: "Unstake", disc: 1, accounts: &[("unstakerAccount", "sw"), ("stateAccount", "w"), ("pendingWithdrawAccount", "w"), ("unstakerXorcaAta", "w"), ("xorcaMintAccount", "w"), ("orcaMintAccount", ""), ("vaultAccount", ""), ("systemProgramAccount", ""), ("tokenProgramAccount", "")] },
    Form { name: "Withdraw", disc: 2, accounts: &[("unstakerAccount", "sw"), ("stateAccount", "w"), ("pendingWithdrawAccount", "w"), ("unstakerOrcaAta", "w"), ("vaultAccount", "w"), ("orcaMintAccount", ""), ("systemProgramAccount", ""), ("tokenProgramAccount", "")] },
    Form { name: "Initialize", disc: 3, accounts: &[("payerAccount", "sw"), ("updateAuthorityAccount", "sw"), ("stateAccount", "w"), ("vaultAccount", "w"), ("xorcaMintAccount", ""), ("orcaMintAccount", ""), ("systemProgramAccount", ""), ("tokenProgramAccount", ""), ("associatedTokenProgramAccount", "")] },
    Form { name: "Set", disc: 4, accounts: &[("updateAuthorityAccount", "sw"), ("stateAccount", "w")] },
];
/// What the client returned, as an instruction.
fn read_ix(v: &Value) -> Option<Instruction> {
    let accounts = v["accounts"]
        .as_array()?
        .iter()
        .map(|a| {
            let r = a["role"].as_u64()?;
            Some(AccountMeta { pubkey: Pubkey::from_str(a["address"].as_str()?).ok()?, is_signer: r & 2 != 0, is_writable: r & 1 != 0 })
        })
        .collect::<Option<Vec<_>>>()?;
    Some(Instruction { program_id: Pubkey::from_str(v["programAddress"].as_str()?).ok()?, accounts, data: bytes(&v["data"])? })
}
/// The client call building `form` and what it has to produce.
fn build(form: &Form, keys: &[Pubkey], args: Vec<(&str, Value)>, data: Vec<u8>, program: Option<Pubkey>) -> (Value, Instruction) {
    let mut input = Map::new();
    for ((name, fl), key) in form.accounts.iter().zip(keys) {
        input.insert(name.to_string(), if fl.contains('s') { json!({"$signer": key.to_string()}) } else { k(key) });
    }
    for (a, v) in args {
        input.insert(a.into(), v);
    }
    let mut a = vec![Value::Object(input)];
    if let Some(p) = program {
        a.push(json!({"programAddress": p.to_string()}));
    }
    let want = Instruction {
        program_id: program.unwrap_or(spec::program_id()),
        accounts: form.accounts.iter().zip(keys).map(|((_, f), key)| AccountMeta { pubkey: *key, is_signer: f.contains('s'), is_writable: f.contains('w') }).collect(),
        data,
    };
    (call(&format!("get{}Instruction", form.name), json!(a)), want)
}
fn state_obj(s: &StateV) -> Value {
    json!({"discriminator": 1, "padding1": b5(), "bump": s.bump, "vaultBump": s.vault_bump, "escrowedOrcaAmount": n(s.escrow),
        "coolDownPeriodS": n(s.cooldown), "updateAuthority": k(&s.authority), "padding2": b(&[0; 1992])})
}
fn pending_obj(p: &PendV) -> Value {
    json!({"discriminator": 2, "padding1": b5(), "bump": p.bump, "withdrawIndex": p.index, "unstaker": k(&p.unstaker),
        "withdrawableOrcaAmount": n(p.amount), "withdrawableTimestamp": n(p.ts), "padding2": b(&[0; 968])})
}
fn event_obj(e: &Ev) -> Value {
    match e {
        Ev::Stake { orca, vault, escrow, supply, minted } => json!({"__kind": "Stake", "orcaStakeAmount": n(orca), "vaultOrcaAmount": n(vault), "vaultEscrowedOrcaAmount": n(escrow), "xorcaMintSupply": n(supply), "xorcaToMint": n(minted)}),
        Ev::Unstake { xorca, vault, escrow, supply, owed, cooldown, index } => json!({"__kind": "Unstake", "xorcaUnstakeAmount": n(xorca), "vaultOrcaAmount": n(vault), "vaultEscrowedOrcaAmount": n(escrow), "xorcaMintSupply": n(supply), "withdrawableOrcaAmount": n(owed), "coolDownPeriodS": n(cooldown), "withdrawIndex": index}),
        Ev::Withdraw { escrow, paid, cooldown, index } => json!({"__kind": "Withdraw", "vaultEscrowedOrcaAmount": n(escrow), "withdrawableOrcaAmount": n(paid), "coolDownPeriodS": n(cooldown), "withdrawIndex": index}),
        Ev::Authority { new, by } => json!({"__kind": "UpdateAuthoritySet", "newAuthority": k(new), "setBy": k(by)}),
    }
}

/// Collects calls with the judgement of their answers.
struct Plan {
    calls: Vec<Value>,
    judge: Vec<(String, Box<dyn Fn(&Answer) -> bool>)>,
}
impl Plan {
    fn new() -> Plan {
        Plan { calls: vec![], judge: vec![] }
    }
    fn add(&mut self, what: impl Into<String>, c: Value, f: impl Fn(&Answer) -> bool + 'static) {
        self.calls.push(c);
        self.judge.push((what.into(), Box::new(f)));
    }
    fn eq(&mut self, what: impl Into<String>, c: Value, want: Value) {
        self.add(format!("{} (expected {})", what.into(), show(&want)), c, move |a| a.as_ref().is_ok_and(|v| same(v, &want)));
    }
    fn err(&mut self, what: impl Into<String>, c: Value) {
        self.add(format!("{} (must be refused)", what.into()), c, |a| a.is_err());
    }
    fn run(self, st: &mut Stats, log: &[String]) -> CaseResult {
        let out = match js::batch(&self.calls) {
            Ok(o) => o,
            Err(e) => return fail(e, log),
        };
        for ((c, (what, f)), a) in self.calls.iter().zip(&self.judge).zip(&out) {
            st.eval(Some((what, c.to_string())));
            let head = what.split([' ', ':']).next().unwrap_or("");
            st.count(head);
            if !f(a) {
                return fail(format!("{what}: {} answers {}", show(c), a.as_ref().map_or_else(|e| format!("error {e:?}"), show)), log);
            }
        }
        Ok(())
    }
}
fn show(v: &Value) -> String {
    let s = v.to_string();
    if s.len() > 600 { format!("{}…", s.chars().take(600).collect::<String>()) } else { s }
}

fn instructions(r: &mut ChaCha8Rng, st: &mut Stats) -> CaseResult {
    let mut p = Plan::new();
    let mut parse = vec![];
    for (fi, form) in FORMS.iter().enumerate() {
        let keys: Vec<Pubkey> = form.accounts.iter().map(|_| key(r)).collect();
        let program = r.gen_bool(0.2).then(|| key(r));
        let (a, i, cd, auth) = (u64s(r), r.gen::<u8>(), i64s(r), key(r));
        let (args, data, read): (Vec<(&str, Value)>, Vec<u8>, Value) = match form.disc {
            0 => (vec![("orcaStakeAmount", amt(r, a as i128))], [&[0][..], &a.to_le_bytes()].concat(), json!({"orcaStakeAmount": n(a)})),
            1 => (vec![("xorcaUnstakeAmount", amt(r, a as i128)), ("withdrawIndex", json!(i))], [&[1][..], &a.to_le_bytes(), &[i]].concat(), json!({"xorcaUnstakeAmount": n(a), "withdrawIndex": i})),
            2 => (vec![("withdrawIndex", json!(i))], vec![2, i], json!({"withdrawIndex": i})),
            3 => (vec![("coolDownPeriodS", amt(r, cd as i128))], [&[3][..], &cd.to_le_bytes()].concat(), json!({"coolDownPeriodS": n(cd)})),
            _ if r.gen() => {
                let u = json!({"__kind": "UpdateCoolDownPeriod", "newCoolDownPeriodS": n(cd)});
                (vec![("instructionData", u.clone())], [&[4, 0][..], &cd.to_le_bytes()].concat(), json!({"instructionData": u}))
            }
            _ => {
                let u = json!({"__kind": "UpdateUpdateAuthority", "newAuthority": k(&auth)});
                (vec![("instructionData", u.clone())], [&[4, 1][..], auth.as_ref()].concat(), json!({"instructionData": u}))
            }
        };
        // data codecs on their own
        let mut full = read.clone();
        full["discriminator"] = json!(form.disc);
        let enc = Value::Object(args.iter().map(|(a, v)| (a.to_string(), v.clone())).collect());
        p.eq(format!("data-{}: encodes", form.name), encode(&format!("get{}InstructionDataEncoder", form.name), enc.clone()), b(&data));
        p.eq(format!("data-{}: codec encodes", form.name), encode(&format!("get{}InstructionDataCodec", form.name), enc), b(&data));
        for f in ["Decoder", "Codec"] {
            p.eq(format!("data-{}: {f} decodes", form.name), decode(&format!("get{}InstructionData{f}", form.name), &data), full.clone());
        }
        let cut = r.gen_range(0..data.len());
        p.err(format!("data-{}: truncated to {cut}", form.name), decode(&format!("get{}InstructionDataDecoder", form.name), &data[..cut]));
        p.eq(format!("disc-{}", form.name), call(&format!("get{}DiscriminatorBytes", form.name), json!([])), b(&[form.disc]));
        p.eq(format!("identify-{}", form.name), call("identifyXorcaStakingProgramInstruction", json!([b(&data)])), json!(fi));
        p.eq(format!("identify-{}", form.name), call("identifyXorcaStakingProgramInstruction", json!([{"data": b(&data)}])), json!(fi));
        let (c, want) = build(form, &keys, args, data.clone(), program);
        let w2 = want.clone();
        let signers: Vec<bool> = form.accounts.iter().map(|x| x.1.contains('s')).collect();
        p.add(format!("build-{} (expected {want:?})", form.name), c, move |a| {
            a.as_ref().is_ok_and(|v| {
                read_ix(v).as_ref() == Some(&w2)
                    && v["accounts"].as_array().unwrap().iter().zip(&signers).all(|(m, s)| !s || m["signer"]["address"] == m["address"])
            })
        });
        // reading instructions found on chain, with further accounts
        let mut metas: Vec<Value> = want.accounts.iter().map(|m| json!({"address": k(&m.pubkey), "role": m.is_writable as u8 + 2 * m.is_signer as u8})).collect();
        let named: Map<String, Value> = form.accounts.iter().zip(&metas).map(|((nm, _), m)| (nm.to_string(), m.clone())).collect();
        let expect = json!({"programAddress": want.program_id.to_string(), "accounts": named, "data": full});
        if r.gen_bool(0.4) {
            metas.push(json!({"address": k(&key(r)), "role": 0}));
        }
        parse.push((form.name, json!({"programAddress": want.program_id.to_string(), "accounts": metas, "data": b(&data)}), expect, form.accounts.len()));
    }
    for (name, ix, expect, len) in parse {
        let mut short = ix.clone();
        short["accounts"].as_array_mut().unwrap().truncate(r.gen_range(0..len));
        p.eq(format!("parse-{name}"), call(&format!("parse{name}Instruction"), json!([ix])), expect);
        p.err(format!("parse-short-{name}"), call(&format!("parse{name}Instruction"), json!([short])));
    }
    // values that do not fit are refused, never wrapped
    let keys: Vec<Pubkey> = (0..9).map(|_| key(r)).collect();
    let over = (u64::MAX as i128) + 1 + r.gen_range(0..1000);
    let neg = -1 - r.gen_range(0..1000i128);
    let f = &FORMS;
    p.err("range: stake amount", build(&f[0], &keys[..8], vec![("orcaStakeAmount", n(if r.gen() { over } else { neg }))], vec![], None).0);
    p.err("range: unstake amount", build(&f[1], &keys, vec![("xorcaUnstakeAmount", n(if r.gen() { over } else { neg })), ("withdrawIndex", json!(1))], vec![], None).0);
    let bad = if r.gen() { json!(256 + r.gen_range(0..300)) } else { json!(-1 - r.gen_range(0..300)) };
    p.err("range: unstake index", build(&f[1], &keys, vec![("xorcaUnstakeAmount", n(5)), ("withdrawIndex", bad.clone())], vec![], None).0);
    p.err("range: withdraw index", build(&f[2], &keys[..8], vec![("withdrawIndex", bad)], vec![], None).0);
    let cd = if r.gen() { i64::MAX as i128 + 1 } else { i64::MIN as i128 - 1 };
    p.err("range: cooldown", build(&f[3], &keys, vec![("coolDownPeriodS", n(cd))], vec![], None).0);
    p.err("range: set cooldown", build(&f[4], &keys[..2], vec![("instructionData", json!({"__kind": "UpdateCoolDownPeriod", "newCoolDownPeriodS": n(cd)}))], vec![], None).0);
    for _ in 0..3 {
        let head = r.gen_range(5..=255);
        let t = foreign(r, head);
        p.err(format!("identify: unknown instruction {t:?}"), call("identifyXorcaStakingProgramInstruction", json!([b(&t)])));
        p.err(format!("identify: unknown instruction {t:?}"), call("identifyXorcaStakingProgramInstruction", json!([{"data": b(&t)}])));
    }
    p.err("identify: empty instruction", call("identifyXorcaStakingProgramInstruction", json!([b(&[])])));
    p.run(st, &[])
}

/// Bytes of no kind of ours but for what follows the first one.
fn foreign(r: &mut ChaCha8Rng, head: u8) -> Vec<u8> {
    let n = [0, 1, 3, 9, 10, 33, 40, 1023][r.gen_range(0..8)];
    let mut t = vec![head];
    t.extend((0..n).map(|_| if r.gen() { r.gen_range(0..6) } else { r.gen::<u8>() }));
    t
}
fn codecs(r: &mut ChaCha8Rng, st: &mut Stats) -> CaseResult {
    let mut p = Plan::new();
    let s = StateV { bump: r.gen(), vault_bump: r.gen(), escrow: u64s(r), cooldown: i64s(r), authority: key(r), padding_zero: true };
    let c = PendV { bump: r.gen(), index: r.gen(), unstaker: key(r), amount: u64s(r), ts: i64s(r), padding_zero: true, lamports: 0 };
    let lam: u64 = u64s(r);
    for (name, d, obj, len, ident) in [
        ("State", spec::encode_state(&s), state_obj(&s), spec::STATE_LEN, 1),
        ("PendingWithdraw", spec::encode_pending(&c), pending_obj(&c), spec::PENDING_LEN, 0),
    ] {
        for f in ["Decoder", "Codec"] {
            p.eq(format!("account-{name}: {f}"), decode(&format!("get{name}{f}"), &d), obj.clone());
        }
        // with and without the optional fields
        let mut args = obj.clone();
        args.as_object_mut().unwrap().remove("discriminator");
        if r.gen() {
            args.as_object_mut().unwrap().remove("padding1");
            args.as_object_mut().unwrap().remove("padding2");
        }
        for f in ["Encoder", "Codec"] {
            p.eq(format!("account-{name}: {f} writes"), encode(&format!("get{name}{f}"), args.clone()), b(&d));
        }
        let cut = r.gen_range(0..len);
        p.err(format!("account-{name}: truncated to {cut}"), decode(&format!("get{name}Decoder"), &d[..cut]));
        p.eq(format!("size-{name}"), call(&format!("get{name}Size"), json!([])), json!(len));
        p.eq(format!("disc-{name}"), call(&format!("get{name}DiscriminatorBytes"), json!([])), b(&d[..1]));
        p.eq(format!("disc-const-{name}"), constant(if name == "State" { "STATE_DISCRIMINATOR" } else { "PENDING_WITHDRAW_DISCRIMINATOR" }), json!(d[0]));
        p.eq(format!("identify-account-{name}"), call("identifyXorcaStakingProgramAccount", json!([b(&d)])), json!(ident));
        p.eq(format!("identify-account-{name}"), call("identifyXorcaStakingProgramAccount", json!([{"data": b(&d)}])), json!(ident));
        let at = key(r);
        let enc = json!({"address": k(&at), "data": b(&d), "executable": false, "lamports": n(lam), "programAddress": spec::program_id().to_string(), "space": n(len), "exists": true});
        let mut want = enc.clone();
        want["data"] = obj;
        p.eq(format!("decode-{name}"), call(&format!("decode{name}"), json!([enc])), want);
        let none = json!({"address": k(&at), "exists": false});
        p.eq(format!("decode-missing-{name}"), call(&format!("decode{name}"), json!([none.clone()])), none);
        let mut short = enc;
        short["data"] = b(&d[..cut]);
        p.err(format!("decode-short-{name}"), call(&format!("decode{name}"), json!([short])));
    }
    for _ in 0..3 {
        let other = [0u8, 3, r.gen_range(4..=255)][r.gen_range(0..3)];
        let t = foreign(r, other);
        p.err(format!("identify-account: foreign {t:?}"), call("identifyXorcaStakingProgramAccount", json!([b(&t)])));
    }
    p.err("identify-account: empty", call("identifyXorcaStakingProgramAccount", json!([b(&[])])));
    // SPL accounts as the client types them
    let (mint, owner, a) = (key(r), key(r), u64s(r));
    let t = spec::encode_token(&mint, &owner, a);
    let zero = Pubkey::default();
    let tok = json!({"mint": k(&mint), "owner": k(&owner), "amount": n(a), "delegateFlag": 0, "delegate": k(&zero), "state": 1, "isNativeFlag": 0, "nativeAmount": n(0), "delegateAmount": n(0), "closeAuthorityFlag": 0, "closeAuthority": k(&zero)});
    p.eq("token-account", decode("getTokenAccountDecoder", &t), tok.clone());
    p.eq("token-account", encode("getTokenAccountEncoder", tok), b(&t));
    let (ma, fr) = (r.gen_bool(0.7).then(|| key(r)), r.gen_bool(0.3).then(|| key(r)));
    let dec: u8 = r.gen();
    let m = spec::encode_mint(ma.as_ref(), a, dec, fr.as_ref());
    let mo = json!({"mintAuthorityFlag": ma.is_some() as u8, "mintAuthority": k(&ma.unwrap_or(zero)), "supply": n(a), "decimals": dec, "isInitialized": true, "freezeAuthorityFlag": fr.is_some() as u8, "freezeAuthority": k(&fr.unwrap_or(zero))});
    p.eq("token-mint", decode("getTokenMintDecoder", &m), mo.clone());
    p.eq("token-mint", encode("getTokenMintEncoder", mo), b(&m));
    for e in [
        Ev::Stake { orca: u64s(r), vault: u64s(r), escrow: u64s(r), supply: u64s(r), minted: u64s(r) },
        Ev::Unstake { xorca: u64s(r), vault: u64s(r), escrow: u64s(r), supply: u64s(r), owed: u64s(r), cooldown: i64s(r), index: r.gen() },
        Ev::Withdraw { escrow: u64s(r), paid: u64s(r), cooldown: i64s(r), index: r.gen() },
        Ev::Authority { new: key(r), by: key(r) },
    ] {
        let (d, o) = (spec::encode_event(&e), event_obj(&e));
        let kind = o["__kind"].clone();
        let name = kind.as_str().unwrap().to_string();
        p.eq(format!("event-{name}"), decode("getEventDecoder", &d), o.clone());
        p.eq(format!("event-{name}"), encode("getEventEncoder", o.clone()), b(&d));
        p.eq(format!("event-{name}"), encode("getEventCodec", o.clone()), b(&d));
        let cut = r.gen_range(0..d.len());
        p.err(format!("event-{name}: truncated"), decode("getEventDecoder", &d[..cut]));
        let mut content = o.clone();
        content.as_object_mut().unwrap().remove("__kind");
        p.eq(format!("event-make-{name}"), call("event", json!([kind, content])), o.clone());
        for other in ["Stake", "Unstake", "Withdraw", "UpdateAuthoritySet"] {
            p.eq(format!("event-is-{name}"), call("isEvent", json!([other, o])), json!(other == name));
        }
    }
    p.err("event: unknown kind", decode("getEventDecoder", &[r.gen_range(4..=255u8); 80]));
    // addresses
    let (u, i) = (key(r), r.gen::<u8>());
    let (a, bump) = spec::pending_pda(&u, i);
    p.eq("pda-claim", call("findPendingWithdrawAddress", json!([k(&u), i])), json!([k(&a), bump]));
    // Uint8Array would take such an index modulo 256 and give the address of another claim
    let far = 1i64 << r.gen_range(1..40);
    let far = r.gen_range(0..far);
    let bad = match r.gen_range(0..6) {
        0 => json!(256 + far),
        1 => json!(-1 - far),
        2 => json!(r.gen_range(0..256) as f64 + 0.5),
        3 => json!({"$x": "NaN"}),
        4 => json!({"$x": "Infinity"}),
        _ => json!([256.0, -1.0, -0.5, 255.5, 512.0, 65536.0][r.gen_range(0..6)]),
    };
    p.err("pda-claim: bad index", call("findPendingWithdrawAddress", json!([k(&u), bad])));
    let (a, bump) = spec::state_pda();
    p.eq("pda-state", call("findStateAddress", json!([])), json!([k(&a), bump]));
    let (sk, tp, om) = if r.gen() { (spec::state(), spec::token_program(), spec::orca_mint()) } else { (key(r), key(r), key(r)) };
    let (a, bump) = xvcore::engine::find_pda(&[sk.as_ref(), tp.as_ref(), om.as_ref()], &spec::ata_program()).unwrap();
    p.eq("pda-vault", call("findVaultAddress", json!([k(&sk), k(&tp), k(&om)])), json!([k(&a), bump]));
    // a failed transaction's error
    let at = r.gen_range(0..4u32);
    let code = r.gen_range(5990..6030u32);
    let program = if r.gen_bool(0.7) { spec::program_id() } else { key(r) };
    let mine = program == spec::program_id();
    let e = json!({"$solanaError": 4615026, "context": {"index": at, "code": code}});
    let mut ixs = Map::new();
    for j in 0..4u32 {
        let p = if j == at { program } else if mine { key(r) } else { spec::program_id() };
        ixs.insert(j.to_string(), json!({"programAddress": p.to_string()}));
    }
    let msg = json!({"instructions": ixs});
    p.eq("error-is", call("isXorcaStakingProgramError", json!([e, msg])), json!(mine));
    let other = if r.gen() { code } else { r.gen_range(5990..6030) };
    p.eq("error-is", call("isXorcaStakingProgramError", json!([e, msg, other])), json!(mine && other == code));
    p.eq("error-is", call("isXorcaStakingProgramError", json!([{"message": "network"}, msg])), json!(false));
    p.run(st, &[])
}

const CODES: [(u32, &str, &str); 20] = [
    (6000, "UNKNOWN_INSTRUCTION_DISCRIMINATOR", "Unknown instruction discriminator"),
    (6001, "INCORRECT_PROGRAM_ID", "Incorrect program id"),
    (6002, "INVALID_ACCOUNT_ROLE", "Invalid account role"),
    (6003, "NOT_ENOUGH_ACCOUNT_KEYS", "Not enough account keys"),
    (6004, "INCORRECT_OWNER", "Incorrect owner"),
    (6005, "INVALID_SEEDS", "Invalid seeds"),
    (6006, "INCORRECT_ACCOUNT_ADDRESS", "Invalid account address"),
    (6007, "INVALID_ACCOUNT_DATA", "Invalid account data"),
    (6008, "ARITHMETIC_ERROR", "Arithmetic error"),
    (6009, "INSUFFICIENT_FUNDS", "Insufficient funds error"),
    (6010, "STATE_ACCOUNT_ALREADY_INITIALIZED", "State account already initialized"),
    (6011, "COOL_DOWN_PERIOD_STILL_ACTIVE", "Cool down period still active"),
    (6012, "EMIT_EVENT_ERROR", "Event serialization failed"),
    (6013, "INVALID_COOL_DOWN_PERIOD", "Invalid cooldown period: must be non-negative"),
    (6014, "INSUFFICIENT_STAKE_AMOUNT", "Stake amount too small to mint any xORCA"),
    (6015, "INSUFFICIENT_UNSTAKE_AMOUNT", "Unstake amount too small to receive any ORCA"),
    (6016, "INSUFFICIENT_ESCROW", "Insufficient escrow to cover withdraw amount"),
    (6017, "COOL_DOWN_OVERFLOW", "Cooldown timestamp overflowed"),
    (6018, "INSUFFICIENT_VAULT_BACKING", "Insufficient vault backing (vault < escrow)"),
    (6019, "UNAUTHORIZED_DEPLOYER_ACCESS", "Unauthorized deployer access"),
];
fn constants(st: &mut Stats) -> CaseResult {
    let mut p = Plan::new();
    for (c, name, msg) in CODES {
        p.eq(format!("code-{c}"), constant(&format!("XORCA_STAKING_PROGRAM_ERROR__{name}")), json!(c));
        p.eq(format!("message-{c}"), call("getXorcaStakingProgramErrorMessage", json!([c])), json!(msg));
    }
    for f in &FORMS {
        p.eq(format!("disc-{}", f.name), constant(&format!("{}_DISCRIMINATOR", f.name.to_uppercase())), json!(f.disc));
    }
    p.eq("program address", constant("XORCA_STAKING_PROGRAM_PROGRAM_ADDRESS"), json!(spec::program_id().to_string()));
    p.add("account discriminators", constant("AccountDiscriminator"), |a| {
        a.as_ref().is_ok_and(|v| ["Uninitialized", "State", "PendingWithdraw", "Closed"].iter().enumerate().all(|(i, x)| v[*x] == i && v[i.to_string()] == **x))
    });
    p.add("instruction kinds", constant("XorcaStakingProgramInstruction"), |a| a.as_ref().is_ok_and(|v| FORMS.iter().all(|f| v[f.name] == f.disc)));
    p.add("account kinds", constant("XorcaStakingProgramAccount"), |a| a.as_ref().is_ok_and(|v| v["PendingWithdraw"] == 0 && v["State"] == 1));
    for (i, x) in ["Uninitialized", "State", "PendingWithdraw", "Closed"].iter().enumerate() {
        p.eq(format!("discriminator-{x}"), encode("getAccountDiscriminatorEncoder", json!(i)), b(&[i as u8]));
        p.eq(format!("discriminator-{x}"), decode("getAccountDiscriminatorDecoder", &[i as u8]), json!(i));
    }
    p.err("discriminator out of range", decode("getAccountDiscriminatorDecoder", &[4]));
    for i in 0..3u8 {
        p.eq(format!("token-state-{i}"), decode("getTokenAccountStateDecoder", &[i]), json!(i));
        p.eq(format!("token-state-{i}"), encode("getTokenAccountStateEncoder", json!(i)), b(&[i]));
    }
    p.run(st, &[])
}

/// Drive the real program with client-built instructions and read everything
/// it leaves behind with the client's decoders.
fn chain(r: &mut ChaCha8Rng, st: &mut Stats, case: u64) -> CaseResult {
    let mut prof = Profile::base();
    prof.multi = 0;
    let mut w = with_base(|b| reachable_world(b, r, 3, case));
    for _ in 0..15 {
        let v = w.view();
        let op = gen_op(r, &w, &v, &prof);
        let (state, vault, xm, om, tp, sp) = (spec::state(), spec::vault(), spec::xorca_mint(), spec::orca_mint(), spec::token_program(), spec::system_program());
        let usr = |u: &usize| w.users[*u].clone();
        let (form, keys, args) = match &op {
            Op::Stake { u, a } => (0, vec![usr(u).key, vault, usr(u).orca, usr(u).xorca, xm, state, om, tp], vec![("orcaStakeAmount", n(a))]),
            Op::Unstake { u, x, i } => (1, vec![usr(u).key, state, spec::pending(&usr(u).key, *i), usr(u).xorca, xm, om, vault, sp, tp], vec![("xorcaUnstakeAmount", n(x)), ("withdrawIndex", json!(i))]),
            Op::Withdraw { u, i } => (2, vec![usr(u).key, state, spec::pending(&usr(u).key, *i), usr(u).orca, vault, om, sp, tp], vec![("withdrawIndex", json!(i))]),
            Op::SetCd { by, v } => (4, vec![*by, state], vec![("instructionData", json!({"__kind": "UpdateCoolDownPeriod", "newCoolDownPeriodS": n(v)}))]),
            Op::SetAuth { by, new } => (4, vec![*by, state], vec![("instructionData", json!({"__kind": "UpdateUpdateAuthority", "newAuthority": k(new)}))]),
            _ => {
                w.apply(&op);
                continue;
            }
        };
        let out = match js::batch(&[build(&FORMS[form], &keys, args, vec![], None).0]) {
            Ok(mut o) => o.remove(0),
            Err(e) => return fail(e, &w.log),
        };
        let Some(ix) = out.as_ref().ok().and_then(read_ix) else { return fail(format!("the client does not build {op:?}: {out:?}"), &w.log) };
        let pred = w.predict(&v, &op);
        let s = w.apply(&Op::Raw { label: format!("JS client {op:?}"), ixs: vec![ix] });
        if let Op::Unstake { u, i, .. } | Op::Withdraw { u, i } = &op {
            w.touched.insert((*u, *i));
        }
        st.eval(Some((format!("{op:?}"), v.vault, v.supply, v.escrow())));
        st.count(&format!("chain-{}:{}", op.kind(), if s.out.ok { "ok" } else { "err" }));
        if s.out.ok != pred.is_ok() {
            return fail(format!("JS-built {op:?}: executed={} but expected {:?}", s.out.ok, pred.map(|x| x.1)), &w.log);
        }
        let mut p = Plan::new();
        if let Some((c, _, msg)) = s.out.code.and_then(|c| CODES.iter().find(|x| x.0 == c)) {
            p.eq("chain-error", call("getXorcaStakingProgramErrorMessage", json!([c])), json!(msg));
        }
        if let Ok((_, ev)) = pred {
            if s.out.notes.records.len() != ev.len() {
                return fail(format!("{op:?} emitted {} events instead of {}", s.out.notes.records.len(), ev.len()), &w.log);
            }
            for (d, e) in s.out.notes.records.iter().zip(&ev) {
                p.eq("chain-event", decode("getEventDecoder", d), event_obj(e));
            }
        }
        if let Some(sv) = w.view().state {
            p.eq("chain-state", decode("getStateDecoder", &w.chain.get(&state).unwrap().data), state_obj(&sv));
        }
        for (at, c) in w.scan_claims() {
            p.eq("chain-claim", decode("getPendingWithdrawDecoder", &w.chain.get(&at).unwrap().data), pending_obj(&c));
            p.eq("chain-claim", call("findPendingWithdrawAddress", json!([k(&c.unstaker), c.index])), json!([k(&at), c.bump]));
        }
        let log = w.log.clone();
        p.run(st, &log)?;
    }
    Ok(())
}

pub fn run(ctx: &Ctx) -> i32 {
    let c0 = run_cases(ctx, "constants", 1, 30, |_, _, st| constants(st));
    let a = run_cases(ctx, "instructions", ctx.scale(1500, 100_000), ctx.scale(20, 250), |_, r, st| instructions(r, st));
    let b = run_cases(ctx, "codecs", ctx.scale(1000, 60_000), ctx.scale(20, 250), |c, r, st| {
        if c == 0 {
            st.sample(|| json!("every exported codec, parser, identifier, address finder and error helper against the wire format"));
        }
        codecs(r, st)
    });
    let c = run_cases(ctx, "chain", ctx.scale(400, 20_000), ctx.scale(20, 300), |case, r, st| chain(r, st, case));
    finish(ctx, vec![("constants".into(), c0), ("instructions".into(), a), ("codecs".into(), b), ("chain".into(), c)], Report {
        rule: "One evaluation per artefact of the JS client (bundled from js-client/src, executed by node) judged: an instruction built or parsed, an account, event, SPL account or instruction encoded or decoded, an address, error code or message; or a client-built instruction executed by the real program inside a random history. Distinct by inputs.".into(),
        assumptions: vec!["@solana/kit and @solana-program/token are replaced by stand-ins written from their documentation; the originals are not installed here.".into(),
            "Wire formats in the oracle are written independently and validated against the running program.".into()],
        require: req(&[("build-Stake", 500), ("build-Unstake", 500), ("build-Withdraw", 500), ("build-Initialize", 500), ("build-Set", 500), ("parse-Unstake", 500), ("range", 1000), ("account-State", 500), ("chain-stake:ok", 100), ("chain-unstake:ok", 100), ("chain-withdraw:ok", 30), ("chain-claim", 300)]),
        min_distinct: 10_000,
    })
}
