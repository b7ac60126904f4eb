//! The command-line scripts: run as processes against a node executing the
//! real program. C26 judges what they submit, C28 what they report.
use crate::req;
use rand::Rng;
use rand_chacha::ChaCha8Rng;
use serde_json::{json, Value};
use solana_sdk::account::ReadableAccount;
use solana_sdk::instruction::{AccountMeta, Instruction};
use solana_sdk::pubkey::Pubkey;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::net::{UnixListener, UnixStream};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::str::FromStr;
use std::time::{Duration, Instant};
use xvcore::engine::{Acct, Chain};
use xvcore::history::*;
use xvcore::node::*;
use xvcore::report::*;
use xvcore::spec;
use xvcore::world::*;

// ------------------------------------------------------------ running scripts
struct Lab {
    dir: PathBuf,
    listener: UnixListener,
}
impl Drop for Lab {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
thread_local! {
    static LAB: std::cell::OnceCell<Lab> = const { std::cell::OnceCell::new() };
}
fn lab<T>(f: impl FnOnce(&Lab) -> T) -> T {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    LAB.with(|l| {
        f(l.get_or_init(|| {
            let dir = std::env::temp_dir().join(format!("xv-scripts-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
            std::fs::create_dir_all(&dir).expect("scratch directory");
            let listener = UnixListener::bind(dir.join("s")).expect("socket");
            Lab { dir, listener }
        }))
    })
}
struct Sent {
    payer: String,
    signers: Vec<String>,
    blockhash: String,
    ixs: Vec<Instruction>,
    ok: bool,
}
#[derive(Default)]
struct Seen {
    sent: Vec<Sent>,
    uploads: Vec<Value>,
    requests: usize,
    faulted: bool,
    out: String,
    err: String,
    code: Option<i32>,
    unreadable: Option<String>,
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Option<Vec<u8>> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}
fn read_ix(v: &Value) -> Option<Instruction> {
    Some(Instruction {
        program_id: Pubkey::from_str(v["program"].as_str()?).ok()?,
        data: unhex(v["data"].as_str()?)?,
        accounts: v["keys"]
            .as_array()?
            .iter()
            .map(|k| Some(AccountMeta { pubkey: Pubkey::from_str(k["pubkey"].as_str()?).ok()?, is_signer: k["isSigner"].as_bool()?, is_writable: k["isWritable"].as_bool()? }))
            .collect::<Option<Vec<_>>>()?,
    })
}
fn ui(n: u64) -> Value {
    json!({"amount": n.to_string(), "decimals": 6, "uiAmount": n as f64 / 1e6, "uiAmountString": format!("{}", n as f64 / 1e6)})
}
fn account(c: &Chain, k: &Pubkey) -> Value {
    let Some(a) = c.get(k) else { return Value::Null };
    let mut v = json!({"data": hex(&a.data), "executable": false, "lamports": a.lamports, "owner": a.owner.to_string()});
    if let Some((mint, owner, n)) = spec::decode_token(&a.owner, &a.data) {
        v["parsed"] = json!({"program": "spl-token", "space": 165, "parsed": {"type": "account", "info": {"mint": mint.to_string(), "owner": owner.to_string(), "state": "initialized", "isNative": false, "tokenAmount": ui(n)}}});
    } else if a.owner == spec::token_program() && a.data.len() == 82 {
        let opt = |o: usize| if a.data[o] == 1 { json!(Pubkey::try_from(&a.data[o + 4..o + 36]).unwrap().to_string()) } else { Value::Null };
        v["parsed"] = json!({"program": "spl-token", "space": 82, "parsed": {"type": "mint", "info": {"mintAuthority": opt(0), "freezeAuthority": opt(46), "supply": spec::mint_supply(&a.data).to_string(), "decimals": a.data[44], "isInitialized": true}}});
    }
    v
}
const BLOCKHASH: &str = "EkSnNWid2cvwEVnVx9aBqawnmiCNiDgp3gUdkDPTKN1N";

fn run_script(name: &str, args: &[String], chain: &mut Chain, fault: Option<usize>) -> Seen {
    lab(|lab| {
        let out = std::env::var("XV_JS_OUT").expect("XV_JS_OUT");
        let mut seen = Seen::default();
        let sock = lab.dir.join("s");
        let mut child = Command::new("node")
            .arg(format!("{out}/scripts/{name}.mjs"))
            .args(args)
            .env("XV_SOCK", &sock)
            .env("XV_NOW", chain.now.to_string())
            .current_dir(&lab.dir)
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("node");
        let (mut so, mut se) = (child.stdout.take().unwrap(), child.stderr.take().unwrap());
        let rd = |mut x: Box<dyn std::io::Read + Send>| {
            std::thread::spawn(move || {
                let mut b = vec![];
                let _ = x.read_to_end(&mut b);
                String::from_utf8_lossy(&b).into_owned()
            })
        };
        let _ = (&mut so, &mut se);
        let (ho, he) = (rd(Box::new(so)), rd(Box::new(se)));
        let waiter = std::thread::spawn(move || {
            let t = Instant::now();
            let st = loop {
                if let Ok(Some(s)) = child.try_wait() {
                    break s.code();
                }
                if t.elapsed() > Duration::from_secs(60) {
                    let _ = child.kill();
                    let _ = child.wait();
                    break None;
                }
                std::thread::sleep(Duration::from_millis(1));
            };
            if let Ok(mut s) = UnixStream::connect(&sock) {
                let _ = s.write_all(b"{\"method\":\"over\"}\n");
            }
            st
        });
        'serve: while let Ok((s, _)) = lab.listener.accept() {
            let mut w = s.try_clone().unwrap();
            for l in BufReader::new(s).lines() {
                let Ok(l) = l else { break };
                let Ok(q) = serde_json::from_str::<Value>(&l) else { break };
                let m = q["method"].as_str().unwrap_or("");
                if m == "over" {
                    break 'serve;
                }
                let no = seen.requests;
                seen.requests += 1;
                let r = if fault == Some(no) {
                    seen.faulted = true;
                    Err("503 Service Unavailable".to_string())
                } else {
                    match m {
                        "accounts" => Ok(Value::Array(q["params"].as_array().into_iter().flatten().map(|k| k.as_str().and_then(|k| Pubkey::from_str(k).ok()).map_or(Value::Null, |k| account(chain, &k))).collect())),
                        "blockhash" => Ok(json!(BLOCKHASH)),
                        "upload" => {
                            seen.uploads.push(q["params"].clone());
                            Ok(json!({"id": "uploaded0000000000000000000000000000000000001"}))
                        }
                        "send" => {
                            let p = &q["params"];
                            match p["ixs"].as_array().and_then(|a| a.iter().map(read_ix).collect::<Option<Vec<_>>>()) {
                                None => {
                                    seen.unreadable = Some(p.to_string());
                                    Ok(json!({"err": "unreadable transaction"}))
                                }
                                Some(ixs) => {
                                    let o = chain.exec(&ixs);
                                    let text = |v: &Value| v.as_str().unwrap_or("").to_string();
                                    seen.sent.push(Sent { payer: text(&p["payer"]), signers: p["signers"].as_array().into_iter().flatten().map(text).collect(), blockhash: text(&p["blockhash"]), ixs, ok: o.ok });
                                    if o.ok {
                                        Ok(json!({"signature": "5igSignature"}))
                                    } else {
                                        let what = o.code.map_or(format!("{:?}", o.err), |c| format!("custom program error: 0x{c:x}"));
                                        Ok(json!({"err": format!("Error processing Instruction {}: {what}", o.failed_ix.unwrap_or(0)), "logs": []}))
                                    }
                                }
                            }
                        }
                        _ => Err(format!("unknown request {m}")),
                    }
                };
                let a = match r {
                    Ok(v) => json!({"id": q["id"], "result": v}),
                    Err(e) => json!({"id": q["id"], "error": e}),
                };
                if w.write_all(format!("{a}\n").as_bytes()).is_err() {
                    break;
                }
            }
        }
        seen.code = waiter.join().unwrap_or(None);
        seen.out = ho.join().unwrap_or_default();
        seen.err = he.join().unwrap_or_default();
        seen
    })
}

/// A key file; the marker tells the stand-in that the secret is not known here.
fn key_file(name: &str, k: &Pubkey) -> String {
    let mut s = b"XVSECRET".to_vec();
    s.extend([7u8; 24]);
    s.extend(k.as_ref());
    write_file(name, &serde_json::to_string(&s).unwrap())
}
fn write_file(name: &str, text: &str) -> String {
    lab(|l| {
        let p = l.dir.join(name);
        std::fs::write(&p, text).unwrap();
        p.to_string_lossy().into_owned()
    })
}

// ------------------------------------------------------------ what is expected
#[derive(Clone, Debug)]
enum Want {
    /// Nothing may be submitted.
    Refuse(&'static str),
    /// Exactly this transaction, paid by the key.
    Send(Pubkey, Vec<Instruction>),
}
fn ata_ix(payer: &Pubkey, owner: &Pubkey, mint: &Pubkey) -> Instruction {
    let (ro, rw) = (|k| AccountMeta::new_readonly(k, false), |k| AccountMeta::new(k, false));
    Instruction {
        program_id: spec::ata_program(),
        accounts: vec![AccountMeta::new(*payer, true), rw(spec::ata(owner, mint)), ro(*owner), ro(*mint), ro(spec::system_program()), ro(spec::token_program())],
        data: vec![],
    }
}
fn transfer_ix(from: &Pubkey, to: &Pubkey, owner: &Pubkey, a: u64) -> Instruction {
    Instruction {
        program_id: spec::token_program(),
        accounts: vec![AccountMeta::new(*from, false), AccountMeta::new(*to, false), AccountMeta::new_readonly(*owner, true)],
        data: [&[3][..], &a.to_le_bytes()].concat(),
    }
}
/// Same effect: accounts and data equal, privileges at least those needed, signers exactly.
fn same_ix(got: &Instruction, want: &Instruction) -> bool {
    let data = if want.program_id == spec::ata_program() { matches!(&got.data[..], [] | [0] | [1]) } else { got.data == want.data };
    // a transfer that also states mint and decimals
    if want.program_id == spec::token_program() && want.data.first() == Some(&3) && got.data.first() == Some(&12) && got.accounts.len() == 4 {
        let mut g = got.clone();
        let mint = g.accounts.remove(1);
        g.data = [&[3][..], &got.data[1..9]].concat();
        return mint.pubkey == spec::orca_mint() && got.data[9..] == [6] && same_ix(&g, want);
    }
    got.program_id == want.program_id && data && got.accounts.len() == want.accounts.len()
        && got.accounts.iter().zip(&want.accounts).all(|(g, w)| g.pubkey == w.pubkey && g.is_signer == w.is_signer && (g.is_writable || !w.is_writable))
}
fn all_accounts(c: &Chain) -> BTreeMap<Pubkey, Acct> {
    c.svm
        .accounts_db()
        .inner
        .iter()
        .filter(|(k, a)| **k != c.fee_payer && (a.lamports() > 0 || !a.data().is_empty()))
        .map(|(k, a)| (*k, Acct { lamports: a.lamports(), owner: *a.owner(), data: a.data().to_vec() }))
        .collect()
}

/// Value after `label` at the start of a line (after indentation and bullets).
fn field<'a>(out: &'a str, label: &str) -> Vec<&'a str> {
    out.lines()
        .filter_map(|l| {
            let at = l.find(label)?;
            let head = &l[..at];
            if head.chars().any(|c| c.is_alphanumeric()) {
                return None;
            }
            Some(l[at + label.len()..].trim())
        })
        .collect()
}
struct Report2<'a> {
    seen: &'a Seen,
    wrong: Vec<String>,
    n: u64,
}
impl Report2<'_> {
    /// Every line with the label shows the value, and there is one.
    fn is(&mut self, label: &str, want: impl std::fmt::Display) {
        let want = want.to_string();
        let got = field(&self.seen.out, label);
        self.n += 1;
        if got.is_empty() || got.iter().any(|g| *g != want) {
            self.wrong.push(format!("{label:?} shows {got:?}, the ledger says {want}"));
        }
    }
    fn num(&mut self, label: &str, want: f64) {
        let got = field(&self.seen.out, label);
        self.n += 1;
        let ok = |g: &&str| {
            let t: String = g.chars().take_while(|c| !c.is_whitespace()).collect();
            let inner = g.split('=').nth(1).and_then(|x| x.trim().split(' ').next()).map(|x| x.to_string());
            [Some(t), inner].into_iter().flatten().all(|t| t.parse::<f64>().is_ok_and(|x| (x - want).abs() <= want.abs() * 1e-9 + 1e-9))
        };
        if got.is_empty() || !got.iter().all(ok) {
            self.wrong.push(format!("{label:?} shows {got:?}, the ledger says {want}"));
        }
    }
    fn says(&mut self, text: &str, want: bool) {
        self.n += 1;
        if self.seen.out.contains(text) != want {
            self.wrong.push(format!("{} {text:?}", if want { "does not report" } else { "reports" }));
        }
    }
}
fn duration(s: i128) -> String {
    if s < 60 {
        format!("{s} seconds")
    } else if s < 3600 {
        format!("{}m {}s", s / 60, s % 60)
    } else if s < 86400 {
        format!("{}h {}m", s / 3600, s % 3600 / 60)
    } else {
        format!("{}d {}h", s / 86400, s % 86400 / 3600)
    }
}

fn tok(c: &Chain, k: &Pubkey) -> Option<u64> {
    c.get(k).and_then(|a| spec::decode_token(&a.owner, &a.data)).map(|t| t.2)
}
fn bad_amount(r: &mut ChaCha8Rng) -> String {
    let x = r.gen_range(1..5_000_000u64);
    match r.gen_range(0..11) {
        0 => "abc".into(),
        1 => format!("{x}abc"),
        2 => format!("{x}.5"),
        3 => format!("-{x}"),
        4 => "1e6".into(),
        5 => format!("{x}_000"),
        6 => "NaN".into(),
        7 => (u64::MAX as u128 + 1 + r.gen_range(0..1000)).to_string(),
        8 => "1,000".into(),
        9 => format!("{x} {x}"),
        _ => (u64::MAX as u128 * 2 + 1 + x as u128).to_string(),
    }
}
fn bad_index(r: &mut ChaCha8Rng) -> String {
    match r.gen_range(0..10) {
        0 => "abc".into(),
        1 => "256".into(),
        2 => "-1".into(),
        3 => format!("{}.{}", r.gen_range(0..5), r.gen_range(1..9)),
        4 => r.gen_range(256..100_000).to_string(),
        5 => "1e1".into(),
        6 => String::new(),
        7 => format!("{}th", r.gen_range(0..20)),
        8 => "0x3".into(),
        _ => "1,2".into(),
    }
}
fn bad_seconds(r: &mut ChaCha8Rng) -> String {
    match r.gen_range(0..8) {
        0 => "abc".into(),
        1 => "3600abc".into(),
        2 => format!("{}.5", r.gen_range(0..5000)),
        3 => "1e6".into(),
        4 => String::new(),
        5 => (i64::MAX as u128 + 1 + r.gen_range(0..3)).to_string(),
        6 => "3,600".into(),
        _ => "7 days".into(),
    }
}
/// Amounts as typed: boundary-biased around what the sender holds.
fn pick(r: &mut ChaCha8Rng, have: u64) -> u64 {
    match r.gen_range(0..8) {
        0 => have,
        1 => have.saturating_add(1),
        2 => amount(r, &[have]),
        3 => (1 << 53) + r.gen_range(0..5),
        4 => have.saturating_sub(r.gen_range(0..3)),
        _ => amount_upto(r, have, &[]),
    }
}

struct Act {
    script: &'static str,
    args: Vec<String>,
    want: Want,
    /// The user acting and what the arguments meant.
    u: Pubkey,
    to: Pubkey,
    a: u64,
    i: u8,
    text: String,
}

fn gen_act(r: &mut ChaCha8Rng, w: &World, who: &[usize]) -> Act {
    let c = &w.chain;
    let mut u = &w.users[who[r.gen_range(0..who.len())]];
    let kind = r.gen_range(0..13);
    if kind == 4 || kind == 5 {
        // somebody with a claim, if there is one
        let claims = w.scan_claims();
        let having: Vec<usize> = who.iter().copied().filter(|i| claims.iter().any(|(_, p)| p.unstaker == w.users[*i].key)).collect();
        if !having.is_empty() && r.gen_bool(0.7) {
            u = &w.users[having[r.gen_range(0..having.len())]];
        }
    }
    let kp = key_file("user.json", &u.key);
    let (om, xm) = (spec::orca_mint(), spec::xorca_mint());
    let (orca, xorca) = (tok(c, &u.orca), tok(c, &u.xorca));
    let mut act = Act { script: "", args: vec![kp.clone()], want: Want::Refuse(""), u: u.key, to: u.key, a: 0, i: 0, text: String::new() };
    let bad = r.gen_bool(0.2);
    let state = state_of(&ledger(w));
    match kind {
        0 | 1 => {
            act.script = "stake";
            let a = pick(r, orca.unwrap_or(5));
            act.a = a;
            if bad {
                act.args.push(bad_amount(r));
                act.want = Want::Refuse("not an amount");
            } else {
                act.args.push(a.to_string());
                act.want = match orca {
                    Some(h) if a <= h => {
                        let mut v = vec![];
                        if c.get(&u.xorca).is_none() {
                            v.push(ata_ix(&u.key, &u.key, &xm));
                        }
                        v.push(spec::ix_stake(&u.key, &u.orca, &u.xorca, a));
                        Want::Send(u.key, v)
                    }
                    _ => Want::Refuse("more ORCA than held"),
                };
            }
        }
        2 | 3 => {
            act.script = "unstake";
            let x = pick(r, xorca.unwrap_or(5));
            let i = index(r);
            (act.a, act.i) = (x, i);
            let bad_i = bad && r.gen();
            act.args.push(if bad && !bad_i { bad_amount(r) } else { x.to_string() });
            act.args.push(if bad_i { bad_index(r) } else { i.to_string() });
            act.want = match xorca {
                _ if bad => Want::Refuse("not an amount or index"),
                Some(h) if x <= h => {
                    let mut v = vec![];
                    if c.get(&u.orca).is_none() {
                        v.push(ata_ix(&u.key, &u.key, &om));
                    }
                    v.push(spec::ix_unstake(&u.key, &u.xorca, x, i));
                    Want::Send(u.key, v)
                }
                _ => Want::Refuse("more xORCA than held"),
            };
        }
        4 | 5 => {
            act.script = "withdraw";
            let live: Vec<u8> = w.scan_claims().iter().filter(|(_, p)| p.unstaker == u.key).map(|(_, p)| p.index).collect();
            let i = if live.is_empty() || r.gen_bool(0.2) { index(r) } else { live[r.gen_range(0..live.len())] };
            act.i = i;
            act.args.push(if bad { bad_index(r) } else { i.to_string() });
            let there = c.get(&spec::pending(&u.key, i)).is_some_and(|a| a.data.len() >= 56);
            act.want = if bad {
                Want::Refuse("not an index")
            } else if there {
                let mut v = vec![];
                if c.get(&u.orca).is_none() {
                    v.push(ata_ix(&u.key, &u.key, &om));
                }
                v.push(spec::ix_withdraw(&u.key, &u.orca, i));
                Want::Send(u.key, v)
            } else {
                Want::Refuse("no such claim")
            };
        }
        6 => {
            act.script = "set";
            let auth = state.as_ref().map(|s| s.authority).unwrap_or_default();
            let by = if r.gen_bool(0.8) { auth } else { u.key };
            act.u = by;
            act.args = vec![key_file("authority.json", &by)];
            if r.gen() {
                act.args.push("update-cooldown".into());
                let v = if r.gen_bool(0.3) { i64::MAX - r.gen_range(0..3) } else if r.gen_bool(0.3) { (1 << 53) + r.gen_range(0..9) } else { cooldown(r) };
                act.text = v.to_string();
                act.args.push(if bad { bad_seconds(r) } else { v.to_string() });
                act.want = if bad || v < 0 { Want::Refuse("not a period") } else { Want::Send(by, vec![spec::ix_set_cooldown(&by, v)]) };
            } else if r.gen_bool(0.9) {
                act.args.push("update-authority".into());
                let k = any_key(r, &[u.key, auth]);
                act.text = k.to_string();
                let t = match r.gen_range(0..4) {
                    0 => k.to_string()[1..].to_string() + "O",
                    1 => "abc".into(),
                    // (one more digit usually makes 33 bytes, but not of every key)
                    2 if bs58::decode(format!("{k}1")).into_vec().map_or(true, |b| b.len() != 32) => format!("{k}1"),
                    _ => bs58::encode(&k.to_bytes()[..31]).into_string(),
                };
                act.args.push(if bad { t } else { k.to_string() });
                act.want = if bad { Want::Refuse("not a key") } else { Want::Send(by, vec![spec::ix_set_authority(&by, &k)]) };
            } else {
                act.args.extend(["update-everything".into(), "5".into()]);
                act.want = Want::Refuse("unknown operation");
            }
            if state.is_none() {
                act.want = Want::Refuse("not initialized");
            }
        }
        7 | 8 => {
            act.script = "transfer-orca";
            let to = match r.gen_range(0..6) {
                0 => u.key,
                1 => spec::state(),
                2 => {
                    let mut k = derive_key("recipient", r.gen(), 0);
                    while !k.is_on_curve() {
                        k = derive_key("recipient", r.gen(), 0);
                    }
                    k
                }
                _ => w.users[who[r.gen_range(0..who.len())]].key,
            };
            act.to = to;
            let a = pick(r, orca.unwrap_or(5));
            act.a = a;
            act.args.push(to.to_string());
            act.args.push(if bad { bad_amount(r) } else { a.to_string() });
            let dest = spec::ata(&to, &om);
            act.want = match orca {
                _ if bad => Want::Refuse("not an amount"),
                Some(h) if a <= h && to.is_on_curve() => {
                    let mut v = vec![];
                    if c.get(&dest).is_none() {
                        v.push(ata_ix(&u.key, &to, &om));
                    }
                    v.push(transfer_ix(&u.orca, &dest, &u.key, a));
                    Want::Send(u.key, v)
                }
                _ => Want::Refuse("more ORCA than held, or a recipient without a wallet"),
            };
        }
        9 => {
            act.script = "transfer-orca-to-vault";
            let a = pick(r, orca.unwrap_or(5));
            act.a = a;
            act.args.push(if bad { bad_amount(r) } else { a.to_string() });
            act.want = match orca {
                _ if bad => Want::Refuse("not an amount"),
                Some(h) if a <= h && c.get(&spec::vault()).is_some() => Want::Send(u.key, vec![transfer_ix(&u.orca, &spec::vault(), &u.key, a)]),
                _ => Want::Refuse("more ORCA than held, or no vault"),
            };
        }
        10 => {
            act.script = "status";
            act.args = vec![];
            act.want = Want::Refuse("read only");
        }
        _ => {
            act.script = "pending-withdraws";
            act.args = vec![u.key.to_string()];
            act.want = Want::Refuse("read only");
        }
    }
    // the argument list or the key file itself broken
    if !act.args.is_empty() && r.gen_bool(0.06) {
        match r.gen_range(0..4) {
            0 => {
                act.args.pop();
                act.want = Want::Refuse("too few arguments");
            }
            1 if act.script != "pending-withdraws" => {
                act.args[0] = "/nonexistent/key.json".into();
                act.want = Want::Refuse("no key file");
            }
            2 if act.script != "pending-withdraws" => {
                let s = serde_json::to_string(&vec![1u8; 63]).unwrap();
                act.args[0] = write_file("bad.json", if r.gen() { &s } else { "not json" });
                act.want = Want::Refuse("no key in the file");
            }
            _ => {}
        }
    }
    act
}

/// A pool not yet initialized, for initialize.ts and update-xorca-mint-authority.ts.
fn gen_setup(r: &mut ChaCha8Rng, w: &mut World) -> Act {
    let fresh = r.gen_bool(0.8);
    let auth = derive_key("mint authority", r.gen(), 0);
    let gone = Acct { lamports: 0, owner: spec::system_program(), data: vec![] };
    if fresh {
        w.chain.put(spec::state(), gone.clone());
        w.chain.put(spec::vault(), gone);
    }
    let u = w.users[0].key;
    let mint_auth = if r.gen() { auth } else { spec::state() };
    let supply = if r.gen_bool(0.7) { 0 } else { amount(r, &[]) };
    w.chain.put(spec::xorca_mint(), Acct { lamports: 1_461_600, owner: spec::token_program(), data: spec::encode_mint(Some(&mint_auth), supply, 6, None) });
    let mut act = Act { script: "", args: vec![], want: Want::Refuse(""), u, to: u, a: supply, i: 0, text: mint_auth.to_string() };
    if r.gen() {
        act.script = "initialize";
        let dep = if r.gen_bool(0.85) { spec::deployer() } else { u };
        let a = if r.gen_bool(0.3) { dep } else { derive_key("new authority", r.gen(), 0) };
        act.u = a;
        w.chain.put(a, Acct { lamports: 10_000_000_000, owner: spec::system_program(), data: vec![] });
        let cd = if r.gen_bool(0.3) { (1 << 53) + r.gen_range(0..9) } else { cooldown(r).max(0) };
        act.text = cd.to_string();
        let bad = r.gen_bool(0.25);
        act.args = vec![key_file("deployer.json", &dep), key_file("update.json", &a), if bad { bad_seconds(r) } else { cd.to_string() }];
        act.want = if bad { Want::Refuse("not a period") } else if dep != spec::deployer() { Want::Refuse("not the deployer") } else { Want::Send(dep, vec![spec::ix_initialize(&dep, &a, cd)]) };
    } else {
        act.script = "update-xorca-mint-authority";
        let by = if r.gen_bool(0.8) { auth } else { u };
        act.u = by;
        w.chain.put(by, Acct { lamports: 10_000_000_000, owner: spec::system_program(), data: vec![] });
        act.args = vec![key_file("mint.json", &by)];
        act.want = Want::Send(by, vec![Instruction {
            program_id: spec::token_program(),
            accounts: vec![AccountMeta::new(spec::xorca_mint(), false), AccountMeta::new_readonly(by, true)],
            data: [&[6, 0, 1][..], spec::state().as_ref()].concat(),
        }]);
    }
    act
}

fn judge(act: &Act, seen: &Seen, pre: &Chain, post: &Chain, reports: bool, st: &mut Stats, log: &[String]) -> CaseResult {
    let mut log = log.to_vec();
    let cmd = format!("{} {}", act.script, act.args.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>().join(" "));
    log.push(cmd.clone());
    log.push(format!("stdout:\n{}\nstderr:\n{}\nexit code {:?}", seen.out, seen.err, seen.code));
    if seen.code.is_none() {
        return fail(format!("{cmd}: does not end"), &log);
    }
    let sent_ok = seen.sent.iter().filter(|s| s.ok).count();
    let outcome = if seen.sent.is_empty() { "nothing" } else if sent_ok > 0 { "executed" } else { "failed" };
    st.count(&format!("{}:{outcome}", act.script));
    if seen.faulted {
        st.count("faulted-requests");
    }
    if !reports {
        if let Some(x) = &seen.unreadable {
            return fail(format!("{cmd}: submits {x}"), &log);
        }
        match &act.want {
            Want::Refuse(why) => {
                st.count("refusals");
                if let Some(s) = seen.sent.first() {
                    return fail(format!("{cmd}: must refuse ({why}) but submits {:?}", s.ixs), &log);
                }
            }
            Want::Send(payer, ixs) => {
                if seen.sent.len() > 1 {
                    return fail(format!("{cmd}: submits {} transactions", seen.sent.len()), &log);
                }
                if seen.sent.is_empty() && !seen.faulted {
                    return fail(format!("{cmd}: submits nothing; expected {ixs:?}"), &log);
                }
                if let Some(s) = seen.sent.first() {
                    let mut signers: Vec<String> = vec![payer.to_string()];
                    for m in ixs.iter().flat_map(|i| &i.accounts).filter(|m| m.is_signer) {
                        if !signers.contains(&m.pubkey.to_string()) {
                            signers.push(m.pubkey.to_string());
                        }
                    }
                    let (mut a, mut b) = (s.signers.clone(), signers.clone());
                    a.sort();
                    b.sort();
                    if s.payer != payer.to_string() || a != b || s.blockhash != BLOCKHASH {
                        return fail(format!("{cmd}: paid by {} and signed by {:?}; expected {payer} and {signers:?}", s.payer, s.signers), &log);
                    }
                    if s.ixs.len() != ixs.len() || !s.ixs.iter().zip(ixs).all(|(g, w)| same_ix(g, w)) {
                        return fail(format!("{cmd}: submits {:?}; expected {ixs:?}", s.ixs), &log);
                    }
                    // and executed it does what the expected transaction does
                    let mut reference = pre.clone();
                    let o = reference.exec(ixs);
                    if o.ok != s.ok || all_accounts(&reference) != all_accounts(post) {
                        return fail(format!("{cmd}: executed={} but the expected transaction executed={} or left another ledger", s.ok, o.ok), &log);
                    }
                    st.count(if o.ok { "executed-as-expected" } else { "failed-as-expected" });
                }
            }
        }
        return Ok(());
    }
    // ------------------------------------------------------------ reports
    let mut rep = Report2 { seen, wrong: vec![], n: 0 };
    let success = match act.script {
        "stake" => "Stake transaction successful",
        "unstake" => "Unstake transaction successful",
        "withdraw" => "Withdraw transaction successful",
        "set" => "Set instruction transaction successful",
        "transfer-orca" => "ORCA transfer successful",
        "transfer-orca-to-vault" => "ORCA transfer to vault successful",
        "initialize" => "Initialize transaction successful",
        "update-xorca-mint-authority" => "Transaction successful",
        _ => "",
    };
    if !success.is_empty() {
        rep.says(success, sent_ok > 0);
    }
    if sent_ok > 0 {
        rep.says("transaction failed", false);
    }
    if seen.faulted && seen.code == Some(0) && !seen.out.contains("❌") && !seen.err.contains("❌") {
        rep.wrong.push("says nothing of a failed request".into());
    }
    let whole = !seen.faulted;
    let bal = |c: &Chain, owner: &Pubkey, mint: fn() -> Pubkey| tok(c, &spec::ata(owner, &mint())).unwrap_or(0);
    let u = &act.u;
    let executed = sent_ok > 0 && whole;
    let l = chain_ledger(pre);
    match act.script {
        "stake" if executed => {
            rep.is("Final ORCA balance:", bal(post, u, spec::orca_mint));
            rep.is("Final xORCA balance:", bal(post, u, spec::xorca_mint));
            rep.is("ORCA staked:", bal(pre, u, spec::orca_mint) - bal(post, u, spec::orca_mint));
            rep.is("xORCA received:", bal(post, u, spec::xorca_mint) - bal(pre, u, spec::xorca_mint));
        }
        "unstake" if executed => {
            rep.is("Staker's final xORCA balance:", bal(post, u, spec::xorca_mint));
            rep.is("Staker's final ORCA balance:", bal(post, u, spec::orca_mint));
            rep.is("xORCA unstaked:", bal(pre, u, spec::xorca_mint) - bal(post, u, spec::xorca_mint));
            rep.is("ORCA received:", bal(post, u, spec::orca_mint) - bal(pre, u, spec::orca_mint));
        }
        "withdraw" if whole && matches!(act.want, Want::Send(..)) => {
            if executed {
                rep.is("Staker's final ORCA balance:", bal(post, u, spec::orca_mint));
            }
            if let Some(p) = claims(&l, u, 255).get(&act.i).filter(|p| p.ts.unsigned_abs() < 1 << 52) {
                rep.is("Withdrawable timestamp:", p.ts);
                rep.is("Seconds remaining:", p.ts - pre.now);
            }
        }
        "transfer-orca" if executed => {
            let (f, t) = (|c| bal(c, u, spec::orca_mint), |c| bal(c, &act.to, spec::orca_mint));
            rep.is("Final sender ORCA balance:", f(post));
            rep.is("Final recipient ORCA balance:", t(post));
            rep.is("ORCA transferred:", f(pre) - f(post));
            rep.is("ORCA received by recipient:", t(post) - t(pre));
        }
        "transfer-orca-to-vault" if executed => {
            let v = |c: &Chain| tok(c, &spec::vault()).unwrap_or(0);
            rep.is("Final sender ORCA balance:", bal(post, u, spec::orca_mint));
            rep.is("Final vault ORCA balance:", v(post));
            rep.is("ORCA transferred:", v(post) - v(pre));
            rep.is("Vault received:", format!("{} ORCA", v(post) - v(pre)));
        }
        "set" if executed => {
            let s = state_of(&chain_ledger(post)).unwrap();
            if act.args[1] == "update-cooldown" {
                rep.is("Cooldown period updated to:", format!("{} seconds", s.cooldown));
            } else {
                rep.is("Update authority updated to:", s.authority);
            }
        }
        "initialize" if executed => {
            let s = state_of(&chain_ledger(post)).unwrap();
            rep.is("Cool down period:", format!("{} seconds", s.cooldown));
            rep.is("Update authority:", s.authority);
            rep.is("State account:", spec::state());
            rep.is("Vault account:", spec::vault());
        }
        "update-xorca-mint-authority" if whole => {
            rep.is("Current mint authority:", &act.text);
            rep.is("Current supply:", act.a);
            if executed {
                rep.is("New mint authority:", spec::state());
                rep.says("Mint authority successfully updated", true);
            }
        }
        "status" => {
            if let (Some(s), Some(v), true) = (state_of(&l), vault_of(&l), whole) {
                let n = v.2 - s.escrow;
                let sup = supply_of(&l).unwrap();
                rep.is("State Account:", spec::state());
                rep.is("Vault Account:", spec::vault());
                rep.is("Cool Down Period:", format!("{} seconds", s.cooldown));
                rep.is("Escrowed ORCA Amount:", s.escrow);
                rep.is("Update Authority:", s.authority);
                rep.is("Bump:", s.bump);
                rep.is("Vault Bump:", s.vault_bump);
                rep.is("Total ORCA in Vault:", v.2);
                rep.is("Escrowed ORCA:", s.escrow);
                rep.is("Non-Escrowed ORCA:", n);
                rep.is("xORCA Total Supply:", sup);
                rep.is("xORCA Supply:", sup);
                rep.is("Numerator (Non-Escrowed + Virtual):", n as u128 + 100);
                rep.is("Denominator (xORCA Supply + Virtual):", sup as u128 + 100);
                if n > 0 && sup > 0 {
                    // what one base unit of each is exchanged for
                    let x = (sup as f64 + 100.) / (n as f64 + 100.);
                    rep.num("ORCA → xORCA Rate:", x);
                    rep.num("xORCA → ORCA Rate:", 1. / x);
                    rep.num("Exchange Rate (ORCA→xORCA):", x);
                    rep.num("Exchange Rate (xORCA→ORCA):", 1. / x);
                }
            } else {
                rep.says("Summary", false);
            }
        }
        "pending-withdraws" if act.args.len() == 1 => {
            if state_of(&l).is_none() || !whole {
                rep.says("Found ", false);
                rep.says("No pending withdraws", false);
            } else {
                let want = claims(&l, u, 15);
                rep.is("Found", format!("{} pending withdraws", want.len()));
                let heads = field(&seen.out, "Pending Withdraw #").len() + seen.out.lines().filter(|l| l.contains(". Pending Withdraw #")).count();
                if heads != want.len() {
                    rep.wrong.push(format!("lists {heads} claims, the ledger holds {}", want.len()));
                }
                let blocks: Vec<&str> = seen.out.split(". Pending Withdraw #").skip(1).collect();
                for b in &blocks {
                    let i = b.lines().next().and_then(|x| x.trim().parse::<u8>().ok());
                    let Some(p) = i.and_then(|i| want.get(&i)) else {
                        rep.wrong.push(format!("lists claim {i:?} which does not exist"));
                        continue;
                    };
                    let b = b.split("Summary").next().unwrap();
                    rep.n += 1;
                    let ready = pre.now >= p.ts;
                    let one = |label: &str| field(b, label).first().map(|s| s.to_string());
                    let amount = one("ORCA Amount:");
                    let mut ok = amount == Some(p.amount.to_string()) && one("Address:") == Some(spec::pending(u, p.index).to_string())
                        && b.contains("READY TO WITHDRAW") == ready && b.contains("COOLDOWN ACTIVE") != ready;
                    let left = (p.ts as i128 - pre.now as i128).abs();
                    if left < 1 << 52 {
                        ok &= one(if ready { "Ready for:" } else { "Time Remaining:" }) == Some(duration(left));
                    }
                    if !ok {
                        rep.wrong.push(format!("shows claim {} as {b:?}; it is {} ORCA at {}, due at {}, now {}", p.index, p.amount, spec::pending(u, p.index), p.ts, pre.now));
                    }
                }
                if !want.is_empty() {
                    let (ready, cool): (Vec<_>, Vec<_>) = want.values().partition(|p| pre.now >= p.ts);
                    rep.is("Total Pending Withdraws:", want.len());
                    rep.is("Ready to Withdraw:", ready.len());
                    rep.is("In Cooldown:", cool.len());
                    let sum = |v: &[&spec::PendV]| v.iter().map(|p| p.amount as u128).sum::<u128>();
                    if !ready.is_empty() {
                        rep.is("Total ORCA Ready:", sum(&ready));
                    }
                    if !cool.is_empty() {
                        rep.is("Total ORCA in Cooldown:", sum(&cool));
                    }
                    st.add("claims-reported", want.len() as u64);
                }
            }
        }
        _ => {}
    }
    st.add("figures-compared", rep.n);
    if !rep.wrong.is_empty() {
        return fail(format!("{cmd}: {}", rep.wrong.join("; ")), &log);
    }
    Ok(())
}
fn chain_ledger(c: &Chain) -> Ledger {
    all_accounts(c)
}

fn one(case: u64, r: &mut ChaCha8Rng, st: &mut Stats, reports: bool) -> CaseResult {
    let mut w = with_base(|b| reachable_world_in(b, r, 5, case, true));
    let who: Vec<usize> = (0..5).filter(|i| w.users[*i].key.is_on_curve()).collect();
    if who.is_empty() {
        return Ok(());
    }
    let mut p = Profile::base();
    p.few_indices = true;
    p.dust = 8;
    p.warp = 6;
    for _ in 0..r.gen_range(0..12) {
        let v = w.view();
        let op = gen_op(r, &w, &v, &p);
        w.apply(&op);
    }
    if r.gen_bool(if reports { 0.6 } else { 0.5 }) {
        // several claims at the searched indices
        let u = who[r.gen_range(0..who.len())];
        let mut sum = 0;
        let base = 1u64 << r.gen_range(1..56);
        let twins = r.gen_bool(0.3);
        let (mut a, mut at) = (0, 0);
        for i in 0..17u8 {
            if r.gen_bool(0.4) && w.chain.get(&spec::pending(&w.users[u].key, i)).is_none() {
                let again = twins && a > 0 && r.gen_bool(0.8);
                if !again {
                    a = r.gen_range(1..=base);
                }
                let d = [1i64, 59, 60, 61, 3599, 3600, 86399, 86400, 1 << 30][r.gen_range(0..9)] + r.gen_range(-1..2);
                if !again {
                    at = w.chain.now.saturating_add(if r.gen() { d } else { -d });
                }
                w.inject_claim(u, i, a, at);
                sum += a;
            }
        }
        let v = w.view();
        let s = v.state.clone().unwrap();
        if let (Some(e), Some(n)) = (s.escrow.checked_add(sum), v.vault.checked_add(sum)) {
            w.chain.put(spec::state(), Acct { lamports: v.state_lamports, owner: spec::program_id(), data: spec::encode_state(&spec::StateV { escrow: e, ..s }) });
            w.chain.put(spec::vault(), token_acct(&spec::orca_mint(), &spec::state(), n));
        } else {
            return Ok(());
        }
    }
    for n in 0..6 {
        if w.chain.now.unsigned_abs() > 8_000_000_000_000 {
            return Ok(());
        }
        // token accounts come and go
        if r.gen_bool(0.25) {
            let u = w.users[who[r.gen_range(0..who.len())]].clone();
            let k = if r.gen() { u.orca } else { u.xorca };
            if tok(&w.chain, &k) == Some(0) || r.gen_bool(0.3) {
                w.chain.put(k, Acct { lamports: 0, owner: spec::system_program(), data: vec![] });
            }
        }
        let act = if n == 5 && r.gen_bool(0.4) { gen_setup(r, &mut w) } else { gen_act(r, &w, &who) };
        let fault = r.gen_bool(0.15).then(|| if r.gen_bool(0.3) { 4 } else { r.gen_range(0..if act.script == "pending-withdraws" { 16 } else { 8 }) });
        if act.script == "status" && r.gen_bool(0.6) {
            // the same question about a pool of any other size
            let mut c = w.chain.clone();
            let any = |r: &mut ChaCha8Rng| if r.gen_bool(0.3) { u64::MAX - (r.gen::<u64>() >> r.gen_range(40..64)) } else { r.gen::<u64>() >> r.gen_range(0..64) };
            let vault = any(r);
            let escrow = any(r).min(vault);
            if let (Some(a), Some(s)) = (c.get(&spec::state()), w.view().state) {
                let s = spec::StateV { escrow, cooldown: any(r) as i64 & i64::MAX, ..s };
                c.put(spec::state(), Acct { data: spec::encode_state(&s), ..a });
                c.put(spec::vault(), token_acct(&spec::orca_mint(), &spec::state(), vault));
                let m = Acct { lamports: 1_461_600, owner: spec::token_program(), data: spec::encode_mint(Some(&spec::state()), any(r), 6, None) };
                c.put(spec::xorca_mint(), m);
                let pre = c.clone();
                let seen = run_script(act.script, &act.args, &mut c, fault);
                st.eval(Some((act.script, vault, escrow, case)));
                st.count("status:any-size");
                let mut log = w.log.clone();
                log.push(format!("status of {s:?}, vault {vault}"));
                judge(&act, &seen, &pre, &c, reports, st, &log)?;
                continue;
            }
        }
        let pre = w.chain.clone();
        let seen = run_script(act.script, &act.args, &mut w.chain, fault);
        st.eval(Some((act.script, &act.args, case)));
        w.log.push(format!("script {} {:?}", act.script, act.args));
        let log = w.log.clone();
        judge(&act, &seen, &pre, &w.chain, reports, st, &log)?;
        if r.gen_bool(0.4) && n < 4 {
            let v = w.view();
            let op = gen_op(r, &w, &v, &p);
            w.apply(&op);
        }
    }
    st.sample(|| json!({"claims": w.scan_claims().len(), "now": w.chain.now}));
    Ok(())
}

/// Key files written by generate-keypair.ts, uploads of upload-image.ts.
fn files(r: &mut ChaCha8Rng, st: &mut Stats) -> CaseResult {
    use solana_sdk::signature::{keypair_from_seed, Signer};
    let mut w = with_base(|b| World::new(b, &Init::simple(1, 1)));
    let out = std::env::var("XV_JS_OUT").unwrap();
    let dir = PathBuf::from(format!("{out}/scripts/keypairs"));
    let _ = std::fs::create_dir_all(&dir);
    let seed: [u8; 32] = r.gen();
    let kp = keypair_from_seed(&seed).unwrap();
    let full = kp.to_bytes().to_vec();
    let kind = r.gen_range(0..4);
    let (arg, want) = match kind {
        0 => (hex(&seed), Some(full.clone())),
        1 => (hex(&full), Some(full.clone())),
        2 => (hex(&full[..[0, 1, 31, 33, 63][r.gen_range(0..5)]]), None),
        _ => {
            let mut x = full.clone();
            x[40] ^= 1;
            (hex(&x), None)
        }
    };
    let name = format!("k{:x}.json", r.gen::<u64>());
    let file = dir.join(&name);
    let seen = run_script("generate-keypair", &[arg.clone(), name.clone()], &mut w.chain, None);
    st.eval(Some((kind, seed)));
    let got = std::fs::read_to_string(&file).ok();
    let _ = std::fs::remove_file(&file);
    let log = vec![format!("generate-keypair {arg} {name}"), seen.out.clone(), seen.err.clone()];
    let parsed = got.as_ref().and_then(|t| serde_json::from_str::<Vec<u8>>(t).ok());
    st.count(if want.is_some() { "key-files" } else { "key-files-refused" });
    match &want {
        Some(x) if parsed.as_ref() != Some(x) || !seen.out.contains(&kp.pubkey().to_string()) => return fail(format!("generate-keypair {arg}: writes {got:?} and reports {:?}; the key is {}", seen.out, kp.pubkey()), &log),
        None if got.is_some() => return fail(format!("generate-keypair {arg}: writes {got:?} for an unusable key"), &log),
        _ => {}
    }
    // images
    let ext = [("png", "image/png"), ("jpg", "image/jpeg"), ("jpeg", "image/jpeg"), ("gif", "image/gif"), ("webp", "image/webp"), ("svg", "image/svg+xml"), ("bmp", "image/bmp"), ("tiff", "image/tiff"), ("tif", "image/tiff"), ("ico", "image/x-icon"), ("bin", "application/octet-stream"), ("PNG", "image/png")][r.gen_range(0..12)];
    let data: String = (0..r.gen_range(0..3000)).map(|_| r.gen_range(' '..'~')).collect();
    let img = write_file(&format!("image.v2.{}", ext.0), &data);
    let key = write_file("k.json", &serde_json::to_string(&full).unwrap());
    let net = [None, Some("mainnet"), Some("devnet"), Some("testnet")][r.gen_range(0..4)];
    let missing = r.gen_bool(0.2);
    let args: Vec<String> = [Some(if missing { "/nonexistent.png".into() } else { img }), Some(key), net.map(|s| s.to_string())].into_iter().flatten().collect();
    let seen = run_script("upload-image", &args, &mut w.chain, None);
    st.eval(Some((args.clone(), data.len())));
    let log = vec![format!("upload-image {args:?}"), seen.out.clone(), seen.err.clone()];
    if missing || net == Some("testnet") {
        st.count("uploads-refused");
        if !seen.uploads.is_empty() {
            return fail(format!("upload-image {args:?}: uploads {:?}", seen.uploads), &log);
        }
        return Ok(());
    }
    st.count("uploads");
    let url = if net == Some("devnet") { "https://devnet.irys.xyz" } else { "https://node1.irys.xyz" };
    let [u] = &seen.uploads[..] else { return fail(format!("upload-image {args:?}: {} uploads", seen.uploads.len()), &log) };
    let kind = u["tags"].as_array().and_then(|t| t.iter().find(|t| t["name"] == "Content-Type")).map(|t| t["value"].clone());
    if u["data"] != hex(data.as_bytes()) || u["url"] != url || kind != Some(json!(ext.1)) || u["key"] != hex(&full) || u["token"] != "solana" {
        return fail(format!("upload-image {args:?}: uploads {} bytes as {kind:?} to {}", u["data"].as_str().map_or(0, |d| d.len() / 2), u["url"]), &log);
    }
    Ok(())
}

pub fn run(ctx: &Ctx, reports: bool) -> i32 {
    let a = run_cases(ctx, "scripts", ctx.scale(170, 12_000), ctx.scale(30, 600), |c, r, st| one(c, r, st, reports));
    let mut parts = vec![("scripts".into(), a)];
    let assumptions = vec![
        "@solana/web3.js, @solana/spl-token, @solana/kit and @irys/sdk are replaced by stand-ins written from their documentation; the originals are not installed here.".to_string(),
        "The ledger changes only by the script's own transaction while it runs.".into(),
    ];
    let rep = if reports {
        Report {
            rule: "One evaluation per run of a script of ts-scripts (bundled, executed by node as a process of its own) against a node executing the real program; every figure printed is compared with the ledger before or after. Distinct by script, arguments and ledger.".into(),
            assumptions,
            require: req(&[("status:nothing", 60), ("pending-withdraws:nothing", 60), ("claims-reported", 120), ("figures-compared", 1200), ("stake:executed", 20), ("unstake:executed", 10), ("withdraw:executed", 8), ("transfer-orca:executed", 20)]),
            min_distinct: 1000,
        }
    } else {
        parts.push(("files".into(), run_cases(ctx, "files", ctx.scale(20, 1000), ctx.scale(10, 100), |_, r, st| files(r, st))));
        Report {
            rule: "One evaluation per run of a script of ts-scripts (bundled, executed by node as a process of its own) against a node executing the real program; the submitted transactions are compared with independently written ones and executed. Distinct by script, arguments and ledger.".into(),
            assumptions,
            require: req(&[("stake:executed", 40), ("unstake:executed", 20), ("withdraw:executed", 15), ("withdraw:failed", 8), ("transfer-orca:executed", 40), ("transfer-orca-to-vault:executed", 20), ("set:executed", 20), ("initialize:executed", 4), ("update-xorca-mint-authority:executed", 3), ("refusals", 300), ("key-files", 10), ("uploads", 10)]),
            min_distinct: 1000,
        }
    };
    finish(ctx, parts, rep)
}
