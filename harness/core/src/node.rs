//! A simulated RPC node serving ledger snapshots, with schedules and faults.
use crate::engine::Acct;
use crate::spec::{self, PendV, StateV};
use crate::world::World;
use base64::{engine::general_purpose::STANDARD as B64, Engine as _};
use serde_json::{json, Value};
use solana_sdk::pubkey::Pubkey;
use std::collections::BTreeMap;
use std::str::FromStr;

pub type Ledger = BTreeMap<Pubkey, Acct>;
type Rpc = (i64, String);
fn rpc_err(code: i64, m: &str) -> Rpc {
    (code, m.into())
}

/// What the node answers request number `k` from, and what goes wrong.
#[derive(Default)]
pub struct Node {
    pub snaps: Vec<Ledger>,
    /// Snapshot served at each request (the last entry repeats).
    pub schedule: Vec<usize>,
    pub fault: Option<(usize, Fault)>,
    pub calls: usize,
    pub served: Vec<usize>,
    pub fired: bool,
    pub too_many: bool,
    pub log: Vec<String>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    Error,
    /// This account is missing / cut to this many bytes from the given request on.
    Missing(Pubkey),
    Short(Pubkey, usize),
    /// This account is allocated but was never initialized: all zero, of the right length.
    Zeroed(Pubkey),
}
impl Node {
    fn ui(&mut self, s: usize, k: &Pubkey, cfg: &Value) -> Value {
        let mut a = match self.snaps[s].get(k) {
            Some(a) => a.clone(),
            None => return Value::Null,
        };
        if let Some((at, f)) = self.fault.clone() {
            if self.calls > at {
                match f {
                    Fault::Missing(x) if x == *k => {
                        self.fired = true;
                        return Value::Null;
                    }
                    Fault::Short(x, n) if x == *k => {
                        self.fired = true;
                        a.data.truncate(n);
                    }
                    Fault::Zeroed(x) if x == *k => {
                        self.fired = true;
                        a.data.fill(0);
                    }
                    _ => {}
                }
            }
        }
        let space = a.data.len();
        if let Some(sl) = cfg.get("dataSlice").filter(|v| !v.is_null()) {
            let (o, l) = (sl["offset"].as_u64().unwrap_or(0) as usize, sl["length"].as_u64().unwrap_or(0) as usize);
            let o = o.min(space);
            a.data = a.data[o..(o + l).min(space)].to_vec();
        }
        json!({"executable": false, "lamports": a.lamports, "owner": a.owner.to_string(), "rentEpoch": u64::MAX,
            "data": [B64.encode(&a.data), "base64"], "space": space})
    }
    pub fn answer(&mut self, request: &str, params: &Value) -> Result<Value, Rpc> {
        let no = self.calls;
        self.calls += 1;
        let s = *self.schedule.get(no).or(self.schedule.last()).unwrap();
        self.served.push(s);
        self.log.push(format!("request {no}: {request} answered from snapshot {s}"));
        if matches!(&self.fault, Some((at, Fault::Error)) if *at == no) {
            self.fired = true;
            return Err(rpc_err(-32005, "node is behind"));
        }
        let key = |v: &Value| v.as_str().and_then(|s| Pubkey::from_str(s).ok());
        let ctx = json!({"slot": 100 + s});
        let cfg = params.get(1).cloned().unwrap_or(Value::Null);
        let Some(first) = params.get(0) else { return Err(rpc_err(-32602, "no parameters")) };
        match request {
            "getAccountInfo" => {
                let k = key(first).ok_or_else(|| rpc_err(-32602, "bad key"))?;
                Ok(json!({"context": ctx, "value": self.ui(s, &k, &cfg)}))
            }
            "getMultipleAccounts" => {
                let ks: Vec<Pubkey> = first.as_array().into_iter().flatten().filter_map(key).collect();
                if ks.len() > 100 {
                    self.too_many = true;
                    return Err(rpc_err(-32602, "Too many inputs provided; max 100"));
                }
                let v: Vec<Value> = ks.iter().map(|k| self.ui(s, k, &cfg)).collect();
                Ok(json!({"context": ctx, "value": v}))
            }
            "getTokenAccountBalance" => {
                let k = key(first).ok_or_else(|| rpc_err(-32602, "bad key"))?;
                match self.snaps[s].get(&k).and_then(|a| spec::decode_token(&a.owner, &a.data)) {
                    Some((_, _, n)) => Ok(json!({"context": ctx, "value": {"amount": n.to_string(), "decimals": 6, "uiAmountString": n.to_string(), "uiAmount": null}})),
                    None => Err(rpc_err(-32602, "could not find account")),
                }
            }
            "getTokenSupply" => {
                let k = key(first).ok_or_else(|| rpc_err(-32602, "bad key"))?;
                match self.snaps[s].get(&k) {
                    Some(a) if a.data.len() == 82 => {
                        let n = spec::mint_supply(&a.data);
                        Ok(json!({"context": ctx, "value": {"amount": n.to_string(), "decimals": a.data[44], "uiAmountString": n.to_string(), "uiAmount": null}}))
                    }
                    _ => Err(rpc_err(-32602, "could not find mint")),
                }
            }
            "getProgramAccounts" => {
                let p = key(first).ok_or_else(|| rpc_err(-32602, "bad key"))?;
                let filters: Vec<Value> = cfg.get("filters").and_then(|f| f.as_array()).cloned().unwrap_or_default();
                let ok = |d: &[u8]| {
                    filters.iter().all(|f| {
                        if let Some(n) = f.get("dataSize").and_then(|n| n.as_u64()) {
                            return d.len() as u64 == n;
                        }
                        let m = &f["memcmp"];
                        let o = m["offset"].as_u64().unwrap_or(0) as usize;
                        let b: Vec<u8> = match &m["bytes"] {
                            Value::Array(a) => a.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect(),
                            Value::String(t) if m["encoding"] == "base64" => B64.decode(t).unwrap_or_default(),
                            Value::String(t) => bs58::decode(t).into_vec().unwrap_or_default(),
                            _ => vec![],
                        };
                        d.get(o..o + b.len()) == Some(&b[..])
                    })
                };
                let ks: Vec<Pubkey> = self.snaps[s].iter().filter(|(_, a)| a.owner == p && ok(&a.data)).map(|(k, _)| *k).collect();
                let v: Vec<Value> = ks.iter().map(|k| json!({"pubkey": k.to_string(), "account": self.ui(s, k, &cfg)})).collect();
                Ok(if cfg["withContext"] == true { json!({"context": ctx, "value": v}) } else { json!(v) })
            }
            _ => Err(rpc_err(-32601, "method not offered by this node")),
        }
    }
}
pub fn ledger(w: &World) -> Ledger {
    let mut m = Ledger::new();
    for (k, a) in w.chain.svm.accounts_db().inner.iter() {
        use solana_sdk::account::ReadableAccount;
        let o = *a.owner();
        let mine = o == spec::program_id() || *k == spec::vault() || *k == spec::xorca_mint() || *k == spec::orca_mint();
        if (mine || (o == spec::system_program() && a.data().is_empty())) && a.lamports() > 0 {
            m.insert(*k, Acct { lamports: a.lamports(), owner: o, data: a.data().to_vec() });
        }
    }
    m
}
pub fn claims(l: &Ledger, user: &Pubkey, max: u8) -> BTreeMap<u8, PendV> {
    l.values()
        .filter(|a| a.owner == spec::program_id() && a.data.first() == Some(&2) && a.data.len() == spec::PENDING_LEN)
        .filter_map(|a| spec::decode_pending(&a.owner, &a.data, 0))
        .filter(|p| p.unstaker == *user && p.index < max)
        .map(|p| (p.index, p))
        .collect()
}
pub fn state_of(l: &Ledger) -> Option<StateV> {
    l.get(&spec::state()).and_then(|a| spec::decode_state(&a.owner, &a.data))
}
pub fn vault_of(l: &Ledger) -> Option<(Pubkey, Pubkey, u64)> {
    l.get(&spec::vault()).and_then(|a| spec::decode_token(&a.owner, &a.data))
}
pub fn supply_of(l: &Ledger) -> Option<u64> {
    l.get(&spec::xorca_mint()).map(|a| spec::mint_supply(&a.data))
}
