//! One node process per worker thread, executing calls into the bundled JS client.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::Duration;

pub fn n(v: impl std::fmt::Display) -> Value {
    json!({"$n": v.to_string()})
}
pub fn b(v: &[u8]) -> Value {
    json!({"$b": v.iter().map(|x| format!("{x:02x}")).collect::<String>()})
}
pub fn k(p: &solana_sdk::pubkey::Pubkey) -> Value {
    json!(p.to_string())
}
pub fn call(f: &str, args: Value) -> Value {
    json!({"op": "call", "fn": f, "args": args})
}
pub fn decode(f: &str, bytes: &[u8]) -> Value {
    json!({"op": "decode", "fn": f, "args": [b(bytes)]})
}
pub fn encode(f: &str, v: Value) -> Value {
    json!({"op": "encode", "fn": f, "args": [v]})
}
pub fn constant(f: &str) -> Value {
    json!({"op": "const", "fn": f})
}
/// Numbers: bigint or plain.
pub fn num(v: &Value) -> Option<i128> {
    match v {
        Value::Number(x) => x.as_i64().map(|x| x as i128).or(x.as_u64().map(|x| x as i128)),
        Value::Object(o) => o.get("$n")?.as_str()?.parse().ok(),
        _ => None,
    }
}
pub fn bytes(v: &Value) -> Option<Vec<u8>> {
    let s = v.get("$b")?.as_str()?;
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}
/// Equality up to bigint/number representation.
pub fn same(a: &Value, b: &Value) -> bool {
    if let (Some(x), Some(y)) = (num(a), num(b)) {
        return x == y;
    }
    match (a, b) {
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| same(v, w))),
        _ => a == b,
    }
}

struct Js {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<String>,
    next: u64,
}
impl Drop for Js {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
impl Js {
    fn start() -> Js {
        let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let out = std::env::var("XV_JS_OUT").expect("XV_JS_OUT");
        let mut child = Command::new("node")
            .arg(format!("{dir}/js/driver.cjs"))
            .env("XV_CLIENT", format!("{out}/client.cjs"))
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("node");
        let stdin = child.stdin.take().unwrap();
        let stdout = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for l in BufReader::with_capacity(1 << 20, stdout).lines() {
                let Ok(l) = l else { break };
                if tx.send(l).is_err() {
                    break;
                }
            }
        });
        Js { child, stdin, rx, next: 0 }
    }
    fn send(&mut self, v: &Value) -> Result<(), String> {
        let mut s = serde_json::to_vec(v).unwrap();
        s.push(b'\n');
        self.stdin.write_all(&s).and_then(|_| self.stdin.flush()).map_err(|e| format!("the JS process is gone: {e}"))
    }
    fn recv(&mut self) -> Result<Value, String> {
        let l = self.rx.recv_timeout(Duration::from_secs(90)).map_err(|e| format!("no answer from the JS process: {e}"))?;
        serde_json::from_str(&l).map_err(|e| format!("unreadable answer {l:?}: {e}"))
    }
}
thread_local! {
    static JS: RefCell<Option<Js>> = const { RefCell::new(None) };
}
pub type Answer = Result<Value, String>;
/// An RPC answer and how many event-loop turns later it arrives.
pub type Served = (Result<Value, String>, u32);

/// Run the calls one after the other; `serve` answers the RPC requests they make.
pub fn batch_with(calls: &[Value], serve: &mut dyn FnMut(&str, &Value) -> Served) -> Result<Vec<Answer>, String> {
    JS.with(|cell| {
        let mut slot = cell.borrow_mut();
        let js = slot.get_or_insert_with(Js::start);
        js.next += 1;
        let id = js.next;
        let mut go = || {
            js.send(&json!({"id": id, "batch": calls}))?;
            loop {
                let v = js.recv()?;
                if let Some(k) = v.get("rpc") {
                    let (r, after) = serve(v["method"].as_str().unwrap_or(""), &v["params"]);
                    let m = match r {
                        Ok(x) => json!({"rpc": k, "result": x, "after": after}),
                        Err(e) => json!({"rpc": k, "error": e, "after": after}),
                    };
                    js.send(&m)?;
                } else if v["id"].as_u64() == Some(id) {
                    let r = v["r"].as_array().cloned().unwrap_or_default();
                    return Ok(r
                        .into_iter()
                        .map(|x| match x.get("err") {
                            Some(e) => Err(e.as_str().unwrap_or("").to_string()),
                            None => Ok(x["ok"].clone()),
                        })
                        .collect());
                }
            }
        };
        let r = go();
        if r.is_err() {
            *slot = None;
        }
        r
    })
}
pub fn batch(calls: &[Value]) -> Result<Vec<Answer>, String> {
    batch_with(calls, &mut |m, _| (Err(format!("unexpected request {m}")), 0))
}
