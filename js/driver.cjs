'use strict';
// Executes calls into the bundled client: one JSON request per line on stdin, one answer per line.
const fs = require('fs');
const out = (o) => fs.writeSync(1, JSON.stringify(o) + '\n');
let logged = 0;
console.error = console.warn = () => { logged++; };
console.log = console.info = console.debug = () => {};
const client = require(process.env.XV_CLIENT);
const kit = require('./shims/kit.cjs');

const pack = (v, d = 0) => {
  if (d > 12) return { $deep: true };
  if (typeof v === 'bigint') return { $n: v.toString() };
  if (v === undefined) return { $u: 1 };
  if (v instanceof Uint8Array) return { $b: Buffer.from(v).toString('hex') };
  if (typeof v === 'function') return { $f: 1 };
  if (typeof v === 'number' && !Number.isFinite(v)) return { $x: String(v) };
  if (Array.isArray(v)) return v.map((x) => pack(x, d + 1));
  if (v && typeof v === 'object') return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, pack(x, d + 1)]));
  return v;
};
const waiting = new Map();
let nextRpc = 0;
const rpc = new Proxy({}, {
  get: (_, method) => (typeof method !== 'string' || method === 'then') ? undefined : (...params) => ({
    send: () => new Promise((resolve, reject) => {
      const k = nextRpc++;
      waiting.set(k, { resolve, reject });
      out({ rpc: k, method, params: params.map((p) => pack(p)) });
    }),
  }),
});
const unpack = (v) => {
  if (Array.isArray(v)) return v.map(unpack);
  if (v && typeof v === 'object') {
    if ('$n' in v) return BigInt(v.$n);
    if ('$b' in v) return new Uint8Array(Buffer.from(v.$b, 'hex'));
    if ('$u' in v) return undefined;
    if ('$x' in v) return Number(v.$x);
    if ('$rpc' in v) return rpc;
    if ('$signer' in v) return kit.createNoopSigner(v.$signer);
    if ('$solanaError' in v) return new kit.SolanaError(v.$solanaError, unpack(v.context));
    return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, unpack(x)]));
  }
  return v;
};
async function run(q) {
  const args = (q.args || []).map(unpack);
  const f = client[q.fn];
  if (q.op === 'const') return f;
  if (typeof f !== 'function') throw new Error(`the client does not export ${q.fn}`);
  if (q.op === 'call') return await f(...args);
  if (q.op === 'decode') return f().decode(...args);
  if (q.op === 'encode') return f().encode(...args);
  if (q.op === 'size') { const c = f(); return c.fixedSize === undefined ? null : c.fixedSize; }
  throw new Error('unknown request');
}
let buf = '';
process.stdin.setEncoding('utf8');
process.stdin.on('data', (chunk) => {
  buf += chunk;
  let i;
  while ((i = buf.indexOf('\n')) >= 0) {
    const line = buf.slice(0, i);
    buf = buf.slice(i + 1);
    const q = JSON.parse(line);
    if ('rpc' in q) {
      const w = waiting.get(q.rpc);
      waiting.delete(q.rpc);
      let turns = q.after || 0;
      const go = () => (turns-- > 0 ? setImmediate(go) : 'error' in q ? w.reject(new Error(q.error)) : w.resolve(unpack(q.result)));
      go();
    } else {
      const before = logged;
      const done = (o) => out({ id: q.id, logged: logged - before, ...o });
      // whole batches run one call after the other
      (async () => {
        const r = [];
        for (const c of q.batch) {
          try { r.push({ ok: pack(await run(c)) }); } catch (e) { r.push({ err: String((e && e.message) || e) }); }
        }
        done({ r });
      })();
    }
  }
});
process.stdin.on('end', () => process.exit(0));
