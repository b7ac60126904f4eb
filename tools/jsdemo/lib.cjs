'use strict';
// Bundles the client or the scripts with stand-ins for their dependencies, and a ledger to run them on.
const path = require('path');
const fs = require('fs');
const net = require('net');
const { spawn } = require('child_process');
const esbuild = require('/opt/veriftools/node/node_modules/esbuild');
const repo = process.env.XDEMO_REPO;
const dir = process.env.XDEMO_DIR;
const here = (f) => path.join(__dirname, f);
const alias = { '@solana-program/token': here('token.cjs'), '@solana/web3.js': here('web3.cjs'), '@solana/spl-token': here('spl-token.cjs'), '@orca-so/xorca': path.join(repo, 'js-client/src/index.ts'), '@irys/sdk': here('irys.cjs') };
for (const p of ['kit', 'addresses', 'codecs', 'codecs-core', 'codecs-numbers', 'codecs-strings', 'codecs-data-structures', 'accounts', 'instructions', 'signers', 'errors', 'options', 'programs']) alias['@solana/' + p] = here('kit.cjs');
const common = { bundle: true, platform: 'node', target: 'node20', logLevel: 'silent', alias, tsconfigRaw: '{}' };
const fatal = (e) => { console.error(e); process.exit(99); };
const check = (c, m) => { if (!c) { console.error('BROKEN: ' + m); process.exit(1); } };
function client() {
  try {
    esbuild.buildSync({ ...common, format: 'cjs', entryPoints: [path.join(repo, 'js-client/src/index.ts')], outfile: path.join(dir, 'client.cjs') });
    return require(path.join(dir, 'client.cjs'));
  } catch (e) { fatal(e); }
}
// ---- accounts: { address: { owner, data (Buffer), lamports } }
const E = require('./ed25519.cjs');
const dec = E.b58decode, b58 = E.b58encode;
const PROGRAM = 'StaKE6XNKVVhG8Qu9hDJBqCW3eRe7MDGLz17nJZetLT', TOKEN = 'TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA', ATA = 'ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL';
const ORCA = 'orcaEKTdK7LKz57vaAYr9QeNsVEPfiu6QeMU1kektZE', XORCA = 'xorcaYqbXUNz3474ubUMJAdu2xgPsew3rUCe5ughT3N', SYSTEM = '11111111111111111111111111111111';
const pda = (seeds, p) => b58(E.findPda(seeds, dec(p))[0]);
const STATE = pda([Buffer.from('state')], PROGRAM);
const ata = (owner, mint) => pda([dec(owner), dec(TOKEN), dec(mint)], ATA);
const VAULT = ata(STATE, ORCA);
const pending = (u, i) => pda([Buffer.from('pending_withdraw'), dec(u), Buffer.from([i])], PROGRAM);
const user = (n) => b58(E.publicFromSeed(Buffer.alloc(32, n)).bytes);
const tokens = (mint, owner, n) => { const d = Buffer.alloc(165); d.set(dec(mint)); d.set(dec(owner), 32); d.writeBigUInt64LE(BigInt(n), 64); d[108] = 1; return { owner: TOKEN, data: d, lamports: 2039280 }; };
const mint = (supply) => { const d = Buffer.alloc(82); d.writeUInt32LE(1); d.set(dec(STATE), 4); d.writeBigUInt64LE(BigInt(supply), 36); d[44] = 6; d[45] = 1; return { owner: TOKEN, data: d, lamports: 1461600 }; };
const state = (escrow, cooldown, authority = user(9)) => { const d = Buffer.alloc(2048); d[0] = 1; d.writeBigUInt64LE(BigInt(escrow), 8); d.writeBigInt64LE(BigInt(cooldown), 16); d.set(dec(authority), 24); return { owner: PROGRAM, data: d, lamports: 15144960 }; };
const claim = (u, i, amount, ts) => { const d = Buffer.alloc(1024); d[0] = 2; d[7] = i; d.set(dec(u), 8); d.writeBigUInt64LE(BigInt(amount), 40); d.writeBigInt64LE(BigInt(ts), 48); return { owner: PROGRAM, data: d, lamports: 8017920 }; };
function pool({ vault = 16000, escrow = 0, supply = 10000, cooldown = 100 } = {}) {
  return { [STATE]: state(escrow, cooldown), [VAULT]: tokens(ORCA, STATE, vault), [XORCA]: mint(supply), [ORCA]: mint(10n ** 15n) };
}
// ---- rpc for the client
function rpc(accounts) {
  const one = (a, o) => { const x = accounts[a]; return x ? { data: [x.data.toString('base64'), 'base64'], executable: false, lamports: BigInt(x.lamports), owner: x.owner, space: BigInt(x.data.length) } : null; };
  return {
    getAccountInfo: (a) => ({ send: async () => ({ context: { slot: 1n }, value: one(a) }) }),
    getMultipleAccounts: (l) => ({ send: async () => { if (l.length > 100) throw new Error('Too many inputs provided; max 100'); return { context: { slot: 1n }, value: l.map((a) => one(a)) }; } }),
  };
}
// ---- scripts
const ui = (n) => ({ amount: n.toString(), decimals: 6, uiAmount: Number(n) / 1e6, uiAmountString: String(Number(n) / 1e6) });
function answer(accounts, a) {
  const x = accounts[a];
  if (!x) return null;
  const v = { data: x.data.toString('hex'), executable: false, lamports: x.lamports, owner: x.owner };
  if (x.owner === TOKEN && x.data.length === 165) v.parsed = { program: 'spl-token', space: 165, parsed: { type: 'account', info: { mint: b58(x.data.subarray(0, 32)), owner: b58(x.data.subarray(32, 64)), state: 'initialized', isNative: false, tokenAmount: ui(x.data.readBigUInt64LE(64)) } } };
  if (x.owner === TOKEN && x.data.length === 82) v.parsed = { program: 'spl-token', space: 82, parsed: { type: 'mint', info: { mintAuthority: STATE, freezeAuthority: null, supply: x.data.readBigUInt64LE(36).toString(), decimals: x.data[44], isInitialized: true } } };
  return v;
}
const keyFile = (name, pub) => { const f = path.join(dir, name); fs.writeFileSync(f, JSON.stringify([...Buffer.from('XVSECRET'), ...Buffer.alloc(24, 7), ...dec(pub)])); return f; };
async function script(name, args, accounts, { now = 1700000000, onSend = () => {} } = {}) {
  const out = path.join(dir, name + '.mjs');
  try {
    esbuild.buildSync({ ...common, format: 'esm', entryPoints: [path.join(repo, 'ts-scripts', name + '.ts')], outfile: out, banner: { js: "import { createRequire as __cr } from 'module'; const require = __cr(import.meta.url);" } });
  } catch (e) { fatal(e); }
  const sent = [];
  const sock = path.join(dir, 's');
  fs.rmSync(sock, { force: true });
  const server = net.createServer((c) => {
    let b = '';
    c.setEncoding('utf8');
    c.on('error', () => {});
    c.on('data', (d) => {
      b += d;
      let i;
      while ((i = b.indexOf('\n')) >= 0) {
        const q = JSON.parse(b.slice(0, i));
        b = b.slice(i + 1);
        let r = null;
        if (q.method === 'accounts') r = q.params.map((a) => answer(accounts, a));
        else if (q.method === 'blockhash') r = 'EkSnNWid2cvwEVnVx9aBqawnmiCNiDgp3gUdkDPTKN1N';
        else if (q.method === 'send') {
          sent.push(q.params);
          onSend(accounts, q.params);
          r = { signature: 'sig' };
        }
        c.write(JSON.stringify({ id: q.id, result: r }) + '\n');
      }
    });
  });
  await new Promise((ok) => server.listen(sock, ok));
  const p = spawn('node', [out, ...args], { env: { ...process.env, XV_SOCK: sock, XV_NOW: String(now) }, stdio: ['ignore', 'pipe', 'pipe'], cwd: dir });
  let o = '', e = '';
  p.stdout.on('data', (d) => (o += d));
  p.stderr.on('data', (d) => (e += d));
  const code = await new Promise((ok) => p.on('close', ok));
  server.close();
  return { code, out: o, err: e, sent };
}
module.exports = { check, fatal, client, E, PROGRAM, TOKEN, ATA, ORCA, XORCA, SYSTEM, STATE, VAULT, pda, ata, pending, user, tokens, mint, state, claim, pool, rpc, keyFile, script, kit: require('./kit.cjs') };
