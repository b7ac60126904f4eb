'use strict';
// Stand-in for @solana/web3.js 1.x as the scripts use it. Requests go over the socket named by
// XV_SOCK, one JSON object per line; transactions are handed over as instruction lists.
const net = require('net');
const E = require('./ed25519.cjs');
const crypto = require('crypto');
const X = {};
if (process.env.XV_NOW) {
  const ms = Number(process.env.XV_NOW) * 1000 + 789;
  const Real = Date;
  Real.now = () => ms;
  globalThis.Date = class extends Real {
    constructor(...a) { a.length ? super(...a) : super(ms); }
    static now() { return ms; }
  };
}
const sha = E.sha256;
class PublicKey {
  constructor(v) {
    let b;
    if (v instanceof PublicKey) b = v.bytes;
    else if (typeof v === 'string') {
      b = E.b58decode(v);
      if (b.length !== 32) throw new Error('Invalid public key input');
    } else if (typeof v === 'number' || typeof v === 'bigint') {
      const h = BigInt(v).toString(16);
      b = Buffer.from(h.padStart(64, '0'), 'hex');
    } else {
      b = Uint8Array.from(v);
      if (b.length > 32) throw new Error('Invalid public key input');
      if (b.length < 32) {
        const p = new Uint8Array(32);
        p.set(b, 32 - b.length);
        b = p;
      }
    }
    this.bytes = new Uint8Array(b);
  }
  equals(o) { return Buffer.compare(this.bytes, o.bytes) === 0; }
  toBase58() { return E.b58encode(this.bytes); }
  toString() { return this.toBase58(); }
  toJSON() { return this.toBase58(); }
  toBytes() { return new Uint8Array(this.bytes); }
  toBuffer() { return Buffer.from(this.bytes); }
  get [Symbol.toStringTag]() { return `PublicKey(${this.toString()})`; }
  static isOnCurve(v) { return E.onCurve(new PublicKey(v).bytes); }
  static findProgramAddressSync(seeds, program) {
    const [a, bump] = E.findPda(seeds.map((s) => Uint8Array.from(s)), program.bytes);
    return [new PublicKey(a), bump];
  }
  static async findProgramAddress(seeds, program) { return PublicKey.findProgramAddressSync(seeds, program); }
  static createProgramAddressSync(seeds, program) { return new PublicKey(E.createPda(seeds.map((s) => Uint8Array.from(s)), program.bytes)); }
  static async createProgramAddress(seeds, program) { return PublicKey.createProgramAddressSync(seeds, program); }
  static async createWithSeed(from, seed, program) { return new PublicKey(sha(from.bytes, Buffer.from(seed), program.bytes)); }
}
PublicKey.default = new PublicKey('11111111111111111111111111111111');
class Keypair {
  constructor(k) {
    if (k) {
      this._pub = new Uint8Array(k.publicKey);
      this._secret = new Uint8Array(k.secretKey);
    } else Object.assign(this, Keypair.fromSeed(crypto.randomBytes(32)));
  }
  static generate() { return new Keypair(); }
  static fromSecretKey(s, o) {
    if (s.byteLength !== 64) throw new Error('bad secret key size');
    const pub = s.slice(32, 64);
    // secrets starting with this marker stand for key holders whose secret nobody knows here
    const stand = Buffer.from(s.slice(0, 8)).toString() === 'XVSECRET';
    if (!stand && !(o && o.skipValidation)) {
      const want = E.publicFromSeed(s.slice(0, 32)).bytes;
      if (Buffer.compare(pub, want) !== 0) throw new Error('provided secretKey is invalid');
    }
    return new Keypair({ publicKey: pub, secretKey: s });
  }
  static fromSeed(seed) {
    if (seed.length !== 32) throw new Error('bad seed size');
    const pub = E.publicFromSeed(seed).bytes;
    const secret = new Uint8Array(64);
    secret.set(seed);
    secret.set(pub, 32);
    return new Keypair({ publicKey: pub, secretKey: secret });
  }
  get publicKey() { return new PublicKey(this._pub); }
  get secretKey() { return new Uint8Array(this._secret); }
}
class TransactionInstruction {
  constructor(o) {
    this.programId = o.programId;
    this.keys = o.keys;
    this.data = o.data ? o.data : Buffer.alloc(0);
  }
}
class Transaction {
  constructor(o) {
    this.instructions = [];
    this.signatures = [];
    this.signed = [];
    Object.assign(this, o || {});
  }
  get signature() { return this.signed.length ? Buffer.alloc(64, 1) : null; }
  add(...items) {
    if (items.length === 0) throw new Error('No instructions');
    for (const i of items) {
      if ('instructions' in i) this.instructions = this.instructions.concat(i.instructions);
      else if ('data' in i && 'programId' in i && 'keys' in i) this.instructions.push(i);
      else this.instructions.push(new TransactionInstruction(i));
    }
    return this;
  }
  required() {
    if (!this.feePayer) throw new Error('Transaction fee payer required');
    const r = [this.feePayer.toBase58()];
    for (const i of this.instructions) for (const k of i.keys) if (k.isSigner && !r.includes(k.pubkey.toBase58())) r.push(k.pubkey.toBase58());
    return r;
  }
  check() {
    if (!this.recentBlockhash) throw new Error('Transaction recentBlockhash required');
    if (this.instructions.length < 1) console.warn('No instructions provided');
    for (const i of this.instructions) if (!i.programId) throw new Error('Transaction instruction has undefined program id');
  }
  sign(...signers) {
    this.signed = [];
    this.partialSign(...signers);
  }
  partialSign(...signers) {
    if (signers.length === 0) throw new Error('No signers');
    if (!this.feePayer) this.feePayer = signers[0].publicKey;
    this.check();
    for (const s of signers) {
      const k = s.publicKey.toBase58();
      if (!this.required().includes(k)) throw new Error(`unknown signer: ${k}`);
      if (!this.signed.includes(k)) this.signed.push(k);
    }
  }
  wire() {
    this.check();
    const missing = this.required().filter((k) => !this.signed.includes(k));
    if (missing.length) throw new Error(`Signature verification failed.\nMissing signature for public key${missing.length > 1 ? 's' : ''} [\`${missing.join('`, `')}\`].`);
    return {
      payer: this.feePayer.toBase58(), signers: this.signed, blockhash: this.recentBlockhash,
      ixs: this.instructions.map((i) => ({
        program: i.programId.toBase58(), data: Buffer.from(i.data).toString('hex'),
        keys: i.keys.map((k) => ({ pubkey: k.pubkey.toBase58(), isSigner: !!k.isSigner, isWritable: !!k.isWritable })),
      })),
    };
  }
  serialize() { return Buffer.from(JSON.stringify(this.wire())); }
}
class TransactionMessage {
  constructor(o) { Object.assign(this, o); }
  compileToV0Message() { return this; }
  compileToLegacyMessage() { return this; }
}
class VersionedTransaction {
  constructor(message, signatures) {
    this.message = message;
    this.signatures = signatures || [];
    this.tx = new Transaction({ feePayer: message.payerKey, recentBlockhash: message.recentBlockhash, instructions: [...message.instructions] });
  }
  get version() { return 0; }
  sign(signers) { this.tx.partialSign(...signers); }
  serialize() { return this.tx.serialize(); }
}
let sock = null;
let nextId = 0;
const waiting = new Map();
function request(method, params) {
  if (!sock) {
    sock = net.connect(process.env.XV_SOCK);
    let buf = '';
    sock.setEncoding('utf8');
    sock.on('data', (d) => {
      buf += d;
      let i;
      while ((i = buf.indexOf('\n')) >= 0) {
        const m = JSON.parse(buf.slice(0, i));
        buf = buf.slice(i + 1);
        const w = waiting.get(m.id);
        waiting.delete(m.id);
        if (waiting.size === 0) sock.unref();
        'error' in m ? w.reject(new Error(m.error)) : w.resolve(m.result);
      }
    });
    sock.on('error', (e) => { for (const w of waiting.values()) w.reject(e); waiting.clear(); });
  }
  sock.ref();
  return new Promise((resolve, reject) => {
    const id = nextId++;
    waiting.set(id, { resolve, reject });
    sock.write(JSON.stringify({ id, method, params }) + '\n');
  });
}
const str = (k) => (k instanceof PublicKey ? k.toBase58() : new PublicKey(k).toBase58());
const account = (a) => a && ({ data: Buffer.from(a.data, 'hex'), executable: a.executable, lamports: a.lamports, owner: new PublicKey(a.owner), rentEpoch: 0 });
const parsed = (a) => a && ({ ...account(a), ...(a.parsed ? { data: a.parsed } : {}) });
const ctx = { slot: 1 };
const ui = (a, d) => { const n = Number(a) / 10 ** d; return { amount: a, decimals: d, uiAmount: n, uiAmountString: String(n) }; };
class Connection {
  constructor(url, c) {
    if (!/^https?:/.test(url)) throw new TypeError('Endpoint URL must start with `http:` or `https:`.');
    this.rpcEndpoint = url;
    this._commitment = typeof c === 'string' ? c : c && c.commitment;
  }
  get commitment() { return this._commitment; }
  async getAccountInfo(k) { return account((await request('accounts', [str(k)]))[0]); }
  async getAccountInfoAndContext(k) { return { context: ctx, value: await this.getAccountInfo(k) }; }
  async getMultipleAccountsInfo(ks) {
    if (ks.length > 100) throw new Error('failed to get info for accounts: Too many inputs provided; max 100');
    return (await request('accounts', ks.map(str))).map(account);
  }
  async getMultipleAccountsInfoAndContext(ks) { return { context: ctx, value: await this.getMultipleAccountsInfo(ks) }; }
  async getParsedAccountInfo(k) { return { context: ctx, value: parsed((await request('accounts', [str(k)]))[0]) }; }
  async getMultipleParsedAccounts(ks) { return { context: ctx, value: (await request('accounts', ks.map(str))).map(parsed) }; }
  async getTokenAccountBalance(k) {
    const a = (await request('accounts', [str(k)]))[0];
    const p = a && a.parsed;
    if (!p || p.parsed.type !== 'account') throw new Error(`failed to get token account balance: Invalid param: could not find account`);
    return { context: ctx, value: p.parsed.info.tokenAmount };
  }
  async getTokenSupply(k) {
    const p = ((await request('accounts', [str(k)]))[0] || {}).parsed;
    if (!p || p.parsed.type !== 'mint') throw new Error('failed to get token supply: Invalid param: could not find mint');
    return { context: ctx, value: ui(p.parsed.info.supply, p.parsed.info.decimals) };
  }
  async getBalance(k) { const a = (await request('accounts', [str(k)]))[0]; return a ? a.lamports : 0; }
  async getLatestBlockhash() { return { blockhash: await request('blockhash', []), lastValidBlockHeight: 1000 }; }
  async getRecentBlockhash() { return { blockhash: await request('blockhash', []), feeCalculator: { lamportsPerSignature: 5000 } }; }
  async getSignatureStatus() { return { context: ctx, value: { slot: 1, confirmations: 1, err: null, confirmationStatus: 'confirmed' } }; }
  async getSignatureStatuses(l) { return { context: ctx, value: l.map(() => ({ slot: 1, confirmations: 1, err: null, confirmationStatus: 'confirmed' })) }; }
  async getSlot() { return 1; }
  async getBlockHeight() { return 1; }
  async getMinimumBalanceForRentExemption(n) { return (n + 128) * 6960; }
  async sendTransaction(tx, signers, o) {
    if (tx instanceof VersionedTransaction) return this.sendRawTransaction(tx.serialize(), signers);
    if (!tx.recentBlockhash) tx.recentBlockhash = (await this.getLatestBlockhash()).blockhash;
    if (Array.isArray(signers) && signers.length) tx.sign(...signers);
    return this.sendRawTransaction(tx.serialize(), o);
  }
  async sendRawTransaction(raw) {
    const r = await request('send', JSON.parse(Buffer.from(raw).toString()));
    if (r.err) throw new SendTransactionError(r.err, r.logs);
    return r.signature;
  }
  async sendEncodedTransaction(raw) { return this.sendRawTransaction(Buffer.from(raw, 'base64')); }
  async simulateTransaction() { return { context: ctx, value: { err: null, logs: [] } }; }
  async confirmTransaction() { return { context: ctx, value: { err: null } }; }
}
class SendTransactionError extends Error {
  constructor(m, logs) { super(`failed to send transaction: Transaction simulation failed: ${m}`); this.logs = logs; }
}
async function sendAndConfirmTransaction(connection, tx, signers, options) {
  // the library signs with a fresh blockhash, paying from the first signer unless told otherwise
  tx.recentBlockhash = (await connection.getLatestBlockhash()).blockhash;
  tx.sign(...signers);
  return connection.sendRawTransaction(tx.serialize(), options);
}
const key = (s) => new PublicKey(s);
const meta = (pubkey, isSigner, isWritable) => ({ pubkey, isSigner, isWritable });
const u64le = (v) => { const b = Buffer.alloc(8); b.writeBigUInt64LE(BigInt(v)); return b; };
const u32le = (v) => { const b = Buffer.alloc(4); b.writeUInt32LE(v); return b; };
const SYSTEM = key('11111111111111111111111111111111');
const SystemProgram = {
  programId: SYSTEM,
  transfer: (p) => new TransactionInstruction({ programId: SYSTEM, keys: [meta(p.fromPubkey, true, true), meta(p.toPubkey, false, true)], data: Buffer.concat([u32le(2), u64le(p.lamports)]) }),
};
const BUDGET = key('ComputeBudget111111111111111111111111111111');
const ComputeBudgetProgram = {
  programId: BUDGET,
  setComputeUnitLimit: ({ units }) => new TransactionInstruction({ programId: BUDGET, keys: [], data: Buffer.concat([Buffer.from([2]), u32le(units)]) }),
  setComputeUnitPrice: ({ microLamports }) => new TransactionInstruction({ programId: BUDGET, keys: [], data: Buffer.concat([Buffer.from([3]), u64le(microLamports)]) }),
};
Object.assign(X, {
  PublicKey, Keypair, Transaction, TransactionInstruction, TransactionMessage, VersionedTransaction, Connection, SendTransactionError, SystemProgram, ComputeBudgetProgram, sendAndConfirmTransaction,
  sendAndConfirmRawTransaction: (c, raw, o) => c.sendRawTransaction(raw, o),
  LAMPORTS_PER_SOL: 1000000000, PUBLIC_KEY_LENGTH: 32, SIGNATURE_LENGTH_IN_BYTES: 64,
  SYSVAR_RENT_PUBKEY: key('SysvarRent111111111111111111111111111111111'), SYSVAR_CLOCK_PUBKEY: key('SysvarC1ock11111111111111111111111111111111'),
  clusterApiUrl: (c) => `https://api.${c || 'devnet'}.solana.com`,
});
module.exports = X;
