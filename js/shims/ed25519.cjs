'use strict';
// SHA-256 based program-derived addresses, base58 and ed25519 point decompression.
const crypto = require('crypto');
const ALPHABET = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
const MAP = new Map([...ALPHABET].map((c, i) => [c, BigInt(i)]));
const CHUNK = 58n ** 8n;
function b58encode(bytes) {
  let n = bytes.length ? BigInt('0x' + Buffer.from(bytes).toString('hex')) : 0n;
  let s = '';
  while (n > 0n) {
    let q = Number(n % CHUNK);
    n /= CHUNK;
    for (let i = 0; i < 8 && (n > 0n || q > 0); i++) {
      s = ALPHABET[q % 58] + s;
      q = Math.floor(q / 58);
    }
  }
  for (const b of bytes) {
    if (b !== 0) break;
    s = '1' + s;
  }
  return s;
}
function b58decode(s) {
  let n = 0n;
  for (const c of s) {
    const v = MAP.get(c);
    if (v === undefined) throw new Error('Non-base58 character');
    n = n * 58n + v;
  }
  const out = [];
  while (n > 0n) {
    out.unshift(Number(n % 256n));
    n /= 256n;
  }
  for (const c of s) {
    if (c !== '1') break;
    out.unshift(0);
  }
  return Uint8Array.from(out);
}
const P = (1n << 255n) - 19n;
const D = 37095705934669439343138083508754565189542113879843219016388785533085940283555n;
// Jacobi symbol (a / P): 1 exactly when a is a nonzero square.
function square(a) {
  let n = P;
  a %= n;
  let r = 1;
  while (a !== 0n) {
    while ((a & 1n) === 0n) {
      a >>= 1n;
      const m = Number(n & 7n);
      if (m === 3 || m === 5) r = -r;
    }
    [a, n] = [n, a];
    if ((a & 3n) === 3n && (n & 3n) === 3n) r = -r;
    a %= n;
  }
  return n === 1n && r === 1;
}
// Does the little-endian compressed Edwards y coordinate belong to a curve point?
function onCurve(bytes) {
  if (bytes.length !== 32) return false;
  let y = BigInt('0x' + Buffer.from(bytes).reverse().toString('hex'));
  const sign = y >> 255n;
  y = (y & ((1n << 255n) - 1n)) % P;
  const y2 = (y * y) % P;
  const u = (y2 + P - 1n) % P;
  const v = (D * y2 + 1n) % P;
  if (u === 0n) return sign === 0n;
  // x^2 = u / v has a root exactly when u * v does
  return square(u * v);
}
const sha256 = (...parts) => {
  const h = crypto.createHash('sha256');
  for (const p of parts) h.update(p);
  return new Uint8Array(h.digest());
};
const MARKER = Buffer.from('ProgramDerivedAddress');
function createPda(seeds, program) {
  if (seeds.length > 16) throw new Error('A maximum of 16 seeds may be supplied when creating an address');
  for (const s of seeds) if (s.length > 32) throw new Error('Max seed length exceeded');
  const a = sha256(...seeds, program, MARKER);
  if (onCurve(a)) throw new Error('Invalid seeds, address must fall off the curve');
  return a;
}
const cache = new Map();
function findPda(seeds, program) {
  const key = seeds.map((s) => s.length + ':' + Buffer.from(s).toString('hex')).join('/') + '@' + Buffer.from(program).toString('hex');
  const hit = cache.get(key);
  if (hit) return hit;
  if (seeds.length > 15) throw new Error('Max seeds exceeded');
  for (const s of seeds) if (s.length > 32) throw new Error('Max seed length exceeded');
  for (let bump = 255; bump >= 0; bump--) {
    const a = sha256(...seeds, Uint8Array.of(bump), program, MARKER);
    if (!onCurve(a)) {
      const r = [a, bump];
      if (cache.size > 20000) cache.clear();
      cache.set(key, r);
      return r;
    }
  }
  throw new Error('Unable to find a viable program address bump seed');
}
function publicFromSeed(seed) {
  const der = Buffer.concat([Buffer.from('302e020100300506032b657004220420', 'hex'), Buffer.from(seed)]);
  const key = crypto.createPrivateKey({ key: der, format: 'der', type: 'pkcs8' });
  const pub = crypto.createPublicKey(key).export({ format: 'der', type: 'spki' });
  return { key, bytes: new Uint8Array(pub.subarray(pub.length - 32)) };
}
module.exports = { b58encode, b58decode, onCurve, sha256, createPda, findPda, publicFromSeed };
