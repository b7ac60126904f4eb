'use strict';
// Stand-in for @solana/kit 3.x: the parts a Codama client may use, with kit's documented behaviour.
const E = require('./ed25519.cjs');
const X = (module.exports = {});
const err = (m) => new Error(m);
// ---- codecs -------------------------------------------------------------------------------
const enc = (fixed, size, write, max) => ({
  ...(fixed ? { fixedSize: size } : { getSizeFromValue: size, ...(max !== undefined ? { maxSize: max } : {}) }),
  write,
  encode(v) {
    const n = fixed ? size : size(v);
    const b = new Uint8Array(n);
    write(v, b, 0);
    return b;
  },
});
const need = (name, n, bytes, at) => {
  if (bytes.length - at < n) throw err(`Codec [${name}] expected ${n} bytes, got ${Math.max(0, bytes.length - at)}.`);
};
const dec = (fixed, read, max) => ({
  ...(fixed !== undefined ? { fixedSize: fixed } : max !== undefined ? { maxSize: max } : {}),
  read,
  decode(bytes, at = 0) {
    return read(bytes, at)[0];
  },
});
const isFixed = (c) => typeof c.fixedSize === 'number';
const sizeOf = (c, v) => (isFixed(c) ? c.fixedSize : c.getSizeFromValue(v));
X.isFixedSize = isFixed;
X.isVariableSize = (c) => !isFixed(c);
X.getEncodedSize = (v, c) => sizeOf(c, v);
X.createEncoder = (e) => Object.freeze({ ...e, encode: (v) => { const b = new Uint8Array(sizeOf(e, v)); e.write(v, b, 0); return b; } });
X.createDecoder = (d) => Object.freeze({ ...d, decode: (b, at = 0) => d.read(b, at)[0] });
X.createCodec = (c) => Object.freeze({ ...c, encode: (v) => { const b = new Uint8Array(sizeOf(c, v)); c.write(v, b, 0); return b; }, decode: (b, at = 0) => c.read(b, at)[0] });
X.combineCodec = (e, d) => {
  if (isFixed(e) !== isFixed(d)) throw err('Encoder and decoder must either both be fixed-size or variable-size.');
  if (isFixed(e) && e.fixedSize !== d.fixedSize) throw err('Encoder and decoder must have the same fixed size');
  return { ...d, ...e, decode: d.decode, encode: e.encode, read: d.read, write: e.write };
};
X.transformEncoder = (e, f) => X.createEncoder(isFixed(e) ? { ...e, write: (v, b, o) => e.write(f(v), b, o) } : { ...e, getSizeFromValue: (v) => e.getSizeFromValue(f(v)), write: (v, b, o) => e.write(f(v), b, o) });
X.transformDecoder = (d, f) => X.createDecoder({ ...d, read: (b, o) => { const [v, n] = d.read(b, o); return [f(v, b, o), n]; } });
X.transformCodec = (c, f, g) => X.createCodec({ ...X.transformEncoder(c, f), read: g ? X.transformDecoder(c, g).read : c.read });
const checkInt = (name, min, max, v) => {
  if (v < min || v > max) throw err(`Codec [${name}] expected number to be in the range [${min}, ${max}], got ${v}.`);
};
const int = (name, size, min, max, set, get) => {
  const cap = name.charAt(0).toUpperCase() + name.slice(1);
  const view = (b) => new DataView(b.buffer, b.byteOffset, b.byteLength);
  const le = (cfg) => !(cfg && cfg.endian === 1);
  X[`get${cap}Encoder`] = (cfg) =>
    Object.freeze(enc(true, size, (v, b, o) => {
      checkInt(name, min, max, v);
      set(view(b), o, v, le(cfg));
      return o + size;
    }));
  X[`get${cap}Decoder`] = (cfg) =>
    Object.freeze(dec(size, (b, o) => {
      if (b.length - o <= 0) throw err(`Codec [${name}] cannot decode empty byte arrays.`);
      need(name, size, b, o);
      return [get(view(b), o, le(cfg)), o + size];
    }));
  X[`get${cap}Codec`] = (cfg) => X.combineCodec(X[`get${cap}Encoder`](cfg), X[`get${cap}Decoder`](cfg));
};
int('u8', 1, 0, 255, (d, o, v) => d.setUint8(o, Number(v)), (d, o) => d.getUint8(o));
int('i8', 1, -128, 127, (d, o, v) => d.setInt8(o, Number(v)), (d, o) => d.getInt8(o));
int('u16', 2, 0, 65535, (d, o, v, l) => d.setUint16(o, Number(v), l), (d, o, l) => d.getUint16(o, l));
int('i16', 2, -32768, 32767, (d, o, v, l) => d.setInt16(o, Number(v), l), (d, o, l) => d.getInt16(o, l));
int('u32', 4, 0, 0xffffffff, (d, o, v, l) => d.setUint32(o, Number(v), l), (d, o, l) => d.getUint32(o, l));
int('i32', 4, -0x80000000, 0x7fffffff, (d, o, v, l) => d.setInt32(o, Number(v), l), (d, o, l) => d.getInt32(o, l));
int('u64', 8, 0n, (1n << 64n) - 1n, (d, o, v, l) => d.setBigUint64(o, BigInt(v), l), (d, o, l) => d.getBigUint64(o, l));
int('i64', 8, -(1n << 63n), (1n << 63n) - 1n, (d, o, v, l) => d.setBigInt64(o, BigInt(v), l), (d, o, l) => d.getBigInt64(o, l));
const wide = (signed) => [
  (d, o, v, l) => {
    const [lo, hi] = l ? [o, o + 8] : [o + 8, o];
    d.setBigUint64(lo, BigInt.asUintN(64, BigInt(v)), l);
    d[signed ? 'setBigInt64' : 'setBigUint64'](hi, BigInt(v) >> 64n, l);
  },
  (d, o, l) => {
    const [lo, hi] = l ? [o, o + 8] : [o + 8, o];
    return (d[signed ? 'getBigInt64' : 'getBigUint64'](hi, l) << 64n) + d.getBigUint64(lo, l);
  },
];
int('u128', 16, 0n, (1n << 128n) - 1n, ...wide(false));
int('i128', 16, -(1n << 127n), (1n << 127n) - 1n, ...wide(true));
const codec = (name, e, d) => {
  X[`get${name}Encoder`] = e;
  X[`get${name}Decoder`] = d;
  X[`get${name}Codec`] = (...a) => X.combineCodec(e(...a), d(...a));
};
codec('Bytes',
  () => Object.freeze(enc(false, (v) => v.length, (v, b, o) => { b.set(v, o); return o + v.length; })),
  () => Object.freeze(dec(undefined, (b, o) => { const s = b.slice(o); return [s, o + s.length]; })));
codec('Boolean',
  (c) => X.transformEncoder((c && c.size) || X.getU8Encoder(), (v) => (v ? 1 : 0)),
  (c) => X.transformDecoder((c && c.size) || X.getU8Decoder(), (v) => Number(v) === 1));
codec('Unit', () => enc(true, 0, (_, b, o) => o), () => dec(0, (b, o) => [undefined, o]));
X.fixBytes = (b, n) => { if (b.length === n) return b; const r = new Uint8Array(n); r.set(b.slice(0, n)); return r; };
X.padBytes = (b, n) => { if (b.length >= n) return b; const r = new Uint8Array(n); r.set(b); return r; };
X.mergeBytes = (l) => Uint8Array.from(l.flatMap((b) => [...b]));
X.containsBytes = (data, bytes, offset) => {
  const s = offset === 0 && data.length === bytes.length ? data : data.slice(offset, offset + bytes.length);
  return s.length === bytes.length && bytes.every((b, i) => b === s[i]);
};
X.fixEncoderSize = (e, n) => Object.freeze(enc(true, n, (v, b, o) => {
  let x = e.encode(v);
  if (x.length > n) x = x.slice(0, n);
  b.set(x, o);
  return o + n;
}));
X.fixDecoderSize = (d, n) => Object.freeze(dec(n, (b, o) => {
  need('fixCodecSize', n, b, o);
  if (o > 0 || b.length > n) b = b.slice(o, o + n);
  if (isFixed(d)) b = X.fixBytes(b, d.fixedSize);
  const [v] = d.read(b, 0);
  return [v, o + n];
}));
X.fixCodecSize = (c, n) => X.combineCodec(X.fixEncoderSize(c, n), X.fixDecoderSize(c, n));
X.addEncoderSizePrefix = (e, p) => enc(false, (v) => { const n = sizeOf(e, v); return sizeOf(p, n) + n; }, (v, b, o) => { const x = e.encode(v); o = p.write(x.length, b, o); b.set(x, o); return o + x.length; });
X.addDecoderSizePrefix = (d, p) => dec(undefined, (b, o) => { const [n, at] = p.read(b, o); const size = Number(n); need('addCodecSizePrefix', size, b, at); const [v] = d.read(b.slice(at, at + size), 0); return [v, at + size]; });
X.addCodecSizePrefix = (c, p) => X.combineCodec(X.addEncoderSizePrefix(c, p), X.addDecoderSizePrefix(c, p));
X.offsetEncoder = (e) => e;
X.offsetDecoder = (d) => d;
const sum = (l) => (l.every((x) => x !== undefined) ? l.reduce((a, b) => a + b, 0) : undefined);
codec('Struct',
  (fields) => {
    const n = sum(fields.map(([, c]) => c.fixedSize));
    const write = (v, b, o) => { for (const [k, c] of fields) o = c.write(v[k], b, o); return o; };
    return Object.freeze(n !== undefined ? enc(true, n, write) : enc(false, (v) => fields.reduce((a, [k, c]) => a + sizeOf(c, v[k]), 0), write));
  },
  (fields) => Object.freeze(dec(sum(fields.map(([, c]) => c.fixedSize)), (b, o) => {
    const s = {};
    for (const [k, c] of fields) { const [v, n] = c.read(b, o); o = n; s[k] = v; }
    return [s, o];
  })));
codec('Tuple',
  (items) => {
    const n = sum(items.map((c) => c.fixedSize));
    const write = (v, b, o) => { if (v.length !== items.length) throw err(`Expected [tuple] to have ${items.length} items, got ${v.length}.`); items.forEach((c, i) => { o = c.write(v[i], b, o); }); return o; };
    return n !== undefined ? enc(true, n, write) : enc(false, (v) => items.reduce((a, c, i) => a + sizeOf(c, v[i]), 0), write);
  },
  (items) => dec(sum(items.map((c) => c.fixedSize)), (b, o) => { const r = []; for (const c of items) { const [v, n] = c.read(b, o); o = n; r.push(v); } return [r, o]; }));
codec('Array',
  (item, cfg = {}) => {
    const size = cfg.size === undefined ? X.getU32Encoder() : cfg.size;
    const fixed = typeof size === 'number' && isFixed(item) ? size * item.fixedSize : undefined;
    const write = (v, b, o) => {
      if (typeof size === 'number' && v.length !== size) throw err(`Expected [array] to have ${size} items, got ${v.length}.`);
      if (typeof size === 'object') o = size.write(v.length, b, o);
      for (const x of v) o = item.write(x, b, o);
      return o;
    };
    return fixed !== undefined ? enc(true, fixed, write) : enc(false, (v) => (typeof size === 'object' ? sizeOf(size, v.length) : 0) + [...v].reduce((a, x) => a + sizeOf(item, x), 0), write);
  },
  (item, cfg = {}) => {
    const size = cfg.size === undefined ? X.getU32Decoder() : cfg.size;
    return dec(typeof size === 'number' && isFixed(item) ? size * item.fixedSize : undefined, (b, o) => {
      const r = [];
      if (size === 'remainder') { while (o < b.length) { const [v, n] = item.read(b, o); o = n; r.push(v); } return [r, o]; }
      let n = size;
      if (typeof size === 'object') { const [k, at] = size.read(b, o); n = Number(k); o = at; }
      for (let i = 0; i < n; i++) { const [v, at] = item.read(b, o); o = at; r.push(v); }
      return [r, o];
    });
  });
const enumOf = (ctor) => {
  const keys = Object.keys(ctor).filter((k) => typeof ctor[ctor[k]] !== 'number');
  const values = keys.map((k) => ctor[k]);
  return { keys, values };
};
codec('Enum',
  (ctor, cfg = {}) => {
    const { keys, values } = enumOf(ctor);
    const p = cfg.size || X.getU8Encoder();
    return X.transformEncoder(p, (v) => {
      // symbols resolve by value first, then by key
      const i = values.lastIndexOf(v) >= 0 ? values.lastIndexOf(v) : keys.indexOf(v);
      if (i < 0) throw err(`Invalid enum variant. Expected a value in [${values.join(', ')}], got ${v}.`);
      return i;
    });
  },
  (ctor, cfg = {}) => {
    const { values } = enumOf(ctor);
    return X.transformDecoder(cfg.size || X.getU8Decoder(), (d) => {
      const i = Number(d);
      if (i < 0 || i >= values.length) throw err(`Enum discriminator out of range. Expected a number in [0, ${values.length - 1}], got ${i}.`);
      return values[i];
    });
  });
X.getScalarEnumEncoder = X.getEnumEncoder;
X.getScalarEnumDecoder = X.getEnumDecoder;
codec('DiscriminatedUnion',
  (variants, cfg = {}) => {
    const k = cfg.discriminator || '__kind';
    const p = cfg.size || X.getU8Encoder();
    const idx = (v) => {
      const i = variants.findIndex(([d]) => d === v[k]);
      if (i < 0) throw err(`Invalid discriminated union variant. Expected one of [${variants.map((x) => x[0]).join(', ')}], got ${v[k]}.`);
      return i;
    };
    return enc(false, (v) => { const i = idx(v); return sizeOf(p, i) + sizeOf(variants[i][1], v); }, (v, b, o) => { const i = idx(v); return variants[i][1].write(v, b, p.write(i, b, o)); });
  },
  (variants, cfg = {}) => {
    const k = cfg.discriminator || '__kind';
    const p = cfg.size || X.getU8Decoder();
    return dec(undefined, (b, o) => {
      const [d, at] = p.read(b, o);
      const i = Number(d);
      if (i < 0 || i >= variants.length) throw err(`Enum discriminator out of range. Expected a number in [0, ${variants.length - 1}], got ${i}.`);
      const [v, n] = variants[i][1].read(b, at);
      return [{ [k]: variants[i][0], ...(v ?? {}) }, n];
    });
  });
X.getDataEnumEncoder = X.getDiscriminatedUnionEncoder;
X.getDataEnumDecoder = X.getDiscriminatedUnionDecoder;
X.some = (value) => ({ __option: 'Some', value });
X.none = () => ({ __option: 'None' });
X.isOption = (x) => !!(x && typeof x === 'object' && '__option' in x);
X.isSome = (o) => o.__option === 'Some';
X.isNone = (o) => o.__option === 'None';
X.unwrapOption = (o, f) => (X.isSome(o) ? o.value : f ? f() : null);
X.wrapNullable = (v) => (v !== null ? X.some(v) : X.none());
X.unwrapOptionRecursively = (o) => (X.isOption(o) ? X.unwrapOption(o) : o);
const optional = (toNone, wrap, isPresent, inner) => [
  (item, cfg = {}) => {
    const p = cfg.prefix === null ? null : cfg.prefix || X.getU8Encoder();
    const zero = cfg.noneValue === 'zeroes';
    const pre = (n) => (p ? sizeOf(p, n) : 0);
    const write = (v, b, o) => {
      if (isPresent(v)) { if (p) o = p.write(1, b, o); return item.write(inner(v), b, o); }
      if (p) o = p.write(0, b, o);
      return zero ? o + item.fixedSize : o;
    };
    return zero && isFixed(item) && (!p || isFixed(p)) ? enc(true, pre(0) + item.fixedSize, write) : enc(false, (v) => (isPresent(v) ? pre(1) + sizeOf(item, inner(v)) : pre(0)), write);
  },
  (item, cfg = {}) => {
    const p = cfg.prefix === null ? null : cfg.prefix || X.getU8Decoder();
    const zero = cfg.noneValue === 'zeroes';
    return dec(zero && isFixed(item) && (!p || isFixed(p)) ? (p ? p.fixedSize : 0) + item.fixedSize : undefined, (b, o) => {
      let present;
      if (p) { const [d, at] = p.read(b, o); present = Number(d) === 1; o = at; } else present = zero ? !b.slice(o, o + item.fixedSize).every((x) => x === 0) : o < b.length;
      if (!present) { if (zero) need('zero', item.fixedSize, b, o); return [toNone(), zero ? o + item.fixedSize : o]; }
      const [v, n] = item.read(b, o);
      return [wrap(v), n];
    });
  },
];
codec('Option', ...optional(X.none, X.some, (v) => v !== null && v !== undefined && !(X.isOption(v) && X.isNone(v)), (v) => (X.isOption(v) ? v.value : v)));
codec('Nullable', ...optional(() => null, (v) => v, (v) => v !== null && v !== undefined, (v) => v));
codec('Constant', (bytes) => enc(true, bytes.length, (_, b, o) => { b.set(bytes, o); return o + bytes.length; }), (bytes) => dec(bytes.length, (b, o) => { need('constant', bytes.length, b, o); if (!X.containsBytes(b, bytes, o)) throw err('Expected the constant bytes'); return [undefined, o + bytes.length]; }));
X.getHiddenPrefixEncoder = (e, ps) => { const n = sum(ps.map((p) => p.fixedSize)); const write = (v, b, o) => { for (const p of ps) o = p.write(undefined, b, o); return e.write(v, b, o); }; return isFixed(e) ? enc(true, n + e.fixedSize, write) : enc(false, (v) => n + sizeOf(e, v), write); };
X.getHiddenPrefixDecoder = (d, ps) => dec(isFixed(d) ? sum(ps.map((p) => p.fixedSize)) + d.fixedSize : undefined, (b, o) => { for (const p of ps) o = p.read(b, o)[1]; return d.read(b, o); });
// ---- strings ------------------------------------------------------------------------------
const str = (name, toBytes, toStr) => codec(name,
  () => enc(false, (v) => toBytes(v).length, (v, b, o) => { const x = toBytes(v); b.set(x, o); return o + x.length; }),
  () => dec(undefined, (b, o) => [toStr(b.slice(o)), b.length]));
str('Base64', (v) => {
  if (!/^[A-Za-z0-9+/]*={0,2}$/.test(v)) throw err(`Expected a string of base 64, got [${v}].`);
  return new Uint8Array(Buffer.from(v, 'base64'));
}, (b) => Buffer.from(b).toString('base64'));
str('Base58', (v) => E.b58decode(v), (b) => E.b58encode(b));
str('Base16', (v) => {
  if (!/^([0-9a-fA-F]{2})*$/.test(v)) throw err(`Expected a string of base 16, got [${v}].`);
  return new Uint8Array(Buffer.from(v, 'hex'));
}, (b) => Buffer.from(b).toString('hex'));
str('Utf8', (v) => new TextEncoder().encode(v), (b) => new TextDecoder().decode(b).replace(/\0/g, ''));
// ---- addresses ----------------------------------------------------------------------------
const decodeAddress = (v) => {
  if (typeof v !== 'string' || v.length < 32 || v.length > 44) throw err(`Expected base58-encoded address string of length in the range [32, 44].`);
  const b = E.b58decode(v);
  if (b.length !== 32) throw err(`Expected base58-encoded address to decode to a byte array of length 32, got ${b.length}.`);
  return b;
};
X.isAddress = (v) => { try { decodeAddress(v); return true; } catch { return false; } };
X.assertIsAddress = (v) => { decodeAddress(v); };
X.address = (v) => { decodeAddress(v); return v; };
codec('Address',
  () => Object.freeze(enc(true, 32, (v, b, o) => { b.set(decodeAddress(v), o); return o + 32; })),
  () => Object.freeze(dec(32, (b, o) => { need('address', 32, b, o); return [E.b58encode(b.slice(o, o + 32)), o + 32]; })));
X.getAddressComparator = () => (a, b) => (a < b ? -1 : a > b ? 1 : 0);
const seedBytes = (s) => (typeof s === 'string' ? new TextEncoder().encode(s) : Uint8Array.from(s));
X.getProgramDerivedAddress = async ({ programAddress, seeds }) => {
  const [a, bump] = E.findPda(seeds.map(seedBytes), decodeAddress(programAddress));
  return Object.freeze([E.b58encode(a), bump]);
};
X.createAddressWithSeed = async ({ baseAddress, programAddress, seed }) => E.b58encode(E.sha256(decodeAddress(baseAddress), seedBytes(seed), decodeAddress(programAddress)));
X.isProgramDerivedAddress = (v) => Array.isArray(v) && v.length === 2 && typeof v[1] === 'number' && v[1] >= 0 && v[1] <= 255 && X.isAddress(v[0]);
X.isOffCurveAddress = (a) => !E.onCurve(decodeAddress(a));
X.lamports = (v) => { if (v < 0n || v > (1n << 64n) - 1n) throw err('lamports out of range'); return v; };
// ---- instructions and signers -------------------------------------------------------------
const AccountRole = {};
[['WRITABLE_SIGNER', 3], ['READONLY_SIGNER', 2], ['WRITABLE', 1], ['READONLY', 0]].forEach(([k, v]) => { AccountRole[k] = v; AccountRole[v] = k; });
X.AccountRole = AccountRole;
X.isSignerRole = (r) => r >= 2;
X.isWritableRole = (r) => (r & 1) !== 0;
X.mergeRoles = (a, b) => a | b;
X.upgradeRoleToSigner = (r) => r | 2;
X.upgradeRoleToWritable = (r) => r | 1;
X.downgradeRoleToNonSigner = (r) => r & ~2;
X.downgradeRoleToReadonly = (r) => r & ~1;
X.isTransactionPartialSigner = (v) => 'signTransactions' in v && typeof v.signTransactions === 'function';
X.isTransactionModifyingSigner = (v) => 'modifyAndSignTransactions' in v && typeof v.modifyAndSignTransactions === 'function';
X.isTransactionSendingSigner = (v) => 'signAndSendTransactions' in v && typeof v.signAndSendTransactions === 'function';
X.isTransactionSigner = (v) => X.isTransactionPartialSigner(v) || X.isTransactionModifyingSigner(v) || X.isTransactionSendingSigner(v);
X.createNoopSigner = (address) => Object.freeze({ address, signTransactions: async (t) => t.map(() => ({})), signMessages: async (t) => t.map(() => ({})) });
X.isInstructionForProgram = (i, p) => i.programAddress === p;
X.isInstructionWithAccounts = (i) => i.accounts !== undefined;
X.isInstructionWithData = (i) => i.data !== undefined;
// ---- errors -------------------------------------------------------------------------------
X.SOLANA_ERROR__INSTRUCTION_ERROR__CUSTOM = 4615026;
X.SolanaError = class SolanaError extends Error {
  constructor(code, context) {
    super(`Solana error #${code}`);
    this.name = 'SolanaError';
    this.context = { __code: code, ...(context || {}) };
  }
};
X.isSolanaError = (e, code) => e instanceof Error && e.name === 'SolanaError' && (code === undefined || e.context.__code === code);
X.isProgramError = (error, message, programAddress, code) => {
  if (!X.isSolanaError(error, X.SOLANA_ERROR__INSTRUCTION_ERROR__CUSTOM)) return false;
  const p = message.instructions[error.context.index]?.programAddress;
  if (!p || p !== programAddress) return false;
  return typeof code === 'undefined' || error.context.code === code;
};
// ---- accounts -----------------------------------------------------------------------------
const parseBase64 = (address, a) => {
  if (!a) return Object.freeze({ address, exists: false });
  const { data, ...rest } = a;
  const bytes = Array.isArray(data) ? X.getBase64Encoder().encode(data[0]) : X.getBase58Encoder().encode(data);
  return Object.freeze({ ...rest, programAddress: a.owner, address, data: bytes, exists: true });
};
X.parseBase64RpcAccount = parseBase64;
X.fetchEncodedAccount = async (rpc, address, config = {}) => {
  const { abortSignal, ...c } = config;
  const r = await rpc.getAccountInfo(address, { ...c, encoding: 'base64' }).send({ abortSignal });
  return parseBase64(address, r.value);
};
X.fetchEncodedAccounts = async (rpc, addresses, config = {}) => {
  const { abortSignal, ...c } = config;
  const r = await rpc.getMultipleAccounts(addresses, { ...c, encoding: 'base64' }).send({ abortSignal });
  return r.value.map((a, i) => parseBase64(addresses[i], a));
};
X.decodeAccount = (a, d) => {
  if ('exists' in a && !a.exists) return a;
  let data;
  try { data = d.decode(a.data); } catch (e) { throw err(`Failed to decode account data at address [${a.address}]: ${e.message}`); }
  return Object.freeze({ ...a, data });
};
X.assertAccountExists = (a) => { if (!a.exists || ('exists' in a && !a.exists)) throw err(`Account not found at address: ${a.address}.`); };
X.assertAccountsExist = (l) => { const m = l.filter((a) => !a.exists); if (m.length) throw err(`Accounts not found at addresses: [${m.map((a) => a.address).join(', ')}].`); };
X.assertAccountDecoded = (a) => { if (a.data instanceof Uint8Array) throw err(`Expected decoded account at address [${a.address}].`); };
X.assertAccountsDecoded = (l) => { const m = l.filter((a) => a.data instanceof Uint8Array); if (m.length) throw err('Expected decoded accounts.'); };
X.pipe = (v, ...f) => f.reduce((a, g) => g(a), v);
