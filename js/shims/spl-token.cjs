'use strict';
// Stand-in for @solana/spl-token 0.3 as the scripts use it.
const { PublicKey, TransactionInstruction, SystemProgram, Transaction, sendAndConfirmTransaction } = require('./web3.cjs');
const TOKEN_PROGRAM_ID = new PublicKey('TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA');
const TOKEN_2022_PROGRAM_ID = new PublicKey('TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb');
const ASSOCIATED_TOKEN_PROGRAM_ID = new PublicKey('ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL');
const X = { TOKEN_PROGRAM_ID, TOKEN_2022_PROGRAM_ID, ASSOCIATED_TOKEN_PROGRAM_ID, ACCOUNT_SIZE: 165, MINT_SIZE: 82 };
class TokenError extends Error { constructor(m) { super(m); this.name = new.target.name; } }
for (const n of ['TokenAccountNotFoundError', 'TokenInvalidAccountError', 'TokenInvalidAccountOwnerError', 'TokenInvalidAccountSizeError', 'TokenOwnerOffCurveError', 'TokenInvalidMintError', 'TokenInvalidOwnerError']) {
  X[n] = { [n]: class extends TokenError { constructor(m) { super(m); this.name = n; } } }[n];
}
X.AuthorityType = { MintTokens: 0, FreezeAccount: 1, AccountOwner: 2, CloseAccount: 3, 0: 'MintTokens', 1: 'FreezeAccount', 2: 'AccountOwner', 3: 'CloseAccount' };
X.AccountState = { Uninitialized: 0, Initialized: 1, Frozen: 2 };
X.getAssociatedTokenAddressSync = (mint, owner, allowOwnerOffCurve = false, programId = TOKEN_PROGRAM_ID, ataProgram = ASSOCIATED_TOKEN_PROGRAM_ID) => {
  if (!allowOwnerOffCurve && !PublicKey.isOnCurve(owner.toBuffer())) throw new X.TokenOwnerOffCurveError();
  return PublicKey.findProgramAddressSync([owner.toBuffer(), programId.toBuffer(), mint.toBuffer()], ataProgram)[0];
};
X.getAssociatedTokenAddress = async (...a) => X.getAssociatedTokenAddressSync(...a);
const meta = (pubkey, isSigner, isWritable) => ({ pubkey, isSigner, isWritable });
// the library's u64 layout: bigint-buffer writes the magnitude's low 8 bytes
const u64 = (v) => {
  let n = BigInt(v);
  if (n < 0n) n = -n;
  const b = Buffer.alloc(8);
  b.writeBigUInt64LE(BigInt.asUintN(64, n));
  return b;
};
const ata = (data) => (payer, at, owner, mint, programId = TOKEN_PROGRAM_ID, ataProgram = ASSOCIATED_TOKEN_PROGRAM_ID) => new TransactionInstruction({
  programId: ataProgram, data,
  keys: [meta(payer, true, true), meta(at, false, true), meta(owner, false, false), meta(mint, false, false), meta(SystemProgram.programId, false, false), meta(programId, false, false)],
});
X.createAssociatedTokenAccountInstruction = ata(Buffer.alloc(0));
X.createAssociatedTokenAccountIdempotentInstruction = ata(Buffer.from([1]));
const signers = (keys, owner, multi) => {
  if (multi.length) {
    keys.push(meta(owner, false, false));
    for (const m of multi) keys.push(meta(m instanceof PublicKey ? m : m.publicKey, true, false));
  } else keys.push(meta(owner, true, false));
  return keys;
};
X.createTransferInstruction = (from, to, owner, amount, multi = [], programId = TOKEN_PROGRAM_ID) => new TransactionInstruction({
  programId, keys: signers([meta(from, false, true), meta(to, false, true)], owner, multi), data: Buffer.concat([Buffer.from([3]), u64(amount)]),
});
X.createTransferCheckedInstruction = (from, mint, to, owner, amount, decimals, multi = [], programId = TOKEN_PROGRAM_ID) => new TransactionInstruction({
  programId, keys: signers([meta(from, false, true), meta(mint, false, false), meta(to, false, true)], owner, multi), data: Buffer.concat([Buffer.from([12]), u64(amount), Buffer.from([decimals])]),
});
X.createSetAuthorityInstruction = (at, current, type, next, multi = [], programId = TOKEN_PROGRAM_ID) => new TransactionInstruction({
  programId, keys: signers([meta(at, false, true)], current, multi),
  data: Buffer.concat([Buffer.from([6, type, next ? 1 : 0]), next ? next.toBuffer() : Buffer.alloc(32)]),
});
X.unpackAccount = (address, info, programId = TOKEN_PROGRAM_ID) => {
  if (!info) throw new X.TokenAccountNotFoundError();
  if (!info.owner.equals(programId)) throw new X.TokenInvalidAccountOwnerError();
  if (info.data.length < 165) throw new X.TokenInvalidAccountSizeError();
  const d = info.data;
  const opt = (o) => (d.readUInt32LE(o) ? new PublicKey(d.subarray(o + 4, o + 36)) : null);
  return {
    address, mint: new PublicKey(d.subarray(0, 32)), owner: new PublicKey(d.subarray(32, 64)), amount: d.readBigUInt64LE(64), delegate: opt(72),
    isInitialized: d[108] !== 0, isFrozen: d[108] === 2, isNative: !!d.readUInt32LE(109), delegatedAmount: d.readBigUInt64LE(121), closeAuthority: opt(129), rentExemptReserve: null, tlvData: Buffer.alloc(0),
  };
};
X.unpackMint = (address, info, programId = TOKEN_PROGRAM_ID) => {
  if (!info) throw new X.TokenAccountNotFoundError();
  if (!info.owner.equals(programId)) throw new X.TokenInvalidAccountOwnerError();
  if (info.data.length < 82) throw new X.TokenInvalidAccountSizeError();
  const d = info.data;
  const opt = (o) => (d.readUInt32LE(o) ? new PublicKey(d.subarray(o + 4, o + 36)) : null);
  return { address, mintAuthority: opt(0), supply: d.readBigUInt64LE(36), decimals: d[44], isInitialized: d[45] !== 0, freezeAuthority: opt(46), tlvData: Buffer.alloc(0) };
};
X.getAccount = async (c, at, commitment, programId) => X.unpackAccount(at, await c.getAccountInfo(at, commitment), programId);
X.getMultipleAccounts = async (c, ats, commitment, programId) => (await c.getMultipleAccountsInfo(ats, commitment)).map((i, k) => X.unpackAccount(ats[k], i, programId));
X.getMint = async (c, at, commitment, programId) => X.unpackMint(at, await c.getAccountInfo(at, commitment), programId);
X.getOrCreateAssociatedTokenAccount = async (c, payer, mint, owner, allowOwnerOffCurve = false, commitment, o, programId = TOKEN_PROGRAM_ID, ataProgram = ASSOCIATED_TOKEN_PROGRAM_ID) => {
  const at = X.getAssociatedTokenAddressSync(mint, owner, allowOwnerOffCurve, programId, ataProgram);
  try {
    return await X.getAccount(c, at, commitment, programId);
  } catch (e) {
    if (!(e instanceof X.TokenAccountNotFoundError || e instanceof X.TokenInvalidAccountOwnerError)) throw e;
  }
  await sendAndConfirmTransaction(c, new Transaction().add(X.createAssociatedTokenAccountInstruction(payer.publicKey, at, owner, mint, programId, ataProgram)), [payer], o);
  return X.getAccount(c, at, commitment, programId);
};
X.createAssociatedTokenAccount = async (c, payer, mint, owner, o, programId = TOKEN_PROGRAM_ID, ataProgram = ASSOCIATED_TOKEN_PROGRAM_ID) => {
  const at = X.getAssociatedTokenAddressSync(mint, owner, false, programId, ataProgram);
  await sendAndConfirmTransaction(c, new Transaction().add(X.createAssociatedTokenAccountInstruction(payer.publicKey, at, owner, mint, programId, ataProgram)), [payer], o);
  return at;
};
X.transfer = async (c, payer, from, to, owner, amount) => sendAndConfirmTransaction(c, new Transaction().add(X.createTransferInstruction(from, to, owner.publicKey, amount)), [payer, owner]);
module.exports = X;
