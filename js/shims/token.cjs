'use strict';
// Stand-in for @solana-program/token 0.6.
const K = require('./kit.cjs');
const opt = (e) => K.getOptionEncoder(e, { prefix: K.getU32Encoder(), noneValue: 'zeroes' });
const optd = (d) => K.getOptionDecoder(d, { prefix: K.getU32Decoder(), noneValue: 'zeroes' });
const AccountState = { 0: 'Uninitialized', 1: 'Initialized', 2: 'Frozen', Uninitialized: 0, Initialized: 1, Frozen: 2 };
const T = (module.exports = { AccountState });
T.TOKEN_PROGRAM_ADDRESS = 'TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA';
T.ASSOCIATED_TOKEN_PROGRAM_ADDRESS = 'ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL';
T.getTokenSize = () => 165;
T.getMintSize = () => 82;
const token = (a, o, u, s) => [['mint', a()], ['owner', a()], ['amount', u()], ['delegate', o(a())], ['state', s(AccountState)], ['isNative', o(u())], ['delegatedAmount', u()], ['closeAuthority', o(a())]];
T.getTokenEncoder = () => K.getStructEncoder(token(K.getAddressEncoder, opt, K.getU64Encoder, K.getEnumEncoder));
T.getTokenDecoder = () => K.getStructDecoder(token(K.getAddressDecoder, optd, K.getU64Decoder, K.getEnumDecoder));
T.getTokenCodec = () => K.combineCodec(T.getTokenEncoder(), T.getTokenDecoder());
const mint = (a, o, u, b, n) => [['mintAuthority', o(a())], ['supply', u()], ['decimals', n()], ['isInitialized', b()], ['freezeAuthority', o(a())]];
T.getMintEncoder = () => K.getStructEncoder(mint(K.getAddressEncoder, opt, K.getU64Encoder, K.getBooleanEncoder, K.getU8Encoder));
T.getMintDecoder = () => K.getStructDecoder(mint(K.getAddressDecoder, optd, K.getU64Decoder, K.getBooleanDecoder, K.getU8Decoder));
T.getMintCodec = () => K.combineCodec(T.getMintEncoder(), T.getMintDecoder());
for (const [n, d] of [['Token', T.getTokenDecoder], ['Mint', T.getMintDecoder]]) {
  T[`decode${n}`] = (a) => K.decodeAccount(a, d());
  T[`fetchMaybe${n}`] = async (rpc, address, c) => T[`decode${n}`](await K.fetchEncodedAccount(rpc, address, c));
  T[`fetch${n}`] = async (rpc, address, c) => { const a = await T[`fetchMaybe${n}`](rpc, address, c); K.assertAccountExists(a); return a; };
  T[`fetchAllMaybe${n}`] = async (rpc, addresses, c) => (await K.fetchEncodedAccounts(rpc, addresses, c)).map((a) => T[`decode${n}`](a));
  T[`fetchAll${n}`] = async (rpc, addresses, c) => { const l = await T[`fetchAllMaybe${n}`](rpc, addresses, c); K.assertAccountsExist(l); return l; };
}
T.findAssociatedTokenPda = (s, c = {}) => K.getProgramDerivedAddress({ programAddress: c.programAddress || T.ASSOCIATED_TOKEN_PROGRAM_ADDRESS, seeds: [s.owner, s.tokenProgram, s.mint].map((x) => K.getAddressEncoder().encode(x)) });
