'use strict';
// Bundles /repo's TypeScript with the stand-ins for its dependencies.
const path = require('path');
const fs = require('fs');
const esbuild = require('/opt/veriftools/node/node_modules/esbuild');
const repo = process.env.XV_REPO || '/repo';
const out = process.argv[2];
const what = process.argv.slice(3);
const shim = (f) => path.join(__dirname, 'shims', f);
const alias = {
  '@solana-program/token': shim('token.cjs'),
  '@solana/web3.js': shim('web3.cjs'),
  '@solana/spl-token': shim('spl-token.cjs'),
  '@orca-so/xorca': path.join(repo, 'js-client/src/index.ts'),
  '@irys/sdk': shim('irys.cjs'),
};
// every @solana/* package kit is made of is served by the same stand-in
for (const p of ['kit', 'addresses', 'codecs', 'codecs-core', 'codecs-numbers', 'codecs-strings', 'codecs-data-structures', 'accounts', 'instructions', 'signers', 'errors', 'options', 'programs']) alias['@solana/' + p] = shim('kit.cjs');
const common = { bundle: true, platform: 'node', target: 'node20', logLevel: 'silent', alias, define: { 'import.meta.vitest': 'undefined' }, tsconfigRaw: '{}' };
async function main() {
  fs.rmSync(out, { recursive: true, force: true });
  fs.mkdirSync(out, { recursive: true });
  if (what.includes('client')) await esbuild.build({ ...common, format: 'cjs', entryPoints: [path.join(repo, 'js-client/src/index.ts')], outfile: path.join(out, 'client.cjs') });
  if (what.includes('scripts')) {
    const dir = path.join(repo, 'ts-scripts');
    const list = fs.readdirSync(dir).filter((f) => f.endsWith('.ts') && f !== 'constants.ts');
    await esbuild.build({
      ...common, format: 'esm', outExtension: { '.js': '.mjs' }, entryPoints: list.map((f) => path.join(dir, f)), outdir: path.join(out, 'scripts'),
      banner: { js: "import { createRequire as __cr } from 'module'; const require = __cr(import.meta.url);" },
    });
  }
}
main().catch((e) => {
  console.error(String((e && e.message) || e));
  process.exit(1);
});
