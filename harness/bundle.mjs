// Bundles the code under test from /repo/src (public entry points only).
import { createRequire } from 'node:module';
const require = createRequire('/opt/veriftools/node/node_modules/');
const REPO = process.env.VERIF_REPO ?? '/repo';
export async function bundle(outfile) {
  const esbuild = require('esbuild');
  await esbuild.build({
    stdin: {
      contents: ['index', 'addons/hooks', 'addons/signal', 'addons/router', 'addons/update-logger', 'addons/update-profiler']
        .map((m) => `export * from '${REPO}/src/${m}.ts';`).join('\n'),
      resolveDir: `${REPO}/src`, loader: 'ts',
    },
    bundle: true, format: 'esm', outfile, target: 'esnext', logLevel: 'error',
  });
}
