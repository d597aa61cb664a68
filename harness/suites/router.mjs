// Routing: Router.tla, RouterGen.tla, RouterSmall.tla, RouterTrace.tla.
import { pick } from '../lib.mjs';
export async function routes(run) {
  const scripts = await run.scripts({ name: 'RouterGen', spec: 'RouterGen', cfg: 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n', n: pick(16000, 200000), depth: 3, seed: 91 });
  await run.judge({ driver: 'router', scripts, spec: 'RouterTrace', block: 16000 });
  const small = await run.scripts({ name: 'RouterSmall', spec: 'RouterSmall', cfg: `CONSTANT Big = ${pick('FALSE', 'TRUE')}\nINIT Init\nNEXT Next\nINVARIANT Sound\nCHECK_DEADLOCK FALSE\n` });
  await run.judge({ driver: 'router', scripts: small, spec: 'RouterTrace', block: 16000 });
}
