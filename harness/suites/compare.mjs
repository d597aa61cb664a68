// Components that compare their props: Compare.tla.
import { pick } from '../lib.mjs';
const cfg = (sim) => `CONSTANTS\n  Simulated = ${sim}\nINIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\n`;
export async function props(run) {
  const all = await run.scripts({ name: 'Compare/all', spec: 'Compare', cfg: cfg('FALSE') });
  const long = await run.scripts({ name: 'Compare/long', spec: 'Compare', cfg: cfg('TRUE'), n: pick(1000, 20000), depth: 14, procs: 4, seed: 61 });
  await run.judge({ driver: 'compare', scripts: [...all, ...long], spec: 'Compare', consts: 'CONSTANTS\n  Simulated = FALSE', block: 12000 });
}
