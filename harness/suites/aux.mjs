// Components with the auxiliary hooks: AuxGen.tla, AuxTrace.tla.
import { pick } from '../lib.mjs';
export async function runs(run) {
  const gen = (name, ops, n, seed) => run.scripts({ name: `AuxGen/${name}`, spec: 'AuxGen', cfg: `CONSTANTS\n  MaxOps = ${ops}\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n`, n, depth: ops + 2, seed, procs: 4 });
  const scripts = (await Promise.all([gen('short', 14, pick(4000, 40000), 81), gen('long', 40, pick(1500, 15000), 82)])).flat();
  await run.judge({ driver: 'aux', scripts: scripts.map((ops, order) => ({ ops, order })), spec: 'AuxTrace' });
}
