// Components using signals and stores: Sync.tla, SyncGen.tla, SyncTrace.tla.
import { pick } from '../lib.mjs';
export async function runs(run) {
  const gen = (name, ops, n, seed) => run.scripts({ name: `SyncGen/${name}`, spec: 'SyncGen', cfg: `CONSTANTS\n  MaxOps = ${ops}\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n`, n, depth: ops + 2, seed, procs: 4 });
  const scripts = (await Promise.all([gen('short', 12, pick(5000, 50000), 71), gen('long', 40, pick(1500, 20000), 72)])).flat();
  await run.judge({ driver: 'sync', scripts: scripts.map((ops, order) => ({ ops, order })), spec: 'SyncTrace' });
}
