// Navigation: NavGen.tla, NavTrace.tla.
import { pick } from '../lib.mjs';
export async function runs(run) {
  for (const [name, max, n] of [['short', 14, pick(8000, 60000)], ['long', 40, pick(4000, 40000)]]) {
    const scripts = await run.scripts({ name: `NavGen-${name}`, spec: 'NavGen', cfg: `CONSTANT MaxOps = ${max}\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n`, n, depth: max + 2, seed: 95 });
    await run.judge({ driver: 'nav', scripts: scripts.map((ops, order) => ({ ops, order })), spec: 'NavTrace' });
  }
}
