// The DOM adapter and the browser: Host.tla, HostGen.tla, HostTrace.tla.
import { pick } from '../lib.mjs';
export async function design(run) {
  await run.model({ name: 'Host', spec: 'Host', cfg: `CONSTANTS\n  MaxReq = ${pick(3, 5)}\n  Bound = 3\nSPECIFICATION Spec\nINVARIANTS Once Bounded Delayed Ordered NothingLeft\nPROPERTY AllRun\nCHECK_DEADLOCK FALSE\n` });
}
export async function runs(run) {
  const cfg = (ops, small) => `CONSTANTS\n  MaxOps = ${ops}\n  Small = ${small}\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n`;
  const all = await run.scripts({ name: 'HostGen/all', spec: 'HostGen', cfg: cfg(pick(4, 5), 'TRUE') });
  const drawn = await run.scripts({ name: 'HostGen/drawn', spec: 'HostGen', cfg: cfg(40, 'FALSE'), n: pick(6000, 60000), depth: 43, seed: 97 });
  for (const scripts of [all, drawn]) await run.judge({ driver: 'adapter', scripts: scripts.map((ops) => ({ ops })), spec: 'HostTrace' });
}
