// Bindings of elements: Bindings.tla, BindTrace.tla; listeners and references: Listen.tla, ListenTrace.tla.
import { pick } from '../lib.mjs';
const consts = (kinds, len, sim) => `CONSTANTS
  Kinds = {${kinds.map((k) => `"${k}"`).join(', ')}}
  MaxLen = ${len}
  Simulated = ${sim}
`;
const KINDS = ['attr', 'data', 'class', 'style', 'prop', 'live', 'text'];
export async function values(run) {
  const all = await run.scripts({ name: 'Bindings/all', spec: 'Bindings', cfg: consts(KINDS, pick(3, 4), 'FALSE') + 'INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\n' });
  const long = await run.scripts({ name: 'Bindings/long', spec: 'Bindings', cfg: consts(KINDS, 12, 'TRUE') + 'INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\n', n: pick(1000, 10000), depth: 14, procs: 4 });
  await run.judge({ driver: 'bind', scripts: [...all, ...long].map((s, alt) => ({ ...s, alt })), spec: 'BindTrace', block: 30000, chunk: 30000, consts: consts(KINDS, 0, 'FALSE'), init: 'TInit', next: 'TNext' });
}
export async function listeners(run) {
  const g = 'INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\n', kinds = ['event', 'ref'];
  const all = await run.scripts({ name: 'Listen/all', spec: 'Listen', cfg: consts(kinds, pick(3, 4), 'FALSE') + g });
  const long = await run.scripts({ name: 'Listen/long', spec: 'Listen', cfg: consts(kinds, 12, 'TRUE') + g, n: pick(1000, 10000), depth: 14, procs: 4 });
  await run.judge({ driver: 'listen', scripts: [...all, ...long], spec: 'ListenTrace', block: 30000, chunk: 30000, consts: consts(kinds, 0, 'FALSE'), init: 'TInit', next: 'TNext' });
}
