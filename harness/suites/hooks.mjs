// Hooks of components under any schedule: Hooks.tla, HooksMon.tla, HooksGen.tla, HooksTrace.tla.
import { pick } from '../lib.mjs';
export async function design(run) {
  const cfg = (n, ls, pass = 'FALSE', fail = 'TRUE') => `CONSTANTS
  LaneSets = {${ls}}
  Actions <- Small
  MaxUpdates = ${n}
  WithFail = ${fail}
  Pass = ${pass}
INIT Init
NEXT Next
INVARIANTS OK Complete Seen
CHECK_DEADLOCK FALSE
`;
  await run.model({ name: 'Hooks', spec: 'Hooks', cfg: cfg(pick(3, 4), '{1}, {2}, {1, 2}') });
  await run.model({ name: 'Hooks/anew', spec: 'Hooks', cfg: cfg(3, '{1}, {2}, {1, 2}', 'TRUE', 'FALSE') });
  await run.model({ name: 'Hooks/anew, failing', spec: 'Hooks', cfg: cfg(pick(2, 3), '{1}, {2}, {1, 2}', 'TRUE') });
  if (pick(0, 1)) await run.model({ name: 'Hooks/three lanes', spec: 'Hooks', cfg: cfg(4, '{1}, {2}, {3}, {1, 2}, {2, 3}') });
}
const cfg = (ops, wrong) => `CONSTANTS
  MaxOps = ${ops}
  Wrong = ${wrong}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
`;
const gen = (run, name, ops, wrong, n, seed) =>
  run.scripts({ name: `HooksGen/${name}`, spec: 'HooksGen', cfg: cfg(ops, wrong), n, depth: ops + 2, seed, procs: 4 });
export async function runs(run) {
  const scripts = (await Promise.all([
    gen(run, 'short', 16, 'FALSE', pick(3000, 20000), 21),
    gen(run, 'long', 40, 'FALSE', pick(1200, 10000), 22),
    gen(run, 'wrong order', 16, 'TRUE', pick(1000, 6000), 23),
  ])).flat();
  await run.judge({ driver: 'hooks', scripts: scripts.map((ops, order) => ({ ops, order })), spec: 'HooksTrace' });
}
