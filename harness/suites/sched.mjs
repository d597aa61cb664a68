// The update scheduler: Sched.tla, SchedMon.tla, SchedTrace.tla.
import { pick } from '../lib.mjs';
const cfg = (kinds, up, ops, mws, gen) => `CONSTANTS
  Kinds <- ${kinds}
  MaxUp = ${up}
  MaxOps = ${ops}
  Mws = {${mws}}
INIT Init
NEXT ${gen ? 'NextGen' : 'Next\nINVARIANTS DesignOK Settled NoStuck\nVIEW View'}
CHECK_DEADLOCK FALSE
`;
export async function design(run) {
  await run.model({ name: 'Sched/small', spec: 'Sched', cfg: cfg('SmallKinds', 3, pick(12, 16), '') });
  if (pick(0, 1)) {
    await run.model({ name: 'Sched/mix', spec: 'Sched', cfg: cfg('MixKinds', 3, 13, '') });
  }
}
async function scripts(run) {
  return (await Promise.all([
    run.scripts({ name: 'Sched/simulation', spec: 'Sched', cfg: cfg('SmallKinds', 6, 24, '1, 2', true), n: pick(1200, 20000), depth: 27 }),
    run.scripts({ name: 'Sched/long', spec: 'Sched', cfg: cfg('SmallKinds', 14, 50, '1, 2', true), n: pick(240, 4000), depth: 53, seed: 7 }),
  ])).flat();
}
export async function runs(run) {
  await run.judge({ driver: 'sched', scripts: (await scripts(run)).map((ops) => ({ ops })), spec: 'SchedTrace' });
}
// Middlewares: also the add-ons, which must not change anything.
export async function addons(run) {
  await run.judge({ driver: 'sched', scripts: (await scripts(run)).map((ops, i) => ({ ops, addons: i % 2 })), spec: 'SchedTrace' });
}
