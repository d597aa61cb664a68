// Signals: Signals.tla, SignalsGen.tla, SignalsTrace.tla.
import { pick } from '../lib.mjs';
export async function design(run) {
  const cfg = (a, c, v) => `CONSTANTS\n  NA = ${a}\n  NC = ${c}\n  MaxVersion = ${v}\nINIT Init\nNEXT Next\nINVARIANT Consistent\nCHECK_DEADLOCK FALSE\n`;
  await run.model({ name: 'SignalsDesign', spec: 'SignalsDesign', cfg: cfg(2, 2, 2) });
  if (pick(0, 1)) await run.model({ name: 'SignalsDesign/larger', spec: 'SignalsDesign', cfg: cfg(2, 3, 2) });
}
export async function signals(run) {
  const gen = (name, ops, n, seed) => run.scripts({ name: `SignalsGen/${name}`, spec: 'SignalsGen', cfg: `CONSTANTS\n  MaxOps = ${ops}\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n`, n, depth: 3, seed, procs: 4 });
  const scripts = (await Promise.all([gen('short', 10, pick(4000, 60000), 51), gen('long', 40, pick(1500, 30000), 52)])).flat();
  await run.judge({ driver: 'signals', scripts, spec: 'SignalsTrace' });
}
export async function derivable(run) {
  const gen = (name, ops, rich, n, seed, getters = 'FALSE') => run.scripts({ name: `DerivableGen/${name}`, spec: 'DerivableGen', cfg: `CONSTANTS\n  MaxOps = ${ops}\n  Rich = ${rich}\n  Getters = ${getters}\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n`, n, depth: ops + 2, seed, procs: 4 });
  const scripts = (await Promise.all([gen('objects', 10, 'FALSE', pick(3000, 60000), 61), gen('all', 10, 'TRUE', pick(3000, 60000), 62), gen('long', 30, 'TRUE', pick(800, 20000), 63), gen('getters', 12, 'TRUE', pick(1500, 20000), 64, 'TRUE')])).flat();
  await run.judge({ driver: 'derivable', scripts, spec: 'DerivableTrace' });
}
// Drafts stand for places, not for values: exchanging objects through them loses one.
export async function exchanging(run) {
  const prim = (v) => ({ t: 'p', v, f: [], h: [], id: -1, acc: false }), obj = (f) => ({ ...prim(''), t: 'o', f });
  const ini = obj([['a', { ...prim(''), t: 'a', h: [obj([['a', prim('x')]]), obj([['b', prim('y')]])] }]]);
  const scripts = [{ ini, ops: [{ op: 'reverse', p: ['a'], x: { ...prim(''), t: 'u' }, k: 0, q: [], how: 'draft', id: 0 }] }];
  await run.known('reverse-objects', () => run.judge({ driver: 'derivable', scripts, spec: 'DerivableTrace' }));
}
