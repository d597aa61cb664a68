// Rendering trees: Tree.tla, TreeGen.tla, TreeTrace.tla.
import { pick } from '../lib.mjs';
const cfg = (ops, depth, boom, prov, thr = 'FALSE') => `CONSTANTS
  MaxOps = ${ops}
  Depth = ${depth}
  WithBoom = ${boom}
  WithProv = ${prov}
  WithThrow = ${thr}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
`;
const gen = (run, name, ops, depth, boom, prov, n, seed, thr) =>
  run.scripts({ name: `TreeGen/${name}`, spec: 'TreeGen', cfg: cfg(ops, depth, boom, prov, thr), n, depth: ops + 2, seed, procs: 4 });
const T = 'TRUE', F = 'FALSE';
export async function judge(run, scripts, env = {}) {
  await run.judge({ driver: 'tree', scripts: scripts.map((ops, order) => ({ ops, order })), env, spec: 'TreeTrace', block: 3000 });
}
export async function plain(run) {
  const [a, b, c] = await Promise.all([
    gen(run, 'small', 8, 2, F, F, pick(600, 6000), 11),
    gen(run, 'large', 10, 4, F, F, pick(300, 6000), 12),
  ]);
  await judge(run, [...a, ...b]);
  await judge(run, a.slice(0, pick(200, 3000)), { VERIF_MOVEBEFORE: '1' });
}
export async function failing(run) {
  await judge(run, (await Promise.all([gen(run, 'failing small', 8, 2, T, F, pick(500, 5000), 13), gen(run, 'failing', 10, 4, T, F, pick(300, 5000), 14)])).flat());
}
export async function throwing(run) {
  await judge(run, (await Promise.all([gen(run, 'throwing small', 8, 2, F, F, pick(1000, 8000), 17, T), gen(run, 'throwing', 10, 4, T, F, pick(500, 6000), 18, T)])).flat());
}
export async function providers(run) {
  await judge(run, (await Promise.all([gen(run, 'providers small', 8, 3, F, T, pick(500, 5000), 15), gen(run, 'providers', 10, 5, F, T, pick(300, 5000), 16)])).flat());
}

// Concurrent updates: ConcGen.tla, ConcTrace.tla.
const conc = (run, prov, troubles = '') => (name, ops, depth, n, seed) => run.scripts({
  name: `ConcGen/${name}`, spec: 'ConcGen', n, seed, depth: ops + 2, procs: 4,
  cfg: cfg(ops, depth, F, prov).replace('INIT Init', `  Troubles = {${troubles}}\nINIT CInit`).replace('NEXT Next', 'NEXT CNext'),
});
export async function provided(run) {
  const g = conc(run, T);
  const scripts = (await Promise.all([g('provided', 20, 4, pick(1200, 16000), 34), g('provided small', 24, 2, pick(1200, 16000), 35)])).flat();
  await run.judge({ driver: 'conc', scripts: scripts.map((ops, order) => ({ ops, order })), spec: 'ConcTrace' });
}
export async function troubled(run) {
  const g = conc(run, F, run.prop === 'C23' ? '"render"' : '"setup", "end"');
  const scripts = (await Promise.all([g('troubled', 20, 4, pick(1200, 16000), 36), g('troubled small', 24, 2, pick(1200, 16000), 37)])).flat();
  await run.judge({ driver: 'conc', scripts: scripts.map((ops, order) => ({ ops, order })), spec: 'ConcTrace' });
}
export async function concurrent(run) {
  const g = conc(run, F);
  const scripts = (await Promise.all([g('small', 20, 2, pick(2400, 16000), 31), g('deep', 24, 4, pick(1600, 16000), 32), g('long', 50, 3, pick(600, 6000), 33)])).flat();
  await run.judge({ driver: 'conc', scripts: scripts.map((ops, order) => ({ ops, order })), spec: 'ConcTrace' });
}

// Keyed lists: every pair of lists over a few keys, in several surroundings.
const kcfg = (keys, gen) => `CONSTANTS
  Keys = {${keys.map((k) => `"${k}"`).join(', ')}}
  MaxLen = ${keys.length}
INIT Init
NEXT Next
INVARIANTS Right EachOnce
CHECK_DEADLOCK FALSE
`;
const D0 = { k: 't', tpl: 6, name: '', to: '', key: '', v: '', h: [], d: [], prov: [], cache: false, boom: false, eb: '', l: '' };
const t = (tpl, v, ...h) => ({ ...D0, tpl, v, h });
const f = (...h) => ({ ...D0, k: 'f', tpl: 0, h });
const c = (name, d, ...h) => ({ ...D0, k: 'c', tpl: 0, name, d, h });
const key = (k, d) => ({ ...d, key: k });
const label = (d, l) => ({ ...d, l, h: d.h.map((x, i) => label(x, `${l}.${d.k === 'f' && x.key ? x.key : i + 1}`)) });
// What the item of a key is like, by style.
const ITEMS = [
  (k, i) => t(1, k),
  (k, i) => ({ a: () => c('W', [], t(3, '1', f(key('a', t(1, 'x')), key('b', t(1, 'y'))))), b: () => t(6, ''), c: () => f(t(1, 'p'), t(1, 'q')), d: () => t(4, '', t(1, 'r')), e: () => f() })[k](),
  (k, i) => c('A', [String(i)], t(1, String(i))),
  (k, i) => ({ a: () => c('M', [], f()), b: () => t(8, '', t(1, '1'), f(t(1, '2'))), c: () => c('W', [], f(key('z', t(1, 'z')))), d: () => t(5, 'v'), e: () => ({ ...D0, k: 'p', tpl: 0, to: 'P1', h: [t(1, 'w')] }) })[k](),
  (k, i) => (i % 2 ? t(1, k) : c('W', [], f(t(1, k), t(1, k)))),
];
const AROUND = [(l) => l, (l) => t(2, '', l), (l) => t(7, '', l, t(1, 'n')), (l) => t(8, '', l, f(key('a', t(1, 'o')))), (l) => c('W', [], f(l, t(1, 'p'))), (l) => t(4, '', f(key('a', l), key('b', t(6, ''))))];
export async function lists(run) {
  const keys = pick(['a', 'b', 'c', 'd'], ['a', 'b', 'c', 'd', 'e']);
  const pairs = await run.scripts({ name: 'KeyedList', spec: 'KeyedList', cfg: kcfg(keys) });
  const byOld = new Map();
  for (const [o, n] of pairs) { const k = o.join(); if (!byOld.has(k)) byOld.set(k, [o, []]); byOld.get(k)[1].push(n); }
  const scripts = [];
  let s = 0;
  for (const [o, ns] of byOld.values()) {
    for (let k = 0; k < ns.length; k += 33) {
      const variants = pick(1, 2);
      for (let v = 0; v < variants; v++, s++) {
        const item = ITEMS[s % ITEMS.length], around = AROUND[Math.floor(s / ITEMS.length) % AROUND.length];
        const op = (list, i) => ({ op: 'render', d: label(around(f(...list.map((x) => key(x, item(x, i))))), 'r'), way: '' });
        scripts.push(ns.slice(k, k + 33).flatMap((n, i) => [op(o, i), op(n, i)]));
      }
    }
  }
  await judge(run, scripts);
  await judge(run, scripts.filter((_, i) => i % 4 === 1), { VERIF_MOVEBEFORE: '1' });
}
