// Operates on atoms, accessors and computed values; subscribers operate too.
import '../env.mjs';
import { log, main } from '../driver.mjs';
await main(async ({ g, ops }, B) => {
  const { Accessor, Atom, Computed } = B;
  const sig = [], subs = [];
  // Numbers that scripts write otherwise.
  const enc = (x) => (typeof x !== 'number' ? 103 : Number.isNaN(x) ? 100 : Object.is(x, -0) ? 101 : x), dec = (x) => (x === 100 ? NaN : x === 101 ? -0 : x);
  class Failure extends Error {}
  let cs = [], budget = 60;
  g.forEach((x, k) => {
    if (x.t === 'atom') sig.push(new Atom(x.v));
    else if (x.t === 'acc') { let v = x.v; sig.push(new Accessor(() => v, (y) => { v = y; })); }
    else {
      const fn = (...vs) => { cs.push(k + 1); const r = vs.reduce((a, y, j) => a + x.w[j] * y, 0) % x.m; if (r === x.b) throw new Failure(); return r; };
      sig.push(x.d.length === 1 && x.m === 3 ? sig[x.d[0] - 1].map(fn) : new Computed(fn, x.d.map((j) => sig[j - 1])));
    }
  });
  const read = (s) => { cs = []; let y; try { y = enc(sig[s - 1].value); } catch (e) { if (!(e instanceof Failure)) throw e; y = 102; } log({ e: 'read', s, y, cs }); };
  const run = (o, self) => {
    if (--budget < 0) return;
    switch (o.op) {
      case 'read': read(o.s); break;
      case 'set': log({ e: 'set', s: o.s, y: o.y }); sig[o.s - 1].value = dec(o.y); log({ e: 'done' }); break;
      case 'sub': {
        const id = subs.length + 1;
        let n = 0;
        log({ e: 'sub', id, s: o.s });
        subs.push(sig[o.s - 1].subscribe((event) => {
          log({ e: 'told', id, x: enc(event.oldValue), y: enc(event.newValue) });
          if (n++ < o.n) for (const x of o.r) run(x, id);
        }));
        break;
      }
      case 'unsub': { const id = o.id || self; if (id > 0 && id <= subs.length) { log({ e: 'unsub', id }); subs[id - 1](); } break; }
    }
  };
  for (const o of ops) run(o, 0);
  budget = 1000;
  g.forEach((x, k) => { if (x.t !== 'comp') for (const y of [5, 6]) run({ op: 'set', s: k + 1, y }); });
  for (let s = 1; s <= g.length; s++) read(s);
  return { g };
});
