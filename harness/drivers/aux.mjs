// Components with the auxiliary hooks, under scripted schedules.
import { dom } from '../env.mjs';
import { log, main, microtasks } from '../driver.mjs';
import { makeHost, settle, way } from '../host.mjs';

// Sources are numbered; every other one is a function.
const values = [], number = new Map();
const value = (n) => values[n] ??= (() => { const x = n % 2 ? () => n : { n }; number.set(x, n); return x; })();
const DEPS = [undefined, NaN, {}, 'x', 0, -0];

await main(async ({ ops, order = 0 }, B) => {
  const { html, createComponent, createFragment, DOMRoot, Runtime, DeferredValue, EffectEvent, ImperativeHandle, Transition } = B;
  const doc = dom.window.document;
  const host = makeHost(B), rt = new Runtime(host), el = doc.createElement('div'), root = new DOMRoot(el, rt);
  let nu = 0, nr = 0, nt = 0, nact = 0;
  const live = {}, all = [];
  // A reference that all may use.
  const shared = { current: null };
  const fns = [null, (x, y) => [1, x, y], (x, y) => [2, x, y]];
  const opts = (o) => way(host, o.w);

  const Aux = createComponent(function ({ it }) {
    const rn = ++nr;
    const rec = this.useMemo(() => {
      const r = { u: ++nu, refs: { A: { current: null }, B: { current: null }, S: shared }, evs: [], fn: [] };
      r.refs.F = (h) => { log({ e: 'fset', u: r.u, f: 'F', rn: h.rn }); };
      r.refs.G = (h) => { log({ e: 'fset', u: r.u, f: 'G', rn: h.rn }); return () => { log({ e: 'funset', u: r.u, f: 'G', rn: h.rn }); }; };
      all.push(r);
      return r;
    }, []);
    const o = it.way ? { ...(it.way === 'delay' ? { delay: 50 } : { priority: it.way }) } : {};
    if (it.init) o.initialValue = it.init % 2 ? () => value(it.init) : value(it.init);
    const def = this.use(DeferredValue(value(it.v), o));
    const [pending, start] = this.use(Transition());
    const [s, setS] = this.useState([]);
    const fn = it.fn === 0 ? (x, y) => [100 + rn, x, y] : fns[it.fn];
    const ev = this.use(EffectEvent(function (x, y) { return [...fn(x, y), this]; }));
    const ev2 = this.use(EffectEvent(fn));
    const deps = it.deps === 0 ? undefined : it.deps.map((d) => DEPS[d]);
    this.use(ImperativeHandle(it.ref ? rec.refs[it.ref] : it.ref === '' ? null : undefined, () => ({ rn }), it.nodeps ? undefined : deps));
    log({ e: 'r', u: rec.u, k: it.k, rn, src: it.v, def: number.get(def) ?? -1, cbs: host.ran, pending, s, fn: it.fn === 0 ? 100 + rn : it.fn, ref: it.ref, deps: it.deps, nodeps: it.nodeps });
    this.useEffect(() => {
      rec.ev = ev; rec.ev2 = ev2; rec.start = start; rec.setS = setS; rec.ctx = this; live[it.k] = rec;
      if (!rec.first) rec.first = [ev, ev2];
      log({ e: 'shown', u: rec.u, rn, A: rec.refs.A.current?.rn ?? 0, B: rec.refs.B.current?.rn ?? 0 });
      call(rec);
    });
    this.useEffect(() => () => { log({ e: 'gone', u: rec.u, A: rec.refs.A.current?.rn ?? 0, B: rec.refs.B.current?.rn ?? 0 }); if (live[it.k] === rec) delete live[it.k]; }, []);
    return html`<p>${`${number.get(def)} ${pending} ${s}`}</p>`;
  });
  const call = (rec) => {
    const self = {};
    const x = rec.ev.call(self, 'x', 7), y = rec.ev2('x', 7), z = rec.first[1]('x', 7);
    log({ e: 'call', u: rec.u, got: [x[0], y[0], z[0]], ok: x[1] === 'x' && x[2] === 7 && x[3] === self && z[2] === 7 });
  };
  const inc = (rec, id, t) => { const a = ++nact; log({ e: 'inc', u: rec.u, id, a }); watch(rec.setS((s) => [...s, a], { transition: t })); };
  const watch = (h) => h.finished.catch((x) => log({ e: 'crash', msg: String(x?.stack ?? x).slice(0, 500) }));
  const open = [];
  const begin = (rec, other, op) => {
    if (rec.open) return;
    const id = ++nt, V = { id };
    log({ e: 'start', u: rec.u, id });
    const work = (t) => { for (let j = 0; j < op.n; j++) inc(rec, id, t); if (op.o && other) inc(other, id, t); };
    if (op.how === 'sync' || op.how === 'throw') {
      let ok;
      try { const x = rec.start((t) => { work(t); if (op.how === 'throw') throw V; return V; }); ok = op.how === 'sync' && x === V; } catch (x) { ok = op.how === 'throw' && x === V; }
      log({ e: 'ended', u: rec.u, id, ok });
      return;
    }
    const gate = Promise.withResolvers();
    let made;
    rec.open = true;
    const tr = { id, rec, gate };
    open.push(tr);
    const p = rec.start((t) => made = (async () => { work(t); await gate.promise; work(t); if (op.how === 'fail') throw V; return V; })());
    const done = (good, x) => { rec.open = false; log({ e: 'ended', u: rec.u, id, ok: p === made && good === (op.how !== 'fail') && x === V }); };
    p.then((x) => done(true, x), (x) => done(false, x));
  };
  const idle = (last) => { log({ e: 'idle', last, S: shared.current?.rn ?? 0, cbs: host.ran, dom: Array.from(el.children, (x) => x.textContent) }); };
  for (const op of ops) {
    switch (op.op) {
      case 'render': log({ e: 'list', ks: op.list.map((it) => it.k) }); watch(root.render(createFragment(op.list.map((it) => Aux({ it }).withKey(it.k))), opts(op.o))); break;
      case 'force': { const x = live[op.k]; if (x) watch(x.ctx.forceUpdate(opts(op.o))); break; }
      case 'start': { const x = live[op.k] ?? (op.gone ? all.find((y) => y.start) : null); if (x) begin(x, live[op.k === 'a' ? 'b' : 'a'], op); break; }
      case 'end': if (open.length) open.splice(op.i % open.length, 1)[0].gate.resolve(); break;
      case 'call': if (live[op.k]) call(live[op.k]); break;
      // Hosts call back once all microtasks have run.
      case 'fire': await microtasks(); if (host.cbs.length) host.cbs.splice(op.i % host.cbs.length, 1)[0].run(); break;
      case 'commit': await microtasks(); if (host.commits.length) host.commits.shift()(); break;
      case 'tick': { const busy = host.commits.length > 0; await microtasks(); log({ e: 'tick', busy: busy || host.commits.length > 0 }); break; }
      case 'settle': await settle(host, op.i + order); idle(false); break;
    }
  }
  await settle(host, order); idle(false);
  for (const t of open) t.gate.resolve();
  await settle(host, order + 1); idle(true);
  log({ e: 'list', ks: [] });
  root.unmount(); await settle(host); idle(true);
});
