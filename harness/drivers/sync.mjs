// Components that use signals and external stores, under scripted schedules.
import { dom } from '../env.mjs';
import { log, main, microtasks } from '../driver.mjs';
import { makeHost, settle, way } from '../host.mjs';


await main(async ({ ops, order = 0 }, B) => {
  const { html, createComponent, createFragment, DOMRoot, Runtime, Atom, Accessor, Computed, Derivable, LocalAtom, LocalComputed, SyncExternalStore } = B;
  const doc = dom.window.document;
  const host = makeHost(B), rt = new Runtime(host), el = doc.createElement('div'), root = new DOMRoot(el, rt);
  let nu = 0;
  // The base values and how many listen to each.
  const subs = { a: 0, b: 0, c: 0, d: 0, n: 0, s: 0, t: 0 };
  const count = (n, s) => {
    const subscribe = s.subscribe;
    s.subscribe = function (f) {
      const stop = subscribe.call(s, f);
      let on = true;
      subs[n]++;
      return () => { if (on) subs[n]--; on = false; return stop(); };
    };
    return s;
  };
  let held = 0;
  const store = (n) => {
    const fs = new Set();
    return count(n, { v: 0, get: () => st[n].v, subscribe(f) { const g = () => f(); fs.add(g); return () => { fs.delete(g); }; }, set(v) { this.v = v; for (const f of [...fs]) f(); } });
  };
  const st = {};
  st.s = store('s'); st.t = store('t');
  for (const n of ['s', 't']) { const x = st[n], f = x.subscribe; x.sub = (g) => f.call(x, g); x.mod = () => x.v % 2; }
  const n = count('n', new Atom(0)), a = count('a', new Atom(0)), b = count('b', new Atom(0)), c = count('c', new Accessor(() => held, (v) => { held = v; }));
  const tree = Derivable.from({ x: { y: 0 }, z: 0 });
  const d = count('d', tree.get('x').get('y'));
  const par = new Computed((v) => v % 2, [a]), sum = new Computed((x, y) => (x + y) % 3, [a, b]), deep = new Computed((x, y) => x + y * 2, [par, sum]);
  // It throws for the time being, if asked to.
  let fails = false;
  const flaky = new Computed((x) => { if (fails) throw Object.assign(new Error('flaky'), { expected: true }); return (x + 1) % 4; }, [a]);
  const src = { a, b, c, d, n, par, sum, deep, flaky };
  // 3 stands for NaN.
  const of = (v) => (Number.isNaN(v) ? 3 : v);
  const set = (n, v, how) => {
    log({ e: 'chg', b: n, v });
    if (n === 's' || n === 't') st[n].set(v);
    else if (n === 'd' && how === 'draft') tree.scope((x) => { x.x.y = v; });
    else if (n === 'n') src.n.value = v === 3 ? NaN : v;
    else ({ a, b, c, d })[n].value = v;
  };
  // What components are to change at certain moments, each once.
  const todo = [];
  const moment = (when, k) => {
    for (let j = 0; j < todo.length; j++) if (todo[j].when === when && todo[j].k === k) { const [o] = todo.splice(j--, 1); set(o.b, o.v, o.how); }
  };
  const live = {};
  const selector = (v) => of(v) % 2;
  const kinds = {
    use: (ctx, it) => ctx.use(src[it.src]),
    sel: (ctx, it) => ctx.use(ctx.use(LocalComputed(selector, [src[it.src]]))),
    store: (ctx, it) => ctx.use(SyncExternalStore(st[it.src].sub, st[it.src].get)),
    inline: (ctx, it) => ctx.use(SyncExternalStore(st[it.src].sub, () => st[it.src].v % 2)),
    child: () => -1,
    // A value of its own, which it may give another one when rendering.
    own: (ctx, it, rec) => {
      const at = ctx.use(LocalAtom(it.init));
      if (!rec.own) { rec.own = at; log({ e: 'own', u: rec.u, v: it.init, mk: true }); } else if (rec.own !== at) log({ e: 'own', u: rec.u, v: at.value, mk: true, other: true });
      return ctx.use(at);
    },
  };
  const make = (kind) => createComponent(function ({ it }) {
    const rec = this.useMemo(() => ({ u: ++nu }), []);
    moment('render', it.k);
    this.useEffect(() => { moment('effect', it.k); });
    const held = kinds[kind](this, it, rec), val = of(held);
    log({ e: 'r', u: rec.u, k: it.k, kind, src: it.src, val });
    moment('late', it.k);
    this.useEffect(() => { log({ e: 'shown', u: rec.u, k: it.k, kind, src: it.src, val }); rec.ctx = this; live[it.k] = rec; });
    this.useEffect(() => () => { log({ e: 'gone', u: rec.u }); moment('cleanup', it.k); if (live[it.k] === rec) delete live[it.k]; }, []);
    this.useEffect(() => { moment('after', it.k); });
    return kind === 'child' ? html`<b title=${src[it.src]}><${src[it.src]}></b>` : html`<i title=${held}>${held}</i>`;
  });
  const C = Object.fromEntries(Object.keys(kinds).map((k) => [k, make(k)]));
  const opts = (o) => way(host, o.w);
  // What each element shows, in its attribute and inside.
  const shown = () => Array.from(el.children, (x) => [x.title, x.tagName === 'B' ? x.firstChild.data : x.textContent].map((t) => (t === 'NaN' ? '3' : t)));
  const idle = () => { log({ e: 'idle', dom: shown(), subs: Object.entries(subs) }); };
  const watch = (h) => h.finished.catch((x) => log({ e: 'crash', msg: String(x?.stack ?? x).slice(0, 500) }));
  for (const op of ops) {
    switch (op.op) {
      case 'render': log({ e: 'list', list: op.list }); watch(root.render(createFragment(op.list.map((it) => C[it.kind]({ it }).withKey(it.k))), opts(op.o))); break;
      case 'chg': set(op.b, op.v, op.how); break;
      case 'own': { const x = live[op.k]; if (x?.own) { log({ e: 'own', u: x.u, v: op.v, mk: false }); x.own.value = op.v; } break; }
      case 'gap': queueMicrotask(() => set(op.b, op.v, op.how)); break;
      case 'at': todo.push(op); break;
      case 'force': { const x = live[op.k]; if (x) { log({ e: 'force', u: x.u }); watch(x.ctx.forceUpdate(opts(op.o))); } break; }
      case 'fire': if (host.cbs.length) host.cbs.splice(op.i % host.cbs.length, 1)[0].run(); break;
      case 'commit': if (host.commits.length) host.commits.shift()(); break;
      case 'tick': await microtasks(); break;
      case 'blip': {
        await settle(host, order); idle();
        fails = true; set('a', op.v); await microtasks();
        fails = false; set('a', (op.v + 1) % 4);
        break;
      }
      case 'settle': await settle(host, op.i + order); idle(); break;
    }
  }
  await settle(host, order); idle();
  log({ e: 'list', list: [] });
  root.unmount(); await settle(host); await settle(host); idle();
  // Nothing happens to what is gone.
  for (const n of ['a', 'b', 'c', 'd', 'n', 's', 't']) set(n, 3);
  await settle(host); idle();
});
