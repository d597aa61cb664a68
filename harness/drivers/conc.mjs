// Concurrent updates of two roots and of the components below them.
import { dom } from '../env.mjs';
import { log, main, microtasks } from '../driver.mjs';
import { makeHost, settle, way } from '../host.mjs';

await main(async ({ ops, order = 0 }, B) => {
  const { html, createComponent, createFragment, createPortal, DOMRoot, Runtime } = B;
  const doc = dom.window.document;
  const containers = { main: doc.createElement('div'), P1: doc.createElement('div'), P2: doc.createElement('div'), two: doc.createElement('div') };
  containers.main.append(doc.createElement('hr')); containers.P1.append(doc.createElement('hr'));
  const host = makeHost(B), rt = new Runtime(host);
  const roots = [new DOMRoot(containers.main, rt), new DOMRoot(containers.two, rt)];
  const KEYS = { a: 'a', b: 1, c: '1', d: NaN, e: {}, f: null };
  const nodeIds = new WeakMap(); let nodeCount = 0;
  const uid = (n) => { let u = nodeIds.get(n); if (!u) nodeIds.set(n, u = ++nodeCount); return u; };
  const observe = (c) => {
    const out = [];
    const walk = (p, d) => {
      for (const n of p.childNodes) {
        if (n.nodeType === 8) continue;
        out.push({ d, t: n.nodeType === 3 ? '#' + n.data : n.localName, u: uid(n), c: n.localName === 'x-a' ? +n.getAttribute('data-u') : 0 });
        walk(n, d + 1);
      }
    };
    walk(c, 0);
    return out;
  };
  class K1 { constructor(v) { this.v = v; } } class K2 extends K1 {} class K3 { constructor(v) { this.v = v; } static getDefault() { return { v: 'default' }; } }
  const CLASSES = { K1, K2, K3 };
  const inject = (ctx, c) => { try { return ctx.inject(CLASSES[c]).v; } catch (e) { return 'none:' + (String(e.message).includes(c) ? c : e.message); } };
  const instances = [];
  // Updates to be requested when a number of such moments have passed, each once.
  const todo = [];
  const moment = (when) => { for (let j = 0; j < todo.length; j++) if (todo[j].when === when && todo[j].after-- === 0) { const [op] = todo.splice(j--, 1); if (op.a === 'throw') throw new Error('boom'); request(op); } };
  const request = (op) => {
    const c = instances.filter((r) => r.been && r.alive !== op.dead);
    if (!c.length) return;
    const r = c[op.i % c.length];
    const h = op.a === 'force' ? r.ctx.forceUpdate(opts(op.o)) : r.set(op.a === 'inc' ? (s) => s + 1 : op.v, opts(op.o));
    if (op.a !== 'force') log({ e: 'act', u: r.u, a: op.a, v: op.v, drop: h.lanes === 0 });
    watch(h, r);
  };
  const EXTRA = { A: ['always', 'dep'], W: ['dep'], M: ['always'], E: [] };
  function body(ctx, d, name) {
    const rec = ctx.useMemo(() => { const r = { u: instances.length + 1, alive: false, been: false }; instances.push(r); return r; }, []);
    const [s, set] = ctx.useState(0);
    rec.set = set; rec.ctx = ctx;
    log({ e: 'rend', u: rec.u });
    for (const p of d.prov) ctx.provide(new CLASSES[p.slice(0, 2)](p));
    const inj = [inject(ctx, 'K1'), inject(ctx, 'K2'), inject(ctx, 'K3')];
    moment('render');
    ctx.useEffect(() => {
      rec.alive = rec.been = true; log({ e: 'fx', t: 's', u: rec.u, i: 1 });
      moment('effect');
      return () => { rec.alive = false; log({ e: 'fx', t: 'c', u: rec.u, i: 1 }); moment('cleanup'); };
    }, []);
    ctx.useEffect(() => { rec.l = d.l; rec.s = s; rec.inj = inj; });
    EXTRA[name].forEach((mode, k) => ctx.useEffect(() => {
      log({ e: 'fx', t: 's', u: rec.u, i: k + 2 });
      return () => log({ e: 'fx', t: 'c', u: rec.u, i: k + 2 });
    }, mode === 'always' ? undefined : d.d));
    ctx.useEffect(() => { moment('setup'); return () => { moment('end'); }; });
    const child = build(d.h[s % d.h.length]);
    return name === 'A' ? html`<x-a data-u=${rec.u}><${child}></x-a>` : child;
  }
  const eq = (a, b) => JSON.stringify(a.d) === JSON.stringify(b.d);
  const COMPS = {
    A: createComponent(function A({ d }) { return body(this, d, 'A'); }),
    W: createComponent(function W({ d }) { return body(this, d, 'W'); }),
    M: createComponent(function M({ d }) { return body(this, d, 'M'); }, { arePropsEqual: eq }),
    E: createComponent(function E({ d }) { return body(this, d, 'E'); }),
  };
  const cache = new Map();
  function build(d) {
    if (d.cache) {
      const k = JSON.stringify(d);
      if (!cache.has(k)) cache.set(k, build({ ...d, cache: false }));
      return cache.get(k);
    }
    const e = raw(d);
    return d.key === '' ? e : e.withKey(KEYS[d.key]);
  }
  function raw(d) {
    const h = (i) => build(d.h[i]);
    switch (d.k) {
      case 'f': return createFragment(d.h.map(build));
      case 'c': return COMPS[d.name]({ d });
      case 'p': return createPortal(h(0), containers[d.to]);
    }
    switch (d.tpl) {
      case 1: return html`<p>${d.v}</p>`;
      case 2: return html`<div><${h(0)}></div>`;
      case 3: return html`<b>x</b><${h(0)}><i>${d.v}</i>`;
      case 4: return html`<${h(0)}>`;
      case 5: return html`s-${d.v}`;
      case 6: return html``;
      case 7: return html`<ul><${h(0)}><li>=</li><${h(1)}></ul>`;
      case 8: return html`<${h(0)}><${h(1)}>`;
      case 9: return html`<button>k</button>`;
    }
  }
  let nup = 0, ways = ['', ''], trouble = false;
  const last = [null, null];
  const watch = (h, rec) => {
    const n = ++nup;
    log({ e: 'req', n });
    h.finished.then(() => log({ e: 'fin', n, ok: true, dead: false }), (x) => log({ e: 'fin', n, ok: false, dead: !!rec && !rec.alive, msg: x?.message === 'boom' || x?.cause?.message === 'boom' ? 'boom' : String(x?.cause ?? x).slice(0, 200) }));
  };
  const opts = (o) => {
    const r = way(host, o.w);
    if (o.tr >= 0) r.transition = o.tr;
    if (o.dl >= 0) r.delay = o.dl;
    return r;
  };
  const quiet = async (k, calm = !trouble) => {
    await settle(host, k);
    log({ e: 'quiet', calm, dom: Object.fromEntries(Object.entries(containers).map(([k, c]) => [k, observe(c)])), live: instances.filter((r) => r.alive).map((r) => ({ u: r.u, l: r.l, s: r.s, inj: r.inj })) });
  };
  for (const op of ops) {
    switch (op.op) {
      case 'ways': ways = op.w; if (op.p) { trouble = true; log({ e: 'trouble', p: op.p }); } break;
      case 'render': last[op.r - 1] = op.d; log({ e: 'root', r: op.r, d: [op.d] }); watch(roots[op.r - 1].render(build(op.d), way(host, ways[op.r - 1]))); break;
      case 'unmount': last[op.r - 1] = null; log({ e: 'root', r: op.r, d: [] }); watch(roots[op.r - 1].unmount(way(host, ways[op.r - 1]))); break;
      case 'act': request(op); break;
      case 'at': todo.push({ ...op }); break;
      case 'fire': if (host.cbs.length) host.cbs.splice(op.i % host.cbs.length, 1)[0].run(); break;
      case 'commit': if (host.commits.length) host.commits.shift()(); break;
      case 'tick': await microtasks(); break;
      case 'settle': await quiet(op.i); break;
    }
  }
  await quiet(order);
  todo.length = 0;
  if (trouble) {
    last.forEach((d, k) => watch(d ? roots[k].render(build(d), way(host, ways[k])) : roots[k].unmount(way(host, ways[k]))));
    await settle(host, order);
  }
  // Once more, after everything is rendered again.
  for (const r of instances.filter((r) => r.alive)) watch(r.ctx.forceUpdate());
  await quiet(order + 1, true);
  // Nothing is left of what is removed.
  if (trouble) { last.forEach((_, k) => { log({ e: 'root', r: k + 1, d: [] }); watch(roots[k].unmount(way(host, ways[k]))); }); await quiet(order, true); }
});
