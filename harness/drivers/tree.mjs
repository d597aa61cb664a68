// Renders scripted trees one operation at a time and records everything that can be observed.
import { dom } from '../env.mjs';
import { log, main } from '../driver.mjs';
import { makeHost, settle, way } from '../host.mjs';

await main(async ({ ops, order = 0 }, B) => {
  const { html, createComponent, createFragment, createPortal, DOMRoot, Runtime } = B;
  const doc = dom.window.document;
  const containers = { main: doc.createElement('div'), P1: doc.createElement('div'), P2: doc.createElement('div') };
  containers.main.append(doc.createElement('hr')); containers.P1.append(doc.createElement('hr'));
  const host = makeHost(B), rt = new Runtime(host), root = new DOMRoot(containers.main, rt);
  const KEYS = { a: 'a', b: 1, c: '1', d: NaN, e: {}, f: null };

  // Identity of DOM nodes, in order of appearance.
  const nodeIds = new WeakMap(); let nodeCount = 0; const buttons = [];
  const uid = (n) => { let u = nodeIds.get(n); if (!u) { nodeIds.set(n, u = ++nodeCount); if (n.localName === 'button') buttons.push(n); } return u; };
  const observe = (c) => {
    const out = [];
    const walk = (p, d) => {
      for (const n of p.childNodes) {
        if (n.nodeType === 8) continue;
        out.push({ d, t: n.nodeType === 3 ? '#' + n.data : n.localName, u: uid(n), c: n.localName === 'x-a' ? +n.getAttribute('data-u') : 0 });
        walk(n, d + 1);
      }
    };
    walk(c, 0);
    return out;
  };
  const snapshot = () => Object.values(containers).map((c) => c.innerHTML).join('|');

  let o; // what the current operation shows
  class K1 { constructor(v) { this.v = v; } } class K2 extends K1 {} class K3 { constructor(v) { this.v = v; } static getDefault() { return { v: 'default' }; } }
  const CLASSES = { K1, K2, K3 };
  const inject = (ctx, c) => { try { return ctx.inject(CLASSES[c]).v; } catch (e) { return 'none:' + (String(e.message).includes(c) ? c : e.message); } };
  const MODES = { A: ['once', 'always', 'dep'], W: ['once', 'dep', 'dep'], M: ['once', 'always'], E: ['once'] };
  class Boom extends Error {}
  const fail = (what) => { o.threw.push(what); throw new Boom(what); };
  const instances = []; let byLabel = new Map();

  function body(ctx, d, name) {
    const rec = ctx.useMemo(() => { const r = { u: instances.length + 1, alive: false, been: false }; instances.push(r); return r; }, []);
    const [s, set] = ctx.useState(0);
    rec.set = set; rec.ctx = ctx;
    const hid = ctx.useId();
    for (const p of d.prov) ctx.provide(new CLASSES[p.slice(0, 2)](p));
    o.renders.push({ u: rec.u, l: d.l, inj: [inject(ctx, 'K1'), inject(ctx, 'K2'), inject(ctx, 'K3')], hid });
    MODES[name].forEach((mode, k) => {
      ctx.useEffect(() => {
        if (mode === 'once') { rec.alive = true; rec.been = true; }
        const last = k === MODES[name].length - 1, x = last && d.eb === 's', y = last && d.eb === 'c';
        o.fx.push({ t: 's', u: rec.u, i: k + 1, ok: snapshot(), x });
        if (x) fail(`setup ${rec.u}`);
        return () => { if (mode === 'once') rec.alive = false; o.fx.push({ t: 'c', u: rec.u, i: k + 1, ok: '', x: y }); if (y) fail(`cleanup ${rec.u}`); };
      }, mode === 'once' ? [] : mode === 'always' ? undefined : d.d);
    });
    if (d.boom) throw new Boom(d.l);
    const child = build(d.h[s % d.h.length]);
    return name === 'A' ? html`<x-a data-u=${rec.u}><${child}></x-a>` : child;
  }
  const eq = (a, b) => JSON.stringify(a.d) === JSON.stringify(b.d);
  const COMPS = {
    A: createComponent(function A({ d }) { return body(this, d, 'A'); }),
    W: createComponent(function W({ d }) { return body(this, d, 'W'); }),
    M: createComponent(function M({ d }) { return body(this, d, 'M'); }, { arePropsEqual: eq }),
    E: createComponent(function E({ d }) { return body(this, d, 'E'); }),
  };
  const refs = {}, listeners = {};
  const ref = (v, eb) => v === '' ? null : refs[v + eb] ??= (el) => {
    const b = uid(el);
    o.refs.push({ t: 'on', b, v: v + eb, x: eb === 'r' });
    if (eb === 'r') fail(`ref ${b}`);
    return () => { o.refs.push({ t: 'off', b, v: v + eb, x: false }); if (eb === 'q') fail(`unref ${b}`); };
  };
  const listener = (v) => v === '' ? null : listeners[v] ??= (e) => { o.clicks.push({ b: uid(e.currentTarget), v }); };
  const cache = new Map();
  function build(d) {
    if (d.cache) {
      const k = JSON.stringify(d);
      if (!cache.has(k)) cache.set(k, build({ ...d, cache: false, orig: d }));
      return cache.get(k);
    }
    const e = raw(d);
    return d.key === '' ? e : e.withKey(KEYS[d.key]);
  }
  function raw(d) {
    const h = (i) => build(d.h[i]);
    switch (d.k) {
      case 'f': return createFragment(d.h.map(build));
      case 'c': return COMPS[d.name]({ d: d.orig ?? d });
      case 'p': return createPortal(h(0), containers[d.to]);
    }
    switch (d.tpl) {
      case 1: return html`<p>${d.eb === 't' ? { toString: () => fail('text') } : d.v}</p>`;
      case 2: return html`<div><${h(0)}></div>`;
      case 3: return html`<b>x</b><${h(0)}><i>${d.v}</i>`;
      case 4: return html`<${h(0)}>`;
      case 5: return html`s-${d.v}`;
      case 6: return html``;
      case 7: return html`<ul><${h(0)}><li>=</li><${h(1)}></ul>`;
      case 8: return html`<${h(0)}><${h(1)}>`;
      case 9: return html`<button ${ref(d.v, d.eb)} @click=${listener(d.v)}>k</button>`;
    }
  }
  let step = 0;
  for (const op of ops) {
    if (op.op === 'end') break;
    step++;
    o = { renders: [], fx: [], refs: [], clicks: [], threw: [] };
    const handles = [], opts = way(host, op.way);
    switch (op.op) {
      case 'render': handles.push(root.render(build(op.d), opts)); break;
      case 'unmount': handles.push(root.unmount(opts)); break;
      case 'set': handles.push(byLabel.get(op.l).set(op.s, opts)); break;
      case 'dead': {
        const dead = instances.filter((r) => r.been && !r.alive);
        if (dead.length) { const r = dead[op.i % dead.length]; handles.push(r.set(7 + step, opts), r.ctx.forceUpdate(opts)); }
        break;
      }
    }
    let result = 'none', error;
    Promise.allSettled(handles.map((h) => h.finished)).then((rs) => {
      const no = rs.find((r) => r.status === 'rejected');
      result = no ? 'err' : 'ok'; error = no?.reason;
    });
    await settle(host, order + step);
    const end = snapshot();
    const fx = o.fx.map((x) => ({ ...x, ok: x.t === 'c' || x.ok === end }));
    const domNow = Object.fromEntries(Object.entries(containers).map(([k, c]) => [k, observe(c)]));
    for (const b of buttons) b.dispatchEvent(new dom.window.Event('click'));
    if (result === 'ok' || o.threw.length) for (const r of o.renders) byLabel.set(r.l, instances[r.u - 1]);
    const cause = error instanceof Boom ? error : error?.cause;
    log({
      e: 'op', op, step, renders: o.renders, fx, refs: o.refs, clicks: o.clicks, threw: o.threw, dom: domNow, settle: result,
      cause: cause instanceof Boom ? cause.message : String(cause ?? error ?? ''),
      names: error ? String(error.message).split('\n').slice(1).map((l) => l.match(/[A-Za-z_$][\w$]*/)?.[0] ?? '').filter((x) => x in COMPS) : [],
    });
  }
});
