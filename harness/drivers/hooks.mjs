// Components with one hook of each kind, rendered under scripted schedules.
import { dom } from '../env.mjs';
import { log, main, microtasks } from '../driver.mjs';
import { makeHost, settle, way } from '../host.mjs';

const OBJ = {};
const TOKENS = [undefined, 0, -0, NaN, OBJ, undefined, null, 'x'];
const nums = (s) => (s === '' ? [] : s.split(',').map((x) => Number.parseInt(x)));
const marks = (s) => (s === '' ? [] : s.split(',').map((x) => [Number.parseInt(x), x.endsWith('+') ? 2 : 1]).filter(([x]) => x < 100));
// A reducer of the second kind marks what it appends.
const act = (s, a, mark = '') => a.op === 'app' ? (s === '' ? `${a.id}${mark}` : `${s},${a.id}${mark}`) : a.op === 'set' ? `${a.v}` : a.op === 'clr' ? '' : s;

const EQ = { len: (s, t) => nums(s).length <= nums(t).length, never: () => false, always: () => true };
const bits = (lanes) => Array.from({ length: 32 }, (_, i) => i).filter((i) => (lanes >>> i) & 1);

await main(async ({ ops, order = 0 }, B) => {
  const { html, createComponent, createFragment, DOMRoot, Runtime } = B;
  const doc = dom.window.document;
  const host = makeHost(B), rt = new Runtime(host), el = doc.createElement('div'), root = new DOMRoot(el, rt);
  let nu = 0, nr = 0, nact = 0, ntok = 0, nup = 0;
  const live = {};
  const toks = new Map();
  const tok = (x) => { let t = toks.get(x); if (!t) toks.set(x, t = ++ntok); return t; };
  const opts = (o) => {
    const r = way(host, o.w);
    if (o.tr >= 0) r.transition = o.tr;
    if (o.dl >= 0) r.delay = o.dl;
    return r;
  };
  // What is dispatched at certain moments, each once.
  const todo = [];
  const moment = (when, k) => { for (let j = 0; j < todo.length; j++) if (todo[j].when === when && todo[j].at === k) { const [op] = todo.splice(j--, 1); dispatch(op); } };

  const Probe = createComponent(function ({ it }) {
    const rn = ++nr;
    const e = { e: 'r', rn, u: 0, k: it.k, deps: it.deps, ord: it.ord === 'boom' ? '' : it.ord, eff: it.eff, r: [-1], s: [-1], p: [-1], iv: it.iv ? [it.iv] : [], memo: 0, id1: '', id2: '', ref: 0, refv: -1, cb: 0, dr: 0, ds: 0, rv: it.rv, by: [], err: '' };
    const reducer = (s, a) => act(s, a, it.rv === 2 ? '+' : '');
    let cur;
    const deps = it.deps.map((t) => TOKENS[t]);
    const hooks = {
      r: () => { const [v, d] = this.useReducer(reducer, ''); e.r = nums(v); e.by = marks(v); e.dr = tok(d); hooks.dr = d; cur.r = e.r; },
      m: () => { e.memo = tok(this.useMemo(() => { if (it.ord === 'boom') { e.ord = 'boom'; throw new RangeError('boom'); } return {}; }, deps)); },
      e: () => {
        const want = it.eff === 'deps' ? deps : it.eff === 'null' ? null : undefined;
        const u = e.u;
        this.useEffect(() => { log({ e: 'fx', t: 's', u, rn, cl: it.cl }); if (it.cl) return () => log({ e: 'fx', t: 'c', u, rn, cl: true }); }, want);
      },
      i: () => { e.id1 = this.useId(); },
      s: () => { const [v, d] = this.useState(''); e.s = nums(v); e.ds = tok(d); hooks.ds = d; cur.s = e.s; },
      p: () => { const iv = it.iv ? `${it.iv}` : ''; const [v, d] = this.useState(it.iv === 202 ? () => iv : iv, { passthrough: true }); e.p = nums(v); hooks.dp = d; cur.p = e.p; },
      f: () => { const r = this.useRef(0); e.ref = tok(r); e.refv = r.current; r.current = rn; },
      c: () => { e.cb = tok(this.useCallback(() => rn, deps)); },
      j: () => { e.id2 = this.useId(); },
    };
    try {
      // The first hook, which is always a memo, tells the instance.
      const rec = this.useMemo(() => { e.ord = ''; return { u: ++nu, cur: {} }; }, []);
      e.u = rec.u; cur = rec.cur;
      this.useEffect(() => () => moment('removal', it.k), []);
      // Runs in every commit: what is shown from now on.
      this.useEffect(() => { log({ e: 'shown', u: rec.u, rn, r: e.r, s: e.s }); live[it.k] = rec; });
      this.useEffect(() => () => { log({ e: 'gone', u: rec.u }); if (live[it.k] === rec) { rec.gone = true; } }, []);
      const seq = { '': 'rmeispfcj', boom: 'rmeispfcj', swap: 'rmiespfcj', fewer: 'rmeispfc', more: 'rmeispfcji', skip: 'rmespfcj' }[it.ord === 'boom' ? '' : e.ord];
      moment('render', it.k);
      this.useEffect(() => { moment('effect', it.k); return () => moment('cleanup', it.k); });
      for (const h of seq) { hooks[h](); }
      moment('late', it.k);
      rec.ctx = this; rec.dr = hooks.dr; rec.ds = hooks.ds; rec.dp = hooks.dp;
    } catch (err) { e.err = err instanceof TypeError ? 'type' : err instanceof RangeError ? 'boom' : String(err); throw err; } finally { log(e); }
    return html`<p><${it.kid ? Probe({ it: { ...it, k: 'd', kid: false, ord: '' } }).withKey('d') : null}></p>`;
  });

  const watch = (h, id) => { const n = ++nup; h.finished.then(() => log({ e: 'fin', id, n, ok: true }), (x) => log({ e: 'fin', id, n, ok: false })); return n; };
  const render = (list, o) => {
    const h = root.render(createFragment(list.map((it) => Probe({ it }).withKey(it.k))), opts(o));
    log({ e: 'req', n: nup + 1, id: h.id, ls: bits(h.lanes) });
    watch(h, 0);
  };
  const dispatch = (op) => {
    const c = live[op.k];
    if (!c || !c.dr) return;
    const a = { op: op.a, id: op.a === 'set' ? op.v : ++nact, v: op.v };
    const d = op.h === 'r' ? c.dr : op.h === 's' ? c.ds : c.dp, from = c.cur[op.h];
    const h = d(op.h === 'r' ? a : op.a === 'set' || op.a === 'clr' ? act('', a) : (s) => act(s, a), { ...opts(op.o), ...(op.tr ? { transient: true } : {}), ...(op.eq ? { areStatesEqual: EQ[op.eq] } : {}) });
    const id = ++ntok;
    log({ e: 'disp', u: c.u, h: op.h, id, op: op.a, v: a.id, drop: h.lanes === 0, tr: op.tr, ls: bits(h.lanes), eq: op.eq, cur: from, gone: !!c.gone });
    if (h.lanes !== 0) log({ e: 'req', n: nup + 1, id: h.id, ls: bits(h.lanes) });
    watch(h, id);
  };
  for (const op of ops) {
    switch (op.op) {
      case 'render': render(op.list, op.o); break;
      case 'at': todo.push(op); break;
      case 'disp': dispatch(op); break;
      case 'force': { const c = live[op.k]; if (c?.ctx) { const h = c.ctx.forceUpdate(opts(op.o)); log({ e: 'req', n: nup + 1, id: h.id, ls: bits(h.lanes) }); watch(h, 0); } break; }
      case 'trans': { const c = live[op.k]; if (c?.ctx) log({ e: 'trans', n: c.ctx.startTransition((t) => t) }); break; }
      case 'fire': if (host.cbs.length) host.cbs.splice(op.i % host.cbs.length, 1)[0].run(); break;
      case 'commit': if (host.commits.length) host.commits.shift()(); break;
      case 'tick': await microtasks(); break;
      case 'settle': await settle(host, op.i + order); log({ e: 'idle' }); break;
    }
  }
  await settle(host, order);
  log({ e: 'idle' });
  log({ e: 'last' });
  render([{ k: 'a', deps: [1], eff: 'deps', ord: '', rv: 1, kid: true, cl: true, iv: 203 }, { k: 'b', deps: [], eff: 'deps', ord: '', rv: 1, kid: false, cl: true, iv: 0 }], { w: '', tr: -1, dl: -1 });
  await settle(host, order + 1);
  log({ e: 'idle' });
  log({ e: 'final' });
  // Another runtime hands out other identifiers.
  const host2 = makeHost(B), ids = [];
  const root2 = new DOMRoot(doc.createElement('div'), new Runtime(host2));
  root2.render(createComponent(function Ids() { for (let i = 0; i < 12; i++) ids.push(this.useId()); return null; })({}));
  await settle(host2);
  for (const id of ids) log({ e: 'id', id, valid: /^[A-Za-z][\w-]*$/.test(id) });
  root.unmount(); await settle(host);
  log({ e: 'end' });
});
