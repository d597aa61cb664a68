// The DOM adapter over a fake browser: tasks, messages, idle callbacks, timers with a clock, frames.
import { dom } from '../env.mjs';
import { log, main, microtasks } from '../driver.mjs';

const w = dom.window;
await main(async ({ ops }, B) => {
  const { html, createComponent, DOMAdapter, DOMRoot, Runtime } = B;
  const cfg = ops[0];
  let now = 0, id = 0, current = 0;
  let tasks = [], messages = [], idles = [], timers = [], frames = [];
  const use = (fac, o = {}) => { const k = ++id; log({ e: 'use', c: current, fac, k, prio: '', delay: 0, ...o }); return k; };
  const fired = (fac, k) => log({ e: 'fired', fac, k, now });
  const define = (k, v) => { for (const o of [globalThis, w]) { if (v === undefined) delete o[k]; else Object.defineProperty(o, k, { value: v, configurable: true, writable: true }); } };
  define('scheduler', cfg.task ? {
    postTask(f, o) {
      const k = use('task', { prio: o?.priority ?? '', delay: o?.delay ?? 0 });
      return new Promise((resolve, reject) => tasks.push({ k, f, due: now + (o?.delay ?? 0), rank: ['user-blocking', 'user-visible', 'background'].indexOf(o?.priority ?? 'user-visible'), resolve, reject }));
    },
  } : undefined);
  define('requestIdleCallback', cfg.idle ? (f) => { const k = use('idle'); idles.push({ k, f }); return k; } : undefined);
  define('cancelIdleCallback', cfg.idle ? (k) => { idles = idles.filter((x) => x.k !== k); } : undefined);
  define('setTimeout', (f, ms = 0) => { const k = use('timer', { delay: ms }); timers.push({ k, f, due: now + ms }); return k; });
  define('clearTimeout', (k) => { timers = timers.filter((x) => x.k !== k); });
  define('requestAnimationFrame', (f) => { const k = use('frame'); frames.push({ k, f }); return k; });
  define('cancelAnimationFrame', (k) => { frames = frames.filter((x) => x.k !== k); });
  define('MessageChannel', class {
    constructor() {
      const port = (other) => ({ onmessage: null, postMessage: (data) => { const k = use('message'); messages.push({ k, f: () => this[other].onmessage?.({ data }) }); }, close() {}, start() {} });
      this.port1 = port('port2'); this.port2 = port('port1');
    }
  });
  // What the browser does.
  const run = async (fac, x) => { fired(fac, x.k); try { x.f(now); } catch (err) { log({ e: 'uncaught', msg: String(err) }); } await microtasks(); log({ e: 'done', fac, k: x.k }); };
  const due = (l) => l.filter((x) => x.due <= now).sort((a, b) => a.due - b.due || a.k - b.k)[0];
  const drop = (l, x) => l.splice(l.indexOf(x), 1);
  const go = {
    async task() {
      const x = tasks.filter((t) => t.due <= now).sort((a, b) => a.rank - b.rank || a.k - b.k)[0];
      if (!x) return;
      drop(tasks, x);
      fired('task', x.k);
      let v;
      try { v = x.f(); x.resolve(v); } catch (err) { x.reject(err); }
      await microtasks();
      log({ e: 'done', fac: 'task', k: x.k });
    },
    async message() { if (messages.length) await run('message', messages.shift()); },
    async idle() {
      while (messages.length || due(timers) || tasks.some((t) => t.due <= now)) { await go.task(); await go.message(); await go.timer(); }
      if (idles.length) await run('idle', idles.shift());
    },
    async timer() { const x = due(timers); if (x) { drop(timers, x); await run('timer', x); } },
    async time(ms) {
      const end = now + ms;
      for (;;) {
        const x = timers.filter((t) => t.due <= end).sort((a, b) => a.due - b.due || a.k - b.k)[0];
        if (!x) break;
        now = Math.max(now, x.due);
        drop(timers, x);
        await run('timer', x);
      }
      now = end;
    },
    async frame() {
      const l = frames; frames = [];
      log({ e: 'frame', now });
      for (const x of l) { fired('frame', x.k); try { x.f(now); } catch (err) { log({ e: 'uncaught', msg: String(err) }); } }
      await microtasks();
      log({ e: 'framed' });
    },
    // Until nothing is left: without frames, everything has to run all the same.
    async drain() {
      for (let i = 0; i < 60 && (tasks.length || messages.length || idles.length || timers.length || frames.length); i++) {
        await go.task(); await go.message(); await go.time(20); await go.idle();
        if (cfg.frames) await go.frame();
      }
      await microtasks();
      log({ e: 'drained', now, shown: el.textContent });
    },
  };
  const adapter = new DOMAdapter(document);
  log({ e: 'made', task: cfg.task, idle: cfg.idle, id: adapter.getIdentifier(), other: new DOMAdapter(document).getIdentifier() });
  // Requests.
  let nc = 0;
  const request = (what, o, start) => {
    const c = ++nc;
    log({ e: 'req', c, what, now, prio: o.prio ?? '', delay: o.delay ?? 0, does: o.does });
    const body = () => {
      log({ e: 'run', c, now });
      const fail = new Error('c' + c);
      switch (o.does) {
        case 'throw': throw fail;
        case 'async': return (async () => { await null; await null; log({ e: 'ran', c }); })();
        case 'asyncfail': return (async () => { await null; log({ e: 'ran', c }); throw fail; })();
      }
    };
    current = c;
    const p = start(body);
    current = 0;
    log({ e: 'reqend', c });
    p.then(() => log({ e: 'settled', c, ok: true, own: true }), (err) => log({ e: 'settled', c, ok: false, own: err?.message === 'c' + c }));
  };
  const inside = (type, ready, f) => {
    Object.defineProperty(w, 'event', { value: type === 'none' ? undefined : new w.Event(type), configurable: true });
    Object.defineProperty(document, 'readyState', { value: ready, configurable: true });
    try { return f(); } finally { delete w.event; delete document.readyState; }
  };
  // An application of the adapter.
  const rt = new Runtime(adapter), el = document.createElement('div'), root = new DOMRoot(el, rt);
  let set, asked = false;
  const Count = createComponent(function Count({ init }) {
    const [n, setN] = this.useState(init);
    set = setN;
    this.useEffect(() => { log({ e: 'shown', n, now }); });
    return html`<b>${n}</b>`;
  });
  const update = (o) => {
    if (asked && !set) return;
    asked = true;
    const c = ++nc;
    const opts = o.sync ? { flushSync: true } : { ...(o.prio ? { priority: o.prio } : {}), ...(o.delay ? { delay: o.delay } : {}), ...(o.trans >= 0 ? { transition: o.trans } : {}) };
    log({ e: 'upd', c, now, prio: o.prio, delay: o.delay, sync: o.sync, inside: o.inside, trans: o.trans, to: c });
    current = c;
    const h = inside(o.inside, 'complete', () => (set ? set(() => c, opts) : root.render(Count({ init: c }), opts)));
    current = 0;
    log({ e: 'updend', c, lanes: String(h.lanes) });
    h.finished.then((x) => log({ e: 'updated', c, ok: true, status: x?.status ?? '' }), (err) => log({ e: 'updated', c, ok: false, status: String(err) }));
  };
  for (const op of ops.slice(1)) {
    switch (op.op) {
      case 'callback': request('callback', op.bare ? { ...op, prio: '', delay: 0 } : op, (f) => adapter.requestCallback(f, op.bare ? undefined : { ...(op.prio ? { priority: op.prio } : {}), ...(op.delay ? { delay: op.delay } : {}) })); break;
      case 'commit': request('commit', op, (f) => adapter.requestCommit(f)); break;
      case 'update': update(op); await microtasks(); break;
      case 'priority': {
        const a = op.doc ? adapter : new DOMAdapter(document.implementation.createHTMLDocument());
        log({ e: 'priority', inside: op.doc ? op.inside : 'none', ready: op.doc ? op.ready : 'complete', is: inside(op.inside, op.ready, () => a.getTaskPriority()) });
        break;
      }
      case 'tick': await microtasks(); break;
      case 'time': await go.time(op.ms); break;
      case 'frame': if (cfg.frames) await go.frame(); break;
      default: await go[op.op]?.();
    }
  }
  await go.drain();
});
