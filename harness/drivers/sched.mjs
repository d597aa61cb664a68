// Drives a Runtime with scripted updates, host callbacks, commits and middlewares.
import '../env.mjs';
import { log as logEvent, main, microtasks } from '../driver.mjs';

const LEVELS = { root1: 0, root2: 0, comp1: 1, comp2: 2, sub: 3 };
const SUB = { o: { sync: false, hand: false, prio: 'user-blocking', trans: -1, delay: -1 }, tgt: 'sub', fail: '', sub: '', hm: 'late' };

// With add-ons the script is first run without them.
await main(async ({ ops, addons }, B) => {
  if (!addons) return await play(B, ops, logEvent, false);
  const base = [];
  await play(B, ops, (e) => base.push(e), false);
  await play(B, ops, logEvent, true);
  return { base };
});

async function play(B, ops, log, addons) {
  const { Runtime } = B;
  let ncb = 0, n = 0;
  const cbs = [], commits = [];
  class Fail extends Error { constructor(id) { super(id); this.id = id; } }
  const request = (via, commit) => new Promise((resolve, reject) => {
    log({ e: 'reqc', via });
    const r = {
      run() {
        log({ e: 'runc', via });
        let err;
        try { commit(); } catch (e) { err = e; if (!e?.id) log({ e: 'crash', msg: String(e) }); }
        log({ e: 'runcend' });
        err ? reject(err) : resolve();
      },
      fail(id) { log({ e: 'failc', err: id }); reject(new Fail(id)); },
    };
    commits.push(r);
  });
  const host = {
    getIdentifier: () => 'h',
    getTaskPriority: () => 'user-visible',
    renderPortal() { throw new Error('unused'); }, renderTemplate() { throw new Error('unused'); },
    requestCallback(cb, o) {
      const id = ++ncb;
      log({ e: 'req', cb: id, prio: o?.priority ?? '', delay: o?.delay ?? -1 });
      return new Promise((resolve) => cbs.push({ id, run() { resolve(cb()); } }));
    },
    requestCommit: (cb) => request('host', cb),
  };
  const rt = new Runtime(host);
  if (addons) {
    log({ e: 'addons' });
    let group = null;
    const logger = {
      log(s) { group?.push(s.replaceAll('%c', '')); },
      groupCollapsed(s) { this.log(''); group = [s.replaceAll('%c', '')]; },
      groupEnd() {
        const [, id, status, owner, tx] = /^Update #(\d+) (\w+) at (\w+) in [\d.]+ms \(tx(\d+)\)$/.exec(group[0]) ?? [];
        const find = (re) => re.exec(group.join('\n'))?.[1] ?? '';
        log({ e: 'rep', by: 'logger', id: id ? +id : -1, ok: status === 'COMPLETED', owner: owner ?? '', tx: +(tx ?? -1), under: find(/^Under (.*)$/m), prio: find(/^Rendered with ([\w-]+) priority/m), mode: find(/^Committed with ([\w-]+) mode/m) });
        group = null;
      },
    };
    const marks = new Set();
    const timing = {
      mark(n) { marks.add(n); },
      measure(name, start, end) {
        if (!marks.has(start) || !marks.has(end)) throw new SyntaxError(`no mark ${start} or ${end}`);
        if (name.startsWith('Update ')) { const owner = name.slice(7); const id = /(\d+)$/.exec(end); log({ e: 'rep', by: 'profiler', id: id ? +id[1] : -1, ok: true, owner }); }
      },
    };
    rt.use(new B.UpdateLogger(logger));
    rt.use(new B.UpdateProfiler(timing));
  }
  const comps = {};
  // Components as the scheduler sees them.
  const scopes = {};
  const scope = (owner, parent) => ({ owner, parent, level: parent ? parent.level + 1 : 0, instances: [] });
  for (const t of ['root1', 'root2']) { const owner = {}; scopes[t] = () => scope(owner, null); }
  let s = scope({}, null);
  for (const t of ['comp1', 'comp2', 'sub']) { const c = s = scope(function C() {}, s); scopes[t] = () => c; comps[t] = { mask: 0, done: true }; }
  const schedule = (k) => {
    const u = ++n, comp = comps[k.tgt];
    const o = {};
    if (k.o.sync) o.flushSync = true;
    if (k.o.prio) o.priority = k.o.prio;
    if (k.o.trans >= 0) o.transition = k.o.trans;
    if (k.o.delay >= 0) o.delay = k.o.delay;
    if (k.o.hand) o.handler = (commit) => { const p = request('handler', commit); if (k.hm === 'now') { commits.pop().run(); if (!k.fail) return; } return p; };
    log({ e: 'sched', u, o: k.o, dflt: 'user-visible', level: LEVELS[k.tgt], tgt: k.tgt, kind: comp ? 'comp' : 'root' });
    const h = rt.schedule({
      u, scope: scopes[k.tgt](),
      get pendingLanes() { return comp ? (comp.done ? comp.mask : -1) : -1; },
      prepare(lanes) {
        log({ e: 'render', u });
        if (comp) { comp.mask &= ~lanes; comp.done = false; }
        if (k.sub === 'r') schedule(SUB);
        if (k.fail === 'r') { log({ e: 'rfail', err: 'e' + u }); throw new Fail('e' + u); }
        return () => {
          if (k.fail === 'c') { log({ e: 'cfail', err: 'e' + u }); throw new Fail('e' + u); }
          log({ e: 'commit', u });
          if (comp) comp.done = true;
          if (k.sub === 'c') schedule(SUB);
        };
      },
    }, o);
    if (comp) comp.mask |= h.lanes;
    log({ e: 'schedret', id: h.id });
    h.finished.then(() => log({ e: 'settle', u, err: '' }), (e) => log({ e: 'settle', u, err: e?.id ?? String(e) }));
  };
  const mws = {};
  const addMw = (i) => {
    let out = 0;
    mws[i] = rt.use({
      handle(update, next) {
        const u = update.transaction.u;
        log({ e: 'mwin', i, u });
        let commit;
        try { commit = next(update); } finally { log({ e: 'mwout', i, u }); }
        return () => { log({ e: 'mwc', i, u }); commit(); };
      },
    });
  };
  for (const op of ops) {
    switch (op.op) {
      case 'sched': schedule(op.k); break;
      case 'fire': if (cbs.length) { const c = cbs.splice(op.i % cbs.length, 1)[0]; log({ e: 'fire', cb: c.id }); c.run(); } break;
      case 'commit': if (commits.length) commits.shift().run(); break;
      case 'failc': if (commits.length) commits.shift().fail('f' + n + '-' + ncb); break;
      case 'tick': await microtasks(); log({ e: 'tick' }); break;
      case 'mwadd': if (!mws[op.i]) { log({ e: 'mwadd', i: op.i }); addMw(op.i); } break;
      case 'mwdel': if (mws[op.i]) { log({ e: 'mwdel', i: op.i }); mws[op.i](); delete mws[op.i]; } break;
    }
  }
  // Let everything settle; callbacks from the last requested to the first.
  for (let k = 0; ; k++) {
    await microtasks(); log({ e: 'tick' });
    if (commits.length) commits.shift().run();
    else if (cbs.length) { const c = cbs.pop(); log({ e: 'fire', cb: c.id }); c.run(); }
    else break;
    if (k > 500) { log({ e: 'crash', msg: 'does not settle' }); break; }
  }
  log({ e: 'end' });
}
