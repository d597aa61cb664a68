// Operates on derivable state, through handles and drafts.
import '../env.mjs';
import { log, main } from '../driver.mjs';
const word = (x) => (x !== null && typeof x === 'object' ? '*' : String(x));
class Acc {
  get sum() { return word(this.a) + '|' + word(this.b); }
  get pick() { return word(this.a) === 'x' ? word(this.b) : word(this.c); }
  get pair() { return this.a; }
  set pair(x) { this.a = x; }
}
const build = (n) => {
  if (n.t === 'u') return undefined;
  if (n.t === 'p') return n.v === 'null' ? null : n.v;
  if (n.t === 'a') return n.h.map(build);
  const o = n.acc ? new Acc() : {};
  for (const [k, x] of [...n.f].sort((a, b) => (a[0] < b[0] ? -1 : 1))) o[k] = build(x);
  return o;
};
await main(async ({ ini, ops }, B) => {
  const { Derivable } = B;
  const root = Derivable.from(build(ini));
  const ids = new Map(), old = [];
  const idOf = (x) => { if (!ids.has(x)) ids.set(x, ids.size + 1); return ids.get(x); };
  const see = (x) => {
    const n = { t: 'p', v: '', f: [], h: [], id: -1, acc: false };
    if (x === undefined) n.t = 'u';
    else if (x === null || typeof x !== 'object') n.v = String(x);
    else if (Array.isArray(x)) { n.t = 'a'; n.id = idOf(x); n.h = Array.from(x, see); }
    else {
      n.t = 'o'; n.id = idOf(x); n.acc = x instanceof Acc;
      n.f = Object.keys(x).map((k) => [k, see(x[k])]);
      if (n.acc && (x.sum !== word(x.a) + '|' + word(x.b) || x.pair !== x.a)) n.t = 'broken';
    }
    return n;
  };
  const at = (p) => p.reduce((d, k, j) => d.get(/^\d$/.test(k) && j % 2 ? Number(k) : k), root);
  const inDraft = (p, fn) => root.scope((draft) => fn(p.reduce((d, k) => d[k], draft)));
  let subs = 0, busy = false;
  const events = [];
  const kept = [], below = (p, q) => q.length > p.length && p.every((k, i) => k === q[i]);
  for (const o of ops) {
    const last = o.p.at(-1), front = o.p.slice(0, -1);
    switch (o.op) {
      case 'read': {
        const x = at(o.p).value;
        old.push(x);
        log({ e: 'read', p: o.p, x: see(x) });
        break;
      }
      case 'keys': {
        const has = [];
        const keys = inDraft(o.p, (d) => {
          if (d === null || typeof d !== 'object') return null;
          if (!Array.isArray(d)) for (const k of ['a', 'b', 'c', 'sum']) has.push([k, k in d]);
          return Object.keys(d);
        });
        if (keys) log({ e: 'keys', p: o.p, keys, has });
        break;
      }
      case 'keep': kept.push({ d: at(o.p), p: o.p, gone: false }); log({ e: 'keep', p: o.p }); break;
      // Assigns through the handle of something that was replaced.
      case 'stale': {
        const j = kept.findIndex((h, i) => h.gone && !h.lost && i >= o.k % kept.length);
        if (j >= 0) { log({ e: 'stale', j: j + 1 }); kept[j].d.value = build(o.x); events.length = 0; log({ e: 'end' }); }
        break;
      }
      case 'sub': {
        const id = ++subs, d = at(o.p);
        (o.how === 'shallow' ? d.asShallow() : d).subscribe((event) => {
          // An array method assigns many items: nobody looks in between.
          const x = busy ? { t: 'none' } : o.k === 1 ? see(d.value) : o.k === 2 ? see(root.value) : { t: 'none' };
          log({ e: 'told', id, x, root: o.k === 2 });
          const what = () => ({ e: 'event', id, type: event.type, path: event.path.map(String), old: see(event.oldValue), now: see(event.newValue) });
          // What an event tells does not change.
          if (!busy) { log(what()); events.push(what); }
        });
        log({ e: 'sub', id, p: o.p, how: o.how });
        break;
      }
      default: {
        log({ e: 'begin', o });
        const real = last === 'pair' ? [...front, 'a'] : o.p;
        for (const h of kept) if (below(real, h.p)) { if (['set', 'del', 'copy'].includes(o.op)) h.gone = true; else h.lost = true; }
        if (o.how === 'get') {
          if (o.op === 'del') at(o.p).delete(); else at(o.p).value = build(o.x);
        } else if (o.op === 'copy') root.scope((draft) => {
          const x = o.q.reduce((d, k) => d[k], draft);
          front.reduce((d, k) => d[k], draft)[last] = o.k === 1 ? { a: x, b: 'w' } : x;
        });
        else if (o.op === 'set') {
          if (o.p.length === 0) root.value = build(o.x); else inDraft(front, (d) => { d[last] = build(o.x); });
        } else if (o.op === 'del') inDraft(front, (d) => { delete d[last]; });
        else inDraft(o.p, (d) => {
          busy = true;
          switch (o.op) {
            case 'cut': d.splice(o.k, 1); break;
            case 'insert': d.splice(o.k, 0, build(o.x)); break;
            case 'push': case 'unshift': d[o.op](build(o.x)); break;
            default: d[o.op]();
          }
        });
        busy = false;
        for (const what of events.splice(0)) log(what());
        log({ e: 'end' });
      }
    }
    if (old.length) log({ e: 'old', xs: [...new Set([1, old.length - 1, old.length])].filter((k) => k > 0).map((k) => [k, see(old[k - 1])]) });
  }
  const x = root.value;
  log({ e: 'read', p: [], x: see(x) });
  return { ini };
});
