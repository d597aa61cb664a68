// Navigation adapters over a fake browser, listeners, and components synchronized with them.
import { dom } from '../env.mjs';
import { log, main, microtasks } from '../driver.mjs';
import { makeHost, settle } from '../host.mjs';

const ORIGIN = 'http://localhost';
await main(async ({ ops, order = 0 }, B) => {
  const { html, createComponent, createFragment, DOMRoot, Runtime, BrowserAdapter, HashAdapter, InMemoryAdapter, SyncNavigation, NavigationContext } = B;
  // The browser: a location, an entry and a navigation object; navigating runs the handlers, then the promise is fulfilled.
  const location = { origin: ORIGIN, pathname: '/a', search: '?q', hash: '#h' };
  let entry = 's0', nev = 0, cur = 0;
  const fs = new Map();
  const running = new Map();
  const intercepted = (n, o = {}) => {
    log({ e: 'icpt', n, scroll: o.scroll ?? 'after' });
    const h = o.handler?.();
    if (h) { running.get(n).push(h); h.catch?.(() => {}); }
  };
  const fire = (x) => {
    const n = ++nev, before = cur;
    cur = n;
    running.set(n, []);
    const u = new URL(x.url, ORIGIN + location.pathname + location.search + location.hash);
    const hash = u.pathname === location.pathname && u.search === location.search && u.hash !== location.hash;
    // Downloads are never changes of the fragment.
    const dl = hash && x.same ? null : x.dl;
    const e = { type: 'navigate', canIntercept: x.can, destination: { url: u.href, sameDocument: x.same, getState: () => x.state }, downloadRequest: dl, hashChange: hash && x.same, navigationType: x.type, intercept: (o) => intercepted(n, o), scroll() {} };
    log({ e: 'evt', n, by: 'web', can: x.can, same: x.same, dl: dl !== null, hash: e.hashChange, path: u.pathname + u.search + u.hash, frag: u.hash.slice(1), state: x.state ?? 'undefined', type: x.type });
    for (const [f, s] of [...fs]) if (fs.has(f)) f.call(navigation, e);
    log({ e: 'evtend', n });
    cur = before;
    if (x.can && x.same && dl === null) { location.pathname = u.pathname; location.search = u.search; location.hash = u.hash; entry = x.state; }
    return n;
  };
  const navigation = {
    get currentEntry() { return { getState: () => entry }; },
    addEventListener(t, f) { if (t === 'navigate') fs.set(f, 1); },
    removeEventListener(t, f) { if (t === 'navigate') fs.delete(f); },
    navigate(url, o) {
      log({ e: 'navcall', url, state: o?.state ?? 'undefined', history: o?.history ?? '', extra: o?.info ?? '' });
      const n = fire({ url, can: true, same: true, dl: null, state: o?.state, type: o?.history === 'replace' ? 'replace' : 'push' });
      const finished = Promise.all(running.get(n)).then(() => {});
      finished.catch(() => {});
      return { committed: Promise.resolve(), finished, n };
    },
  };
  const ads = [null, new BrowserAdapter({ location, navigation }), new HashAdapter({ location, navigation }), new InMemoryAdapter('/m', 'm0')];
  // How many listen to each adapter.
  const count = [0, 0, 0, 0];
  ads.forEach((a, k) => {
    if (!a) return;
    const { listen } = a;
    a.listen = (f) => { count[k]++; const stop = listen.call(a, f); let on = true; return () => { if (on) count[k]--; on = false; return stop(); }; };
  });
  const lis = new Map(), gates = [];
  let nl = 0, busy = false;
  const where = (k) => { log({ e: 'where', ad: k, url: ads[k].getCurrentURL(), state: ads[k].getCurrentState() ?? 'undefined' }); };
  const sceneOf = (s) => ({ url: s.url, state: s.state ?? 'undefined', type: String(s.navigationType) });
  const listen = (op) => {
    const i = ++nl;
    log({ e: 'listen', i, ad: op.ad });
    const stop = ads[op.ad].listen((scene, interceptor) => {
      const n = cur;
      log({ e: 'deliver', i, n, go: op.does !== 'none', ...sceneOf(scene) });
      if (op.does === 'stop' && lis.has(op.j)) quit(op.j);
      if (op.does === 'none') return;
      interceptor.intercept({
        scroll: 'manual',
        handler: async () => {
          log({ e: 'hbeg', i, n });
          if (op.does === 'wait') { const g = Promise.withResolvers(); gates.push(g); await g.promise; }
          log({ e: 'hend', i, n, ok: op.does !== 'fail' });
          if (op.does === 'fail') throw new Error('handler');
        },
      });
    });
    lis.set(i, stop);
  };
  const quit = (i) => { log({ e: 'quit', i }); lis.get(i)(); lis.delete(i); };
  // Navigates through an adapter.
  const navigate = (op) => {
    const k = op.ad;
    if (k === 3 && busy) return;
    const o = op.bare ? undefined : { state: op.state, ...(op.history ? { history: op.history } : {}), info: 'x' };
    let n;
    log({ e: 'nav', ad: k, url: op.url, state: o?.state ?? 'undefined', history: o?.history ?? '', extra: o?.info ?? '' });
    if (k === 3) {
      busy = true; n = ++nev; cur = n;
      running.set(n, []);
      log({ e: 'evt', n, by: 'mem', can: true, same: true, dl: false, hash: false, path: op.url, frag: op.url, state: o?.state ?? 'undefined', type: op.history === 'push' || op.history === 'replace' ? o ? op.history : 'auto' : 'auto' });
    } else n = nev + 1;
    const p = ads[k].navigate(op.url, o);
    if (k === 3) { log({ e: 'evtend', n }); cur = 0; }
    p.then((x) => { if (k === 3) busy = false; log({ e: 'navdone', n, ad: k, ok: x === undefined }); where(k); }, () => { if (k === 3) busy = false; log({ e: 'navfail', n, ad: k }); where(k); });
  };
  // Components.
  const host = makeHost(B), rt = new Runtime(host), el = dom.window.document.createElement('div'), root = new DOMRoot(el, rt);
  let nu = 0;
  const Inner = createComponent(function Inner({ rec }) {
    const x = this.inject(NavigationContext);
    log({ e: 'inner', u: rec.u, ad: ads.indexOf(x.adapter), ...sceneOf(x.scene) });
    return html`<i>${x.scene.url}</i>`;
  });
  const Nav = createComponent(function Nav({ it }) {
    const rec = this.useMemo(() => ({ u: ++nu, how: it.how }), []);
    const ask = (scene, setScene) => {
      log({ e: 'ask', u: rec.u, n: cur, how: rec.how, ...sceneOf(scene) });
      const n = cur;
      switch (rec.how) {
        case 'own': return { scroll: 'manual', handler: async () => { log({ e: 'hbeg', i: -rec.u, n }); await setScene(scene, { priority: 'user-blocking' }).finished; log({ e: 'hend', i: -rec.u, n, ok: true }); } };
        case 'skip': return { handler: async () => {} };
        case 'scroll': return { scroll: 'manual' };
      }
    };
    const first = !rec.been;
    rec.been = true;
    const before = first ? [ads[it.ad].getCurrentURL(), ads[it.ad].getCurrentState() ?? 'undefined'] : ['', ''];
    const x = this.use(rec.how === '' ? SyncNavigation(ads[it.ad]) : SyncNavigation(ads[it.ad], ask));
    log({ e: 'r', u: rec.u, ad: it.ad, how: rec.how, at: before, is: ads.indexOf(x.adapter), ...sceneOf(x.scene) });
    this.useEffect(() => { log({ e: 'shown', u: rec.u, ad: it.ad, how: rec.how, ...sceneOf(x.scene) }); });
    this.useEffect(() => () => { log({ e: 'gone', u: rec.u }); }, []);
    return html`<p title=${x.scene.url}><${Inner({ rec })}></p>`;
  });
  const idle = () => { log({ e: 'idle', count: count.slice(1), web: fs.size, waits: gates.length, dom: Array.from(el.children, (x) => [x.title, x.textContent]) }); };
  const watch = (h) => h.finished.catch((x) => log({ e: 'crash', msg: String(x?.stack ?? x).slice(0, 500) }));
  const render = (list) => watch(root.render(createFragment(list.map((it) => Nav({ it }).withKey(it.k)))));
  for (const op of ops) {
    switch (op.op) {
      case 'listen': listen(op); break;
      case 'quit': { const l = [...lis.keys()]; if (l.length) quit(l[op.j % l.length]); break; }
      case 'event': fire({ url: op.url, can: op.can, same: op.same, dl: op.dl === 'no' ? null : op.dl, state: op.state === 'undefined' ? undefined : op.state, type: op.type }); break;
      case 'nav': navigate(op); break;
      case 'release': if (gates.length) gates.splice(op.j % gates.length, 1)[0].resolve(); break;
      case 'where': where(op.ad); break;
      case 'render': render(op.list); break;
      case 'fire': if (host.cbs.length) host.cbs.splice(op.j % host.cbs.length, 1)[0].run(); break;
      case 'commit': if (host.commits.length) host.commits.shift()(); break;
      case 'tick': await microtasks(); break;
      case 'settle': await settle(host, op.j + order); idle(); break;
    }
  }
  while (gates.length) { gates.shift().resolve(); await settle(host, order); }
  await settle(host, order); idle();
  for (const k of [1, 2, 3]) where(k);
  root.unmount(); for (const i of [...lis.keys()]) quit(i);
  await settle(host); idle();
});
