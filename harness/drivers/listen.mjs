// Listeners and element references of one hole, given a sequence of values.
import { dom } from '../env.mjs';
import { log, main } from '../driver.mjs';
import { makeHost, settle } from '../host.mjs';
await main(async ({ kind, steps }, B) => {
  const { html, createComponent, DOMRoot, Runtime } = B;
  const doc = dom.window.document, host = makeHost(B), box = doc.createElement('div'), root = new DOMRoot(box, new Runtime(host));
  doc.body.replaceChildren(box);
  let calls = [];
  const call = (x) => (e) => { const was = e.defaultPrevented; e.preventDefault(); calls.push({ x, ph: e.eventPhase, prevents: was ? 'any' : e.defaultPrevented ? 'yes' : 'no' }); };
  const L = { '': null, '!': 'click', '!o': {}, l1: call('l1'), l2: call('l2') };
  const acs = { s1: new dom.window.AbortController(), s2: new dom.window.AbortController() };
  for (const [x, o] of Object.entries({ as1: { signal: acs.s1.signal }, bs1: { signal: acs.s1.signal }, as2: { signal: acs.s2.signal }, a: {}, ac: { capture: true }, bc: { capture: true }, ap: { passive: true }, bp: { passive: true }, ao: { once: true }, bo: { once: true }, aco: { capture: true, once: true } })) L[x] = { handleEvent: call(x), ...o };
  const refs = {};
  const set = (x, cleanup) => (el) => { calls.push({ t: 'on', x, el }); return cleanup ? () => calls.push({ t: 'off', x, el: true }) : undefined; };
  Object.assign(L, { f1: set('f1', true), f2: set('f2', true), n1: set('n1', false) });
  const App = createComponent(function App({ v, n }) {
    L.R1 = refs.R1 = this.useRef(null); L.R2 = refs.R2 = this.useRef(null);
    if (v === undefined) return html``;
    const x = v.arr ? v.xs.map((x) => L[x]) : v.xs[0] === '' && n % 2 ? undefined : L[v.xs[0]];
    return kind === 'event' ? html`<p @click=${x}><b>k</b></p>` : html`<p ${x}>k</p>`;
  });
  const cur = (r) => r?.current == null ? 'null' : r.current === box.querySelector('p') ? 'el' : 'other';
  let n = 0, el;
  for (const st of steps) {
    calls = [];
    el = box.querySelector('p');
    let err = '';
    root.render(App({ v: st.op === 'set' ? st.v : undefined, n: n++ })).finished.catch((x) => { err = x?.constructor?.name ?? String(x); });
    await settle(host);
    if (kind === 'event') {
      if (st.abort) acs[st.abort].abort();
      const fires = [];
      const old = el; el = box.querySelector('p');
      calls = [];
      const fire = (p) => (p.querySelector('b') ?? p).dispatchEvent(new dom.window.Event('click', { bubbles: true, cancelable: true }));
      if (old && old !== el) fire(old);
      const gone = calls;
      for (let k = 0; k < st.fires && el; k++) { calls = []; fire(el); fires.push(calls); }
      log({ e: 'event', st, err, fires, gone });
    } else log({ e: 'ref', st, err, calls: calls.map((c) => ({ ...c, el: c.t === 'off' || c.el === box.querySelector('p') })), cur: { R1: cur(refs.R1), R2: cur(refs.R2) } });
  }
});
