// One binding of an element, given a sequence of values.
import { dom } from '../env.mjs';
import { log, main } from '../driver.mjs';
import { makeHost, settle } from '../host.mjs';
const OBJ = { toString: () => 'x' };
const value = (js) => {
  if (js === 'null') return null;
  if (js === 'undefined') return undefined;
  if (js === 'true') return true;
  if (js === 'false') return false;
  if (js === 'O') return OBJ;
  if (js.startsWith('s:')) return js.slice(2);
  if (js.startsWith('n:')) return Number(js.slice(2));
  if (js.startsWith('o:')) return { toString: () => js.slice(2) };
  if (js.startsWith('m:')) return JSON.parse(js.slice(2));
};
const name = (v) => v === OBJ ? 'O' : v === 'U!' ? 'U' : typeof v === 'string' ? 's:' + v : typeof v === 'number' ? 'n:' + (Object.is(v, -0) ? '-0' : v) : String(v);
await main(async ({ kind, steps, alt = 0 }, B) => {
  const { html, DOMRoot, Runtime } = B;
  const doc = dom.window.document, host = makeHost(B), box = doc.createElement('div'), root = new DOMRoot(box, new Runtime(host));
  let w = 0, v, mountedEl;
  // The property under test counts how often it is written.
  const watch = (el) => { mountedEl = el; let x = 'initial'; Object.defineProperty(el, 'theProp', { get: () => x, set(y) { w++; x = y; }, configurable: true }); };
  // The same binding written in several ways, and next to others.
  const tpls = {
    attr: [(v) => html`<p title=${v}>-</p>`, (v) => html`<p TITLE='${v}' lang="a" .other=${1}>-</p>`, (v) => html`<div><p class=${{ k: true }} title="${v}" style=${{ color: 'red' }}>-</p></div>`],
    data: [(v) => html`<p><svg viewBox="${v}"></svg></p>`, (v) => html`<p><svg id=i viewBox=${v} width="${1}"></svg></p>`],
    class: [(v) => html`<p class=${v}>-</p>`, (v) => html`<p Class=${v} title=${'t'}>-</p>`, (v) => html`<p><svg class="${v}"></svg></p>`, (v) => html`<p CLASS='${v}' style=${{ color: 'red' }}>-</p>`],
    style: [(v) => html`<p style='${v}'>-</p>`, (v) => html`<p STYLE=${v} class=${{ k: true }}>-</p>`, (v) => html`<p><svg style="${v}"></svg></p>`],
    prop: [(v) => html`<p ${watch} .theProp=${v}>-</p>`, (v) => html`<p ${watch} .other=${v} .theProp="${v}">-</p>`],
    live: [(v) => html`<p ${watch} $theProp=${v}>-</p>`, (v) => html`<p ${watch} $other=${v} $theProp='${v}'>-</p>`],
    text: [(v) => html`<p>${v}</p>`, (v) => html`<p><b hidden></b>${v}<!----></p>`, (v) => html`${''}<div><p title=${v}>${v}</p></div>`],
  }[kind], tpl = tpls[alt % tpls.length];
  const inner = (p) => (p && (kind === 'data' || kind === 'class' || kind === 'style') && p.querySelector('svg')) || p;
  for (const st of steps) {
    w = 0;
    const el = inner(box.querySelector('p'));
    if (st.op === 'set') root.render(tpl(v = value(st.js)));
    else if (st.op === 'drop') root.render(html``);
    else if (st.op === 'user' && el) {
      if (kind === 'class') el.classList.add('mine');
      else if (kind === 'style') el.style.setProperty('left', '9px');
      else { el.theProp = 'U!'; }
      w = 0;
    }
    await settle(host);
    const p = box.querySelector('p'), target = inner(p);
    const o = { there: !!p };
    if (p) {
      const attr = kind === 'data' ? 'viewBox' : 'title';
      o.a = target.hasAttribute(attr) ? '=' + target.getAttribute(attr) : '-';
      o.c = kind === 'class' ? [...target.classList] : [];
      o.s = kind === 'style' ? [...target.style].map((n) => ({ p: n, v: target.style.getPropertyValue(n) })) : [];
      o.p = name(p.theProp); o.w = w; o.t = p.textContent;
    }
    log({ e: 'st', st, o });
  }
  return { kind };
});
