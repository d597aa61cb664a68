// Renders templates written in various ways, changing one hole at a time.
import { dom } from '../env.mjs';
import { log, main } from '../driver.mjs';
import { makeHost, settle } from '../host.mjs';
const NS = { 'http://www.w3.org/1999/xhtml': 'html', 'http://www.w3.org/2000/svg': 'svg', 'http://www.w3.org/1998/Math/MathML': 'math' };
await main(async ({ mode, h, comp, holes, z, bad, n: nbad = 0 }, B) => {
  const { html, svg, math, text, Partial, DOMRoot, Runtime } = B;
  const doc = dom.window.document, host = makeHost(B), rt = new Runtime(host);
  const boxes = [0, 1].map(() => doc.createElement('div')), roots = boxes.map((b) => new DOMRoot(b, rt));
  doc.body.replaceChildren(...boxes);
  // The strings of a call site are always the same array.
  const sites = new Map();
  const site = (path, items) => {
    if (!sites.has(path)) {
      const strings = [''];
      for (const x of items) if (x.t === 'l') strings[strings.length - 1] += x.s; else strings.push('');
      sites.set(path, Object.assign(strings, { raw: strings }));
    }
    return sites.get(path);
  };
  const refs = new WeakMap();
  let fired;
  const value = (k, ns, x) => k === 'attr' ? 'a' + x : k === 'class' ? 'c' + x : k === 'style' ? { '--s': 's' + x } : k === 'prop' || k === 'live' ? 'p' + x : k === 'text' ? 't' + x
    : k === 'event' ? () => { fired.push('e' + x); } : k === 'ref' ? (el) => { refs.set(el, 'r' + x); return () => refs.delete(el); }
    : ns === 'svg' ? svg`<g>${'k' + x}</g>` : ns === 'math' ? math`<mi>${'k' + x}</mi>` : html`<u>${'k' + x}</u>`;
  const make = (vs) => {
    let j = 0;
    const build = (items, path) => items.flatMap((x, i) => x.t === 'l' ? [] : [x.t === 'h' ? (j++, value(holes[j - 1].k, holes[j - 1].ns, `${j}.${vs[j - 1]}`))
      : x.t === 's' ? Partial.literal(x.s) : Partial.parse(site(path + '/' + i, x.h), ...build(x.h, path + '/' + i))]);
    const partial = comp.some((x) => x.t === 'p' || x.t === 's');
    const tag = partial ? Partial[mode] : { html, svg, math, textarea: text }[mode];
    return tag(site('', comp), ...build(comp, ''));
  };
  const observe = (box) => {
    const out = [];
    const walk = (p, d) => {
      let last = null;
      for (const n of p.childNodes) {
        if (n.nodeType === 3) {
          if (last) last.n += n.data; else if (n.data !== '') out.push(last = { d, t: '#', n: n.data, ns: '', at: [], pr: [], ev: [], rf: '' });
          continue;
        }
        last = null;
        if (n.nodeType === 8) { if (n.data !== '') out.push({ d, t: 'cm', n: n.data, ns: '', at: [], pr: [], ev: [], rf: '' }); continue; }
        const ev = [];
        for (const t of ['click', 'fooBar', 'foobar', 'x:y.z']) {
          fired = []; n.dispatchEvent(new dom.window.Event(t)); for (const f of fired) ev.push([t, f]);
        }
        out.push({ d, t: 'el', n: n.localName, ns: NS[n.namespaceURI] ?? n.namespaceURI,
          at: n.getAttributeNames().map((a) => [a, a === 'style' ? n.style.getPropertyValue('--s') : n.getAttribute(a)]),
          pr: ['fooBar', 'foobar', 'x_y', 'liveProp', 'liveprop', 'a1'].filter((k) => k in n).map((k) => [k, String(n[k])]), ev, rf: refs.get(n) ?? '' });
        walk(n, d + 1);
      }
    };
    walk(box, 0);
    return out;
  };
  const now = [[], []], on = [0, 0];
  const render = async (r, vs) => {
    now[r] = vs; on[r] = 1;
    const { finished } = roots[r].render(make(vs));
    let err; finished.catch((e) => { err = e; });
    await settle(host);
    if (err) throw err;
    shown();
  };
  const shown = () => log({ e: 'shown', vs1: now[0], vs2: now[1], n1: on[0], n2: on[1], dom1: observe(boxes[0]), dom2: observe(boxes[1]) });
  // Rendering a template with holes that cannot be bound fails and changes nothing.
  const wrong = async (r) => {
    const tag = { html, svg, math }[mode], { finished } = roots[r].render(tag(site('bad', bad), ...new Array(nbad).fill(null).map((_, i) => (z + i) % 3 ? null : `w${i}`)));
    let err = ''; finished.catch((e) => { err = /DOMAdapterError/.test(e?.constructor?.name) ? 'DOMAdapterError' : String(e); });
    await settle(host);
    log({ e: 'bad', err });
    shown();
  };
  if (bad && z % 2) await wrong(0);
  const n = holes.length, first = new Array(n).fill(1);
  await render(0, first);
  for (let k = 0, vs = first; k < Math.min(n, 8); k++) { const j = (z + 5 * k) % n; vs = vs.with(j, vs[j] + 1); await render(0, vs); if (k === 2) await render(1, new Array(n).fill(7)); }
  if (bad) { await wrong(0); if (z % 5 === 0) await wrong(1); }
  await render(1, new Array(n).fill(8));
  await render(0, new Array(n).fill(5));
  if (n) await render(1, new Array(n).fill(8).with(z % n, 9));
  return { h };
});
