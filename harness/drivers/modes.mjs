// Renders templates of the same strings in different modes.
import { dom } from '../env.mjs';
import { log, main } from '../driver.mjs';
import { makeHost, settle } from '../host.mjs';
const NS = { 'http://www.w3.org/1999/xhtml': 'html', 'http://www.w3.org/2000/svg': 'svg', 'http://www.w3.org/1998/Math/MathML': 'math' };
await main(async ({ ops, partial }, B) => {
  const { html, svg, math, text, createFragment, Partial, DOMRoot, Runtime } = B;
  const tags = partial ? { html: Partial.html, svg: Partial.svg, math: Partial.math, text } : { html, svg, math, text };
  const doc = dom.window.document, host = makeHost(B), rt = new Runtime(host);
  const boxes = [0, 1].map(() => doc.createElement('div')), roots = boxes.map((b) => new DOMRoot(b, rt));
  const strings = Object.assign(['<a>', '</a>'], { raw: ['<a>', '</a>'] });
  const ids = new Map();
  const id = (n) => { if (!ids.has(n)) ids.set(n, ids.size + 1); return ids.get(n); };
  for (const { r, its } of ops) {
    const { finished } = roots[r].render(createFragment(its.map(({ k, m, v }) => { const x = tags[m](strings, v); return k ? x.withKey(k) : x; })));
    let err; finished.catch((e) => { err = e; });
    await settle(host);
    if (err) throw err;
    // A text template makes up three nodes.
    const nodes = [...boxes[r].childNodes].filter((n) => n.nodeType !== 8 && (n.nodeType !== 3 || n.data === '<a>'));
    const all = (n) => (n.nodeType === 3 ? n.data + n.nextSibling?.data + n.nextSibling?.nextSibling?.data : n.textContent);
    log({ e: 'shown', r, its, dom: nodes.map((n) => ({ n: n.nodeType === 3 ? '#text' : n.localName, ns: n.nodeType === 3 ? '' : NS[n.namespaceURI], t: all(n), u: id(n) })) });
  }
});
