// A component that compares its props, rendered with a sequence of them.
import { dom } from '../env.mjs';
import { log, main } from '../driver.mjs';
import { makeHost, settle } from '../host.mjs';
const VALUES = { u: undefined, n: NaN, z: 0, m: -0, o: {}, p: {}, t: Object.prototype.toString };
const name = (v) => Object.keys(VALUES).find((k) => Object.is(VALUES[k], v)) ?? '?';
await main(async ({ eq, steps }, B) => {
  const { html, createComponent, shallowEqual, sequentialEqual, DOMRoot, Runtime } = B;
  const host = makeHost(B), box = dom.window.document.createElement('div'), root = new DOMRoot(box, new Runtime(host));
  const strict = (x, y) => x === y;
  const list = (p) => p.list ?? Object.keys(p);
  const arePropsEqual = { shallow: shallowEqual, 'shallow=': (x, y) => shallowEqual(x, y, strict), seq: (x, y) => x === y || sequentialEqual(x.list, y.list), 'seq=': (x, y) => x === y || sequentialEqual(x.list, y.list, strict),
    size: (x, y) => list(x).length <= list(y).length, always: () => true }[eq];
  let n = 0, setState, seen, set = 0;
  const Child = createComponent(function Child(props) {
    n++; seen = props;
    const [s, d] = this.useState(0); setState = d;
    const xs = props.list ? props.list.map((v) => ['', name(v)]) : Object.keys(props).map((k) => [k, name(props[k])]);
    return html`<i>${s}</i><b>${JSON.stringify(xs)}</b>`;
  }, arePropsEqual ? { arePropsEqual } : {});
  const listed = eq.startsWith('seq');
  let props;
  for (const [j, { x, same, st }] of steps.entries()) {
    if (!same) props = listed ? { list: x.map(({ v }) => VALUES[v]) } : Object.assign(Object.create({}), Object.fromEntries(x.filter(({ k }) => k[0] !== '^').map(({ k, v }) => [k, VALUES[v]])));
    if (!same) for (const { k, v } of x) if (k[0] === '^') Object.getPrototypeOf(props)[k.slice(1)] = VALUES[v];
    n = 0;
    if (st && setState) { setState(++set, j % 3 ? {} : { priority: 'background' }); if (j % 2) await settle(host); }
    root.render(html`<p><${Child(props)}></p>`);
    await settle(host);
    const shown = JSON.parse(box.querySelector('b').textContent).map(([k, v]) => ({ k, v }));
    log({ e: 'step', x, same, st, n, shown, by: seen === props ? 'new' : '', got: Number(box.querySelector('i').textContent), set });
  }
  return { eq };
});
