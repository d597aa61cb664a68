// Composes partials at one call site again and again.
import '../env.mjs';
import { log, main } from '../driver.mjs';
await main(async ({ seq, fresh, n, site: strings, ...rest }, B) => {
  const { Partial } = B;
  const ids = new Map(), sites = new Map();
  const mine = strings.slice();
  seq.forEach((c, j) => {
    let v = 0;
    const make = (o, path) => {
      if (o.s.length === 0) return ++v;
      if (fresh === 2 && o.s.length === 1) return Partial.literal(o.s[0]);
      const key = path + JSON.stringify(o);
      const s = fresh || !sites.has(key) ? o.s.slice() : sites.get(key);
      sites.set(key, s);
      return Partial.parse(s, ...o.c.map((x, k) => make(x, path + k)));
    };
    const mode = ['html', 'svg', 'math'][j % 3];
    const x = Partial[mode](mine, ...c.map((o, k) => make(o, `${k}/`)));
    if (!ids.has(x.type)) ids.set(x.type, ids.size);
    if (x.props.mode !== mode) throw Object.assign(new Error('mode'), { code: 99 });
    log({ e: 'made', j: j + 1, strs: [...x.type], vals: x.children.map((y) => y.props.value), ty: ids.get(x.type) });
  });
  return { seq, site: strings };
});
