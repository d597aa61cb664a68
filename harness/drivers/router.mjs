// Routes paths through tables.
import '../env.mjs';
import { log, main } from '../driver.mjs';
await main(async ({ table, asks }, B) => {
  const { Router, route, choice, decoded, encoded, integer, keyword, regexp, select } = B;
  const show = (x) => x === undefined ? 'undefined' : typeof x === 'number' ? `n:${x}` : typeof x === 'string' ? `s:${x.replace('\u00e9', 'e-acute')}` : Array.isArray(x) ? `r:${Array.from(x, String)}` : `o:${x}`;
  let url, ok;
  const OWN = { a: null, b: false, 1: 0, '': '' };
  const pattern = (p) => {
    switch (p.t) {
      case 'str': return p.v;
      case 'key': return keyword(p.v);
      case 'int': return integer;
      case 'enc': return encoded;
      case 'dec': return decoded;
      case 're': return regexp(/^x(\d)?$/);
      case 'own': return (c, u) => { if (u !== url) ok = false; return OWN[c]; };
      case 'or': return choice(pattern(p.v), pattern(p.w));
      case 'low': return select(pattern(p.v), (x) => (typeof x === 'number' ? 0 : typeof x === 'string' ? '' : null));
      case 'sel': return select(pattern(p.v), (x) => (x === -7 ? undefined : `<${show(x)}>`));
    }
  };
  let got;
  const make = (r) => route(r.ps.map(pattern), r.res ? (captures, u) => {
    if (u !== url) ok = false;
    got = [r.id, captures.map(show)];
    return got;
  } : null, r.ch.length || r.id % 2 ? r.ch.map(make) : undefined);
  const router = new Router(table.map(make));
  for (const a of asks) {
    url = (a.lead ? '/' : '') + a.segs.join('/');
    // Without a leading slash an empty first segment would look like one.
    if (!a.lead && url[0] === '/') continue;
    got = []; ok = true;
    const x = router.match(url);
    if (x !== (got.length ? got : undefined)) ok = false;
    log({ e: 'm', segs: a.segs, got, ok });
  }
  return { table };
});
