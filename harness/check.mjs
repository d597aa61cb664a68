// Usage: node check.mjs <property>. Decides one property; see MANIFEST.json.
import fs from 'node:fs';
import path from 'node:path';
import { ROOT, Run, SEED, THOROUGH, Violation } from './lib.mjs';
const prop = process.argv[2];
const t0 = Date.now();
const { SUITES } = await import('./suites.mjs');
const suites = SUITES[prop];
if (!suites) { console.error(`unknown property ${prop}`); process.exit(2); }
const run = new Run(prop);
let code = 0, violations = 0;
try {
  await run.init();
  for (const suite of suites) await suite(run);
} catch (e) {
  if (e instanceof Violation) {
    code = 1; violations = 1;
    const replay = path.join(ROOT, 'build', 'replay', `${prop}-${Date.now()}-${process.pid}.json`);
    fs.writeFileSync(replay, JSON.stringify({ property: prop, what: e.message, seed: SEED, ...e.detail }, null, 1));
    console.log(`property ${prop} is violated: ${e.message}`);
    console.log(`VIOLATION property=${prop} replay=${replay}`);
  } else { code = 2; console.error(e.stack ?? e); }
}
run.done();
fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true });
fs.writeFileSync(path.join(ROOT, 'evidence', `${prop}.json`), JSON.stringify({
  property: prop, tier: THOROUGH ? 'thorough' : 'quick', seed: SEED, level: 'model_checking',
  coverage: run.cov, assumptions: ['the bounds of the models, as listed in DESIGN.md', 'jsdom, fake hosts and the harness behave as browsers do where the code can tell'],
  wall_s: (Date.now() - t0) / 1000, violations,
}, null, 1));
process.exit(code);
