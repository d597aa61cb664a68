// Templates and partials: Template.tla, TemplateGen.tla, TemplateTrace.tla; Interp.tla.
import { pick } from '../lib.mjs';
const gen = (run, name, depth, partials, n, seed, wrong = 'FALSE') => run.scripts({
  name: `TemplateGen/${name}`, spec: 'TemplateGen', n, seed, depth: 3, procs: 4,
  cfg: `CONSTANTS\n  Depth = ${depth}\n  Partials = ${partials}\n  Wrong = ${wrong}\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n`,
});
export async function templates(run) {
  const scripts = (await Promise.all([
    gen(run, 'flat', 1, 'FALSE', pick(1200, 10000), 41),
    gen(run, 'deep', 3, 'FALSE', pick(600, 10000), 42),
    gen(run, 'partials', 2, 'TRUE', pick(1200, 20000), 43),
    gen(run, 'misplaced', 1, 'FALSE', pick(800, 10000), 44, 'TRUE'),
  ])).flat();
  await run.judge({ driver: 'template', scripts, spec: 'TemplateTrace' });
}
export async function partials(run) {
  const made = (name, mode, how) => run.scripts({ name: `Interp/${name}`, spec: 'Interp', cfg: `CONSTANTS\n  Mode = "${mode}"\nINIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\n`, ...how });
  const scripts = [...await made('pairs', 'all', {}), ...await made('longer', 'some', { n: pick(2000, 40000), depth: 3, procs: 4, seed: 47 })];
  await run.judge({ driver: 'interp', scripts, spec: 'Interp', consts: 'CONSTANTS\n  Mode = "judge"', block: 12000 });
}
export async function modes(run) {
  const scripts = await run.scripts({ name: 'Modes', spec: 'Modes', cfg: 'INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\n', n: pick(1000, 20000), depth: 7, procs: 4, seed: 53 });
  await run.judge({ driver: 'modes', scripts, spec: 'Modes' });
}
