// The frame of a driver process: one trace per script, written as soon as it is complete.
import fs from 'node:fs';
const [, , bundle, input, output] = process.argv;
export let ev = [];
let lenient = false;
const str = (e) => String(e?.stack ?? e).slice(0, 600);
process.on('unhandledRejection', (e) => ev.push({ e: 'crash', msg: 'unhandled rejection ' + str(e) }));
process.on('uncaughtException', (e) => { if (!e?.expected) ev.push({ e: 'crash', msg: 'uncaught ' + str(e) }); });
export const log = (e) => { ev.push(e); };
export const macrotask = () => new Promise((r) => setImmediate(r));
// Runs until all microtasks have run.
export const microtasks = () => macrotask();
export let B;
export async function main(fn) {
  let fd;
  try {
    B = await import(bundle);
    fd = fs.openSync(output, 'a');
  } catch (e) {
    // The code under test cannot even be loaded: every script crashes.
    console.error(str(e)); process.exit(3);
  }
  const scripts = fs.readFileSync(input, 'utf8').split('\n').filter(Boolean).map((l) => JSON.parse(l));
  for (const script of scripts) {
    ev = [];
    let pre;
    try { pre = await fn(script, B); } catch (e) { ev.push({ e: 'crash', msg: str(e) }); }
    fs.writeSync(fd, JSON.stringify({ script, pre: pre ?? {}, ev }) + '\n');
  }
  process.exit(0);
}
