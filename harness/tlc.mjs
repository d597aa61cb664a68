// Running TLC and reading its verdict.
import { spawn } from 'node:child_process';
import fs from 'node:fs';
import path from 'node:path';
const JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar';
const SPEC = path.join(import.meta.dirname, '..', 'spec');
export async function tlc({ spec, cfg, args = [], env = {}, workers = 4, dir, timeout = 600, heap = '4g', onLine }) {
  const meta = fs.mkdtempSync(path.join(dir, 'tlc-'));
  const cfgFile = path.join(meta, 'model.cfg');
  fs.writeFileSync(cfgFile, cfg);
  const argv = ['-XX:+UseParallelGC', '-Xss64m', `-Xmx${heap}`, '-cp', JAR, 'tlc2.TLC', '-workers', String(workers), '-nowarning', '-noGenerateSpecTE',
    '-metadir', meta, '-config', cfgFile, ...args, path.join(SPEC, spec + '.tla')];
  const t0 = Date.now();
  const child = spawn('java', argv, { env: { ...process.env, ...env }, cwd: SPEC, stdio: ['ignore', 'pipe', 'pipe'] });
  let out = '', rest = '';
  const feed = (d) => {
    rest += d;
    let i;
    while ((i = rest.indexOf('\n')) >= 0) {
      const line = rest.slice(0, i); rest = rest.slice(i + 1);
      if (!(onLine && onLine(line))) out += line + '\n';
    }
  };
  child.stdout.setEncoding('utf8'); child.stdout.on('data', feed);
  child.stderr.setEncoding('utf8'); child.stderr.on('data', (d) => { out += d; });
  const timer = setTimeout(() => child.kill('SIGKILL'), timeout * 1000);
  const code = await new Promise((r) => child.on('close', (c, s) => r(s ?? c)));
  clearTimeout(timer);
  if (rest) out += rest;
  fs.rmSync(meta, { recursive: true, force: true });
  const m = out.match(/(\d+) states generated, (\d+) distinct states found/g)?.at(-1)?.match(/(\d+) states generated, (\d+) distinct/);
  const sim = out.match(/(\d+) states checked/g)?.at(-1)?.match(/(\d+)/);
  return { code, out, generated: m ? +m[1] : sim ? +sim[1] : 0, distinct: m ? +m[2] : 0, wall: (Date.now() - t0) / 1000,
    ok: /Model checking completed. No error has been found|No error has been found/.test(out) || (code === 0 && !/Error:/.test(out)),
    violated: out.match(/Invariant (\w+) is violated/)?.[1] ?? null };
}
