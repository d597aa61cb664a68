// Generating stimuli with TLC, driving the real code with them, and having TLC judge the traces.
import { spawn } from 'node:child_process';
import fs from 'node:fs';
import path from 'node:path';
import { bundle } from './bundle.mjs';
import { tlc } from './tlc.mjs';

export const ROOT = path.join(import.meta.dirname, '..');
export const NODE = '/opt/node/node_modules/.bin/node';
export const SEED = Number(process.env.VERIF_SEED ?? 1) || 1;
export const THOROUGH = process.env.VERIF_TIER === 'thorough';
export const pick = (quick, thorough) => (THOROUGH ? thorough : quick);

export class Violation extends Error {
  constructor(what, detail) { super(what); this.detail = detail; }
}

export class Run {
  constructor(prop) {
    this.prop = prop;
    fs.mkdirSync(path.join(ROOT, 'build', 'replay'), { recursive: true });
    this.dir = fs.mkdtempSync(path.join(ROOT, 'build', `${prop}-`));
    this.cov = { states: 0, transitions: 0, traces_validated_against_impl: 0, samples: [], parts: [] };
    this.n = 0;
  }
  async init() {
    this.bundle = path.join(this.dir, 'barebind.mjs');
    await bundle(this.bundle);
    return this;
  }
  done() { fs.rmSync(this.dir, { recursive: true, force: true }); }
  file(name) { return path.join(this.dir, `${++this.n}-${name}`); }
  note(part) { this.cov.parts.push(part); console.log(`[${this.prop}] ${JSON.stringify(part)}`); }

  // Checks a design model; a violation there is an error of the specification, not of the code.
  async model({ name, spec, cfg, args = [], env = {}, timeout = 800 }) {
    const r = await tlc({ spec, cfg, args, env, workers: 8, dir: this.dir, timeout, heap: '8g' });
    if (r.code !== 0 || r.violated) throw new Error(`model ${name ?? spec} failed:\n${r.out.slice(-6000)}`);
    this.cov.states += r.distinct; this.cov.transitions += r.generated;
    this.note({ model: name ?? spec, states: r.distinct, transitions: r.generated, wall: r.wall });
    return r;
  }

  // Scripts printed by a model as "@@<json>", either by simulation (n per process) or exhaustively.
  async scripts({ name, spec, cfg, n, depth, procs = 8, env = {}, timeout = 600, seed = 1 }) {
    const jobs = [];
    const t0 = Date.now();
    const seen = new Set();
    const failed = [];
    for (let k = 0; k < (n ? procs : 1); k++) {
      jobs.push(tlc({
        spec, cfg, env: { GENERATE: '1', ...env }, dir: this.dir, timeout, heap: '3g', workers: n ? 1 : 8,
        args: n ? ['-simulate', `num=${Math.ceil(n / procs)}`, '-depth', String(depth), '-seed', String((seed + (SEED - 1) * 7919) * 1000 + k)] : [],
        onLine: (line) => {
          if (line.startsWith('"@@')) { seen.add(JSON.parse(line).slice(2)); return true; }
          if (line.startsWith('<<"@@')) { seen.add(JSON.parse('[' + line.slice(2, -2) + ']').slice(1).join('')); return true; }
          return false;
        },
      }).then((r) => { if (r.code !== 0) failed.push(r.out); this.cov.transitions += r.generated; this.cov.states += r.distinct || r.generated; return r; }));
    }
    const rs = await Promise.all(jobs);
    if (failed.length) throw new Error(`generator ${name ?? spec} failed:\n${failed[0].slice(-4000)}`);
    const out = [...seen].sort().map((s) => JSON.parse(s));
    if (out.length === 0) throw new Error(`generator ${name ?? spec} produced nothing`);
    this.note({ generator: name ?? spec, scripts: out.length, states: rs.reduce((a, r) => a + (r.distinct || r.generated), 0), wall: (Date.now() - t0) / 1000 });
    return out;
  }

  // Runs the scripts through a driver; a crash or hang of the code becomes an event of the trace.
  async drive({ driver, scripts, env = {}, stall = 60, shards = 4, node = NODE }) {
    const t0 = Date.now();
    const size = Math.ceil(scripts.length / shards);
    const parts = [];
    for (let k = 0; k * size < scripts.length; k++) parts.push(scripts.slice(k * size, (k + 1) * size));
    const results = await Promise.all(parts.map((p) => this.#driveShard({ driver, scripts: p, env, stall, node })));
    const traces = results.flat();
    this.note({ driver, traces: traces.length, events: traces.reduce((a, t) => a + t.ev.length, 0), wall: (Date.now() - t0) / 1000 });
    return traces;
  }
  async #driveShard({ driver, scripts, env, stall, node }) {
    const input = this.file('in.ndjson'), output = this.file('out.ndjson');
    fs.writeFileSync(input, scripts.map((s) => JSON.stringify(s)).join('\n') + '\n');
    fs.writeFileSync(output, '');
    const child = spawn(node, ['--no-warnings', '--max-old-space-size=3000', path.join(ROOT, 'harness', 'drivers', `${driver}.mjs`), this.bundle, input, output],
      { env: { ...process.env, ...env }, stdio: ['ignore', 'pipe', 'pipe'] });
    let log = '';
    const feed = (d) => { log = (log + d).slice(-20000); };
    child.stdout.on('data', feed); child.stderr.on('data', feed);
    let last = 0, since = Date.now(), hung = false;
    const timer = setInterval(() => {
      const size = fs.statSync(output).size;
      if (size !== last) { last = size; since = Date.now(); }
      else if (Date.now() - since > stall * 1000) { hung = true; child.kill('SIGKILL'); }
    }, 500);
    const code = await new Promise((r) => child.on('close', (c, s) => r(c ?? s)));
    clearInterval(timer);
    const traces = fs.readFileSync(output, 'utf8').split('\n').filter(Boolean).map((l) => JSON.parse(l));
    if (code !== 0) {
      if (code === 99) throw new Error(`driver ${driver} failed:\n${log}`);
      // The script being run when the process hung or died.
      const k = traces.length;
      if (k >= scripts.length) throw new Error(`driver ${driver} failed after its last script:\n${log}`);
      traces.push({ script: scripts[k], ev: [{ e: hung ? 'hang' : 'died', log: log.slice(-2000) }] });
    } else if (traces.length !== scripts.length) throw new Error(`driver ${driver}: ${traces.length} traces for ${scripts.length} scripts\n${log}`);
    fs.rmSync(input); fs.rmSync(output);
    return traces;
  }

  // Judges scripts that fail for a known reason: each is to be listed in known-findings.txt, or it is a violation.
  async known(id, how) {
    const line = fs.readFileSync(path.join(ROOT, 'known-findings.txt'), 'utf8').split('\n').find((l) => l.startsWith(`known: property=${this.prop} finding=${id} `));
    try { await how(); } catch (e) {
      if (!(e instanceof Violation) || !line) throw e;
      console.log(`KNOWN-FINDING: property=${this.prop} ${line.slice(line.indexOf('finding='))}`);
    }
  }

  // Drives and judges scripts block by block.
  async judge({ driver, scripts, env, spec, block = 6000, ...how }) {
    for (let k = 0; k < scripts.length; k += block) {
      const traces = await this.drive({ driver, scripts: scripts.slice(k, k + block), env });
      await this.validate({ spec, traces, ...how });
    }
  }

  // Has TLC judge the traces: invariant Conforms of <spec>, with PROP naming the property.
  async validate({ spec, traces, env = {}, consts = "", timeout = 800, chunk = 4000, init = "Init", next = "Next", prop = process.env.VERIF_PROP ?? this.prop }) {
    if (traces.length === 0) throw new Error('nothing to validate');
    for (const t of traces) {
      const e = t.ev.at(-1);
      if (e && (e.e === 'hang' || e.e === 'died')) throw new Violation(`the code ${e.e === 'hang' ? 'does not terminate' : 'ended the process'}`, { trace: t });
    }
    for (let k = 0; k < traces.length; k += chunk) {
      const part = traces.slice(k, k + chunk);
      const file = this.file('traces.ndjson');
      fs.writeFileSync(file, part.map((t) => JSON.stringify({ ...t.pre, ev: t.ev })).join('\n') + '\n');
      const cfg = `${consts}\nINIT ${init}\nNEXT ${next}\nINVARIANT Conforms\nALIAS Report\nCHECK_DEADLOCK FALSE\n`;
      const r = await tlc({ spec, cfg, env: { TRACES: file, PROP: prop, ...env }, workers: 8, dir: this.dir, timeout, heap: '8g' });
      this.cov.states += r.distinct; this.cov.transitions += r.generated;
      if (r.violated) {
        const at = r.out.split(/State \d+:/).at(-1);
        const tr = Number(at.match(/tr = (\d+)/)?.[1]), i = Number(at.match(/\bi = (\d+)/)?.[1]);
        if (!tr) throw new Error(`cannot read TLC's verdict:\n${r.out.slice(-4000)}`);
        const t = part[tr - 1];
        throw new Violation(`${(at.match(/bad = ([^]*?)(?=\n\s*\n|$)/)?.[1] ?? '').replace(/\s+/g, ' ').slice(0, 500)}`, { event: i, trace: t });
      }
      if (r.code !== 0) throw new Error(`TLC failed on traces (${spec}):\n${r.out.slice(-5000)}`);
      fs.rmSync(file);
      this.note({ spec, traces: part.length, states: r.distinct, wall: r.wall });
      this.cov.traces_validated_against_impl += part.length;
    }
    if (this.cov.samples.length < 3) this.cov.samples.push(JSON.stringify(traces[Math.floor(traces.length / 2)]).slice(0, 1500));
  }
}
