#!/usr/bin/env python3
# plant.py FILE.py: writes planted bugs from a file of bug(...) calls: edits of /repo's HEAD, as patch.diff, with a demonstration.
import sys, os, json, subprocess, shutil
ENV = r'''
import { createRequire } from 'node:module';
import path from 'node:path';
const { JSDOM } = createRequire('/opt/dom/node_modules/')('jsdom');
export const dom = new JSDOM('<!doctype html><html><body></body></html>', { pretendToBeVisual: true });
globalThis.window = dom.window;
for (const k of ['document', 'Element', 'Node', 'DocumentFragment', 'HTMLElement', 'Event', 'Text', 'Comment', 'XMLSerializer', 'requestAnimationFrame', 'cancelAnimationFrame']) globalThis[k] = dom.window[k];
if (!Element.prototype.setHTMLUnsafe) Element.prototype.setHTMLUnsafe = function (h) { this.innerHTML = h; };
const lib = (m) => import(path.join(process.cwd(), 'lib', m + '.js'));
export const B = Object.assign({}, await lib('index'), await lib('addons/hooks'), await lib('addons/signal'), await lib('addons/router'), await lib('addons/update-logger'), await lib('addons/update-profiler'));
// Host callbacks and commits run when asked to.
export const host = new class extends B.DOMAdapter {
  cbs = []; commits = []; prio = 'background';
  getTaskPriority() { return this.prio; }
  requestCallback(cb, o) { return new Promise((r) => this.cbs.push({ o, run: () => r(cb()) })); }
  requestCommit(cb) { return new Promise((r, j) => this.commits.push(() => { try { cb(); r(); } catch (e) { j(e); } })); }
}();
export const tick = () => new Promise((r) => setImmediate(r));
export async function settle() { for (;;) { await tick(); if (host.commits.length) host.commits.shift()(); else if (host.cbs.length) host.cbs.shift().run(); else return; } }
export const runtime = new B.Runtime(host);
export const box = document.createElement('div');
document.body.append(box);
export const root = new B.DOMRoot(box, runtime);
export async function show(v, o) { const h = root.render(v, o); h.finished.catch(() => {}); await settle(); }
export const text = () => box.textContent;
export function check(actual, expected, what) {
  const [a, e] = [JSON.stringify(actual), JSON.stringify(expected)];
  if (a !== e) { console.error(`${what}: got ${a}, expected ${e}`); process.exit(1); }
}
export const done = () => process.exit(0);
'''
def bug(id, prop, edits, demo, needs, breaks):
    d = f'/verif/seeded/{id}'; os.makedirs(d, exist_ok=True)
    w = '/tmp/plant'; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    subprocess.check_call(f'git -C /repo archive HEAD src | tar x -C {w} && cd {w} && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x', shell=True)
    for f, old, new in edits:
        p = f'{w}/{f}'; s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    open(f'{d}/patch.diff', 'w').write(subprocess.check_output(['git', '-C', w, 'diff'], text=True))
    # Only lines of the original repository count.
    for l in subprocess.check_output(['git', '-C', w, 'diff', '-U0'], text=True).splitlines():
        if l.startswith('--- a/'): base = subprocess.check_output(['git', '-C', '/repo', 'show', '799b64d:' + l[6:]], text=True).splitlines()
        elif l.startswith('-') and l[1:] not in base: print('NOT ORIGINAL', id, l)
    shutil.rmtree(w)
    open(f'{d}/env.mjs', 'w').write(ENV.lstrip())
    open(f'{d}/demo.mjs', 'w').write("import { B, box, check, dom, done, host, root, runtime, settle, show, text, tick } from './env.mjs';\n" + demo.strip() + '\ndone();\n')
    open(f'{d}/demo.sh', 'w').write('#!/bin/bash\nexec /opt/node/node_modules/.bin/node --no-warnings "$(cd "$(dirname "$0")" && pwd)/demo.mjs"\n')
    os.chmod(f'{d}/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
only = sys.argv[2:]
_b = bug
def bug(id, *a, **k):
    if not only or id in only: _b(id, *a, **k); print(id)
exec(open(sys.argv[1]).read())
