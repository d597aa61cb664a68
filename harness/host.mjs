// A DOM adapter whose callbacks and commits run when the driver says so.
export function makeHost(B) {
  return new class extends B.DOMAdapter {
    cbs = []; commits = []; ran = 0;
    prio = 'background';
    getTaskPriority() { return this.prio; }
    requestCallback(cb, o) { return new Promise((r) => { this.cbs.push({ o, run: () => { this.ran++; r(cb()); } }); }); }
    requestCommit(cb) { return new Promise((r, j) => { this.commits.push(() => { try { cb(); r(); } catch (e) { j(e); } }); }); }
    handler = (commit) => new Promise((r, j) => { this.commits.push(() => { try { commit(); r(); } catch (e) { j(e); } }); });
  }();
}
const macrotask = () => new Promise((r) => setImmediate(r));
// Runs everything requested, until nothing is left to run.
export async function settle(host, order = 0) {
  for (let k = 0; k < 1000; k++) {
    await macrotask();
    if (host.commits.length) { host.commits.shift()(); continue; }
    if (host.cbs.length) { (order % 2 ? host.cbs.pop() : host.cbs.shift()).run(); order = (order * 7 + 3) % 11; continue; }
    return;
  }
  throw new Error('does not settle');
}
// How an update is requested.
export const way = (host, w) => w === 'sync' ? { flushSync: true } : w === 'hand' ? { handler: host.handler } : w === '' ? {} : { priority: w };
