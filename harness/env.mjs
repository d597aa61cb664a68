// jsdom globals for the code under test; VERIF_MOVEBEFORE=1 also offers Element.moveBefore.
import { createRequire } from 'node:module';
const { JSDOM } = createRequire('/opt/dom/node_modules/')('jsdom');
export const dom = new JSDOM('<!doctype html><html><body></body></html>', { pretendToBeVisual: true });
const w = dom.window;
globalThis.window = w;
for (const k of ['document', 'Element', 'Node', 'DocumentFragment', 'HTMLElement', 'Event', 'EventTarget', 'Text', 'Comment', 'XMLSerializer',
  'requestAnimationFrame', 'cancelAnimationFrame', 'DOMException']) globalThis[k] = w[k];
if (!w.Element.prototype.setHTMLUnsafe) w.Element.prototype.setHTMLUnsafe = function (h) { this.innerHTML = h; };
if (process.env.VERIF_MOVEBEFORE === '1' && !w.Element.prototype.moveBefore) {
  // Like insertBefore, but for nodes that are already connected to the same root only.
  w.Element.prototype.moveBefore = function (node, ref) {
    if (node.getRootNode() !== this.getRootNode()) throw new w.DOMException('moveBefore across roots', 'HierarchyRequestError');
    return this.insertBefore(node, ref);
  };
}
