// Which suites decide which property.
import * as sched from './suites/sched.mjs';
import * as bind from './suites/bind.mjs';
import * as hooks from './suites/hooks.mjs';
import * as tree from './suites/tree.mjs';
import * as template from './suites/template.mjs';
import * as signals from './suites/signals.mjs';
import * as router from './suites/router.mjs';
import * as nav from './suites/nav.mjs';
import * as adapter from './suites/adapter.mjs';
import * as aux from './suites/aux.mjs';
import * as compare from './suites/compare.mjs';
import * as sync from './suites/sync.mjs';
export const SUITES = {
  C06: [sched.design, sched.runs, hooks.runs],
  C07: [sched.design, sched.runs],
  C08: [sched.design, sched.runs],
  C15: [signals.design, signals.signals],
  C16: [signals.derivable, signals.exchanging],
  C17: [sync.runs],
  C18: [aux.runs],
  C19: [router.routes],
  C20: [nav.runs],
  C21: [sched.design, sched.addons],
  C22: [adapter.design, adapter.runs, sched.runs],
  C01: [tree.lists, tree.plain],
  C02: [tree.lists, tree.plain],
  C03: [tree.plain, tree.failing, tree.concurrent, hooks.runs],
  C04: [tree.plain],
  C09: [tree.concurrent],
  C10: [tree.plain, tree.concurrent],
  C11: [tree.providers, tree.provided],
  C12: [bind.values],
  C13: [bind.listeners, tree.plain],
  C14: [template.partials, template.templates, template.modes],
  C23: [tree.failing, tree.troubled, hooks.runs],
  C24: [adapter.runs, tree.plain, hooks.runs, sched.runs],
  C05: [hooks.design, hooks.runs],
  C26: [sched.runs, tree.throwing, tree.troubled],
  C25: [hooks.runs, compare.props],
};
