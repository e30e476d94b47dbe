// The world around the code under test: clock, timers, process, console.
import * as T from "./terms.mjs";
import { Sym, SymNum, decide, R } from "./core.mjs";
import * as N from "./num.mjs";
import * as RT from "./rt.mjs";

const realImmediate = setImmediate;
export const idle = async () => { for (let i = 0; i < 3; i++) await new Promise((r) => realImmediate(r)); };

export class World {
  constructor(symbolic) {
    this.symbolic = symbolic;
    this.persistentNow = { now: () => this.time };
    this.reset();
    const self = this;
    const clock = { now: () => self.readClock() };
    this.Date = symbolic ? RT.makeDate(clock) : plainDate(clock);
    const add = (fn, d, args, every) => {
      if (d === undefined || d === null) d = 0;
      const id = self.timers.nextId++;
      const at = self.add(self.time, d);
      self.timers.list.push({ id, at, fn, args, every: every ? d : undefined });
      self.timers.log.push({ id, delay: d, at: self.time, cleared: false, fired: false });
      return { $timer: id, unref() { return this; }, ref() { return this; }, hasRef: () => true, [Symbol.toPrimitive]() { return id; } };
    };
    const clear = (h) => {
      const id = h && typeof h === "object" ? h.$timer : h;
      self.timers.list = self.timers.list.filter((t) => t.id !== id);
      const e = self.timers.log.find((x) => x.id === id);
      if (e) e.cleared = true;
    };
    this.globals = {
      Date: this.Date,
      setTimeout: (fn, d, ...a) => add(fn, d, a),
      setInterval: (fn, d, ...a) => add(fn, d, a, true),
      setImmediate: (fn, ...a) => add(fn, 0, a),
      clearTimeout: clear, clearInterval: clear, clearImmediate: clear,
      console: Object.fromEntries(["log", "info", "warn", "error", "debug", "trace", "dir", "table", "time", "timeEnd"].map((k) => [k, (...a) => { self.console.push([k, ...a]); }])),
      process: new Proxy({}, { get: (_, k) => (k in self.process ? self.process[k] : k in process && typeof process[k] !== "function" ? process[k] : undefined), set: (_, k, v) => { self.process[k] = v; return true; }, has: (_, k) => k in self.process }),
      fetch: (...a) => { if (!self.fetch) throw new Error("fetch is not available"); return self.fetch(...a); },
      Buffer: symbolic ? RT.SBuffer : Buffer,
      Map: symbolic ? RT.SMap : Map,
      Set: symbolic ? RT.SSet : Set,
      ...(symbolic ? { $S: { ...RT, fn: (n) => self.covered.set(n, (self.covered.get(n) ?? 0) + 1) } } : {}),
    };
    if (symbolic) for (const k of ["setTimeout", "setInterval", "clearTimeout", "clearInterval", "setImmediate", "clearImmediate", "fetch"]) RT.safe.add(this.globals[k]);
    this.covered = new Map();
  }
  reset() {
    this.time = 1700000000000;
    this.tick = undefined;
    this.timers = { nextId: 1, list: [], log: [] };
    this.console = [];
    this.fetch = undefined;
    const self = this;
    this.process = {
      env: {}, argv: [], version: process.version, versions: process.versions, platform: "linux", pid: 1,
      stdout: { write: (s) => { self.console.push(["stdout", s]); return true; } },
      stderr: { write: (s) => { self.console.push(["stderr", s]); return true; } },
      nextTick: (f, ...a) => queueMicrotask(() => f(...a)),
      cwd: () => "/",
      on: () => undefined,
      hrtime: Object.assign(() => [0, 0], { bigint: () => 0n }),
      uptime: () => 1,
      memoryUsage: () => ({ heapUsed: 1 }),
      emitWarning: () => undefined,
    };
    this.readHook = undefined;
  }
  add(a, b) { return a instanceof Sym || b instanceof Sym ? N.arith("+", N.toNum(a), N.toNum(b)) : a + b; }
  readClock() {
    const t = this.time;
    if (this.readHook) this.readHook();
    return this.time ?? t;
  }
  // fire the earliest pending timer; false when there is none
  fireNext() {
    const l = this.timers.list;
    if (!l.length) return false;
    let best = 0;
    for (let i = 1; i < l.length; i++) if (this.less(l[i].at, l[best].at)) best = i;
    const t = l[best];
    l.splice(best, 1);
    if (this.less(this.time, t.at)) this.time = t.at;
    const e = this.timers.log.find((x) => x.id === t.id);
    if (e) e.fired = true;
    if (t.every !== undefined) l.push({ ...t, at: this.add(t.at, t.every) });
    t.fn(...t.args);
    return true;
  }
  less(a, b) {
    if (a instanceof Sym || b instanceof Sym) return decide(N.cmp("<", N.toNum(a), N.toNum(b)));
    return a < b;
  }
  // run p to completion under virtual time
  async drive(p, limit = 20000) {
    let done = false, val, err, bad = false;
    p.then((v) => { done = true; val = v; }, (e) => { done = true; bad = true; err = e; });
    for (let i = 0; i < limit; i++) {
      await idle();
      if (done || (R && R.ended)) break;
      if (!this.fireNext()) return { stuck: true };
    }
    if (R && R.ended) throw R.ended;
    if (!done) return { stuck: true };
    if (bad) throw err;
    return { value: val };
  }
}
function plainDate(clock) {
  return class Date2 extends Date {
    static [Symbol.hasInstance](x) { return Function.prototype[Symbol.hasInstance].call(Date, x); }
    constructor(...a) { if (a.length === 0) super(clock.now()); else super(...a); }
    static now() { return clock.now(); }
  };
}
