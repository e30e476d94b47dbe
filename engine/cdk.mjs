// A recorder with the shape of aws-cdk-lib: every class of the installed
// package is replaced by one that only remembers what it was given, so that
// symbolic values flow through the code that describes the infrastructure.
import path from "node:path";
import { createRequire } from "node:module";
import * as RT from "./rt.mjs";
import { REPO } from "./loader.mjs";
const req = createRequire(path.join(REPO, "lib/digitraffic-common/package.json"));

const classes = new Map(); // native class -> recorder class
const modules = new Map();
const fqn = Symbol.for("jsii.rtti");
let cur;
const NAME = /(Arn|Arns|Id|Ids|Name|Names|Url|Uri|Ref|Endpoint|hostname|Hostname|Token|Version|ref|region|account|partition)$|^attr/;
const isClass = (f) => typeof f === "function" && f.prototype !== undefined && (/^class\b/.test(Function.prototype.toString.call(f)) || f[fqn] !== undefined);
const nameOf = (f) => f?.[fqn]?.fqn?.split(".").pop() ?? f?.name;
const plainFn = (f) => { RT.markPlain(f); return f; };

// how the classes of a chain treat a member: the harness first, then the package
function lookup(table, C, k) {
  for (let c = C; c && c !== Function.prototype; c = Object.getPrototypeOf(c)) {
    const t = cur?.[table]?.[c.$nativeName ?? c.name];
    if (t && Object.hasOwn(t, k)) return t[k];
  }
  return undefined;
}
function nativeMember(N, k) {
  for (let p = N?.prototype; p && p !== Object.prototype; p = Object.getPrototypeOf(p)) {
    const d = Object.getOwnPropertyDescriptor(p, k);
    if (d) return typeof d.value === "function" ? "method" : "property";
  }
  return undefined;
}
const label = (t) => t.$path ?? (t.node ? t.node.path : t.$type);
function member(t, k, proxy) {
  if (typeof k === "symbol" || k === "then" || k === "toJSON" || k === "asymmetricMatch" || k.startsWith("$") || k.startsWith("@@")) return undefined;
  const C = t.$class;
  const m = C && lookup("methods", C, k);
  if (m) return memo(t, k, plainFn((...args) => { record(proxy, k, args); return m(proxy, ...args); }));
  const p = C && lookup("props", C, k);
  if (p) return memo(t, k, p(proxy));
  if (t.$nativeValue && k in t.$nativeValue && ["string", "number", "boolean"].includes(typeof t.$nativeValue[k])) return t.$nativeValue[k];
  const kind = C?.$native && nativeMember(C.$native, k);
  if (kind === "method") return memo(t, k, plainFn((...args) => { record(proxy, k, args); return thing(`${label(t)}.${k}()`); }));
  if (C?.$native && C.$l1 && (kind !== "property" || !/^(attr|ref$|logicalId$|tags$|cfnOptions$)/.test(k))) return undefined;
  if (NAME.test(k)) return `\${Token[${label(t)}.${k}]}`;
  if (C?.$native && kind === undefined && !C.$isConstruct) return undefined;
  return memo(t, k, thing(`${label(t)}.${k}`, proxy, k));
}
const memo = (t, k, v) => { Object.defineProperty(t, k, { value: v, enumerable: false, configurable: true, writable: true }); return v; };
function record(self, method, args) { cur?.calls.push({ self, method, args }); self.$calls?.push([method, args]); }
const handler = {
  get(t, k, r) { return k in t ? Reflect.get(t, k, r) : member(t, k, r); },
};
// something of the package whose class is not known: callable, with any member
function thing(p, owner, key) {
  const f = function () {};
  f.$path = p; f.$calls = [];
  const self = new Proxy(f, {
    get(t, k, r) {
      if (k === "prototype" || k === "name" || k === "length" || k === "caller" || k === "arguments") return k === "name" ? `\${Token[${p}.name]}` : undefined;
      return Object.hasOwn(t, k) ? t[k] : typeof k === "symbol" || k === "constructor" ? t[k] : member(t, k, r);
    },
    apply(t, s, args) { record(owner ?? self, key ?? "()", args); return thing(p + "()"); },
  });
  RT.markPlain(self);
  return self;
}
class Node {
  constructor(self, scope, id) {
    this.id = id; this.scope = scope; this.children = []; this.dependencies = []; this.metadata = []; this.$self = self;
    this.context = {};
    scope?.node?.children?.push(self);
  }
  get path() { const p = this.scope?.node?.path; return p ? (typeof this.id === "string" ? `${p}/${this.id}` : `${p}/?`) : typeof this.id === "string" ? this.id : "?"; }
  addDependency(...d) { this.dependencies.push(...d); }
  tryGetContext(k) { return this.context[k]; }
  setContext(k, v) { this.context[k] = v; }
  tryFindChild(id) { return this.children.find((c) => c.node.id === id); }
  findChild(id) { return this.tryFindChild(id); }
  findAll() { return [this.$self, ...this.children.flatMap((c) => c.node.findAll())]; }
  get defaultChild() {
    if (!this.child) { const L1 = lookup("defaultChild", this.$self.$class, "create"); this.child = L1 ? L1(this.$self) : thing(this.path + ".defaultChild"); }
    return this.child;
  }
}
class Base {
  constructor(...args) {
    const C = new.target;
    const hide = (k, value) => Object.defineProperty(this, k, { value, enumerable: false, configurable: true, writable: true });
    hide("$class", C); hide("$type", C.$nativeName); hide("$args", args); hide("$calls", []);
    const proxy = new Proxy(this, handler);
    if (C.$isConstruct) {
      const [scope, id, props] = args;
      hide("node", new Node(proxy, scope, id));
      hide("$props", props);
      const st = C.$isStack ? proxy : (scope?.$stack ?? scope?.stack);
      hide("$stack", st);
      if (!C.$isStack && nativeMember(C.$native, "stack") === undefined) hide("stack", st);
      if (C.$l1 && props) Object.assign(this, props);
    } else hide("$props", args[0]);
    cur?.all.push(proxy);
    const init = lookup("init", C, "init");
    if (init) init(proxy, ...args);
    return proxy;
  }
}
export function fakeClass(N) {
  let C = classes.get(N);
  if (C) return C;
  const parent = Object.getPrototypeOf(N);
  const P = parent && parent !== Function.prototype && isClass(parent) ? fakeClass(parent) : Base;
  C = class extends P {};
  Object.defineProperty(C, "name", { value: nameOf(N), configurable: true });
  let isConstruct = false, isStack = false;
  for (let p = N; p && p !== Function.prototype; p = Object.getPrototypeOf(p)) { const q = nameOf(p); if (q === "Construct") isConstruct = true; if (q === "Stack" || q === "App" || q === "Stage") isStack = true; }
  const st = (k, v) => Object.defineProperty(C, k, { value: v, configurable: true, enumerable: false });
  st("$native", N); st("$nativeName", nameOf(N)); st("$isConstruct", isConstruct); st("$isStack", isStack && nameOf(N) !== "App"); st("$l1", /^Cfn[A-Z]/.test(nameOf(N)));
  classes.set(N, C);
  RT.markPlain(C);
  for (const k of Object.getOwnPropertyNames(N)) {
    if (["length", "name", "prototype", "caller", "arguments"].includes(k)) continue;
    let cached, have = false;
    Object.defineProperty(C, k, {
      configurable: true, enumerable: true,
      get() {
        const o = lookup("statics", C, k);
        if (o !== undefined && typeof o === "function") return plainFn((...args) => { cur?.calls.push({ self: C, method: k, args }); return o(...args); });
        if (o !== undefined) return o;
        if (have) return cached;
        have = true;
        const v = N[k];
        if (isClass(v)) cached = fakeClass(v);
        else if (typeof v === "function") cached = plainFn(function (...args) { const K = typeof this === "function" && this.$native ? this : C; const r = instance(K, { $static: k, $args: args }, undefined, args[0]); cur?.calls.push({ self: C, method: k, args }); cur?.all.push(r); return r; });
        else if (v !== null && typeof v === "object" && !Array.isArray(v)) cached = instance(C, { $static: k, $path: `${nameOf(N)}.${k}` }, v);
        else cached = v;
        return cached;
      },
      set(v) { have = true; cached = v; },
    });
  }
  return C;
}
function instance(C, o, nativeValue, scope) {
  const t = Object.create(C.prototype);
  for (const [k, value] of Object.entries({ $class: C, $type: C.$nativeName, $calls: [], $nativeValue: nativeValue, $path: `${C.$nativeName}.${o.$static}`, ...o })) Object.defineProperty(t, k, { value, enumerable: false, configurable: true, writable: true });
  if (C.$isConstruct && scope?.node) { Object.defineProperty(t, "node", { value: new Node(t, scope, o.$args?.[1]), enumerable: false }); Object.defineProperty(t, "$stack", { value: scope.$stack, enumerable: false }); }
  return new Proxy(t, handler);
}
function wrap(v) {
  if (isClass(v)) return fakeClass(v);
  if (typeof v === "function") return plainFn((...args) => { cur?.calls.push({ self: undefined, method: v.name, args }); return thing(v.name + "()"); });
  if (v !== null && typeof v === "object" && Object.values(v).some((x) => typeof x === "function" || (x && typeof x === "object"))) return namespace(v);
  return v;
}
function namespace(N) {
  if (modules.has(N)) return modules.get(N);
  const m = {};
  modules.set(N, m);
  Object.defineProperty(m, "__esModule", { value: true });
  for (const k of Object.keys(N)) {
    let v, have = false;
    Object.defineProperty(m, k, { enumerable: true, configurable: true, get() { if (!have) { have = true; v = wrap(N[k]); } return v; } });
  }
  return m;
}
// resolves a module of the package to its recorder
export const cdkModule = (spec) => namespace(req(spec.replace(/\.js$/, "")));
// start recording afresh; the harness may define statics, methods, properties
export function startCdk(defs = {}) {
  cur = { all: [], calls: [], statics: {}, methods: {}, props: {}, defaultChild: {}, init: {}, ...defs };
  const c = {
    get all() { return cur.all; },
    get calls() { return cur.calls; },
    module: cdkModule,
    // recorded objects of a class, by the name the package gives it
    of: (...names) => cur.all.filter((x) => { for (let k = x.$class; k && k !== Function.prototype; k = Object.getPrototypeOf(k)) if (names.includes(k.$nativeName)) return true; return false; }),
    called: (method, type) => cur.calls.filter((x) => x.method === method && (!type || x.self?.$type === type || x.self?.$nativeName === type)),
    make: (spec, name, ...args) => new (cdkModule(spec)[name])(...args),
    thing,
    defs: cur,
  };
  return c;
}
