// Module graphs for the code under test: one instrumented, one plain. Repo and
// harness modules are evaluated afresh for every path; packages once.
import fs from "node:fs";
import path from "node:path";
import vm from "node:vm";
import { createRequire } from "node:module";
import { instrument, toCommonJs, toEsModule } from "./instrument.mjs";
import * as RT from "./rt.mjs";

export const REPO = process.env.VERIF_REPO ?? "/repo";
const LIB = path.join(REPO, "lib/digitraffic-common");
const NM = path.join(LIB, "node_modules");
const libRequire = createRequire(path.join(LIB, "package.json"));
const NODE_OK = new Set(["util", "path", "url", "querystring", "events", "assert", "stream", "buffer", "string_decoder", "crypto", "os", "async_hooks"]);

export const coverage = new Map(); // "file:function" -> calls, of repo functions run symbolically
RT.nativeFns; // (kept for models of native packages)

export class Loader {
  constructor(symbolic) {
    this.symbolic = symbolic;
    this.factories = new Map();
    this.pkgs = new Map(); // persistent
    this.encoded = new Set();
  }
  // a fresh set of repo modules
  fresh(env, stubs, globals) {
    this.env = env;
    this.stubs = stubs;
    this.mods = new Map();
    this.globals = globals;
    this.pending = [];
  }
  factory(file, names) {
    const k = file;
    let f = this.factories.get(k);
    if (f) return f;
    const src = fs.readFileSync(file, "utf8");
    let js;
    if (file.endsWith(".json")) js = "module.exports = " + src;
    else {
      js = toCommonJs(src, file, this.symbolic);
      if (this.symbolic) js = instrument(js, file, file.startsWith(REPO) && !file.includes("/node_modules/") ? path.relative(REPO, file) : undefined);
    }
    const code = `(function(exports, require, module, __filename, __dirname, ${names.join(", ")}) {${js}\n})`;
    try { f = vm.runInThisContext(code, { filename: (this.symbolic ? "sym:" : "") + file }); } catch (e) { e.message += " in " + file; if (process.env.VERIF_DEBUG) fs.writeFileSync("/tmp/bad.js", code); throw e; }
    this.factories.set(k, f);
    return f;
  }
  load(file, persistent) {
    const cache = persistent ? this.pkgs : this.mods;
    let m = cache.get(file);
    if (m) return m.exports;
    m = { exports: {} };
    cache.set(file, m);
    const g = this.globals;
    const names = Object.keys(g);
    const req = (spec) => this.require(spec, file, persistent);
    const f = this.factory(file, names);
    try { f.call(m.exports, m.exports, req, m, file, path.dirname(file), ...names.map((n) => g[n])); } catch (e) { cache.delete(file); throw e; }
    if (m.$ready) { m.$ready.catch(() => {}); this.pending.push(m.$ready); }
    if (this.symbolic && file.endsWith("/date-fns/parseISO.cjs")) this.summarizeParseISO(m);
    return m.exports;
  }
  // reading back the text of a date: the same moment, without taking the text apart
  summarizeParseISO(m) {
    const real = m.exports.parseISO, loader = this;
    const f = function (s, o) { return RT.isWholeIso(s) && !o ? new loader.globals.Date(s) : real(s, o); };
    RT.markPlain(f);
    m.exports = { parseISO: f, default: f };
  }
  // runs the text of a script that the code under test has generated
  script(text, from, req) {
    const g = this.globals, names = Object.keys(g), key = "script:" + from + ":" + text;
    let f = this.factories.get(key);
    if (!f) {
      const js = this.symbolic ? instrument(toCommonJs(text, "script.js", true), "script.js", from) : text;
      f = vm.runInThisContext(`(function(exports, require, module, __filename, __dirname, ${names.join(", ")}) {${js}\n})`, { filename: (this.symbolic ? "sym:" : "") + "script.js" });
      this.factories.set(key, f);
    }
    const m = { exports: {} };
    f.call(m.exports, m.exports, req, m, "script.js", "/", ...names.map((n) => g[n]));
    return m.exports;
  }
  // the text a bundler would publish of a module (its exports come last), and
  // how to run such a text in the place of the module
  published(file) {
    const abs = this.resolveFile(path.join(REPO, file)), names = [];
    const text = toCommonJs(fs.readFileSync(abs, "utf8"), abs)
      .replace(/^exports\.(\w+(?: = exports\.\w+)*) = (?:void 0|\w+);$/gm, (all) => { if (!/void 0/.test(all)) names.push(all); return ""; })
      .replace(/^Object\.defineProperty\(exports, "__esModule".*$/m, "");
    return { text: text + "\n" + names.join("\n") + "\n", run: (t) => this.script(t, file, (spec) => this.require(spec, abs)) };
  }
  // what a function of a module returns when the module runs as published,
  // where functions print as their own source
  generate(file, imports, name, args) {
    const key = "module:" + file;
    let text = this.factories.get(key);
    if (!text) {
      text = toEsModule(fs.readFileSync(this.resolveFile(path.join(REPO, file)), "utf8"), file)
        .replace(/^import (?:\* as (\w+)|\{([^}]*)\}|(\w+)) from ["']([^"']+)["'];?$/gm, (_, all, some, def, spec) => `const ${all ?? (some !== undefined ? `{${some.replace(/ as /g, ": ")}}` : `{default: ${def}}`)} = $imports(${JSON.stringify(spec)});`)
        .replace(/^export (?=async|function|const|let|class)/gm, "").replace(/^export \{[^}]*\};?$/gm, "");
      this.factories.set(key, text);
    }
    return vm.runInThisContext(`(function($imports, $args) {${text}\nreturn ${name}(...$args);\n})`, { filename: file })((spec) => { for (const [k, v] of Object.entries(imports)) if (spec === k || spec.endsWith("/" + k)) return v; return this.env.unknownPackage(spec); }, args);
  }
  resolveFile(p) {
    const cands = [p, p.replace(/\.js$/, ".ts"), p + ".ts", p + ".js", p + ".mjs", p + ".cjs", p.replace(/\.mjs$/, ".mts"), p.replace(/\.js$/, ".tsx"), path.join(p, "index.ts"), path.join(p, "index.js"), path.join(p, "index.mjs"), p + ".json"];
    for (const c of cands) if (fs.existsSync(c) && fs.statSync(c).isFile()) return c;
    throw new Error("cannot resolve " + p);
  }
  require(spec, from, persistent) {
    if (spec.startsWith("node:")) spec = spec.slice(5);
    if (spec.startsWith(".") || spec.startsWith("/")) {
      const abs = spec.startsWith("/") ? spec : path.resolve(path.dirname(from), spec);
      const st = this.stub(abs, from);
      if (st !== undefined) return st;
      return this.load(this.resolveFile(abs), persistent);
    }
    const st = this.stub(spec, from);
    if (st !== undefined) return st;
    if (spec.startsWith("repo:")) return this.require(path.join(REPO, spec.slice(5)), from);
    let m = /^@digitraffic\/common\/dist\/(.*)$/.exec(spec);
    if (m) {
      const abs = path.join(LIB, "src", m[1]);
      const s2 = this.stub(abs, from);
      if (s2 !== undefined) return s2;
      return this.load(this.resolveFile(/\.js$/.test(abs) ? abs : abs + ".js"));
    }
    if (spec === "date-fns") return this.lazy("date-fns", (n) => { const f = path.join(NM, "date-fns", n + ".cjs"); return fs.existsSync(f) ? this.load(f, true)[n] : undefined; });
    if ((m = /^date-fns\/(\w+)$/.exec(spec))) return this.load(path.join(NM, "date-fns", m[1] + ".cjs"), true);
    if (spec === "es-toolkit" || spec === "es-toolkit/compat") return this.esToolkit(spec);
    if (spec === "zod" || spec === "zod/v4") {
      const z = this.load(path.join(NM, "zod/v4/classic/external.cjs"), true);
      if (!this.zodInit) {
        this.zodInit = true;
        z.config({ jitless: true });
        const en = this.load(path.join(NM, "zod/v4/locales/en.cjs"), true);
        z.config((typeof en === "function" ? en : en.default)());
      }
      return { ...z, z, default: z, __esModule: true };
    }
    if (this.stubs.$cdk && /^(aws-cdk-lib|constructs)(\/|$)/.test(spec)) return this.stubs.$cdk(spec);
    if (NODE_OK.has(spec)) return libRequire("node:" + spec);
    if (spec === "etag" || spec === "geojson-validation" || spec === "velocityjs") {
      const x = libRequire(spec);
      if (typeof x === "function") RT.nativeFns.add(x);
      for (const k of Object.keys(x)) if (typeof x[k] === "function") RT.nativeFns.add(x[k]);
      return x;
    }
    return this.env.unknownPackage(spec);
  }
  stub(spec, from) {
    for (const [k0, v] of Object.entries(this.stubs)) {
      if (k0 === "$cdk") continue;
      const k = k0.startsWith("node:") ? k0.slice(5) : k0;
      if (k === spec || (spec.startsWith("/") && (spec.replace(/\.(js|ts)$/, "").endsWith(k.startsWith("/") ? k : "/" + k)))) return typeof v === "function" && v.$factory ? v() : v;
    }
    return undefined;
  }
  lazy(name, get) {
    const key = "lazy:" + name;
    let p = this.pkgs.get(key);
    if (!p) {
      p = new Proxy({}, {
        get: (t, k) => { if (k === "__esModule") return true; if (typeof k !== "string") return undefined; if (!(k in t)) t[k] = get(k); return t[k]; },
        has: () => true,
      });
      this.pkgs.set(key, p);
    }
    return p;
  }
  esToolkit(spec) {
    const dir = path.join(NM, "es-toolkit/dist", spec.endsWith("compat") ? "compat" : "");
    const idx = fs.readFileSync(path.join(dir, "index.mjs"), "utf8");
    const map = new Map();
    for (const m of idx.matchAll(/import \{ (\w+)(?: as \w+)? \} from "([^"]+)"/g)) map.set(m[1], path.resolve(dir, m[2]));
    return this.lazy(spec, (n) => (map.has(n) ? this.load(map.get(n), true)[n] : undefined));
  }
}
