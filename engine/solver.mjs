// One incremental SMT solver process, driven synchronously over two FIFOs.
import { spawn, spawnSync } from "node:child_process";
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import * as T from "./terms.mjs";

const CMDS = {
  z3: (ms) => ["z3-new", ["-in"], [`(set-option :timeout ${ms})`]],
  cvc5: (ms) => ["cvc5", ["--incremental", "--produce-models", "-q", `--tlimit-per=${ms}`], ["(set-logic ALL)"]],
};

export class SolverDied extends Error {}

export class Solver {
  constructor(kind = "z3", timeoutMs = 10000) {
    this.kind = kind;
    this.timeoutMs = timeoutMs;
    this.stats = { queries: 0, sat: 0, unsat: 0, unknown: 0, errors: 0, timeMs: 0 };
    this.start();
  }
  start() {
    this.done = new Set();
    this.stack = []; // asserted terms, one push level each
    this.dir = fs.mkdtempSync(path.join(os.tmpdir(), "verif-smt-"));
    const fin = path.join(this.dir, "in"), fout = path.join(this.dir, "out");
    spawnSync("mkfifo", [fin, fout]);
    const [cmd, args, init] = CMDS[this.kind](this.timeoutMs);
    this.proc = spawn("/bin/sh", ["-c", `exec ${cmd} ${args.join(" ")} <"${fin}" >"${fout}" 2>&1`], { stdio: "ignore" });
    this.proc.unref();
    this.w = fs.openSync(fin, "w");
    this.r = fs.openSync(fout, "r");
    this.buf = "";
    this.out = [];
    this.chunk = Buffer.alloc(1 << 16);
    this.send("(set-option :global-declarations true)");
    this.send("(set-option :produce-models true)");
    for (const l of init) this.send(l);
  }
  close() {
    try { fs.closeSync(this.w); } catch {}
    try { fs.closeSync(this.r); } catch {}
    try { this.proc.kill("SIGKILL"); } catch {}
    fs.rmSync(this.dir, { recursive: true, force: true });
  }
  send(line) {
    this.out.push(line);
    if (this.out.length > 500) this.flush();
  }
  flush() {
    if (!this.out.length) return;
    const data = Buffer.from(this.out.join("\n") + "\n");
    this.out.length = 0;
    let off = 0;
    try {
      while (off < data.length) off += fs.writeSync(this.w, data, off);
    } catch (e) {
      throw new SolverDied(String(e));
    }
  }
  readLine() {
    for (;;) {
      const i = this.buf.indexOf("\n");
      if (i >= 0) {
        const l = this.buf.slice(0, i);
        this.buf = this.buf.slice(i + 1);
        return l;
      }
      const n = fs.readSync(this.r, this.chunk);
      if (n === 0) throw new SolverDied("eof");
      this.buf += this.chunk.toString("utf8", 0, n);
    }
  }
  readSexp() {
    let s = "", depth = 0, started = false, inBar = false;
    for (;;) {
      const l = this.readLine();
      s += l + "\n";
      for (const ch of l) {
        if (ch === "|") inBar = !inBar;
        if (inBar) continue;
        if (ch === "(") { depth++; started = true; } else if (ch === ")") depth--;
      }
      if (started ? depth <= 0 : l.trim()) return s;
    }
  }
  name(t) { return T.emit(t, this.done, (l) => this.send(l)); }
  // make the assertion stack equal to `terms`
  sync(terms) {
    let k = 0;
    while (k < this.stack.length && k < terms.length && this.stack[k] === terms[k]) k++;
    if (this.stack.length > k) {
      this.send(`(pop ${this.stack.length - k})`);
      this.stack.length = k;
    }
    for (; k < terms.length; k++) {
      const n = this.name(terms[k]);
      this.send("(push 1)");
      this.send(`(assert ${n})`);
      this.stack.push(terms[k]);
    }
  }
  // "sat" | "unsat" | "unknown"; with sat and vars given, this.model is set
  check(pc, extra, wantVars) {
    const t0 = performance.now();
    this.stats.queries++;
    this.sync(pc);
    const n = extra ? this.name(extra) : undefined;
    const names = wantVars ? wantVars.map((v) => this.name(v)) : [];
    if (n) {
      this.send("(push 1)");
      this.send(`(assert ${n})`);
    }
    this.send("(check-sat)");
    this.flush();
    let res = this.readLine().trim();
    while (res === "") res = this.readLine().trim();
    if (res !== "sat" && res !== "unsat") {
      if (res !== "unknown" && !/timeout|interrupted/.test(res)) {
        this.stats.errors++;
        this.lastError = res;
        // drain possible multi-line error, then resynchronise
        this.send(`(echo "sync")`);
        this.flush();
        while (this.readLine().trim().replace(/"/g, "") !== "sync");
      }
      res = "unknown";
    }
    this.stats[res]++;
    this.model = undefined;
    if (res === "sat" && wantVars && wantVars.length) {
      this.send(`(get-value (${names.join(" ")}))`);
      this.flush();
      this.model = parseModel(this.readSexp(), wantVars);
    } else if (res === "sat") this.model = new Map();
    if (n) this.send("(pop 1)");
    this.stats.timeMs += performance.now() - t0;
    return res;
  }
}

function tokenize(s) {
  const out = [];
  const re = /\(|\)|\|[^|]*\||"(?:[^"]|"")*"|[^\s()|]+/g;
  let m;
  while ((m = re.exec(s))) out.push(m[0]);
  return out;
}
function parse(tokens) {
  let i = 0;
  const p = () => {
    const t = tokens[i++];
    if (t !== "(") return t;
    const l = [];
    while (tokens[i] !== ")") l.push(p());
    i++;
    return l;
  };
  return p();
}
function parseModel(text, vars) {
  const list = parse(tokenize(text));
  const m = new Map();
  if (!Array.isArray(list) || list[0] === "error") return undefined;
  list.forEach((pair, i) => {
    m.set(vars[i].val, parseValue(pair[1]));
  });
  return m;
}
const f64 = new Float64Array(1), u64 = new BigUint64Array(f64.buffer);
const bits = (s) => (s.startsWith("#b") ? s.slice(2) : [...s.slice(2)].map((c) => parseInt(c, 16).toString(2).padStart(4, "0")).join(""));
export function parseValue(v) {
  if (v === "true") return true;
  if (v === "false") return false;
  if (typeof v === "string") return Number(v);
  if (v[0] === "-") return -parseValue(v[1]);
  if (v[0] === "fp") {
    u64[0] = BigInt("0b" + bits(v[1]) + bits(v[2]).padStart(11, "0").slice(-11) + bits(v[3]).padStart(52, "0").slice(-52));
    return f64[0];
  }
  if (v[0] === "_") {
    switch (v[1]) {
      case "NaN": return NaN;
      case "+oo": return Infinity;
      case "-oo": return -Infinity;
      case "+zero": return 0;
      case "-zero": return -0;
    }
  }
  throw new Error("cannot parse solver value " + JSON.stringify(v));
}
