// Set-up: checks that the tools are there and that the executor agrees with
// plain JavaScript on a small program.
import { Solver } from "./solver.mjs";
import * as T from "./terms.mjs";
for (const k of ["z3", "cvc5"]) {
  const s = new Solver(k, 5000);
  const x = T.intVar("x", 0, 10);
  const a = s.check([T.range(x)], T.lt(T.int(5), x), [x]);
  const m = s.model?.get("x");
  const b = s.check([T.range(x)], T.lt(T.int(10), x), [x]);
  s.close();
  if (a !== "sat" || !(m > 5) || b !== "unsat") { console.error("solver " + k + " does not work: " + a + " " + m + " " + b); process.exit(1); }
}
console.log("solvers ok");
process.exit(0);
