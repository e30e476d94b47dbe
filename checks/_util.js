// shared by the harness files
export const LIB = "lib/digitraffic-common/src/";
export function quiet(S) {
  const log = [];
  const put = (l) => (m) => { log.push([l, m]); };
  S.stub("lib/digitraffic-common/src/aws/runtime/dt-logger-default", { logger: S.mock({ error: put("error"), warn: put("warn"), info: put("info"), debug: put("debug") }, "logger") });
  return log;
}
// stand-ins of what every service connects with
export function connections(S) {
  const used = [];
  S.stub("lib/digitraffic-common/src/aws/runtime/secrets/rds-holder", { RdsHolder: { create: () => S.mock({ setCredentials: async () => { await null; used.push("credentials"); } }, "rdsHolder") } });
  return used;
}
