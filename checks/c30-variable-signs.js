import { quiet } from "./_util.js";
import { database, sessions } from "./_sql.js";
const P = "road/variable-signs/src/";
export const property = {
  id: "C30",
  title: "Variable signs: stored as a whole, published word for word, drawn as asked",
  statement: "An accepted list of sign devices leaves exactly the listed ones active, with their data, and others deleted since the first list without them; an accepted list of sign contents adds each one with its rows; an accepted traffic message (with one publication) stores each of its complete situations word for word under its own number and start time, instead of an earlier one of the number; whatever is not accepted stores nothing and is not answered with 200. The published document of a version and kind consists of the stored texts of active devices, in order and word for word except for a missing namespace of their outer element, without messages of test devices in the test times, and carries the time of the newest one. The drawing of a sign is given exactly for 1-30 characters, with or without one pair of brackets around, which are a single symbol (ship, plane, ramp, arrow) or digits and letters A-F after at most one road prefix, in any case, and shows them one after another between the borders of the prefix; everything else is answered with 400.",
  quantifier: { over: ["inputs", "fault_sequences", "histories"], text: "any devices of 3, any contents with up to 2 rows, symbolic messages of up to 3 situations, any stored texts of 3 devices, symbolic sign texts, any statement failing" },
  why_tests_cant: "The tests need a database and use a few fixed documents; no statement fails and no text contains anything unusual.",
  anchors: {
    files: [P + "service/json-update-service.ts", P + "service/datex2-update-service.ts", P + "service/variable-signs.ts", P + "service/filtering-service.ts", P + "service/text-converter.ts", P + "service/textSymbol.ts", P + "db/datex2.ts", P + "db/metadata.ts", P + "db/data.ts"],
    mechanism: [{ name: "updateJsonMetadata, updateJsonData", where: P + "service/json-update-service.ts" }, { name: "updateDatex2, parseSituations", where: P + "service/datex2-update-service.ts" }, { name: "createSituationPublication35 and its variants, addNamespaceIfMissing", where: P + "service/variable-signs.ts" }, { name: "isProductionMessage", where: P + "service/filtering-service.ts" }, { name: "convertTextToSvg", where: P + "service/text-converter.ts" }],
    observe_at: "answers of the handlers and rows of a small database that carries out the statements sent to it",
  },
  assumptions: ["situations start with their id and version, as the sending system writes them", "the XML parser is a stand-in for simple documents", "device lists name each device once"],
};
const NOW = Date.UTC(2024, 9, 15, 12, 30);
const DAY = 86400000;
const tables = (more = {}) => ({
  device: { cols: ["id", "modified", "deleted_date", "type", "road_address", "direction", "carriageway", "etrs_tm35fin_x", "etrs_tm35fin_y"], unique: [["id"]], required: ["id", "type"], rows: more.devices ?? [] },
  device_data: { cols: ["id", "device_id", "display_value", "additional_information", "effect_date", "cause", "reliability"], unique: [["id"]], required: ["id", "device_id", "effect_date", "reliability"], rows: [] },
  device_data_row: { cols: ["id", "device_data_id", "screen", "row_number", "text"], unique: [["id"]], required: ["id", "device_data_id", "screen", "row_number"], rows: [] },
  device_data_datex2: { cols: ["device_id", "datex2", "effect_date", "type", "version", "modified"], unique: [["device_id", "type", "version"]], required: ["device_id", "datex2", "effect_date"], rows: more.datex2 ?? [] },
  data_updated: { cols: ["id", "data_type", "subtype", "updated"], defaults: { subtype: "-" }, unique: [["data_type", "subtype"]], rows: [] },
});
function setup(S) {
  quiet(S);
  S.world.time = NOW;
  S.stub("aws/runtime/secrets/proxy-holder", { ProxyHolder: { create: () => S.mock({ setCredentials: async () => { await null; } }, "proxyHolder") } });
  // a parser of simple documents
  class XmlElement { constructor(name, attributes, children) { this.name = name; this.attributes = attributes; this.children = children; } get text() { return this.children.map((c) => (typeof c.text === "string" ? c.text : "")).join(""); } }
  const parseXml = (text) => {
    const re = /<\?[^>]*\?>|<\/([\w:]+)>|<([\w:]+)((?:\s+[\w:]+="[^"]*")*)\s*(\/?)>|([^<]+)/gy;
    const root = new XmlElement("", {}, []), stack = [root];
    let at = 0;
    while (at < text.length) {
      re.lastIndex = at;
      const m = re.exec(text);
      if (!m) throw new Error("not well-formed");
      at = re.lastIndex;
      const top = stack[stack.length - 1];
      if (m[1]) { if (stack.length < 2 || top.name !== m[1]) throw new Error("not well-formed"); stack.pop(); }
      else if (m[2]) { const e = new XmlElement(m[2], Object.fromEntries([...m[3].matchAll(/([\w:]+)="([^"]*)"/g)].map((a) => [a[1], a[2]])), []); top.children.push(e); if (!m[4]) stack.push(e); }
      else if (m[5]) { if (stack.length > 1) top.children.push({ text: m[5] }); else if (m[5].trim()) throw new Error("not well-formed"); }
    }
    if (stack.length !== 1 || root.children.length !== 1) throw new Error("not well-formed");
    return { root: root.children[0] };
  };
  S.stub("@rgrove/parse-xml", { parseXml, XmlElement });
}
const SINGLES = ["LAIVA_VASEN", "LAIVA_OIKEA", "RAMPPI", ...["LENTOKONE", "NUOLI"].flatMap((x) => ["VASEN", "OIKEA", "YLOS", "ALAS"].map((y) => x + "_" + y)), ...["VASEN", "OIKEA"].flatMap((x) => ["NUOLI_" + x + "YLOS", "NUOLI_" + x + "ALAS"])];
const nthFails = (S, db, n) => { let k = 0; const st = { failed: false }; db.failing = () => { k++; if (k === n) { st.failed = true; return true; } return false; }; return st; };
export const harnesses = {
  devices: {
    bounds: "3 devices, each listed or not and unknown, active or deleted; any of the first 5 statements fails; or no body",
    reach: ["new", "kept", "back again", "deleted", "deleted before", "failed", "no body"],
    async run(S) {
      setup(S);
      const was = new S.world.Date(NOW - DAY);
      const state = ["A", "B", "C"].map((id) => ({ id, api: S.choose("api" + id, [true, false]), db: S.choose("db" + id, ["no", "yes", "deleted"]) }));
      const rows = state.filter((s) => s.db !== "no").map((s) => ({ id: s.id, modified: was, deleted_date: s.db === "deleted" ? was : null, type: "old", road_address: "o", direction: "o", carriageway: "o", etrs_tm35fin_x: 0, etrs_tm35fin_y: 0 }));
      const before = rows.map((r) => ({ ...r }));
      const db = sessions(S, database(S, tables({ devices: rows })));
      const f = nthFails(S, db, S.choose("nth", [0, 1, 2, 3, 4, 5]));
      const list = state.filter((s) => s.api).map((s) => ({ tunnus: s.id, tyyppi: "t" + s.id, sijainti: { tieosoite: "a" + s.id, ajosuunta: "d" + s.id, ajorata: "c" + s.id, n: 7000000, e: 300000 + s.id.charCodeAt(0) } }));
      const { handler } = S.load(P + "lambda/update-json-metadata/update-json-metadata.js");
      if (S.choose("body", [true, false]) === false) {
        const r = await S.settle(() => handler({ body: S.choose("empty", ["", undefined]) }));
        S.reach("no body");
        S.assert(!r.error && r.value.statusCode === 400 && db.statements.length === 0, "without a body nothing is done");
        return;
      }
      const r = await S.settle(() => handler({ body: JSON.stringify({ laitteet: list }) }));
      const now = db.tables.device.rows, find = (id) => now.find((x) => x.id === id);
      if (f.failed) {
        S.reach("failed");
        S.assert(!r.error && r.value.statusCode === 500, "a failure is answered with 500");
        S.assert(now.length === before.length && before.every((b) => Object.keys(b).every((k) => find(b.id)[k] === b[k])), "a failing list changes nothing");
        return;
      }
      S.assert(!r.error && r.value.statusCode === 200, "a stored list is answered with 200");
      S.assert(now.length === state.filter((s) => s.api || s.db !== "no").length, "no other devices");
      for (const s of state) {
        const x = find(s.id), l = list.find((d) => d.tunnus === s.id);
        if (l) {
          S.reach(s.db === "no" ? "new" : s.db === "yes" ? "kept" : "back again");
          S.assert(x && x.deleted_date === null && x.type === l.tyyppi && x.road_address === l.sijainti.tieosoite && x.direction === l.sijainti.ajosuunta && x.carriageway === l.sijainti.ajorata && x.etrs_tm35fin_x === l.sijainti.e && x.etrs_tm35fin_y === l.sijainti.n, "a listed device is active, with its data");
        } else if (s.db !== "no") {
          S.reach(s.db === "yes" ? "deleted" : "deleted before");
          S.assert(x && x.deleted_date !== null && S.eq(x.deleted_date.getTime(), s.db === "yes" ? NOW : was.getTime()) && x.type === "old", "another one is deleted since the first list without it");
        }
      }
    },
  },
  contents: {
    bounds: "1..2 contents of 0..2 rows or none, optional fields given or not; any of the first 6 statements fails; or no body",
    reach: ["stored", "failed", "no body"],
    async run(S) {
      setup(S);
      const db = sessions(S, database(S, tables()));
      const list = [0, 1].slice(0, S.choose("n", [1, 2])).map((i) => {
        const rows = S.choose("rows" + i, [undefined, 0, 1, 2]), more = S.choose("more" + i, [true, false]);
        return { tunnus: S.choose("id" + i, ["A", "B"]), voimaan: `2024-10-0${i + 1}T00:00:00Z`, luotettavuus: "NORMAALI" + i, ...(more ? { nayttama: "80", lisatieto: "x" + i, syy: "s" + i } : {}), ...(rows === undefined ? {} : { rivit: [0, 1].slice(0, rows).map((k) => ({ naytto: 1, rivi: k + 1, ...(more ? { teksti: "t" + i + k } : {}) })) }) };
      });
      const f = nthFails(S, db, S.choose("nth", [0, 1, 2, 3, 4, 5, 6]));
      const { handler } = S.load(P + "lambda/update-json-data/update-json-data.js");
      const body = S.choose("body", [true, false]);
      const r = await S.settle(() => handler({ body: body ? JSON.stringify({ liikennemerkit: list }) : undefined }));
      S.assert(!r.error, "the list is answered");
      if (r.error) return;
      const data = db.tables.device_data.rows, lines = db.tables.device_data_row.rows;
      if (!body) { S.reach("no body"); S.assert(r.value.statusCode === 400 && data.length === 0, "without a body nothing is done"); return; }
      if (f.failed) { S.reach("failed"); S.assert(r.value.statusCode === 500 && data.length === 0 && lines.length === 0, "a failing list adds nothing"); return; }
      S.reach("stored");
      S.assert(r.value.statusCode === 200 && data.length === list.length, "every content is added");
      list.forEach((l, i) => {
        const x = data[i];
        S.assert(x && x.device_id === l.tunnus && x.display_value === (l.nayttama ?? null) && x.additional_information === (l.lisatieto ?? null) && x.effect_date === l.voimaan && x.cause === (l.syy ?? null) && x.reliability === l.luotettavuus, "with what it shows and since when");
        const mine = lines.filter((y) => y.device_data_id === x.id), want = l.rivit ?? [];
        S.assert(mine.length === want.length && want.every((w, k) => mine[k].screen === w.naytto && mine[k].row_number === w.rivi && mine[k].text === (w.teksti ?? null)), "and its rows");
      });
    },
  },
  messages: {
    bounds: "documents with or without xml tag, 0..2 publications and 0..2 situations (thorough: 3) with symbolic numbers of 1..2 characters and symbolic contents, complete or cut off; an earlier one stored or not; any of the first 4 statements fails",
    reach: ["stored", "replaced", "refused", "cut off", "failed", "same number"],
    async run(S) {
      setup(S);
      const old = S.choose("old", [true, false]);
      const db = sessions(S, database(S, tables({ datex2: old ? [{ device_id: "K1", datex2: "old", effect_date: new S.world.Date(NOW - DAY), type: "SITUATION", version: "DATEXII_2_2_3", modified: null }, { device_id: "K1", datex2: "other", effect_date: new S.world.Date(NOW - DAY), type: "SITUATION", version: "DATEXII_3_5", modified: null }] : [] })));
      const xml = S.choose("xml", [true, false]), pubs = S.choose("pubs", [1, 0, 2]);
      const n = S.choose("n", S.thorough ? [0, 1, 2, 3] : [0, 1, 2]), cut = n ? S.choose("cut", [false, true]) : false;
      const sits = [];
      for (let i = 0; i < n; i++) {
        const id = S.str("id" + i, [1, 2], "K1$"), body = S.str("body" + i, [0, 1], "$x &");
        const day = `2024-10-0${i + 1}T10:00:00.000Z`;
        sits.push({ id, day, text: `<situation id="${id}" version="${i + 1}">${body}<situationRecord id="r"><overallStartTime>${day}</overallStartTime></situationRecord></situation>` });
      }
      let doc = (xml ? '<?xml version="1.0"?>' : "") + "<m>" + "<payloadPublication>".repeat(pubs ? pubs : 0) + sits.map((s) => s.text).join("\n") + "</payloadPublication></m>";
      if (cut) doc = doc.substring(0, doc.length - "</situation></payloadPublication></m>".length);
      const f = nthFails(S, db, S.choose("nth", [0, 1, 2, 3, 4]));
      const { handler } = S.load(P + "lambda/update-datex2/update-datex2.js");
      const before = db.tables.device_data_datex2.rows.map((r) => ({ ...r }));
      const r = await S.settle(() => handler({ body: doc }));
      S.assert(!r.error, "the message is answered");
      if (r.error) return;
      const rows = db.tables.device_data_datex2.rows, check = db.tables.data_updated.rows;
      const good = xml && pubs === 1;
      if (!good || cut || f.failed) {
        S.reach(!good ? "refused" : cut ? "cut off" : "failed");
        S.assert(good ? r.value.statusCode !== 200 : r.value.statusCode === 400, "it is not accepted");
        S.assert(rows.length === before.length && before.every((b, k) => Object.keys(b).every((c) => rows[k][c] === b[c])) && check.length === 0, "nothing is stored");
        return;
      }
      S.assert(r.value.statusCode === 200 && check.length === 1 && S.eq(check[0].updated.getTime(), NOW) && check[0].data_type === "VS_DATEX2", "it is accepted and the update recorded");
      if (n) S.reach("stored");
      const mine = rows.filter((x) => x.version === "DATEXII_2_2_3" && x.type === "SITUATION");
      S.assert(rows.length - mine.length === (old ? 1 : 0), "other versions stay");
      // the last of each number counts
      const last = [];
      for (const s of sits) { const k = last.findIndex((x) => S.decide(S.eq(x.id, s.id))); if (k >= 0) { S.reach("same number"); last[k] = s; } else last.push(s); }
      let hit = 0;
      for (const s of last) {
        const x = mine.filter((m) => S.decide(S.eq(m.device_id, s.id)));
        S.assert(x.length === 1, "one of each number");
        if (x.length !== 1) continue;
        S.assert(S.eq(x[0].datex2, s.text), "word for word");
        S.assert(S.eq(x[0].effect_date.getTime(), Date.parse(s.day)), "with its start time");
        if (old && S.decide(S.eq(s.id, "K1"))) { hit++; S.reach("replaced"); }
      }
      S.assert(mine.length === last.length + (old && !hit ? 1 : 0), "earlier ones of other numbers stay");
    },
  },
  publications: {
    bounds: "7 end points; 3 stored texts, each of an active or deleted device, of the asked version and kind or another, with or without namespace, of a production or test device, with any of 8 starts and symbolic contents of 0..2 characters; or nothing stored; or the database fails",
    reach: ["published", "nothing", "test message", "failed", "namespace added"],
    async run(S) {
      setup(S);
      const [dir, version, kind, tag, ns, root] = S.choose("end point", [["get-datex2", "DATEXII_2_2_3", "SITUATION", "situation", "", "d2LogicalModel"], ["get-situations-datex2-35", "DATEXII_3_5", "SITUATION", "situation", "sit", "sit:situationPublication"], ["get-situations-datex2-37", "DATEXII_3_7", "SITUATION", "situation", "sit", "sit:situationPublication"], ["get-statuses-datex2-35", "DATEXII_3_5", "CONTROLLER_STATUS", "vmsControllerStatus", "vms", "d2:payload"], ["get-statuses-datex2-37", "DATEXII_3_7", "CONTROLLER_STATUS", "vmsControllerStatus", "vms", "d2:payload"], ["get-controllers-datex2-35", "DATEXII_3_5", "CONTROLLER", "vmsController", "vms", "d2:payload"], ["get-controllers-datex2-37", "DATEXII_3_7", "CONTROLLER", "vmsController", "vms", "d2:payload"]]);
      const n = S.choose("n", [2, 1, 0, 3]);
      const rows = [], want = [], devices = [];
      let test = false, added = false;
      for (let k = 0; k < n; k++) {
        const last = k === n - 1;
        const id = "D" + (n - k); // stored in another order than published
        const what = last ? S.choose("what", ["ok", "deleted", "kind", "version"]) : "ok";
        const named = ns && (last ? S.choose("named", [false, true]) : false);
        const device = kind === "SITUATION" && last && what === "ok" ? S.choose("device", ["X1", "VME/TIO01K502", "VME/TIO015152"]) : "X1";
        const start = device === "X1" ? "2024-05-20T20:00:00.000Z" : S.choose("start", ["2024-05-20T18:59:59.999Z", "2024-05-20T19:00:00.000Z", "2024-05-21T01:59:59.999Z", "2024-05-21T02:00:00.000Z", "2024-05-21T19:00:00.000Z", "2024-05-22T01:59:59.999Z", "2024-05-22T02:00:00.000Z", "2024-06-01T00:00:00.000Z"]);
        const text = last && what === "ok" && device === "X1" ? S.choose("text", ["", "$&", "$'", "a$$b", "SITUATIONS", "PUBLICATION_TIME"]) : "plain" + k;
        const open = named ? ns + ":" + tag : tag;
        const inner = (t) => `<situationRecord id="${device}"><validity><validityTimeSpecification><overallStartTime>${start}</overallStartTime></validityTimeSpecification></validity><note>${t}</note></situationRecord>`;
        const doc = `<${open} id="${id}">${inner(text)}</${open}>`;
        rows.push({ device_id: id, datex2: doc, effect_date: new S.world.Date(NOW - DAY), type: what === "kind" ? (kind === "CONTROLLER" ? "CONTROLLER_STATUS" : "CONTROLLER") : kind, version: what === "version" ? (version === "DATEXII_3_5" ? "DATEXII_3_7" : "DATEXII_3_5") : version, modified: new S.world.Date(NOW - (k + 1) * DAY) });
        devices.push({ id, modified: null, deleted_date: what === "deleted" ? new S.world.Date(NOW - DAY) : null, type: "t" });
        const hidden = device !== "X1" && ((start >= "2024-05-20T19" && start < "2024-05-21T02") || (start >= "2024-05-21T19" && start < "2024-05-22T02"));
        if (hidden && what === "ok") test = true;
        if (ns && !named) added = true;
        if (what === "ok") want.unshift({ hidden, at: NOW - (k + 1) * DAY, doc: ns ? `<${ns}:${tag} id="${id}">${inner(text)}</${ns}:${tag}>` : doc });
      }
      const db = sessions(S, database(S, tables({ devices, datex2: rows })));
      const fails = n === 1 ? S.choose("fails", [0, 1, 2]) : 0;
      if (fails) nthFails(S, db, fails);
      const { handler } = S.load(P + `lambda/${dir}/${dir}.js`);
      const r = await S.settle(() => handler({}));
      if (fails) { S.reach("failed"); S.assert(!!r.error || r.value.status >= 500, "a failing database publishes nothing"); return; }
      S.assert(!r.error && r.value.status === 200, "the document is published");
      if (r.error) return;
      const doc = Buffer.from(r.value.body, "base64").toString();
      const time = want.length ? Math.max(...want.map((w) => w.at)) : 0;
      S.assert(Date.parse(r.value.timestamp) === time, "the response has the time of the newest");
      const shown = want.filter((w) => !w.hidden);
      const joined = shown.map((w) => w.doc).join("\n");
      S.reach(shown.length ? "published" : "nothing");
      if (test) S.reach("test message");
      if (added && shown.length) S.reach("namespace added");
      S.assert(doc.split(new Date(time).toISOString()).length >= 2 && /publicationTime>([^<]*)</.exec(doc)[1] === new Date(time).toISOString(), "the document has the time of the newest");
      S.assert(doc.split(joined || "</nothing").length === (joined ? 2 : 1) , "the texts are word for word, in order");
      const rest = joined ? doc.split(joined).join("") : doc;
      S.assert(!/situationRecord|<note>/.test(rest), "and nothing else is");
      S.assert(rest.trim().startsWith("<" + root) && rest.trim().endsWith("</" + root + ">"), "in the document of the version");
    },
  },
  drawings: {
    bounds: "texts of 0..3 symbolic characters (letters, digits, brackets, underscore, others; up to 2 where there are brackets or a prefix already) after any prefix, and single symbols in any case; 29..33 characters",
    reach: ["drawn", "refused", "single", "borders"],
    async run(S) {
      setup(S);
      const what = S.choose("what", ["symbols", "single", "long"]);
      const [prefix, type] = what === "single" ? ["", ""] : S.choose("prefix", [["", ""], ["TIE_", "ROAD"], ["VARATIE_", "DETOUR"], ["varareitti_", "DIVERSION"], ["Ramppi_", "RAMP"], ["TIE", ""], ["X_", "?"], ["TIE_TIE_", "?"], ["LAIVA_", "?"]]);
      const brackets = S.choose("brackets", ["none", "both", "left", "right"]);
      const body = what === "symbols" ? S.str("text", [0, (brackets === "none" && !prefix) || S.thorough ? 3 : 2], "18Aag_[]?") : what === "single" ? S.choose("single", [...SINGLES, "laiva_vasen", "LAIVA_VASEM", "LAIVA_VASEN1", "1LAIVA_VASEN"]) : "1".repeat(S.choose("length", [29, 30, 31, 32, 33]) - prefix.length);
      const inner = prefix + body;
      const text = (brackets === "both" || brackets === "left" ? "[" : "") + inner + (brackets === "both" || brackets === "right" ? "]" : "");
      S.stub("aws/types/lambda-response", { LambdaResponseBuilder: S.mock({ create: (body) => { const b = S.mock({ withTimestamp: () => b, build: () => ({ status: 200, body }) }, "builder"); return b; }, badRequest: () => ({ status: 400 }), internalError: () => ({ status: 500 }) }, "LambdaResponseBuilder") });
      const { handler } = S.load(P + "lambda/get-sign-image/get-sign-image.js");
      const r = await S.settle(() => handler({ text }));
      S.assert(!r.error, "every text is answered");
      if (r.error) return;
      const whole = S.concrete(text);
      // the syntax
      let ok = true, t = whole;
      if (t[0] === "[" && t.length > 1 && t[t.length - 1] === "]") t = t.slice(1, -1);
      if (/[[\]]/.test(t) || t.length < 1 || t.length > 30) ok = false;
      const upper = t.toUpperCase();
      const single = SINGLES.includes(upper);
      const m = /^(TIE_|VARATIE_|VARAREITTI_|RAMPPI_)?([^_]*)$/.exec(upper);
      if (!single && (!m || [...m[2]].some((c) => !/[0-9A-F]/.test(c)))) ok = false;
      if (!ok) { S.reach("refused"); S.assert(r.value.status === 400, "a text that cannot be drawn is answered with 400"); return; }
      S.reach("drawn");
      S.assert(r.value.status === 200, "a text that can be drawn is drawn");
      if (r.value.status !== 200) return;
      const svg = S.concrete(r.value.body);
      const box = /viewBox="0 0 (\d+) 32">/.exec(svg);
      const uses = [...svg.matchAll(/<use href="#([^"]*)" x="(\d+)" y="0" width="(\d+)" height="32"\/>/g)].map((u) => ({ name: u[1], x: Number(u[2]), width: Number(u[3]) }));
      const symbols = [...svg.matchAll(/<symbol id="([^"]*)" width="(\d+)"/g)].map((u) => ({ name: u[1], width: Number(u[2]) }));
      let x = 0;
      for (const u of uses) { S.assert(u.x === x && u.width > 0, "one symbol after another"); x += u.width; S.assert(symbols.filter((y) => y.name === u.name && y.width === u.width).length === 1, "each symbol is explained once"); }
      S.assert(Number(box[1]) === x && symbols.length === new Set(uses.map((u) => u.name)).size, "over the whole width");
      const count = (single ? 1 : m[2].length + (m[1] ? 2 : 0));
      S.assert(uses.length === count, "all symbols are shown");
      if (single) S.reach("single");
      else if (m[1]) {
        S.reach("borders");
        S.assert(/BEGIN|RAMP/i.test(uses[0]?.name ?? "") && /END/i.test(uses[uses.length - 1]?.name ?? ""), "between the borders");
      }
      // the same character is the same symbol, another one another
      const shown = single ? [] : [...m[2]];
      shown.forEach((c, i) => shown.forEach((d, k) => { if (k < i) { const o = m[1] ? 1 : 0; S.assert((uses[i + o]?.name === uses[k + o]?.name) === (c === d), "the symbols are those of the characters"); } }));
    },
  },
};
