import { LIB, quiet } from "./_util.js";
export const property = {
  id: "C23",
  title: "Exactly well-formed GeoJSON passes the geometry schemas",
  statement: "A value passes the schema of geometries exactly when it is a point, line, polygon, one of their multiples or a collection of such geometries at any depth, with two or three numbers in every position, at least two positions in every line and four in every ring; features and feature collections pass exactly when their geometries do. What passes is the value that was given.",
  quantifier: { over: ["inputs"], text: "every kind of geometry with 0..2 members, 0..5 positions of 0..4 symbolic entries, one wrong piece anywhere, collections nested twice" },
  why_tests_cant: "No test exercises these schemas; all services validating incoming data rely on them.",
  anchors: {
    files: ["lib/digitraffic-common/src/types/geojson.ts"],
    mechanism: [{ name: "GeometrySchema, FeatureSchema, FeatureCollectionSchema and the schema of each kind", where: "lib/digitraffic-common/src/types/geojson.ts" }],
    observe_at: "result of parsing",
  },
  assumptions: ["the schema library is part of what is encoded"],
};
const isNum = (v) => typeof v === "number" && v === v && v !== Infinity && v !== -Infinity;
const posOk = (p) => Array.isArray(p) && p.length >= 2 && p.length <= 3 && p.every(isNum);
const all = (f, min = 0) => (x) => Array.isArray(x) && x.length >= min && x.every(f);
const coords = { Point: posOk, MultiPoint: all(posOk), LineString: all(posOk, 2), MultiLineString: all(all(posOk, 2)), Polygon: all(all(posOk, 4)), MultiPolygon: all(all(all(posOk, 4))) };
const ok = (g) => g !== null && typeof g === "object" && (coords[g.type] ? coords[g.type](g.coordinates) : g.type === "GeometryCollection" && Array.isArray(g.geometries) && g.geometries.every(ok));
const KINDS = Object.keys(coords);
const minimum = { LineString: 2, MultiLineString: 2, Polygon: 4, MultiPolygon: 4 };
let seq;
const position = (S, n = 2) => Array.from({ length: n }, () => S.int("x" + seq++, -1000, 1000) / 4);
const line = (S, n) => Array.from({ length: n }, () => position(S));
function geometry(S, kind, tag) {
  const min = minimum[kind];
  if (kind === "Point") return { type: kind, coordinates: position(S, 2 + S.choose(tag + "3d", [0, 1])) };
  if (kind === "GeometryCollection") return { type: kind, geometries: [geometry(S, "Point", tag + "g")] };
  if (kind === "MultiPoint") return { type: kind, coordinates: line(S, S.choose(tag + "n", [0, 1, 2])) };
  const size = min + S.choose(tag + "extra", [-1, 0, 1]);
  if (kind === "LineString") return { type: kind, coordinates: line(S, size) };
  const many = Array.from({ length: S.choose(tag + "many", [0, 1, 2]) }, (_, i) => line(S, i ? min : size));
  return { type: kind, coordinates: kind === "MultiPolygon" ? [many] : many };
}
export const harnesses = {
  kinds: {
    bounds: "each kind with 0..2 members and one position less or more than needed; parsed by its own schema and by the common one",
    reach: ["accepted", "refused"],
    async run(S) {
      quiet(S);
      seq = 0;
      const m = S.load(LIB + "types/geojson.js");
      const kind = S.choose("kind", KINDS);
      const g = geometry(S, kind, "g");
      const r = m.GeometrySchema.safeParse(g), own = m[kind + "Schema"].safeParse(g);
      S.reach(ok(g) ? "accepted" : "refused");
      S.assert(r.success === ok(g), "accepted exactly when well-formed");
      S.assert(own.success === ok(g), "the schema of the kind agrees");
      const other = S.choose("other", KINDS);
      if (other !== kind) S.assert(!m[other + "Schema"].safeParse(g).success, "another kind's schema refuses it");
      if (r.success) S.assert(S.eq(r.data, g), "what passes is what was given");
    },
  },
  wrong: {
    bounds: "each kind with one position having 0..4 entries, an entry of another type, or a wrong nesting, missing or other type",
    reach: ["accepted", "refused"],
    async run(S) {
      quiet(S);
      seq = 0;
      const m = S.load(LIB + "types/geojson.js");
      const kind = S.choose("kind", KINDS);
      const min = minimum[kind] ?? 1;
      const wrongAt = S.choose("at", min > 1 ? [0, min - 1] : [0]);
      const how = S.choose("how", ["size", "entry", "nest", "type", "no coordinates", "not an object"]);
      const bad = how === "size" ? position(S, S.choose("size", [0, 1, 2, 3, 4])) : how === "entry" ? [1, S.choose("entry", ["2", null, undefined, NaN, Infinity, [1], true, 7])] : position(S);
      const ring = Array.from({ length: min }, (_, i) => (i === wrongAt ? bad : position(S)));
      const depth = { Point: 0, MultiPoint: 1, LineString: 1, MultiLineString: 2, Polygon: 2, MultiPolygon: 3 }[kind];
      let c = depth === 0 ? bad : ring;
      for (let d = 1; d < depth; d++) c = [c];
      if (how === "nest") c = S.choose("deeper", [true, false]) ? [c] : c[0];
      let g = { type: how === "type" ? S.choose("type", [undefined, "point", "Circle", null, kind]) : kind, coordinates: c };
      if (how === "no coordinates") delete g.coordinates;
      if (how === "not an object") g = S.choose("value", [undefined, null, "Point", [1, 2], 3]);
      const r = m.GeometrySchema.safeParse(g);
      S.reach(ok(g) ? "accepted" : "refused");
      S.assert(r.success === ok(g), "accepted exactly when well-formed");
      S.assert(m[kind + "Schema"].safeParse(g).success === (ok(g) && g.type === kind), "the schema of the kind agrees");
    },
  },
  nested: {
    bounds: "collections of 0..2 geometries nested twice, in features and feature collections of 0..2 features; names, properties of any kind",
    reach: ["accepted", "refused", "feature", "features"],
    async run(S) {
      quiet(S);
      seq = 0;
      const m = S.load(LIB + "types/geojson.js");
      const inner = S.choose("inner", ["Point", "LineString", "broken", "GeometryCollection", "none"]);
      const leaf = (k) => (k === "broken" ? { type: "Point", coordinates: [1] } : k === "GeometryCollection" ? { type: k, geometries: S.choose("empty", [true, false]) ? [] : [{ type: k, geometries: [geometry(S, "LineString", "deep")] }] } : geometry(S, k, "leaf"));
      const g = { type: "GeometryCollection", geometries: inner === "none" ? S.choose("members", [[], undefined]) : [{ type: "Point", coordinates: position(S) }, leaf(inner)] };
      const r = m.GeometrySchema.safeParse(g);
      S.reach(ok(g) ? "accepted" : "refused");
      S.assert(r.success === ok(g), "a collection passes exactly when its members do");
      if (r.success) S.assert(S.eq(r.data, g), "what passes is what was given");
      const props = S.choose("properties", [undefined, { a: 1, b: { c: [null] } }, "text", null]);
      const id = S.choose("id", [undefined, "i", 5, true]);
      const type = S.choose("type", ["Feature", "feature"]);
      const f = { type, geometry: g };
      if (props !== undefined) f.properties = props;
      if (id !== undefined) f.id = id;
      const fOk = ok(g) && type === "Feature" && (props === undefined || (props !== null && typeof props === "object")) && id !== true;
      const fr = m.FeatureSchema.safeParse(f);
      S.assert(fr.success === fOk, "a feature passes exactly when its geometry, properties and name do");
      if (fr.success) { S.reach("feature"); S.assert(S.eq(fr.data, f), "the feature is kept as it was given"); }
      const good = { type: "Feature", geometry: { type: "Point", coordinates: [1, 2] } };
      const which = S.choose("collection", ["both", "one", "none", "missing"]);
      const fs = { both: [good, f], one: [f], none: [], missing: undefined }[which];
      const c = { type: "FeatureCollection", features: fs };
      const cr = m.FeatureCollectionSchema.safeParse(c);
      S.assert(cr.success === (which !== "missing" && (which === "none" || fOk)), "a collection of features passes exactly when each feature does");
      if (cr.success) { S.reach("features"); S.assert(S.eq(cr.data, c), "the features are kept as they were given"); }
    },
  },
};
