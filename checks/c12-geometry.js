import { LIB, quiet } from "./_util.js";
export const property = {
  id: "C12",
  title: "Geometry texts and distances are faithful",
  statement: "For every geometry, its well-known text and its GML position list contain every position, in the original order and nesting, with its longitude and latitude as given (all coordinates, with eight significant digits, in GML); unsupported kinds give the empty polygon or an error. The distance between two positions is the great-circle distance, zero between equal positions, the same in both directions, not influenced by altitude, a thousand times larger in metres than in kilometres, and defined for every position of two or three numbers. Positions are distinct exactly when a coordinate of the plane differs, and a feature collection carries its features and time unchanged.",
  quantifier: { over: ["inputs"], text: "all coordinate values, all nestings up to the bound" },
  why_tests_cant: "Tests use a few fixed coordinates, none of them on the equator or the prime meridian.",
  anchors: {
    files: ["lib/digitraffic-common/src/utils/geometry.ts"],
    mechanism: [{ name: "createGeometry, createGmlLineString, positionToList", where: "lib/digitraffic-common/src/utils/geometry.ts" }, { name: "distanceBetweenPositionsInKm, distanceBetweenPositionsInM, areDistinctPositions", where: "lib/digitraffic-common/src/utils/geometry.ts" }],
    observe_at: "returned texts and numbers",
  },
  assumptions: ["sine, cosine, arc sine and arc tangent are uninterpreted functions for the solver (the same argument gives the same result); counterexamples are replayed with the real ones"],
};
const load = (S) => { quiet(S); S.stub("geojson-validation", { valid: (x) => x.ok, isFeatureCollection: (x) => x.fc }); return S.load(LIB + "utils/geometry.js"); };
const coord = (S, n, lim) => S.dec(n, -lim * 100000, lim * 100000, 100000);
const pos = (S, n, dims) => [coord(S, n + "x", 180), coord(S, n + "y", 90), S.dec(n + "z", -1000, 90000, 10)].slice(0, dims);
// the shapes: nesting of position counts
const SHAPES = {
  Point: [0], LineString: [[1], [2], [3]], Polygon: [[[3]], [[2], [3]], [[1], [1], [2]]], MultiPolygon: [[[[2]]], [[[1], [2]], [[2]]], [[[1]], [[1]], [[1], [1]]]],
};
function build(S, type, dims) {
  let k = 0;
  const list = [];
  const mk = (s, depth) => {
    if (depth === 0) { const p = pos(S, "p" + k++, dims); list.push(p); return p; }
    if (depth === 1) return Array.from({ length: s[0] }, () => mk(0, 0));
    return s.map((q) => mk(q, depth - 1));
  };
  const depth = { Point: 0, LineString: 1, Polygon: 2, MultiPolygon: 3 }[type];
  return { geometry: { type, coordinates: mk(S.choose("shape", SHAPES[type]), depth) }, list, depth };
}
export const harnesses = {
  wkt: {
    bounds: "points, lines, polygons and multi-polygons of up to 5 positions and 3 rings, positions of 2 or 3 coordinates with 5 decimals anywhere on the globe; other kinds",
    reach: ["Point", "LineString", "Polygon", "MultiPolygon", "other"],
    async run(S) {
      const log = quiet(S);
      const g = S.load(LIB + "utils/geometry.js");
      const type = S.choose("type", ["Point", "LineString", "Polygon", "MultiPolygon", "MultiPoint", "GeometryCollection"]);
      S.reach(SHAPES[type] ? type : "other");
      if (!SHAPES[type]) { S.assert(g.createGeometry({ type, coordinates: [] }) === "POLYGON EMPTY" && log.some((x) => x[0] === "error"), "other kinds become the empty polygon, and are logged"); return; }
      const dims = S.choose("dims", [2, 3]);
      const { geometry, depth } = build(S, type, dims);
      const w = g.createGeometry(geometry);
      // the text of nested lists, from the definition of WKT
      const text = (c, d) => (d === 0 ? `${c[0]} ${c[1]}` : c.map((x) => (d === 1 ? text(x, 0) : "(" + text(x, d - 1) + ")")).join(","));
      S.assert(S.eq(w, type.toUpperCase() + "(" + text(geometry.coordinates, depth) + ")"), "every position in its place");
    },
  },
  gml: {
    bounds: "points, lines and polygons of up to 4 positions and 3 rings, 2 or 3 coordinates with 5 decimals; other kinds",
    reach: ["Point", "LineString", "Polygon", "other"],
    async run(S) {
      const g = load(S);
      const type = S.choose("type", ["Point", "LineString", "Polygon", "MultiPoint"]);
      const srs = S.choose("srs", [undefined, "EPSG:3067"]);
      if (type === "MultiPoint") { S.reach("other"); S.assert(!!S.sync(() => g.createGmlLineString({ type, coordinates: [[1, 2]] }, srs)).error, "other kinds are refused"); return; }
      const { geometry, list } = build(S, type, S.choose("dims", [2, 3]));
      S.reach(type);
      const r = g.createGmlLineString(geometry, srs);
      S.assert(r.srsName === (srs ?? "EPSG:4326"), "the reference system");
      S.assert(S.eq(r.posList, list.map((p) => p.map((n) => n.toPrecision(8)).join(" ")).join(" ")), "every position in order, eight digits");
      const d = S.choose("digits", [3, 10]);
      S.assert(S.eq(g.positionToList(list[0], d), list[0].map((n) => n.toPrecision(d)).join(" ")), "the requested digits");
    },
  },
  distance: {
    budgetMs: 90000, queryMs: 4000,
    bounds: "two positions anywhere on the globe, 2 or 3 coordinates with 5 decimals",
    reach: ["distance"],
    async run(S) {
      const g = load(S);
      const d1 = S.choose("d1", [2, 3]), d2 = S.choose("d2", [2, 3]);
      const a = pos(S, "a", d1), b = pos(S, "b", d2);
      const r = S.sync(() => g.distanceBetweenPositionsInKm(a, b));
      S.reach("distance");
      S.assert(!r.error, "defined for every pair of positions", r.error && String(r.error));
      const km = r.value;
      // haversine, 6371 km
      const rad = (x) => x * 0.017453292519943295;
      const [x1, y1] = a, [x2, y2] = b;
      const s1 = Math.sin(rad(y2 - y1) / 2), s2 = Math.sin(rad(x2 - x1) / 2);
      const h = s1 * s1 + Math.cos(rad(y1)) * Math.cos(rad(y2)) * s2 * s2;
      const ref = 6371 * (2 * Math.atan2(Math.sqrt(h), Math.sqrt(1 - h)));
      const diff = km - ref;
      S.assert(S.or(S.eq(km, ref), S.and(diff <= 0.00001 + ref * 0.00001, diff >= -0.00001 - ref * 0.00001)), "the great-circle distance");
      S.assert(S.eq(g.distanceBetweenPositionsInM(a, b), km * 1000), "metres");
      S.assert(S.eq(g.distanceBetweenPositionsInKm(a.slice(0, 2), b.slice(0, 2)), km), "altitude does not matter");
    },
  },
  fixedPoints: {
    bounds: "all pairs of 12 positions on the axes, the poles, the date line and inland",
    reach: ["pair"],
    async run(S) {
      const g = load(S);
      const P = [[0, 0], [0, 60], [25, 0], [-25.5, 0, 10], [180, 0], [-180, 10], [0, 90], [0, -90], [24.94, 60.17], [24.94, 60.17, 99], [27.68, 62.89], [-0.0001, 0.0001]];
      const a = S.choose("a", P), b = S.choose("b", P);
      S.reach("pair");
      const km = g.distanceBetweenPositionsInKm(a, b), back = g.distanceBetweenPositionsInKm(b, a);
      S.assert(Math.abs(g.distanceBetweenPositionsInM(a, b) - km * 1000) <= 1e-6 * km * 1000, "metres are thousandths of kilometres");
      S.assert(Math.abs(km - back) < 1e-6, "the same in both directions");
      const eq = a[0] === b[0] && a[1] === b[1];
      if (eq) S.assert(km === 0, "zero between equal positions");
      // spherical law of cosines
      const rad = (x) => (x * Math.PI) / 180;
      const c = Math.sin(rad(a[1])) * Math.sin(rad(b[1])) + Math.cos(rad(a[1])) * Math.cos(rad(b[1])) * Math.cos(rad(b[0] - a[0]));
      S.assert(Math.abs(km - 6371 * Math.acos(Math.min(1, Math.max(-1, c)))) < 0.5, "the great-circle distance");
      const bad = S.choose("bad", [[], [1], [1, 2, 3, 4]]);
      S.assert(!!S.sync(() => g.distanceBetweenPositionsInKm(bad, b)).error && !!S.sync(() => g.distanceBetweenPositionsInKm(a, bad)).error, "positions of other sizes are refused");
    },
  },
  distinct: {
    bounds: "two positions, 2 or 3 coordinates; feature collections of 0..2 features with or without time",
    reach: ["distinct", "same"],
    async run(S) {
      const g = load(S);
      const a = pos(S, "a", S.choose("d1", [2, 3])), b = pos(S, "b", S.choose("d2", [2, 3]));
      const r = g.areDistinctPositions(a, b);
      S.assert(S.iff(r, S.or(S.not(S.eq(a[0], b[0])), S.not(S.eq(a[1], b[1])))), "distinct in the plane");
      S.reach(S.decide(r) ? "distinct" : "same");
      const fs = [{ type: "Feature", geometry: null, properties: { a } }, { type: "Feature", geometry: { type: "Point", coordinates: b }, properties: null }].slice(0, S.choose("n", [0, 1, 2]));
      const at = S.choose("at", [null, new Date(5)]);
      const c = g.createFeatureCollection(fs, at);
      S.assert(c.type === "FeatureCollection" && c.features === fs && c.lastUpdated === at && Object.keys(c).length === 3, "features and time unchanged");
      const ok = S.choose("ok", [true, false]);
      S.assert(g.isValidGeoJson({ ok, fc: !ok }) === ok && g.isFeatureCollection({ ok: !ok, fc: ok }) === ok, "validity is what the validator says");
    },
  },
};
