// The environment of the programs of the specification: answers their questions as a run of the
// specification prescribes and logs what they do.  ndjson in, ndjson out:
// {p, orig, code, file, cv, runs: [[[id, v], ...], ...]} -> {p, orig: [...], inst: [...], cov}
"use strict";
const fs = require("fs");
const XOBJ = { x: "X" };
const ABORT = { abort: 1 };
let script = [], at = 0, log = [], div = null;

function tag(v) {
  if (v === true) return "T";
  if (v === false) return "F";
  if (v === null) return "N";
  if (v === undefined) return "U";
  if (v === 0) return Object.is(v, -0) ? "nz" : "zero";
  if (v === "") return "es";
  if (typeof v === "number" && v !== v) return "nan";
  if (v === 0n) return "bz";
  if (Array.isArray(v)) return v.length ? "O" : "ea";
  if (typeof v === "object" && v === XOBJ) return "X";
  if (v === 1) return "one";
  if (v === -1) return "m1";
  if (v === "object") return "obj";
  if (v === "0") return "s0";
  if (v instanceof TypeError) return "TE";
  if (v instanceof ReferenceError || v instanceof SyntaxError || v instanceof RangeError) return "ERR:" + v.message;
  if (typeof v === "object" && Object.getPrototypeOf(v) === Object.prototype && Object.getOwnPropertyNames(v).length === 0) return "eo";
  return "O";
}
function ask(id) {
  if (at < script.length && script[at][0] === id) {
    const v = script[at++][1];
    log.push([id, v]);
    if (v === "X") throw XOBJ;
    return v;
  }
  if (!div) div = "asked " + id + " where the model " + (at < script.length ? "asks " + script[at][0] : "asks nothing");
  at = script.length;
  throw ABORT;
}
class Plain {}
const OBJ = [   // truthy and not trivial, each a value equal to nothing else
  () => ({ x: 1 }), () => [0], () => () => 1, () => Object.create({}), () => new Plain(), () => new Boolean(false), () => [undefined],
  () => Object.create(null, { toString: { value: () => "zz" } }), () => new Map(), () => /r/, () => new Date(0), () => ({ a: undefined }),
  () => ({ constructor: 1 }), () => [[]], () => function () {}, () => new Proxy([1], {}), () => new String(""), () => new (class extends Array {})(1),
];
let rot = 0;
const VAL = {
  T: () => true, F: () => false, N: () => null, U: () => undefined, zero: () => 0, es: () => "", nan: () => NaN,
  nz: () => -0, bz: () => 0n, ea: () => (rot++ % 2 ? [] : new Array(0)), eo: () => (rot++ % 2 ? {} : new Object()),
  one: () => 1, s0: () => "0", O: () => OBJ[rot++ % OBJ.length](),
};
const bag = () => new Proxy(function () {}, {   // a value that can be called and looked into at will
  get: (t, k) => (k === Symbol.toPrimitive ? () => "A" : k === Symbol.iterator || k === Symbol.isConcatSpreadable ? undefined : k === "prototype" ? t.prototype : bag()),
  apply: () => bag(), construct: () => ({ c: 1 }), deleteProperty: () => true,
});
const holder = (v) => new Proxy({}, { get: (t, k) => (k === Symbol.iterator ? () => [v][Symbol.iterator]() : v) });
const given = (np, id) => { const v = ask(id) === "U" ? undefined : true; return np === 2 ? holder(v) : v; };
function drain(g) {
  let r = g.next();
  while (!r.done) {
    log.push([r.value[0], tag(r.value[1])]);
    r = g.next(undefined);
  }
  return { g: 1 };
}
const G = globalThis;
G.$V = undefined;
G.$R = Object.freeze({ x: 0 });
G.$B = class {};
G.$A = bag();
G.$Q = () => ({ n: 1, z: 0, s: "q", u: undefined });
G.$Z = holder;
G.$D = (id) => VAL[ask(id)]();
G.$P = (id) => (ask(id) === "U" ? undefined : true);
G.$N = (id) => (ask(id) === "N" ? null : bag());
G.$L = (id, v) => { log.push([id, tag(v)]); return v; };
G.$T = () => ({ z: 1 });
G.$G = drain;
G.$F = (id, f) => f;
G.$I = (id) => {
  let n = +ask(id);
  return {
    [Symbol.iterator]() { return this; },
    next() { return n-- > 0 ? { done: false, value: 1 } : { done: true, value: undefined }; },
    return() { log.push([id, "close"]); return {}; },
  };
};
G.$I2 = (id, arg) => {
  let n = +ask(id);
  return {
    [Symbol.iterator]() { return this; },
    next() { return n-- > 0 ? { done: false, value: given(2, arg) } : { done: true, value: undefined }; },
    return() { log.push([id, "close"]); return {}; },
  };
};
G.$J = (id) => { const n = +ask(id), o = {}; for (let i = 0; i < n; i++) o["k" + i] = 1; return o; };
G.$C = (u, f, np, gen) => {
  for (let n = +ask(u); n > 0; n--) {
    let r = np ? f(given(np, u)) : f();
    if (gen) r = drain(r);
    log.push([u, tag(r)]);
  }
};
G.$K = (u, C) => {
  for (let n = +ask(u); n > 0; n--) { new C(holder(true)); log.push([u, "O"]); }
};
G.$M = (u, o, key, kind, np) => {
  for (let n = +ask(u); n > 0; n--) {
    let r;
    if (kind === "g") r = o[key];
    else if (kind === "s") o[key] = np ? given(np, u) : true;
    else if (np) r = o[key](given(np, u));
    else r = o[key](true);
    if (kind === "d") r = drain(r);
    log.push([u, tag(r)]);
  }
};

function run(fn, ds, nth) {
  script = ds; at = 0; log = []; div = null; rot = nth; G.$V = undefined;
  let c;
  try { fn(); c = ["n", ""]; } catch (e) { c = ["thr", e === ABORT ? "ABORT" : tag(e)]; }
  if (!div && at < script.length) div = "ends where the model asks " + script[at][0];
  return { l: log, c, div };
}
function compile(src) {
  try { return [new Function(src), null]; } catch (e) { return [null, String(e)]; }
}
const pick = (o) => { const r = {}; for (const k in o) if (Array.isArray(o[k]) ? o[k].some((x) => x !== 0) : o[k] !== 0) r[k] = o[k]; return r; };

const out = [];
for (const line of fs.readFileSync(0, "utf8").split("\n")) {
  if (!line) continue;
  const q = JSON.parse(line);
  const res = { p: q.p, orig: [], inst: [] };
  const [fo, eo] = q.orig === null ? [null, null] : compile(q.orig);
  const [fi, ei] = compile(q.code);
  res.eo = eo; res.ei = ei;
  if (fo) for (const ds of q.runs) res.orig.push(run(fo, ds, 5 * q.p + 3 * res.orig.length));
  if (fi) {
    const cv = q.cv || "__coverage__";
    for (let i = 0; i < q.runs.length; i++) {
      delete G[cv];
      const fn = i ? compile(q.code)[0] : fi;
      const r = run(fn, q.runs[i], 5 * q.p + 3 * i);
      const reg = G[cv];
      const c = reg && reg[q.file];
      if (!c) r.nocov = reg ? Object.keys(reg) : true;
      else {
        if (!i) res.cov = { path: c.path, statementMap: c.statementMap, fnMap: c.fnMap, branchMap: c.branchMap,
          keys: Object.keys(c), s: Object.keys(c.s), f: Object.keys(c.f),
          b: Object.fromEntries(Object.entries(c.b).map(([k, v]) => [k, v.length])),
          bT: c.bT && Object.fromEntries(Object.entries(c.bT).map(([k, v]) => [k, v.length])), n: Object.keys(reg).length };
        r.s = pick(c.s); r.f = pick(c.f); r.b = pick(c.b); r.t = c.bT ? pick(c.bT) : {};
      }
      res.inst.push(r);
    }
  }
  out.push(JSON.stringify(res));
  if (out.length >= 500) { fs.writeSync(1, out.join("\n") + "\n"); out.length = 0; }
}
if (out.length) fs.writeSync(1, out.join("\n") + "\n");
