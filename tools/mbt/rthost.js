// Runs histories of loads, calls and resets in fresh realms (C10).
// argv[2]: a file with {codes: {"f|v|c": code}, cvs, files, nrealm, jobs: [{ops, mode}]}; answers are written to argv[3], one per line
const fs = require("fs"), vm = require("vm");
const q = JSON.parse(fs.readFileSync(process.argv[2], "utf8"));

function realm() {
  const ctx = vm.createContext({});
  const r = { ctx, g: vm.runInContext("this", ctx), probes: [] };
  r.keys = new Set(Object.getOwnPropertyNames(r.g));
  return r;
}

async function run(job) {
  const realms = [];
  for (let i = 0; i < q.nrealm; i++) realms.push(realm());
  const ins = [];
  let expect = [];
  const marker = { hash: "7", path: q.foreign, s: { 0: 5 }, deep: [1, 2] };
  realms.forEach((r) => {
    r.g.reg = (f) => { ins.push(f); };
    r.g.probe = () => {
      const [c, f] = expect.shift();
      const o = r.g[c] && Object.prototype.hasOwnProperty.call(r.g[c], f) && r.g[c][f];
      r.probes.push(!!o && o.path === f && typeof o.hash === "string" && o.s["0"] >= 1);
    };
    r.keys.add("reg"); r.keys.add("probe");
  });
  for (const o of job.ops) {
    const r = realms[o.r - 1];
    if (o.o === "load" || o.o === "bundle") {
      const fs_ = o.o === "load" ? [o.f] : [o.f, o.g];
      const code = fs_.map((f) => q.codes[f + "|" + o.v + "|" + o.c]).join("\n");
      expect = fs_.map((f) => [o.c, f]);
      if (job.mode === "fn") vm.runInContext("(function () {\n" + code + "\n})", r.ctx)();
      else if (job.mode === "strict") vm.runInContext('(function () {\n"use strict";\n' + code + "\n})", r.ctx)();
      else if (job.mode === "script") vm.runInContext(code, r.ctx);
      else {
        const m = new vm.SourceTextModule(code, { context: r.ctx });
        await m.link(() => { throw new Error("no imports"); });
        await m.evaluate();
      }
      if (expect.length) return { error: "probe did not run" };
    } else if (o.o === "call") ins[o.i - 1]();
    else if (o.o === "wipe") delete r.g[o.c];
    else if (o.o === "foreign") (r.g[o.c] = r.g[o.c] || {})[q.foreign] = JSON.parse(JSON.stringify(marker));
  }
  return {
    realms: realms.map((r) => ({
      extra: Object.getOwnPropertyNames(r.g).filter((k) => !r.keys.has(k) && !q.cvs.includes(k) && !(job.mode === "script" && /^cov_\d+$/.test(k))),
      probes: r.probes,
      cv: Object.fromEntries(q.cvs.map((c) => [c, r.g[c] === undefined ? null : Object.fromEntries(
        Object.keys(r.g[c]).map((p) => [p, p === q.foreign ? JSON.stringify(r.g[c][p]) === JSON.stringify(marker)
          : { path: r.g[c][p].path, hash: r.g[c][p].hash, s: Object.values(r.g[c][p].s), f: Object.values(r.g[c][p].f), map: Object.keys(r.g[c][p].statementMap).length }]))])),
    })),
  };
}

(async () => {
  const out = [];
  for (const j of q.jobs) {
    let a;
    try { a = await run(j); } catch (e) { a = { error: String(e && e.stack || e).slice(0, 600) }; }
    out.push(JSON.stringify(a));
  }
  fs.writeFileSync(process.argv[3], out.join("\n") + "\n");
})();
