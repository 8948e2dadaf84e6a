// argv[2]: one {mods: [code], mode} per line; argv[3]: {log, ns} for each.  Modules import each other as "./1", "./2", ...
const fs = require("fs"), vm = require("vm");
process.on("unhandledRejection", (e) => { log.push(["rejection", String(e)]); });
let log, ctx, used = 0;
function fresh() {
  const show = (x) => (x === undefined ? "undef" : x === "changed" ? x : typeof x === "function" ? "ok"
    : x && typeof x === "object" && x[Symbol.toStringTag] === "Module" ? "ns" : x === 1 ? "ok" : String(x));
  const g = { log: (...a) => log.push(a) };
  ctx = vm.createContext(g);
  const E = (e) => (/ReferenceError/.test(String(e)) ? "dead" : String(e));
  Object.assign(g, { P: (...a) => { log.push(a); }, W: show, N: (m) => { log.push([m, "init", ""]); return 1; }, E, W: show });
  return show;
}
let show;
async function run(job) {
  if (used++ % 400 === 0) show = fresh();
  log = [];
  if (job.mode === "script") {
    vm.runInContext(job.mods[0], ctx);
    return { log };
  }
  const mods = job.mods.map((c, i) => new vm.SourceTextModule(c, { context: ctx, identifier: "m" + (i + 1) }));
  const link = (s) => mods[+s.slice(2) - 1];
  await mods[0].link(link);
  await mods[0].evaluate();
  const ns = mods.map((m) => Object.fromEntries(Object.keys(m.namespace).sort().map((k) => [k, show(m.namespace[k])])));
  return { log, ns };
}
(async () => {
  const out = [];
  for (const line of fs.readFileSync(process.argv[2], "utf8").split("\n")) {
    if (!line) continue;
    let a;
    try { a = await run(JSON.parse(line)); } catch (e) { a = { error: String(e && e.stack || e).slice(0, 300) }; }
    out.push(JSON.stringify(a));
  }
  fs.writeFileSync(process.argv[3], out.join("\n") + "\n");
})();
