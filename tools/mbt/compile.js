// argv[2]: one JSON text per line, each a module; argv[3]: null for each that compiles, else the error
const fs = require("fs"), vm = require("vm");
const out = [];
for (const line of fs.readFileSync(process.argv[2], "utf8").split("\n")) {
  if (!line) continue;
  let e = null;
  try { new vm.SourceTextModule(JSON.parse(line)); } catch (x) { e = String(x).slice(0, 200); }
  out.push(JSON.stringify(e));
}
fs.writeFileSync(process.argv[3], out.join("\n") + "\n");
