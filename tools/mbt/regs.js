// argv[2]: a file with one JSON text per line: the code of an instrumented script; argv[3]: where the answers go.
// Only the coverage function of the file is called; the answer is what it registers.
const fs = require("fs");
const known = new Set(Object.getOwnPropertyNames(globalThis));
const out = [];
for (const line of fs.readFileSync(process.argv[2], "utf8").split("\n")) {
  if (!line) continue;
  const code = JSON.parse(line);
  let a;
  try {
    const name = /\bcov_\d+\b/.exec(code)[0];
    new Function("return " + name + "();\n" + code)();
    a = { g: {} };
    for (const k of Object.getOwnPropertyNames(globalThis)) {
      if (known.has(k)) continue;
      a.g[k] = globalThis[k];
      delete globalThis[k];
    }
    a = JSON.stringify(a);
  } catch (e) { a = JSON.stringify({ error: String(e && e.stack || e).slice(0, 300) }); }
  out.push(a);
}
fs.writeFileSync(process.argv[3], out.join("\n") + "\n");
