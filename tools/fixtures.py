#!/usr/bin/env python3
"""Runs /repo/spec/fixtures/*.yaml (the repository's own fixtures, which need @swc/core and mocha,
absent here) through the harness.  A development aid used before and after fix: commits, no check."""
import yaml, json, subprocess, sys, glob, os
H = "/verif/target/debug/covh"
cases = []
for f in sorted(glob.glob("/repo/spec/fixtures/*.yaml")):
    for doc in yaml.safe_load_all(open(f)):
        if not doc: continue
        for t in doc.get("tests") or [{}]:
            cases.append((os.path.basename(f), doc, t))
reqs = []
for i, (f, d, t) in enumerate(cases):
    io = dict(d.get("instrumentOpts") or {})
    esm = io.pop("esModules", None)
    if d.get("inputSourceMap"): io["inputSourceMap"] = d["inputSourceMap"]
    io["coverageVariable"] = io.get("coverageVariable", "__testing_coverage__")
    # default isModule: transformOptions.isModule ?? true
    mode = "script" if esm is False else "jsxmodule"
    reqs.append({"id": i, "src": d["code"], "file": "f.js", "mode": mode, "opts": io})
p = subprocess.run([H, "instr"], input="\n".join(json.dumps(r) for r in reqs), capture_output=True, text=True, timeout=300)
outs = [json.loads(l) for l in p.stdout.splitlines()]
jobs = []
for (f, d, t), o in zip(cases, outs):
    jobs.append({"file": f, "name": d.get("name"), "code": o.get("code"), "panic": o.get("panic"), "err": o.get("parse_error"), "opts": d.get("opts") or {}, "t": t, "cv": (d.get("instrumentOpts") or {}).get("coverageVariable", "__testing_coverage__")})
js = r'''
const jobs=JSON.parse(require('fs').readFileSync(0,'utf8'));const assert=require('assert');
(async()=>{let ok=0,bad=[];
for(const j of jobs){const tag=j.file+" / "+j.name+" / "+(j.t.name||'');
 if(j.panic||j.err){bad.push(tag+": "+(j.panic||j.err));continue}
 if(j.opts.generateOnly||j.opts.noCoverage){ok++;continue}
 try{
  let code=j.code.replace(/export default class/,'exports.default = class').replace(/export default function/,'exports.default = function').replace(/export default /,'exports.default = ').replace(/^export \{[^}]*\};?/mg,'').replace(/^export (const|let|var|class|function)/mg,'$1').replace(/^import .*$/mg,'');
  delete globalThis[j.cv];
  const AF=Object.getPrototypeOf(async()=>{}).constructor;
  const fn=new (j.opts.isAsync?AF:Function)('args','{ var exports={};\n var output;\n'+code+'\nreturn output;\n}');
  const out=await fn(j.t.args);
  const cov=globalThis[j.cv]; const c=cov[Object.keys(cov)[0]];
  const lines={};for(const k in c.s){const l=c.statementMap[k].start.line;if(!(l in lines)||lines[l]<c.s[k])lines[l]=c.s[k]}
  assert.deepEqual(out,j.t.out,'output');assert.deepEqual(lines,j.t.lines||{},'lines');
  assert.deepEqual(c.f,j.t.functions||{},'functions '+JSON.stringify(c.f));assert.deepEqual(c.b,j.t.branches||{},'branches '+JSON.stringify(c.b));
  assert.deepEqual(c.bT||{},j.t.branchesTrue||{},'bT');assert.deepEqual(c.s,j.t.statements||{},'statements '+JSON.stringify(c.s));ok++;
 }catch(e){bad.push(tag+": "+String(e.message).split('\n')[0])}
}
console.log('ok',ok,'bad',bad.length);bad.forEach(b=>console.log('  '+b));})();
'''
r = subprocess.run(["node", "-e", js], input=json.dumps(jobs), capture_output=True, text=True)
print(r.stdout, r.stderr[-2000:])
