//! The transform as swc runs it: parse, resolver, [TypeScript strip], instrumentation,
//! [TypeScript strip, JSX], hygiene, fixer, code generation.
use serde_json::{json, Value};

use swc_core::common::comments::SingleThreadedComments;
use swc_core::common::sync::Lrc;
use swc_core::common::{FileName, Globals, Mark, SourceMap, GLOBALS};
use swc_core::ecma::ast::{EsVersion, Pass, Program};
use swc_core::ecma::codegen::text_writer::JsWriter;
use swc_core::ecma::codegen::{Config, Emitter};
use swc_core::ecma::parser::{EsSyntax, Parser, StringInput, Syntax, TsSyntax};
use swc_core::ecma::transforms::base::{fixer::fixer, hygiene::hygiene, resolver};
use swc_core::ecma::transforms::react;
use swc_core::ecma::transforms::typescript::strip;
use swc_core::ecma::visit::visit_mut_pass;
use swc_coverage_instrument::{create_coverage_instrumentation_visitor, InstrumentOptions};

#[derive(Clone)]
pub struct Req {
    pub src: String,
    pub file: String,
    pub mode: String,
    pub opts: InstrumentOptions,
    pub plain: bool,
}

pub fn parse_req(v: &Value) -> Req {
    let opts = match v.get("opts") {
        Some(o) if !o.is_null() => serde_json::from_value(o.clone()).expect("options"),
        _ => Default::default(),
    };
    Req {
        src: v["src"].as_str().unwrap().to_string(),
        file: v.get("file").and_then(|f| f.as_str()).unwrap_or("file.js").to_string(),
        mode: v.get("mode").and_then(|f| f.as_str()).unwrap_or("script").to_string(),
        plain: v.get("plain").and_then(|f| f.as_bool()).unwrap_or(false),
        opts,
    }
}

fn syntax(mode: &str) -> Syntax {
    if mode.starts_with("ts") {
        Syntax::Typescript(TsSyntax { tsx: mode.starts_with("tsx"), decorators: true, ..Default::default() })
    } else {
        Syntax::Es(EsSyntax { jsx: mode.starts_with("jsx"), decorators: true, explicit_resource_management: true, import_attributes: true, auto_accessors: true, ..Default::default() })
    }
}

fn emit(cm: &Lrc<SourceMap>, comments: &SingleThreadedComments, program: &Program) -> String {
    let mut buf = vec![];
    {
        let mut e = Emitter {
            cfg: Config::default(),
            cm: cm.clone(),
            comments: Some(comments),
            wr: JsWriter::new(cm.clone(), "\n", &mut buf, None),
        };
        e.emit_program(program).expect("emit");
    }
    String::from_utf8(buf).expect("utf8")
}

/// -> (code, debug JSON, parse error)
pub fn transform(r: &Req) -> Result<(String, Option<String>), String> {
    let cm: Lrc<SourceMap> = Default::default();
    let globals = Globals::new();
    GLOBALS.set(&globals, || {
        let fm = cm.new_source_file(Lrc::new(FileName::Custom(r.file.clone())), r.src.clone());
        let comments = SingleThreadedComments::default();
        let mut parser = Parser::new(syntax(&r.mode), StringInput::from(&*fm), Some(&comments));
        let module = r.mode.ends_with("module") || r.mode.starts_with("ts") || r.mode.starts_with("jsx");
        let mut program = if module {
            Program::Module(parser.parse_module().map_err(|e| format!("{:?}", e))?)
        } else {
            Program::Script(parser.parse_script().map_err(|e| format!("{:?}", e))?)
        };
        let errs = parser.take_errors();
        if !errs.is_empty() {
            return Err(format!("{:?}", errs));
        }
        let um = Mark::new();
        let tm = Mark::new();
        let ts = r.mode.starts_with("ts");
        let mut pass = resolver(um, tm, ts);
        pass.process(&mut program);
        if r.mode.starts_with("ts") && r.mode.contains("early") {
            strip(um, tm).process(&mut program);
        }
        if !r.plain {
            let visitor = create_coverage_instrumentation_visitor(
                cm.clone(),
                comments.clone(),
                r.opts.clone(),
                r.file.clone(),
            );
            program.mutate(&mut visit_mut_pass(visitor));
        }
        // the debug comment hangs on a fresh dummy position: look at all comments there are
        let dbg = {
            let (lead, trail) = comments.borrow_all();
            let mut v: Vec<_> = trail.iter().chain(lead.iter()).flat_map(|(_, c)| c.iter().cloned()).collect();
            v.sort_by(|a, b| a.text.cmp(&b.text));
            v
        };
        let dbg = dbg
            .iter()
            .find_map(|c| c.text.strip_prefix("__coverage_data_json_comment__::").map(|s| s.to_string()));
        if ts && !r.mode.contains("early") && !r.mode.contains("keep") {
            strip(um, tm).process(&mut program);
        }
        if (r.mode.starts_with("tsx") || r.mode.starts_with("jsx")) && !r.mode.contains("keep") {
            react::react::<SingleThreadedComments>(
                cm.clone(),
                Some(comments.clone()),
                react::Options { runtime: Some(react::Runtime::Classic), ..Default::default() },
                tm,
                um,
            )
            .process(&mut program);
        }
        hygiene().process(&mut program);
        fixer(Some(&comments)).process(&mut program);
        Ok((emit(&cm, &comments, &program), dbg))
    })
}

fn reparse(code: &str, mode: &str, module: bool) -> Option<String> {
    let syn = if mode.contains("keep") { syntax(mode) } else { Syntax::Es(EsSyntax { jsx: true, decorators: true, explicit_resource_management: true, import_attributes: true, auto_accessors: true, ..Default::default() }) };
    let cm: Lrc<SourceMap> = Default::default();
    let fm = cm.new_source_file(Lrc::new(FileName::Custom("out.js".into())), code.to_string());
    let mut parser = Parser::new(syn, StringInput::from(&*fm), None);
    let _ = EsVersion::Es2022;
    let e = if module { parser.parse_module().err() } else { parser.parse_script().err() };
    if let Some(e) = e {
        return Some(format!("{:?}", e));
    }
    let errs = parser.take_errors();
    if errs.is_empty() { None } else { Some(format!("{:?}", errs)) }
}

fn answer(r: &Req) -> Value {
    match transform(r) {
        Ok((code, dbg)) => {
            let module = r.mode.ends_with("module") || r.mode.starts_with("ts") || r.mode.starts_with("jsx");
            let bad = reparse(&code, &r.mode, module);
            let mut v = json!({ "code": code });
            if let Some(d) = dbg {
                v["dbg"] = Value::String(d);
            }
            if let Some(b) = bad {
                v["badout"] = Value::String(b);
            }
            v
        }
        Err(e) => json!({ "parse_error": e }),
    }
}

pub fn run(v: &Value) -> Value {
    answer(&parse_req(v))
}

/// A history of transforms within this process, on this thread (or each on its own thread).
pub fn run_history(v: &Value) -> Value {
    let reqs: Vec<Req> = v["steps"].as_array().unwrap().iter().map(parse_req).collect();
    let threaded = v.get("threads").and_then(|t| t.as_bool()).unwrap_or(false);
    let outs: Vec<Value> = if threaded {
        let hs: Vec<_> = reqs
            .into_iter()
            .map(|r| std::thread::Builder::new().stack_size(32 << 20).spawn(move || answer(&r)).unwrap())
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| json!({"panic": "thread"}))).collect()
    } else {
        reqs.iter().map(answer).collect()
    };
    json!({ "outs": outs })
}

pub fn run_opts(v: &Value) -> Value {
    let text = v["text"].as_str().unwrap();
    match serde_json::from_str::<InstrumentOptions>(text) {
        Ok(o) => json!({ "opts": serde_json::to_value(&o).unwrap(), "is_default": o == InstrumentOptions::default() }),
        Err(e) => json!({ "error": e.to_string() }),
    }
}
