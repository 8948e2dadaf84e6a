//! Calls the plugin's entry point as the host would: one JSON request per line on stdin,
//! one JSON answer per line in the file named by the first argument (the plugin writes to stdout).
use std::io::{BufRead, Write};

use serde_json::{json, Value};
use shim::plugin::proxies::{PluginSourceMapProxy, TransformPluginProgramMetadata};
use swc_core::common::comments::SingleThreadedComments;
use swc_core::common::sync::Lrc;
use swc_core::common::{FileName, Globals, Mark, SourceMap, GLOBALS};
use swc_core::ecma::ast::{Pass, Program};
use swc_core::ecma::codegen::text_writer::JsWriter;
use swc_core::ecma::codegen::{Config, Emitter};
use swc_core::ecma::parser::{EsSyntax, Parser, StringInput, Syntax};
use swc_core::ecma::transforms::base::{fixer::fixer, hygiene::hygiene, resolver};

fn run(v: &Value) -> Value {
    let text = |k: &str| v.get(k).and_then(|x| x.as_str()).map(|s| s.to_string());
    let cm: Lrc<SourceMap> = Default::default();
    let globals = Globals::new();
    GLOBALS.set(&globals, || {
        let fm = cm.new_source_file(Lrc::new(FileName::Anon), text("src").unwrap());
        let comments = SingleThreadedComments::default();
        let mut parser = Parser::new(Syntax::Es(EsSyntax::default()), StringInput::from(&*fm), Some(&comments));
        let mut program = Program::Script(parser.parse_script().expect("source"));
        let (um, tm) = (Mark::new(), Mark::new());
        resolver(um, tm, false).process(&mut program);
        if v.get("plain").is_none() {
            let metadata = TransformPluginProgramMetadata {
                comments: if v.get("nocomments").is_some() { None } else { Some(comments.clone()) },
                source_map: PluginSourceMapProxy(cm.clone()),
                unresolved_mark: um,
                filename: text("file"),
                config: text("config"),
            };
            program = plug::process(program, metadata);
        }
        let dbg = {
            let (lead, trail) = comments.borrow_all();
            let v: Vec<_> = trail.iter().chain(lead.iter()).flat_map(|(_, c)| c.iter().cloned()).collect();
            v.iter().find_map(|c| c.text.strip_prefix("__coverage_data_json_comment__::").map(|s| s.to_string()))
        };
        hygiene().process(&mut program);
        fixer(Some(&comments)).process(&mut program);
        let mut buf = vec![];
        Emitter { cfg: Config::default(), cm: cm.clone(), comments: Some(&comments), wr: JsWriter::new(cm.clone(), "\n", &mut buf, None) }
            .emit_program(&program)
            .expect("emit");
        json!({ "code": String::from_utf8(buf).unwrap(), "dbg": dbg })
    })
}

fn main() {
    let mut out = std::io::BufWriter::new(std::fs::File::create(std::env::args().nth(1).expect("answers")).unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        if line.is_empty() {
            continue;
        }
        let v: Value = serde_json::from_str(&line).expect("request");
        let a = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&v))).unwrap_or_else(|e| {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
            json!({ "panic": m.unwrap_or_default() })
        });
        writeln!(out, "{}", a).unwrap();
    }
}
