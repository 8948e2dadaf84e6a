//! istanbul-oxide: file coverages, coverage maps, summaries, JSON.
use indexmap::IndexMap;
use istanbul_oxide::verif_hooks::{percent, totals, CoveragePercentage, CoverageSummary, Totals};
use istanbul_oxide::{Branch, BranchType, CoverageMap, FileCoverage, Function, Range, SourceMap};
use serde_json::{json, Value};

fn u(v: &Value) -> u32 {
    v.as_u64().unwrap() as u32
}

fn range(v: &Value) -> Range {
    Range::new(u(&v[0]), u(&v[1]), u(&v[2]), u(&v[3]))
}

fn counts(v: &Value) -> Vec<u32> {
    v.as_array().unwrap().iter().map(u).collect()
}

fn text(v: &Value) -> Option<String> {
    v.as_str().map(|s| s.to_string())
}

const TYPES: [BranchType; 5] = [
    BranchType::If,
    BranchType::BinaryExpr,
    BranchType::CondExpr,
    BranchType::Switch,
    BranchType::DefaultArg,
];

fn type_index(t: &BranchType) -> usize {
    TYPES.iter().position(|x| x == t).unwrap()
}

fn source_map(v: &Value) -> Option<SourceMap> {
    if v.is_null() {
        return None;
    }
    let strings = |v: &Value| v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
    Some(SourceMap {
        version: u(&v["version"]),
        file: text(&v["file"]),
        source_root: text(&v["sourceRoot"]),
        sources: strings(&v["sources"]),
        sources_content: v["sourcesContent"].as_array().map(|a| a.iter().map(text).collect()),
        names: strings(&v["names"]),
        mappings: v["mappings"].as_str().unwrap().to_string(),
    })
}

fn source_map_out(m: &Option<SourceMap>) -> Value {
    match m {
        None => Value::Null,
        Some(m) => json!({"version": m.version, "file": m.file, "sourceRoot": m.source_root, "sources": m.sources,
                          "sourcesContent": m.sources_content, "names": m.names, "mappings": m.mappings}),
    }
}

/// entries are [key, ...] lists, in order
pub fn file(v: &Value) -> FileCoverage {
    let mut f = FileCoverage::empty(v["path"].as_str().unwrap().to_string(), !v["bT"].is_null());
    f.all = v["all"].as_bool().unwrap();
    for e in v["s"].as_array().unwrap() {
        f.statement_map.insert(u(&e[0]), range(&e[1]));
        f.s.insert(u(&e[0]), u(&e[2]));
    }
    for e in v["f"].as_array().unwrap() {
        f.fn_map.insert(
            u(&e[0]),
            Function { name: e[3].as_str().unwrap().to_string(), decl: range(&e[4]), loc: range(&e[1]), line: u(&e[5]) },
        );
        f.f.insert(u(&e[0]), u(&e[2]));
    }
    for e in v["b"].as_array().unwrap() {
        f.branch_map.insert(
            u(&e[0]),
            Branch {
                loc: if e[4].is_null() { None } else { Some(range(&e[4])) },
                branch_type: TYPES[u(&e[3]) as usize],
                locations: e[1].as_array().unwrap().iter().map(range).collect(),
                line: if e[5].is_null() { None } else { Some(u(&e[5])) },
            },
        );
        f.b.insert(u(&e[0]), counts(&e[2]));
    }
    if let Some(a) = v["bT"].as_array() {
        let m: IndexMap<u32, Vec<u32>> = a.iter().map(|e| (u(&e[0]), counts(&e[1]))).collect();
        f.b_t = Some(m);
    }
    f.input_source_map = source_map(&v["ism"]);
    f
}

fn range_out(r: &Range) -> Value {
    json!([r.start.line, r.start.column, r.end.line, r.end.column])
}

/// every key of either map is listed, so that disagreeing keys show
fn keys<A, B>(a: &IndexMap<u32, A>, b: &IndexMap<u32, B>) -> Vec<u32> {
    let mut k: Vec<u32> = a.keys().cloned().collect();
    for x in b.keys() {
        if !a.contains_key(x) {
            k.push(*x);
        }
    }
    k
}

pub fn file_out(f: &FileCoverage) -> Value {
    let s: Vec<Value> = keys(&f.s, &f.statement_map)
        .iter()
        .map(|k| json!([k, f.statement_map.get(k).map(range_out), f.s.get(k)]))
        .collect();
    let fs: Vec<Value> = keys(&f.f, &f.fn_map)
        .iter()
        .map(|k| {
            let m = f.fn_map.get(k);
            json!([k, m.map(|m| range_out(&m.loc)), f.f.get(k), m.map(|m| m.name.clone()), m.map(|m| range_out(&m.decl)), m.map(|m| m.line)])
        })
        .collect();
    let b: Vec<Value> = keys(&f.b, &f.branch_map)
        .iter()
        .map(|k| {
            let m = f.branch_map.get(k);
            json!([
                k,
                m.map(|m| m.locations.iter().map(range_out).collect::<Vec<_>>()),
                f.b.get(k),
                m.map(|m| type_index(&m.branch_type)),
                m.and_then(|m| m.loc.as_ref().map(range_out)),
                m.and_then(|m| m.line)
            ])
        })
        .collect();
    let order = json!([
        f.statement_map.keys().collect::<Vec<_>>(),
        f.fn_map.keys().collect::<Vec<_>>(),
        f.branch_map.keys().collect::<Vec<_>>()
    ]);
    json!({
        "path": f.path, "all": f.all, "s": s, "f": fs, "b": b, "order": order,
        "bT": f.b_t.as_ref().map(|m| m.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>()),
        "ism": source_map_out(&f.input_source_map)
    })
}

fn total_out(t: &Totals) -> Value {
    let pct = match t.pct {
        CoveragePercentage::Unknown => Value::Null,
        CoveragePercentage::Value(v) => json!(v as f64),
    };
    json!([t.covered, t.total, t.skipped, pct])
}

fn summary_out(s: &CoverageSummary) -> Value {
    let (l, st, f, b, t) = totals(s);
    json!({"lines": total_out(&l), "statements": total_out(&st), "functions": total_out(&f), "branches": total_out(&b),
           "true": t.as_ref().map(total_out), "empty": s.is_empty()})
}

fn view(f: &FileCoverage) -> Value {
    let lc: Vec<Value> = f.get_line_coverage().iter().map(|(k, v)| json!([k, v])).collect();
    let bl: Vec<Value> = f.get_branch_coverage_by_line().iter().map(|(k, v)| json!([k, format!("{:?}", v)])).collect();
    json!({"lc": lc, "un": f.get_uncovered_lines(), "bl": bl, "sum": summary_out(&f.to_summary())})
}

fn map_out(m: &CoverageMap) -> Value {
    let files: Vec<String> = m.get_files().into_iter().cloned().collect();
    let entries: Vec<Value> = files.iter().map(|p| m.get_coverage_for_file(p).map(file_out).unwrap_or(Value::Null)).collect();
    json!({"files": files, "entries": entries, "sum": summary_out(&m.get_coverage_summary())})
}

/// {regs, nmap, ops, probe: [paths]} -> registers, maps and views after the operations
pub fn run(q: &Value) -> Value {
    let mut regs: Vec<FileCoverage> = q["regs"].as_array().unwrap().iter().map(file).collect();
    let mut maps: Vec<CoverageMap> = (0..q["nmap"].as_u64().unwrap())
        .map(|i| if i % 2 == 0 { CoverageMap::new() } else { CoverageMap::default() })
        .collect();
    for o in q["ops"].as_array().unwrap() {
        let ix = |k: &str| o[k].as_u64().unwrap() as usize - 1;
        match o["o"].as_str().unwrap() {
            "merge" => {
                let x = regs[ix("j")].clone();
                regs[ix("i")].merge(&x);
                if ix("i") != ix("j") {
                    assert!(regs[ix("j")] == x);
                }
            }
            "reset" => regs[ix("i")].reset_hits(),
            "copy" => regs[ix("i")] = FileCoverage::from_file_coverage(&regs[ix("j")]),
            "madd" => maps[ix("m")].add_coverage_for_file(&regs[ix("i")]),
            "mof" => {
                let s: Vec<&FileCoverage> =
                    o["s"].as_array().unwrap().iter().map(|x| &regs[x.as_u64().unwrap() as usize - 1]).collect();
                maps[ix("m")] = CoverageMap::from_iter(s);
            }
            "mmerge" => {
                let x = maps[ix("n")].clone();
                maps[ix("m")].merge(&x);
            }
            "mfilter" => {
                let keep: Vec<String> = o["p"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
                maps[ix("m")].filter(|c| keep.contains(&c.path));
            }
            other => panic!("unknown operation {}", other),
        }
    }
    let mut two = regs[0].to_summary();
    two.merge(&CoverageSummary::from(&regs[regs.len() - 1].to_summary()));
    let probe: Vec<Value> = maps
        .iter()
        .map(|m| {
            let a: Vec<bool> =
                q["probe"].as_array().unwrap().iter().map(|p| m.get_coverage_for_file(p.as_str().unwrap()).is_some()).collect();
            json!(a)
        })
        .collect();
    json!({
        "regs": regs.iter().map(file_out).collect::<Vec<_>>(),
        "v": regs.iter().map(view).collect::<Vec<_>>(),
        "maps": maps.iter().map(map_out).collect::<Vec<_>>(),
        "two": summary_out(&two),
        "probe": probe
    })
}

/// {file, accept: JSON text or null} -> its JSON text, what reading that gives, and what reading accept gives
pub fn run_json(q: &Value) -> Value {
    let f = file(&q["file"]);
    let text = serde_json::to_string(&f).unwrap();
    let back: Result<FileCoverage, _> = serde_json::from_str(&text);
    let (same, back) = match &back {
        Ok(b) => (*b == f, file_out(b)),
        Err(e) => (false, json!(e.to_string())),
    };
    let via: Result<FileCoverage, _> = serde_json::from_value(serde_json::from_str(&text).unwrap());
    let accepted: Vec<Value> = q["accept"]
        .as_array()
        .unwrap()
        .iter()
        .map(|t| match serde_json::from_str::<FileCoverage>(t.as_str().unwrap()) {
            Ok(b) => file_out(&b),
            Err(e) => json!(e.to_string()),
        })
        .collect();
    json!({"text": text, "same": same, "back": back, "via": via.map(|b| b == f).unwrap_or(false), "accepted": accepted,
           "types": TYPES.iter().map(|t| t.to_string()).collect::<Vec<_>>(), "value": file_out(&f)})
}

/// {t, c: [..]} -> percentages; also those a merged summary reports
pub fn run_percent(q: &Value) -> Value {
    let t = u(&q["t"]);
    let mut p = vec![];
    let mut m = vec![];
    for c in q["c"].as_array().unwrap() {
        let c = u(c);
        p.push(percent(c, t) as f64);
        let h = Totals { total: t - t / 2, covered: c - c / 2, skipped: 0, pct: CoveragePercentage::Unknown };
        let g = Totals { total: t / 2, covered: c / 2, skipped: 0, pct: CoveragePercentage::Unknown };
        let mut s = CoverageSummary::new(h, h, h, h, Some(h));
        s.merge(&CoverageSummary::new(g, g, g, g, Some(g)));
        let (a, b, cc, d, e) = totals(&s);
        let all: Vec<Value> = [a, b, cc, d, e.unwrap()].iter().map(total_out).collect();
        m.push(json!(all));
    }
    json!({"p": p, "m": m})
}
