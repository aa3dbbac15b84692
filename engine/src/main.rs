mod exec;
mod expr;
mod ll;
mod z3;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jarr(v: &[u64]) -> String {
    let s: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    format!("[{}]", s.join(","))
}

fn field<'a>(l: &'a str, k: &str) -> Option<&'a str> {
    let pat = format!("{}: ", k);
    let mut from = 0;
    while let Some(p) = l[from..].find(&pat) {
        let at = from + p;
        let ok = at == 0 || matches!(l.as_bytes()[at - 1], b'(' | b' ');
        if ok {
            let r = &l[at + pat.len()..];
            if let Some(q) = r.strip_prefix('"') {
                return q.find('"').map(|e| &q[..e]);
            }
            let e = r.find(|c| c == ',' || c == ')').unwrap_or(r.len());
            return Some(&r[..e]);
        }
        from = at + pat.len();
    }
    None
}
fn mref(s: &str) -> Option<u32> {
    s.strip_prefix('!').and_then(|x| x.parse().ok())
}

struct Cov<'a> {
    m: &'a ll::Module,
}
impl<'a> Cov<'a> {
    fn line(&self, id: u32) -> Option<&'static str> {
        self.m.meta.get(&id).map(|l| self.m.lines[*l])
    }
    /// scope -> (subprogram qualified name, file)
    fn scope(&self, mut id: u32) -> Option<(String, String)> {
        for _ in 0..64 {
            let l = self.line(id)?;
            if l.contains("DISubprogram(") {
                let name = field(l, "name")?.to_string();
                let file = self.file(mref(field(l, "file")?)?)?;
                let mut path = vec![name];
                let mut sc = field(l, "scope").and_then(mref);
                for _ in 0..16 {
                    let Some(s) = sc else { break };
                    let Some(sl) = self.line(s) else { break };
                    if let Some(n) = field(sl, "name") {
                        path.push(n.to_string());
                    }
                    sc = field(sl, "scope").and_then(mref);
                }
                path.reverse();
                return Some((path.join("::"), file));
            }
            id = field(l, "scope").and_then(mref)?;
        }
        None
    }
    fn file(&self, id: u32) -> Option<String> {
        let l = self.line(id)?;
        let f = field(l, "filename")?;
        let d = field(l, "directory").unwrap_or("");
        Some(if f.starts_with('/') || d.is_empty() { f.to_string() } else { format!("{}/{}", d, f) })
    }
}

fn main() {
    let th = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    let r = th.join();
    match r {
        Ok(c) => std::process::exit(c),
        Err(_) => std::process::exit(3),
    }
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let mut file = String::new();
    let mut harness = String::new();
    let mut out = String::new();
    let mut params = vec![];
    let mut time = 600.0f64;
    let mut paths = u64::MAX;
    let mut steps = 20_000_000u64;
    let mut qt = 30_000u32;
    let mut samples = 200usize;
    let mut covprefix = String::from("/repo/src");
    let mut dump = None;
    let mut dumpcap = 50u64;
    let mut shard = (0, 1, 0);
    let mut i = 1;
    while i < args.len() {
        let a = args[i].clone();
        let mut v = || {
            i += 1;
            args[i].clone()
        };
        match a.as_str() {
            "--harness" => harness = v(),
            "--out" => out = v(),
            "--param" => params = v().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            "--time" => time = v().parse().unwrap(),
            "--paths" => paths = v().parse().unwrap(),
            "--steps" => steps = v().parse().unwrap(),
            "--query-ms" => qt = v().parse().unwrap(),
            "--samples" => samples = v().parse().unwrap(),
            "--cov" => covprefix = v(),
            "--shard" => {
                let v: Vec<u64> = v().split('/').map(|s| s.parse().unwrap()).collect();
                shard = (v[0], v[1], v[2] as u32)
            }
            "--dump" => dump = Some(std::path::PathBuf::from(v())),
            "--dump-cap" => dumpcap = v().parse().unwrap(),
            _ => file = a,
        }
        i += 1;
    }
    let t0 = std::time::Instant::now();
    let text: &'static str = Box::leak(std::fs::read_to_string(&file).expect("read .ll").into_boxed_str());
    let m = ll::Module::load(text);
    let t_load = t0.elapsed().as_secs_f64();
    let mut e = exec::Exec::new(m, qt);
    e.params = params.clone();
    e.step_limit = steps;
    e.shard = shard;
    e.sample_cap = samples;
    if let Some(d) = dump {
        let _ = std::fs::create_dir_all(&d);
        e.queries_dump = Some((d, 0, dumpcap));
    }
    let t1 = std::time::Instant::now();
    let deadline = t1 + std::time::Duration::from_secs_f64(time);
    let res = e.run(&harness, paths, deadline);
    let wall = t1.elapsed().as_secs_f64();

    // coverage of the code under test
    let cov = Cov { m: &e.m };
    let mut lines: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let mut fns: BTreeSet<String> = BTreeSet::new();
    for (id, c) in e.cov.iter().enumerate() {
        if *c == 0 {
            continue;
        }
        let mut cur = Some(id as u32);
        for _ in 0..64 {
            let Some(k) = cur else { break };
            let Some(l) = cov.line(k) else { break };
            if !l.contains("DILocation(") {
                break;
            }
            if let Some(sc) = field(l, "scope").and_then(mref) {
                if let Some((name, file)) = cov.scope(sc) {
                    if file.starts_with(&covprefix) {
                        fns.insert(name);
                        if let Some(n) = field(l, "line").and_then(|x| x.parse::<u32>().ok()) {
                            lines.entry(file).or_default().insert(n);
                        }
                    }
                }
            }
            cur = field(l, "inlinedAt").and_then(mref);
        }
    }
    let status = match &res {
        Ok(()) => {
            if e.violations.is_empty() {
                "ok"
            } else {
                "violation"
            }
        }
        Err(_) => {
            if e.violations.is_empty() {
                "error"
            } else {
                "violation"
            }
        }
    };
    let mut o = String::new();
    let _ = write!(o, "{{\"harness\":{},\"status\":{},\"complete\":{},\"error\":{}", js(&harness), js(status), res.is_ok() && e.violations.len() < 12, js(res.err().as_deref().unwrap_or("")));
    let _ = write!(o, ",\"params\":{}", jarr(&params));
    let _ = write!(
        o,
        ",\"paths\":{},\"paths_panic\":{},\"paths_infeasible\":{},\"forks\":{},\"asserts\":{},\"asserts_symbolic\":{},\"instructions\":{},\"max_depth\":{},\"max_inputs\":{}",
        e.paths_ok, e.paths_panic, e.paths_infeasible, e.forks, e.asserts, e.asserts_symbolic, e.total_steps, e.max_depth, e.max_inputs
    );
    let _ = write!(
        o,
        ",\"queries_sat\":{},\"queries_unsat\":{},\"queries_unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"wall_s\":{:.3},\"load_s\":{:.3},\"expr_nodes\":{},\"solver\":{}",
        e.solver.n_sat, e.solver.n_unsat, e.solver.n_unknown, e.solver.time, e.solver.max_time, wall, t_load, e.pool.nodes.len(), js(&z3::version())
    );
    o.push_str(",\"violations\":[");
    for (k, v) in e.violations.values().enumerate() {
        if k > 0 {
            o.push(',');
        }
        let st: Vec<String> = v.stack.iter().map(|s| js(s)).collect();
        let _ = write!(o, "{{\"kind\":{},\"msg\":{},\"inputs\":{},\"stack\":[{}]}}", js(v.kind), js(&v.msg), jarr(&v.inputs), st.join(","));
    }
    o.push_str("],\"samples\":[");
    for (k, s) in e.samples.iter().enumerate() {
        if k > 0 {
            o.push(',');
        }
        let _ = write!(o, "{{\"inputs\":{},\"obs\":{},\"panic\":{}}}", jarr(&s.inputs), jarr(&s.obs), s.panicked);
    }
    o.push_str("],\"covers\":{");
    for (k, (c, n)) in e.covers.iter().enumerate() {
        if k > 0 {
            o.push(',');
        }
        let _ = write!(o, "{}:{}", js(c), n);
    }
    o.push_str("},\"functions\":[");
    let f: Vec<String> = fns.iter().map(|x| js(x)).collect();
    o.push_str(&f.join(","));
    o.push_str("],\"lines\":{");
    for (k, (f, l)) in lines.iter().enumerate() {
        if k > 0 {
            o.push(',');
        }
        let v: Vec<u64> = l.iter().map(|x| *x as u64).collect();
        let _ = write!(o, "{}:{}", js(f), jarr(&v));
    }
    o.push_str("}}\n");
    if out.is_empty() {
        print!("{}", o);
    } else {
        std::fs::write(&out, o).expect("write result");
    }
    match status {
        "ok" => 0,
        "violation" => 1,
        _ => 2,
    }
}
