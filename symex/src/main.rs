mod exec;
mod expr;
mod ir;
mod mem;
mod solver;
use std::fmt::Write as _;
use std::sync::atomic::Ordering;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn inputs(v: &[(u8, u64)]) -> String {
    let x: Vec<String> = v.iter().map(|(w, x)| format!("[{w},{x}]")).collect();
    format!("[{}]", x.join(","))
}

fn main() {
    let mut args = std::env::args().skip(1);
    let file = args.next().expect("usage: symex FILE.ll ENTRY [options]");
    let entry = args.next().expect("entry");
    let mut o = exec::Opts {
        max_steps: 20_000_000,
        max_paths: 50_000_000,
        time_s: 600.0,
        threads: std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4),
        samples: 0,
        stop: false,
        known: vec![],
        solver_ms: 60_000,
        max_conc: 100_000,
        trace: false,
    };
    let mut out = None;
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("option value");
        match a.as_str() {
            "--time" => o.time_s = v().parse().unwrap(),
            "--threads" => o.threads = v().parse().unwrap(),
            "--max-steps" => o.max_steps = v().parse().unwrap(),
            "--max-paths" => o.max_paths = v().parse().unwrap(),
            "--samples" => o.samples = v().parse().unwrap(),
            "--solver-ms" => o.solver_ms = v().parse().unwrap(),
            "--known" => o.known.push(v()),
            "--stop" => o.stop = true,
            "--trace" => o.trace = true,
            "--out" => out = Some(v()),
            a => panic!("option {a}"),
        }
    }
    let t0 = std::time::Instant::now();
    let text = std::fs::read_to_string(&file).expect("read");
    let m: &'static ir::Module = Box::leak(Box::new(match ir::parse(&text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("symex: cannot parse {file}: {e}");
            std::process::exit(2);
        }
    }));
    drop(text);
    let tparse = t0.elapsed().as_secs_f64();
    let t1 = std::time::Instant::now();
    let g = match exec::run(m, &entry, o) {
        Ok(g) => g,
        Err(e) => {
            eprintln!("symex: {e}");
            std::process::exit(2);
        }
    };
    let wall = t1.elapsed().as_secs_f64();
    let (lines, funcs, nf) = exec::coverage(&g);
    let st = g.stats.lock().unwrap();
    let errs = g.errors.lock().unwrap();
    let viol = g.viol.lock().unwrap();
    let mut s = String::from("{");
    let _ = write!(s, "\"entry\":{},\"complete\":{},", js(&entry), errs.is_empty());
    let _ = write!(s, "\"parse_s\":{tparse:.3},\"wall_s\":{wall:.3},");
    let _ = write!(
        s,
        "\"paths\":{},\"pruned\":{},\"infeasible\":{},\"steps\":{},\"forks\":{},\"max_forks_on_path\":{},\"max_inputs_on_path\":{},\"max_steps_on_path\":{},\"asserts\":{},\"sym_asserts\":{},",
        st.paths, st.pruned, st.infeasible, st.steps, st.forks, st.max_forks, st.max_inputs, st.max_path_steps, st.asserts, st.sym_asserts
    );
    let sh = &g.sh;
    let _ = write!(
        s,
        "\"queries\":{},\"cached\":{},\"sat\":{},\"unsat\":{},\"solver_s\":{:.3},\"max_query_s\":{:.4},",
        sh.queries.load(Ordering::Relaxed),
        sh.cached.load(Ordering::Relaxed),
        sh.sat.load(Ordering::Relaxed),
        sh.unsat.load(Ordering::Relaxed),
        sh.nanos.load(Ordering::Relaxed) as f64 / 1e9,
        sh.max_nanos.load(Ordering::Relaxed) as f64 / 1e9
    );
    let _ = write!(s, "\"module_functions\":{},\"functions_executed\":{nf},", m.funcs.len());
    let e: Vec<String> = errs.iter().map(|(k, n)| format!("{{\"error\":{},\"count\":{n}}}", js(k))).collect();
    let _ = write!(s, "\"errors\":[{}],", e.join(","));
    let c: Vec<String> = g.covers.lock().unwrap().iter().map(|x| x.to_string()).collect();
    let _ = write!(s, "\"covers\":[{}],", c.join(","));
    let f: Vec<String> = funcs.iter().map(|x| js(x)).collect();
    let _ = write!(s, "\"functions\":[{}],", f.join(","));
    let l: Vec<String> = lines
        .iter()
        .map(|(f, l)| format!("{}:[{}]", js(f), l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")))
        .collect();
    let _ = write!(s, "\"lines\":{{{}}},", l.join(","));
    let v: Vec<String> = viol
        .values()
        .map(|(v, n)| {
            format!(
                "{{\"msg\":{},\"count\":{n},\"at\":{},\"inputs\":{},\"trace\":[{}],\"notes\":[{}]}}",
                js(&v.msg),
                js(&v.at),
                inputs(&v.inputs),
                v.trace.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
                v.notes.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")
            )
        })
        .collect();
    let _ = write!(s, "\"violations\":[{}],", v.join(","));
    let sm: Vec<String> = g
        .samples
        .lock()
        .unwrap()
        .values()
        .map(|x| {
            format!(
                "{{\"inputs\":{},\"obs\":[{}]}}",
                inputs(&x.inputs),
                x.obs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
            )
        })
        .collect();
    let _ = write!(s, "\"samples\":[{}]}}", sm.join(","));
    match out {
        Some(f) => std::fs::write(f, &s).expect("write"),
        None => println!("{s}"),
    }
    // skip the teardown of large structures
    let code = if !errs.is_empty() {
        2
    } else if !viol.is_empty() {
        1
    } else {
        0
    };
    std::process::exit(code);
}
