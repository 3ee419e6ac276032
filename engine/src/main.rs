mod exec;
mod expr;
mod ir;
mod mem;
mod val;
mod z3;

use std::collections::HashMap;
use std::fmt::Write as _;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Job {
    entry: String,
    params: Vec<u64>,
    opts: HashMap<String, u64>,
}

fn run_job(m: &'static ir::Module, j: &Job, end: Instant) -> String {
    let t0 = Instant::now();
    let mut ex = exec::Ex::new(m, j.params.clone());
    let g = |k: &str, d: u64| j.opts.get(k).cloned().unwrap_or(d);
    ex.hash_const = g("hash", 0);
    ex.max_steps = g("steps", ex.max_steps);
    ex.max_paths = g("paths", ex.max_paths);
    ex.sample_every = g("sample", ex.sample_every);
    ex.cover_cap = g("cover_cap", ex.cover_cap as u64) as usize;
    ex.deadline = t0 + Duration::from_secs(g("secs", 600));
    ex.deadline = ex.deadline.min(end);
    ex.known = g("known", u64::MAX);
    ex.trace = g("trace", 0) == 1;
    ex.run(&j.entry);
    let mut o = String::new();
    let s = &ex.stats;
    let _ = write!(o, "{{\"entry\":{},\"params\":{:?},\"paths_ok\":{},\"paths_panic\":{},\"paths_killed\":{},\"instrs\":{},\"forks\":{},\"asserts\":{},\"asserts_smt\":{},\"table_decided\":{},\"repaired\":{},\"cached\":{},\"witnessed\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"solver_us\":{},\"solver_max_us\":{},\"max_path_steps\":{},\"max_vars\":{},\"terms\":{},\"wall_s\":{:.3}",
        js(&j.entry), j.params, s.paths_ok, s.paths_panic, s.paths_killed, s.instrs, s.forks, s.asserts, s.asserts_smt, s.table_decided, s.repaired, s.cached, s.witnessed,
        ex.z.queries, ex.z.sat, ex.z.unsat, ex.z.time_us, ex.z.max_us, s.max_path_steps, s.max_vars, ex.cx.n.len(), t0.elapsed().as_secs_f64());
    let _ = write!(o, ",\"complete\":{}", match ex.complete { Some(true) => "true", Some(false) => "false", None => "null" });
    let _ = write!(o, ",\"covers\":{:?}", ex.covers.iter().collect::<Vec<_>>());
    let _ = write!(o, ",\"assert_ids\":{{{}}}", ex.assert_ids.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    let own: Vec<String> = ex.used.iter().filter(|f| m.funcs[**f as usize].own).map(|f| js(&exec::demangle(&m.funcs[*f as usize].name))).collect();
    let _ = write!(o, ",\"functions_total\":{},\"functions_own\":[{}]", ex.used.len(), own.join(","));
    let inp = |v: &Vec<(u32, u8)>| format!("[{}]", v.iter().map(|(t, b)| format!("[{},{}]", t, b)).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"violations\":[{}]", ex.violations.iter().map(|v| format!("{{\"kind\":{},\"id\":{},\"msg\":{},\"inputs\":{}}}", js(&v.kind), v.id, js(&v.msg), inp(&v.inputs))).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"samples\":[{}]", ex.samples.iter().map(|v| format!("{{\"end\":{},\"obs\":{:?},\"inputs\":{}}}", js(v.end), v.obs, inp(&v.inputs))).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"errors\":[{}]", ex.errors.iter().map(|e| js(e)).collect::<Vec<_>>().join(","));
    if ex.trace {
        let mut v: Vec<_> = ex.fork_sites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        let _ = write!(o, ",\"fork_sites\":[{}]", v.iter().take(40).map(|((f, b), n)| js(&format!("{} {} {}", n, exec::demangle(&m.funcs[*f as usize].name), m.funcs[*f as usize].blocks[*b as usize].name))).collect::<Vec<_>>().join(",\n"));
    }
    o.push('}');
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let ll = opt("--ll").expect("--ll");
    let t0 = Instant::now();
    let src = std::fs::read_to_string(&ll).expect("read ll");
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::parse(&src)));
    drop(src);
    eprintln!("parsed {} functions, {} instructions, {} globals in {:.2}s", m.funcs.len(), m.ninstr, m.globals.len(), t0.elapsed().as_secs_f64());
    if let Some(f) = opt("--list") {
        let mut names: Vec<String> = m.funcs.iter().filter(|x| x.own).map(|x| exec::demangle(&x.name)).collect();
        names.sort();
        std::fs::write(f, names.join("\n")).unwrap();
        return;
    }
    let jobs_f = opt("--jobs").expect("--jobs");
    let out = opt("--out").expect("--out");
    let procs: usize = opt("--procs").map(|x| x.parse().unwrap()).unwrap_or(8);
    let end = t0 + Duration::from_secs(opt("--total").map(|x| x.parse().unwrap()).unwrap_or(86400));
    let stop_on_violation = a.iter().any(|x| x == "--stop-on-violation");
    let mut jobs = vec![];
    for l in std::fs::read_to_string(&jobs_f).unwrap().lines() {
        if l.trim().is_empty() {
            continue;
        }
        let p: Vec<&str> = l.split('|').collect();
        let params = p.get(1).unwrap_or(&"").split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        let mut opts = HashMap::new();
        for kv in p.get(2).unwrap_or(&"").split(';').filter(|x| !x.is_empty()) {
            let (k, v) = kv.split_once('=').unwrap();
            opts.insert(k.to_string(), v.parse().unwrap());
        }
        jobs.push(Job { entry: p[0].to_string(), params, opts });
    }
    std::fs::create_dir_all(&out).unwrap();
    let mut running: HashMap<i32, usize> = HashMap::new();
    let mut next = 0;
    let mut failed = vec![];
    let mut stop = false;
    loop {
        while running.len() < procs && next < jobs.len() && !stop && Instant::now() < end {
            let pid = unsafe { fork() };
            if pid == 0 {
                // deep recursion in term construction: use a big stack
                let jp = &jobs[next] as *const Job as usize;
                let mp = m as *const ir::Module as usize;
                let f = format!("{}/{}.json", out, next);
                let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
                    let (m, j): (&'static ir::Module, &'static Job) = unsafe { (&*(mp as *const ir::Module), &*(jp as *const Job)) };
                    let r = run_job(m, j, end);
                    std::fs::write(f, r).unwrap();
                }).unwrap();
                let ok = h.join().is_ok();
                unsafe { _exit(if ok { 0 } else { 3 }) };
            }
            running.insert(pid, next);
            next += 1;
        }
        if running.is_empty() {
            break;
        }
        let mut st = 0;
        let pid = unsafe { waitpid(-1, &mut st, 0) };
        if let Some(j) = running.remove(&pid) {
            if st != 0 {
                failed.push(format!("{} {:?} status {}", jobs[j].entry, jobs[j].params, st));
            } else if stop_on_violation {
                let t = std::fs::read_to_string(format!("{}/{}.json", out, j)).unwrap_or_default();
                if !t.contains("\"violations\":[]") {
                    stop = true;
                }
            }
        }
    }
    for f in &failed {
        println!("FAILED {}", f);
    }
    if !failed.is_empty() {
        std::process::exit(3);
    }
}
