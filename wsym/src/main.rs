mod engine;
mod expr;
mod mem;
mod ops;
mod wasm;
mod z3;
use engine::*;
use std::io::Write;
use std::sync::atomic::{AtomicI32, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

pub fn demangle(n: &str) -> String {
    // legacy mangling: _ZN <len><ident>... 17h<hash> E
    let Some(s) = n.strip_prefix("_ZN") else { return n.to_string() };
    let b = s.as_bytes();
    let mut i = 0;
    let mut parts: Vec<String> = vec![];
    while i < b.len() && b[i].is_ascii_digit() {
        let mut l = 0;
        while i < b.len() && b[i].is_ascii_digit() {
            l = l * 10 + (b[i] - b'0') as usize;
            i += 1;
        }
        if i + l > s.len() {
            break;
        }
        parts.push(s[i..i + l].to_string());
        i += l;
    }
    if parts.last().map_or(false, |p| p.len() == 17 && p.starts_with('h')) {
        parts.pop();
    }
    let mut t = parts.join("::");
    for (a, b) in [("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$RF$", "&"), ("$C$", ","), ("$u7b$", "{"), ("$u7d$", "}"), ("$u5b$", "["), ("$u5d$", "]"), ("$LP$", "("), ("$RP$", ")"), ("$BP$", "*"), ("$u27$", "'"), ("$u3b$", ";"), ("$u2b$", "+"), ("..", "::")] {
        t = t.replace(a, b);
    }
    t
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_result(e: &Engine, outdir: &str, shared: &Shared, h: u32, job: u32, t0: Instant) {
    let n = shared.seq.fetch_add(1, Ordering::SeqCst);
    let st = &e.st;
    let mut s = String::from("{");
    s += &format!("\"h\":{h},\"job\":{job},\"paths\":{},\"infeasible\":{},\"steps\":{},\"maxsteps\":{},\"forks\":{},\"symops\":{},", st.paths, st.infeasible, st.steps, st.maxsteps, st.forks, st.symops);
    s += &format!("\"claims\":{},\"refuted\":{},\"merges\":{},\"inloop_sat\":{},\"inloop_unsat\":{},\"nviol\":{},\"donated\":{},", st.claims, st.claims_refuted, st.merges_checked, st.inloop_sat, st.inloop_unsat, st.nviol, st.donated);
    let (q, t, u) = e.z3.as_ref().map_or((0, 0.0, 0), |z| (z.queries, z.time, z.unknown));
    s += &format!("\"queries\":{q},\"z3_time\":{t:.4},\"z3_unknown\":{u},\"nodes\":{},\"vars\":{},\"wall\":{:.3},", e.ex.nodes.len(), e.ex.base.len(), t0.elapsed().as_secs_f64());
    s += &format!("\"incomplete\":{},", st.incomplete.as_ref().map_or("null".into(), |x| js(x)));
    let cov: Vec<String> = st.covers.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
    s += &format!("\"covers\":{{{}}},", cov.join(","));
    let vs: Vec<String> = st.violations.iter().map(|v| format!("{{\"msg\":{},\"note\":{},\"model\":{},\"stack\":{}}}", js(&v.msg), js(&v.note), js(&hex(&v.model)), js(&v.stack))).collect();
    s += &format!("\"violations\":[{}],", vs.join(","));
    let sm: Vec<String> = st.samples.iter().map(|v| format!("[{},{}]", js(&v.0), js(&v.1))).collect();
    s += &format!("\"samples\":[{}],", sm.join(","));
    let fs: Vec<String> = e.fsym.iter().enumerate().filter(|x| *x.1).map(|x| x.0.to_string()).collect();
    s += &format!("\"funcs\":[{}]", fs.join(","));
    if e.trace_forks {
        let mut v: Vec<_> = e.forksites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        let l: Vec<String> = v.iter().take(40).map(|((f, p), n)| format!("[{},{p},{n}]", js(&demangle(&e.m.funcs[*f as usize].name)))).collect();
        s += &format!(",\"forksites\":[{}]", l.join(","));
    }
    s += "}";
    std::fs::write(format!("{outdir}/r{n}.json"), s).unwrap();
}

struct Args(Vec<String>);
impl Args {
    fn get(&self, k: &str) -> Option<String> {
        self.0.iter().position(|x| x == k).map(|i| self.0[i + 1].clone())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).map_or(d, |x| x.parse().unwrap())
    }
    fn flag(&self, k: &str) -> bool {
        self.0.iter().any(|x| x == k)
    }
}

fn call(e: &mut Engine, name: &str, args: &[u64]) -> Stop {
    let f = e.export(name);
    e.start(f, args);
    e.run()
}
fn harness_index(e: &mut Engine, name: &str) -> (u32, u32) {
    // exports: count() -> n ; name(i) emits the name ; jobs(i) -> number of jobs
    call(e, "count", &[]);
    let n = e.regs[0].v;
    for i in 0..n {
        e.out.clear();
        call(e, "name", &[i]);
        let s = String::from_utf8_lossy(&e.out).into_owned();
        if s == name {
            call(e, "jobs", &[i]);
            let j = e.regs[0].v as u32;
            e.out.clear();
            return (i as u32, j);
        }
    }
    eprintln!("no harness {name}");
    std::process::exit(3);
}

fn main() {
    let a = Args(std::env::args().collect());
    let cmd = a.0.get(1).cloned().unwrap_or_default();
    let wasm = a.get("--wasm").expect("--wasm");
    let m = wasm::Module::parse(std::fs::read(&wasm).unwrap());
    let mut e = Engine::new(m);
    e.rng ^= a.num("--seed", 1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    let t0 = Instant::now();
    match call(&mut e, "init", &[]) {
        Stop::Done => {}
        s => {
            eprintln!("init failed: {s:?} at {}", e.stack_trace());
            std::process::exit(3);
        }
    }
    let init_t = t0.elapsed().as_secs_f64();
    match cmd.as_str() {
        "list" => {
            call(&mut e, "count", &[]);
            let n = e.regs[0].v;
            for i in 0..n {
                e.out.clear();
                call(&mut e, "name", &[i]);
                let s = String::from_utf8_lossy(&e.out).into_owned();
                call(&mut e, "jobs", &[i]);
                println!("{s} {}", e.regs[0].v);
            }
        }
        // concrete execution of one harness job on given values, printing what it emits
        "concrete" => {
            let (h, _) = harness_index(&mut e, &a.get("--harness").unwrap());
            let lines = std::fs::read_to_string(a.get("--inputs").unwrap()).unwrap();
            for l in lines.lines() {
                let mut it = l.split_whitespace();
                let job: u64 = it.next().unwrap().parse().unwrap();
                let hx = it.next().unwrap_or("");
                let bytes: Vec<u8> = (0..hx.len() / 2).map(|i| u8::from_str_radix(&hx[2 * i..2 * i + 2], 16).unwrap()).collect();
                e.feed = Some(bytes);
                e.feed_pos = 0;
                e.out.clear();
                let s = call(&mut e, "run", &[h as u64, job]);
                println!("== {l}");
                println!("{}", String::from_utf8_lossy(&e.out));
                match s {
                    Stop::Done => println!("-- done {}", e.path.steps),
                    s => {
                        println!("-- {s:?}");
                    }
                }
            }
        }
        "run" => {
            let hname = a.get("--harness").unwrap();
            let (h, njobs) = harness_index(&mut e, &hname);
            let outdir = a.get("--out").unwrap();
            std::fs::create_dir_all(&outdir).unwrap();
            let jobs: Vec<u32> = match a.get("--jobs") {
                Some(s) => s.split(',').flat_map(|x| match x.split_once('-') {
                    Some((p, q)) => (p.parse::<u32>().unwrap()..=q.parse::<u32>().unwrap()).collect::<Vec<_>>(),
                    None => vec![x.parse().unwrap()],
                }).collect(),
                None => (0..njobs).collect(),
            };
            // warm-up: concrete runs of the same jobs with random values fill the
            // lazily built regex automata, which are then shared by all paths
            let warm = a.num("--warm", 6);
            let tw = Instant::now();
            let warm_budget = Duration::from_secs_f64(a.num("--warm-secs", 6) as f64);
            let mut wruns = 0;
            'w: for _ in 0..warm {
                for &j in &jobs {
                    if tw.elapsed() > warm_budget {
                        break 'w;
                    }
                    e.out.clear();
                    let f = e.export("run");
                    e.run_or_rollback(f, &[h as u64, j as u64]);
                    wruns += 1;
                }
            }
            e.frames.clear();
            let warm_t = tw.elapsed().as_secs_f64();
            let workers = a.num("--workers", 8) as i32;
            let secs = a.num("--time", 600);
            let deadline = Instant::now() + Duration::from_secs(secs);
            let p = mem::map(4096, true) as *mut Shared;
            unsafe {
                p.write(Shared { viol: AtomicI32::new(0), slots: AtomicI32::new(workers), seq: AtomicI32::new(0) });
                prctl(36, 1, 0, 0, 0);
            }
            let sh: &'static Shared = unsafe { &*p };
            e.symbolic = true;
            e.max_viol = a.num("--max-viol", 100) as i32;
            e.out.clear();
            e.trace_forks = a.flag("--trace-forks");
            let mut qi = 0;
            let mut failed: Vec<i32> = vec![];
            std::io::stdout().flush().unwrap();
            let mut reaped = 0u64;
            loop {
                let mut st = 0;
                let r = unsafe { waitpid(-1, &mut st, 1) };
                if r > 0 {
                    reaped += 1;
                    if st != 0 {
                        failed.push(st);
                    }
                    continue;
                }
                if qi < jobs.len() && sh.slots.load(Ordering::SeqCst) > 0 {
                    if sh.slots.fetch_sub(1, Ordering::SeqCst) > 0 {
                        let job = jobs[qi];
                        qi += 1;
                        let pid = unsafe { fork() };
                        if pid == 0 {
                            let t = Instant::now();
                            e.deadline = Some(deadline);
                            e.shared = Some(sh);
                            let f = e.export("run");
                            e.start(f, &[h as u64, job as u64]);
                            e.explore();
                            if !a.flag("--no-certify") {
                                e.certify();
                            }
                            write_result(&e, &outdir, sh, h, job, t);
                            sh.slots.fetch_add(1, Ordering::SeqCst);
                            unsafe { _exit(0) }
                        }
                        if pid < 0 {
                            eprintln!("fork failed");
                            std::process::exit(3);
                        }
                        continue;
                    } else {
                        sh.slots.fetch_add(1, Ordering::SeqCst);
                    }
                }
                if qi >= jobs.len() && r < 0 {
                    break;
                }
                std::thread::sleep(Duration::from_millis(1));
            }
            let names: Vec<String> = e.m.funcs.iter().map(|f| js(&demangle(&f.name))).collect();
            std::fs::write(
                format!("{outdir}/main.json"),
                format!(
                    "{{\"harness\":{},\"jobs\":{},\"init_s\":{init_t:.2},\"warm_s\":{warm_t:.2},\"warm_runs\":{wruns},\"reaped\":{reaped},\"failed\":{:?},\"results\":{},\"wall\":{:.2},\"z3\":{},\"names\":[{}]}}",
                    js(&hname),
                    jobs.len(),
                    failed,
                    sh.seq.load(Ordering::SeqCst),
                    t0.elapsed().as_secs_f64(),
                    js(&z3::version()),
                    names.join(",")
                ),
            )
            .unwrap();
            if !failed.is_empty() {
                eprintln!("worker failure: {failed:?}");
                std::process::exit(3);
            }
        }
        _ => {
            eprintln!("usage: wsym list|concrete|run --wasm F ...");
            std::process::exit(3);
        }
    }
}
