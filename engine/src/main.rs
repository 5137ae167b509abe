//! symex: bounded symbolic execution of LLVM IR with z3 deciding branch feasibility.
mod exec;
mod expr;
mod ir;
mod mem;
mod z3;

use exec::*;
use std::collections::{BTreeMap, HashMap};
use std::io::{BufRead, BufReader, Write};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{mpsc, Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

struct Opts {
    ll: String,
    entries: Vec<String>,
    replay: Option<String>,
    workers: usize,
    time: f64,
    out: String,
    limit: u64,
    z3_timeout: u32,
    dump: Option<String>,
    verbose: bool,
    stop_on_viol: usize,
    touched: Option<String>,
    /// entries in which only panics of the library and endless runs are violations
    only_panics: Vec<String>,
}

#[derive(Clone)]
struct Viol {
    kind: String, // fail:N | panic:LOC | hang | abort
    label: String,
    choices: Vec<u32>,
    bytes: Vec<u8>,
    obs: Vec<(u32, Vec<u8>)>,
    native: String,
    confirmed: bool,
}

#[derive(Default, Clone)]
struct Rep {
    paths: BTreeMap<String, u64>,
    reach: BTreeMap<u32, u64>,
    labels: BTreeMap<String, u64>,
    ltime: BTreeMap<String, f64>,
    viols: BTreeMap<String, (u64, Vec<Viol>)>,
    mism: Vec<String>,
    nmism: u64,
    engine: BTreeMap<String, u64>,
    replayed: u64,
    x: XStats,
    z: z3::Stats,
    touched: Vec<bool>,
    max_steps: u64,
    exprs: u64,
    samples: Vec<String>,
    maxbytes: u8,
}

struct Shared {
    q: Mutex<(Vec<Rc2>, usize)>, // prefixes, idle count
    cv: Condvar,
    idle: AtomicUsize,
    stop: AtomicBool,
    done: AtomicBool,
    timeout: AtomicBool,
    nviol: AtomicUsize,
}
type Rc2 = Vec<Dec>;

struct Native {
    path: String,
    child: Option<(std::process::Child, std::process::ChildStdin, mpsc::Receiver<String>)>,
}
impl Native {
    fn spawn(&mut self) {
        let mut c = std::process::Command::new(&self.path)
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::null())
            .spawn()
            .expect("spawn replay");
        let i = c.stdin.take().unwrap();
        let o = c.stdout.take().unwrap();
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || {
            let mut r = BufReader::new(o);
            let mut l = String::new();
            loop {
                l.clear();
                match r.read_line(&mut l) {
                    Ok(0) | Err(_) => break,
                    Ok(_) => {
                        if tx.send(l.trim_end().to_string()).is_err() {
                            break;
                        }
                    }
                }
            }
        });
        self.child = Some((c, i, rx));
    }
    /// returns "term obs_hash reach"
    fn ask(&mut self, line: &str, secs: u64) -> String {
        if self.child.is_none() {
            self.spawn();
        }
        let (_, i, rx) = self.child.as_mut().unwrap();
        let ok = i.write_all(line.as_bytes()).and_then(|_| i.write_all(b"\n")).and_then(|_| i.flush()).is_ok();
        if ok {
            match rx.recv_timeout(Duration::from_secs(secs)) {
                Ok(l) => return l,
                Err(mpsc::RecvTimeoutError::Timeout) => {
                    self.kill();
                    return "hang 0 0".into();
                }
                Err(_) => {}
            }
        }
        self.kill();
        "crash 0 0".into()
    }
    fn kill(&mut self) {
        if let Some((mut c, _, _)) = self.child.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
}

fn fnv(h: u64, b: u8) -> u64 {
    (h ^ b as u64).wrapping_mul(0x100000001b3)
}

fn esc(b: &[u8]) -> String {
    let mut o = String::new();
    for c in String::from_utf8_lossy(b).chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

fn worker(m: &ir::Module, o: &Opts, entry: &str, sh: &Shared, deadline: Instant, wid: usize) -> Rep {
    let mut rep = Rep::default();
    // the entries with large inputs may run longer
    let limit = if entry.starts_with("h_big") { o.limit * 10 } else { o.limit };
    let only_panics = o.only_panics.iter().any(|e| e == entry);
    let mut x = Exec::new(m, limit, o.z3_timeout);
    if wid == 0 {
        if let Some(d) = &o.dump {
            x.z.dump = Some((d.clone(), 2000, 0));
        }
    }
    let mut nat = o.replay.as_ref().map(|p| Native { path: p.clone(), child: None });
    let base = match x.snapshot(entry) {
        Ok(s) => s,
        Err(t) => {
            if wid == 0 {
                let mut st = x.start(entry);
                st.steps = 0;
                *rep.engine.entry(format!("no symbolic input reached: {:?}", t)).or_default() += 1;
            }
            // still act as an idle worker so that others terminate
            State::new(&m.image)
        }
    };
    if base.frames.is_empty() {
        sh.stop.store(true, Ordering::SeqCst);
        sh.cv.notify_all();
        rep.touched = x.touched.clone();
        return rep;
    }
    let finish = |x: &mut Exec, s: &mut State, t: Term, rep: &mut Rep, nat: &mut Option<Native>| {
        let mut over = false;
        let mut kind = match &t {
            Term::Ok => "ok".to_string(),
            Term::Fail(c) => format!("fail:{}", c),
            Term::Panic(l) => format!("panic:{}", l),
            Term::Limit => "limit".into(),
            Term::AssumeFalse => "assume".into(),
            Term::Abort(s) => format!("abort:{}", s),
            Term::Engine(e) => {
                *rep.engine.entry(e.clone()).or_default() += 1;
                "engine".into()
            }
            Term::Unknown(_) => "unknown".into(),
        };
        let cls = kind.split(':').next().unwrap().to_string();
        *rep.paths.entry(cls.clone()).or_default() += 1;
        if s.steps > rep.max_steps {
            rep.max_steps = s.steps;
        }
        if s.nb > rep.maxbytes {
            rep.maxbytes = s.nb;
        }
        if matches!(t, Term::AssumeFalse | Term::Unknown(_)) {
            return;
        }
        for i in 0..128u32 {
            if (s.reach >> i) & 1 == 1 {
                *rep.reach.entry(i).or_default() += 1;
            }
        }
        let mut obs: Vec<(u32, Vec<u8>)> = vec![];
        let mut h = 0xcbf29ce484222325u64;
        for (tag, b) in s.obs.iter() {
            let mut v = Vec::with_capacity(b.len());
            for (c, e) in b.iter() {
                let y = if *e != 0 { x.ar.eval(*e, &s.model) as u8 } else { *c };
                h = fnv(h, y);
                v.push(y);
            }
            h = fnv(h, *tag as u8);
            obs.push((*tag, v));
        }
        let label = obs.iter().find(|o| o.0 == 1).map(|o| String::from_utf8_lossy(&o.1).to_string()).unwrap_or_default();
        *rep.labels.entry(label.clone()).or_default() += 1;
        *rep.ltime.entry(label.clone()).or_default() += x.last.elapsed().as_secs_f64();
        x.last = Instant::now();
        let ch: Vec<String> = s.choices.iter().map(|c| c.to_string()).collect();
        let hex: String = s.model.iter().map(|b| format!("{:02x}", b)).collect();
        let line = format!("{};{};{}", entry, ch.join(","), hex);
        let mut native = String::new();
        let mut confirmed = false;
        if let Some(n) = nat {
            let secs = if matches!(t, Term::Limit) { 10 } else { 60 };
            native = n.ask(&line, secs);
            rep.replayed += 1;
            let agrees = |f: &[&str]| {
                let nk = f[0];
                match &t {
                Term::Ok => nk == "ok" && f.len() > 1 && f[1] == format!("{:016x}", h),
                Term::Fail(c) => nk == format!("fail:{}", c),
                Term::Panic(l) => nk.starts_with("panic:") && {
                    let a: Vec<&str> = l.rsplit('/').collect();
                    nk.ends_with(a[0]) || nk.contains("overflow")
                },
                Term::Limit => nk == "hang",
                Term::Abort(_) => nk == "crash" || nk.starts_with("panic:"),
                _ => true,
                }
            };
            confirmed = agrees(&native.splitn(3, ' ').collect::<Vec<_>>());
            if !confirmed {
                // only an outcome that a fresh process repeats counts
                for _ in 0..2 {
                    n.kill();
                    let again = n.ask(&line, secs);
                    if again == native {
                        break;
                    }
                    native = again;
                }
                confirmed = agrees(&native.splitn(3, ' ').collect::<Vec<_>>());
            }
            let nk = native.split(' ').next().unwrap_or("").to_string();
            // the real code has the last word: a native failure on the inputs of a path
            // that could not be decided (or was decided otherwise) is a violation
            let bad = nk.starts_with("fail:") || nk.starts_with("panic:") || nk == "hang" || nk == "crash";
            if !confirmed && bad || matches!(t, Term::Engine(_)) && bad {
                kind = nk.to_string();
                confirmed = true;
                over = true;
            }
            if !confirmed && matches!(t, Term::Limit) {
                *rep.engine.entry("step limit".into()).or_default() += 1;
                return;
            }
            if !confirmed && !matches!(t, Term::Engine(_)) {
                rep.nmism += 1;
                if rep.mism.len() < 20 {
                    rep.mism.push(format!("{} engine={} h={:016x} native={}", line, kind, h, native));
                }
            }
        }
        if o.verbose {
            eprintln!("{} [{}] {:?} steps={} {}", kind, label, obs.iter().filter(|o| o.0 != 1).map(|o| String::from_utf8_lossy(&o.1).to_string()).collect::<Vec<_>>(), s.steps, line);
        }
        if matches!(t, Term::Engine(_)) && rep.mism.len() < 20 {
            rep.mism.push(format!("engine-error path {} {}", line, kind));
        }
        if rep.samples.len() < 8 && matches!(t, Term::Ok) && (rep.replayed % 97 == 1) {
            rep.samples.push(line.clone());
        }
        // a path on which the harness' own assertion or its own code (source files with a
        // relative path) reports something is not what such an entry decides
        if only_panics && (kind.starts_with("fail:") || kind.starts_with("panic:src/")) {
            return;
        }
        if over || !matches!(t, Term::Ok | Term::Engine(_)) {
            sh.nviol.fetch_add(1, Ordering::SeqCst);
            let key = format!("{} [{}]", kind, label);
            let e = rep.viols.entry(key).or_default();
            e.0 += 1;
            if e.1.len() < 4 {
                e.1.push(Viol { kind, label, choices: s.choices.clone(), bytes: s.model.clone(), obs, native, confirmed });
            }
        }
    };
    loop {
        // get a prefix
        let mut g = sh.q.lock().unwrap();
        let prefix = loop {
            if sh.stop.load(Ordering::SeqCst) || sh.done.load(Ordering::SeqCst) {
                break None;
            }
            if let Some(p) = g.0.pop() {
                break Some(p);
            }
            g.1 += 1;
            sh.idle.store(g.1, Ordering::SeqCst);
            if g.1 == o.workers {
                sh.done.store(true, Ordering::SeqCst);
                sh.cv.notify_all();
                break None;
            }
            g = sh.cv.wait_timeout(g, Duration::from_millis(200)).unwrap().0;
            g.1 -= 1;
            sh.idle.store(g.1, Ordering::SeqCst);
        };
        drop(g);
        let Some(prefix) = prefix else { break };
        let mut s = base.clone();
        s.replay = Some(Rc::new(prefix));
        x.pending.clear();
        x.pending.push(s);
        while let Some(mut s) = x.pending.pop() {
            if sh.stop.load(Ordering::Relaxed) {
                break;
            }
            if Instant::now() > deadline {
                sh.timeout.store(true, Ordering::SeqCst);
                sh.stop.store(true, Ordering::SeqCst);
                sh.cv.notify_all();
                break;
            }
            x.last = Instant::now();
            let t = x.run(&mut s);
            finish(&mut x, &mut s, t, &mut rep, &mut nat);
            if o.stop_on_viol > 0 && sh.nviol.load(Ordering::SeqCst) >= o.stop_on_viol {
                sh.stop.store(true, Ordering::SeqCst);
            }
            // donate
            while sh.idle.load(Ordering::SeqCst) > 0 && x.pending.len() > 1 {
                let st = x.pending.remove(0);
                let mut g = sh.q.lock().unwrap();
                if g.0.len() >= g.1 {
                    // enough queued already
                    x.pending.insert(0, st);
                    break;
                }
                g.0.push(st.log);
                drop(g);
                sh.cv.notify_one();
            }
        }
    }
    if let Some(n) = &mut nat {
        n.kill();
    }
    rep.x = x.st.clone();
    rep.z = x.z.st.clone();
    rep.touched = x.touched.clone();
    rep.exprs = x.ar.nodes.len() as u64;
    rep
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut o = Opts { ll: String::new(), entries: vec![], replay: None, workers: 8, time: 300.0, out: "-".into(), limit: 30_000_000, z3_timeout: 20000, dump: None, verbose: false, stop_on_viol: 0, touched: None, only_panics: vec![] };
    let mut i = 1;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--ll" => o.ll = v,
            "--entry" => o.entries = v.split(',').map(|s| s.to_string()).collect(),
            "--replay" => o.replay = Some(v),
            "--workers" => o.workers = v.parse().unwrap(),
            "--time" => o.time = v.parse().unwrap(),
            "--out" => o.out = v,
            "--limit" => o.limit = v.parse().unwrap(),
            "--z3-timeout" => o.z3_timeout = v.parse().unwrap(),
            "--dump" => o.dump = Some(v),
            "--only-panics" => o.only_panics = v.split(',').map(|s| s.to_string()).collect(),
            "--touched" => o.touched = Some(v),
            "--stop-on" => o.stop_on_viol = v.parse().unwrap(),
            "--verbose" => {
                o.verbose = true;
                i += 1;
                continue;
            }
            x => panic!("arg {}", x),
        }
        i += 2;
    }
    let t0 = Instant::now();
    let m = Arc::new(ir::load(&o.ll));
    let load = t0.elapsed().as_secs_f64();
    let mut out = String::from("{\n");
    out += &format!("\"load_s\": {:.3}, \"ir_instructions\": {}, \"ir_functions\": {},\n\"entries\": {{\n", load, m.n_inst, m.funcs.iter().filter(|f| f.defined).count());
    let o = Arc::new(o);
    let budget_end = t0 + Duration::from_secs_f64(o.time);
    let n = o.entries.len();
    for (k, entry) in o.entries.iter().enumerate() {
        let t1 = Instant::now();
        let remaining = budget_end.saturating_duration_since(t1).as_secs_f64();
        // an entry may use up to its share, or a quarter of what is left (later entries inherit
        // what is left)
        let share = (remaining / (n - k) as f64).max(remaining / 4.0);
        let deadline = t1 + Duration::from_secs_f64(share);
        let sh = Arc::new(Shared { q: Mutex::new((vec![vec![]], 0)), cv: Condvar::new(), idle: AtomicUsize::new(0), stop: AtomicBool::new(false), done: AtomicBool::new(false), timeout: AtomicBool::new(false), nviol: AtomicUsize::new(0) });
        let mut hs = vec![];
        for w in 0..o.workers {
            let (m, o, sh, entry) = (m.clone(), o.clone(), sh.clone(), entry.clone());
            hs.push(std::thread::Builder::new().stack_size(256 << 20).spawn(move || worker(&m, &o, &entry, &sh, deadline, w)).unwrap());
        }
        let mut r = Rep::default();
        r.touched = vec![false; m.funcs.len()];
        for h in hs {
            let q = h.join().expect("worker");
            for (k, v) in q.paths {
                *r.paths.entry(k).or_default() += v;
            }
            for (k, v) in q.reach {
                *r.reach.entry(k).or_default() += v;
            }
            for (k, v) in q.labels {
                *r.labels.entry(k).or_default() += v;
            }
            for (k, v) in q.ltime {
                *r.ltime.entry(k).or_default() += v;
            }
            for (k, v) in q.engine {
                *r.engine.entry(k).or_default() += v;
            }
            for (k, (n, v)) in q.viols {
                let e = r.viols.entry(k).or_default();
                e.0 += n;
                for x in v {
                    if e.1.len() < 4 {
                        e.1.push(x);
                    }
                }
            }
            r.mism.extend(q.mism);
            r.nmism += q.nmism;
            r.samples.extend(q.samples);
            r.replayed += q.replayed;
            r.max_steps = r.max_steps.max(q.max_steps);
            r.maxbytes = r.maxbytes.max(q.maxbytes);
            r.exprs += q.exprs;
            for (i, t) in q.touched.iter().enumerate() {
                if *t {
                    r.touched[i] = true;
                }
            }
            r.x.steps += q.x.steps;
            r.x.forks += q.x.forks;
            r.x.decisions += q.x.decisions;
            r.x.sym_branches += q.x.sym_branches;
            r.x.certified += q.x.certified;
            r.x.cache_hits += q.x.cache_hits;
            r.x.luts += q.x.luts;
            r.x.concretizations += q.x.concretizations;
            r.z.queries += q.z.queries;
            r.z.sat += q.z.sat;
            r.z.unsat += q.z.unsat;
            r.z.unknown += q.z.unknown;
            r.z.time += q.z.time;
            r.z.max_time = r.z.max_time.max(q.z.max_time);
        }
        let complete = !sh.timeout.load(Ordering::SeqCst) && !sh.stop.load(Ordering::SeqCst);
        let wall = t1.elapsed().as_secs_f64();
        let tf: Vec<String> = r.touched.iter().enumerate().filter(|(i, t)| **t && m.funcs[*i].name.contains("_6vcard4")).map(|(i, _)| m.funcs[i].name.clone()).collect();
        let ntouched = r.touched.iter().filter(|t| **t).count();
        if let Some(p) = &o.touched {
            let _ = std::fs::write(format!("{}.{}", p, entry), r.touched.iter().enumerate().filter(|(_, t)| **t).map(|(i, _)| m.funcs[i].name.clone()).collect::<Vec<_>>().join("\n"));
        }
        let mut s = String::new();
        s += &format!("\"{}\": {{\n \"complete\": {}, \"wall_s\": {:.3},\n \"paths\": {{", entry, complete, wall);
        s += &r.paths.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect::<Vec<_>>().join(", ");
        s += "},\n \"reach\": {";
        s += &r.reach.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect::<Vec<_>>().join(", ");
        s += "},\n \"labels\": {";
        s += &r.labels.iter().map(|(k, v)| format!("\"{}\": {}", esc(k.as_bytes()), v)).collect::<Vec<_>>().join(", ");
        s += "},\n \"label_s\": {";
        s += &r.ltime.iter().map(|(k, v)| format!("\"{}\": {:.2}", esc(k.as_bytes()), v)).collect::<Vec<_>>().join(", ");
        s += "},\n \"engine_errors\": {";
        s += &r.engine.iter().map(|(k, v)| format!("\"{}\": {}", esc(k.as_bytes()), v)).collect::<Vec<_>>().join(", ");
        s += "},\n \"violations\": [";
        let mut vs = vec![];
        for (key, (n, v)) in &r.viols {
            let ex: Vec<String> = v
                .iter()
                .map(|x| {
                    format!(
                        "{{\"choices\": [{}], \"bytes\": \"{}\", \"native\": \"{}\", \"confirmed\": {}, \"obs\": [{}]}}",
                        x.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","),
                        x.bytes.iter().map(|b| format!("{:02x}", b)).collect::<String>(),
                        esc(x.native.as_bytes()),
                        x.confirmed,
                        x.obs.iter().map(|(t, b)| format!("[{}, \"{}\"]", t, esc(b))).collect::<Vec<_>>().join(", ")
                    )
                })
                .collect();
            vs.push(format!("\n  {{\"key\": \"{}\", \"kind\": \"{}\", \"label\": \"{}\", \"count\": {}, \"examples\": [{}]}}", esc(key.as_bytes()), esc(v[0].kind.as_bytes()), esc(v[0].label.as_bytes()), n, ex.join(",\n   ")));
        }
        s += &vs.join(",");
        s += "],\n";
        s += &format!(" \"mismatches\": {}, \"mismatch_examples\": [{}],\n", r.nmism, r.mism.iter().take(20).map(|x| format!("\"{}\"", esc(x.as_bytes()))).collect::<Vec<_>>().join(", "));
        s += &format!(" \"samples\": [{}],\n", r.samples.iter().take(12).map(|x| format!("\"{}\"", esc(x.as_bytes()))).collect::<Vec<_>>().join(", "));
        s += &format!(" \"replayed\": {}, \"max_path_steps\": {}, \"symbolic_bytes_max\": {}, \"steps\": {}, \"forks\": {}, \"decisions\": {}, \"symbolic_branches\": {}, \"certified_infeasible\": {}, \"cache_hits\": {}, \"luts\": {}, \"concretizations\": {}, \"exprs\": {},\n", r.replayed, r.max_steps, r.maxbytes, r.x.steps, r.x.forks, r.x.decisions, r.x.sym_branches, r.x.certified, r.x.cache_hits, r.x.luts, r.x.concretizations, r.exprs);
        s += &format!(" \"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"solver_s\": {:.3}, \"solver_max_s\": {:.4},\n", r.z.queries, r.z.sat, r.z.unsat, r.z.unknown, r.z.time, r.z.max_time);
        s += &format!(" \"functions\": {}, \"vcard4_functions\": [{}]\n}}", ntouched, tf.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(", "));
        if k + 1 < n {
            s += ",";
        }
        s += "\n";
        out += &s;
    }
    out += "}}\n";
    if o.out == "-" {
        println!("{}", out);
    } else {
        std::fs::write(&o.out, out).unwrap();
    }
    let _: HashMap<u8, u8> = HashMap::new();
}
