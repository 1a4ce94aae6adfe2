mod dom;
mod engine;
mod fp;
mod fprun;
mod int;
mod poly;
mod run;
mod scenes;
mod sym;
mod z3;
mod z3fp;

use engine::{cx, Mode, Task};
use int::Rat;
use run::*;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', " ")
}
fn csv<T: std::fmt::Display>(v: &[T]) -> String {
    if v.is_empty() {
        "-".into()
    } else {
        v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
    }
}
fn uncsv<T>(s: &str, f: impl Fn(&str) -> Option<T>) -> Vec<T> {
    if s == "-" {
        vec![]
    } else {
        s.split(',').map(|x| f(x).expect("bad csv")).collect()
    }
}
fn task_line(t: &Task) -> String {
    format!(
        "{} {} {}",
        t.scene,
        csv(&t.prefix),
        match &t.model {
            Some(m) => csv(m),
            None => "none".into(),
        }
    )
}
fn parse_task(a: &[&str]) -> Task {
    Task {
        scene: a[0].parse().unwrap(),
        prefix: uncsv(a[1], |x| x.parse().ok()),
        model: if a[2] == "none" { None } else { Some(uncsv(a[2], Rat::parse)) },
    }
}

// ------------------------------------------------------------------------------------ worker
fn worker(prop: &str, tier: u8, verify: bool) {
    let scenes = scenes::all(prop, tier);
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    let max_steps = 3_000_000;
    let mut npath = 0u64;
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let a: Vec<&str> = line.split(' ').collect();
        if a[0] != "T" {
            break;
        }
        let budget = Duration::from_millis(a[1].parse().unwrap());
        let careful = a[2] == "1";
        let root = parse_task(&a[3..]);
        let t0 = Instant::now();
        let mut stack = vec![root];
        let mut st: BTreeMap<String, u64> = BTreeMap::new();
        let mut covers: HashMap<(usize, &'static str), u64> = HashMap::new();
        let z0 = cx().solver.stats.clone();
        let l0 = cx().lemma_hits;
        let mut o = out.lock();
        let mut add = |k: &str, v: u64| *st.entry(k.to_string()).or_insert(0) += v;
        let mut samples = vec![];
        let mut reported = std::collections::HashSet::new();
        let mut scene_paths: HashMap<usize, u64> = HashMap::new();
        if verify {
            cx().record_unsat = Some(vec![]);
            cx().unsat_sample_rate = 1;
        }
        while let Some(t) = stack.pop() {
            if careful {
                writeln!(o, "P {}", task_line(&t)).unwrap();
                o.flush().unwrap();
            } else {
                writeln!(o, ".").unwrap();
                o.flush().unwrap();
            }
            npath += 1;
            let sc = t.scene;
            cx().max_steps = max_steps;
            let r = run_task(&scenes[sc], t.clone());
            let c = cx();
            stack.extend(c.new_tasks.drain(..).rev());
            let (model, choices) = (c.path_model(), c.choices.clone());
            for f in c.findings.clone() {
                if reported.insert((sc, f)) {
                    writeln!(o, "V {} finding {} {} {}", sc, csv(&choices), model.as_ref().map_or("none".into(), |m| csv(m)), esc(f)).unwrap();
                }
            }
            add("decisions", c.stats.decisions);
            add("forced", c.stats.forced);
            add("undecided", c.stats.undecided);
            add("sym_compares", c.stats.sym_compares);
            add("const_compares", c.stats.const_compares);
            add("steps", c.steps);
            add("nudged", c.nudged as u64);
            let e = st_max(&mut samples, c.log.len() as u64, c.steps);
            let _ = e;
            for (l, n) in &c.covers {
                *covers.entry((sc, l)).or_insert(0) += n;
            }
            *scene_paths.entry(sc).or_insert(0) += 1;
            match &r {
                Outcome::Ok => {
                    add("paths_ok", 1);
                    if npath % 16 == 1 {
                        let txt = c.path_text();
                        writeln!(o, "X {} {} {} {}", sc, csv(&choices), model.as_ref().map_or("none".into(), |m| csv(&m[..c.nvars])), esc(&txt[txt.len().saturating_sub(4)..].join(" & "))).unwrap();
                    }
                    if npath % 4 == 1 {
                        if let Some(m) = &model {
                            // the leaf's model must take the same verdict in a concrete run
                            match run_concrete(&scenes[sc], m.clone(), choices.clone(), None) {
                                Outcome::Ok => add("validated", 1),
                                Outcome::Fail(msg) => {
                                    add("mismatch", 1);
                                    writeln!(o, "V {} fail {} {} {}", sc, csv(&choices), csv(m), esc(&msg)).unwrap();
                                }
                                Outcome::Unsupported(_) => {}
                                x => {
                                    add("mismatch", 1);
                                    writeln!(o, "U leaf replay: {:?}", x).unwrap();
                                }
                            }
                        }
                    }
                }
                Outcome::Assume => add("paths_assumed_away", 1),
                Outcome::Undecided => add("paths_undecided", 1),
                Outcome::Fail(msg) => {
                    add("paths_failed", 1);
                    writeln!(o, "V {} fail {} {} {}", sc, csv(&choices), model.as_ref().map_or("none".into(), |m| csv(&m)), esc(msg)).unwrap();
                }
                Outcome::Steps => {
                    add("paths_failed", 1);
                    writeln!(o, "V {} steps {} {} step bound {} exceeded", sc, csv(&choices), model.map_or("none".into(), |m| csv(&m)), max_steps).unwrap();
                }
                Outcome::Unsupported(m) => {
                    add("paths_unsupported", 1);
                    writeln!(o, "U {} {}", scenes[sc].name, esc(m)).unwrap();
                }
                Outcome::Diverged(m) => {
                    add("paths_diverged", 1);
                    writeln!(o, "U {} diverged: {}", scenes[sc].name, esc(m)).unwrap();
                }
            }
            if t0.elapsed() > budget {
                break;
            }
        }
        for t in &stack {
            writeln!(o, "L {}", task_line(t)).unwrap();
        }
        let z = cx().solver.stats.clone();
        let mut s = String::new();
        for (k, v) in &st {
            s += &format!(" {}={}", k, v);
        }
        s += &format!(
            " q_lemma={} q_sat={} q_unsat={} q_unknown={} q_nonlinear={} q_nanos={}",
            cx().lemma_hits - l0,
            z.sat - z0.sat,
            z.unsat - z0.unsat,
            z.unknown - z0.unknown,
            z.nonlinear - z0.nonlinear,
            z.nanos - z0.nanos
        );
        for ((sc, l), n) in &covers {
            s += &format!(" cover:{}:{}={}", sc, l, n);
        }
        for (sc, n) in &scene_paths {
            s += &format!(" scene:{}={}", sc, n);
        }
        let (mx, ms) = samples.first().copied().unwrap_or((0, 0));
        s += &format!(" max_depth={} max_steps={} max_q_nanos={}", mx, ms, z.max_nanos);
        writeln!(o, "S{}", s).unwrap();
        if let Some(rec) = &mut cx().record_unsat {
            for q in rec.drain(..).take(2) {
                writeln!(o, "Q {}", esc(&q)).unwrap();
            }
        }
        writeln!(o, "D").unwrap();
        o.flush().unwrap();
    }
}
fn st_max(v: &mut Vec<(u64, u64)>, a: u64, b: u64) {
    if v.is_empty() {
        v.push((a, b));
    }
    v[0].0 = v[0].0.max(a);
    v[0].1 = v[0].1.max(b);
}

// ------------------------------------------------------------------------------- coordinator
struct Cand {
    scene: usize,
    kind: String,
    choices: Vec<usize>,
    model: Option<Vec<Rat>>,
    msg: String,
}
#[derive(Default)]
struct Shared {
    queues: Vec<VecDeque<Task>>,
    next: usize,
    busy: usize,
    stop: bool,
    deadline_hit: bool,
    stats: BTreeMap<String, u64>,
    cands: Vec<Cand>,
    unsupported: BTreeMap<String, u64>,
    samples: Vec<String>,
    scene_time: Vec<f64>,
    crashes: u64,
    unsat_smt: Vec<String>,
    names: Vec<String>,
    known: Vec<Known>,
    known_hit: Vec<u64>,
    tried: HashMap<String, usize>,
    next_cand: usize,
    serial: usize,
    confirmed: Vec<(usize, String)>,
    unconfirmed: u64,
    first_confirmed: Option<Instant>,
    stopped_early: bool,
}
impl Shared {
    /// the next candidate worth a confirming replay
    fn take_cand(&mut self) -> Option<usize> {
        while self.next_cand < self.cands.len() {
            let i = self.next_cand;
            self.next_cand += 1;
            let c = &self.cands[i];
            let key = format!("{} {}", c.scene, c.msg.chars().take(40).collect::<String>());
            let n = self.tried.entry(key).or_insert(0);
            *n += 1;
            if *n > 3 {
                continue;
            }
            if c.model.is_none() {
                self.unconfirmed += 1;
                continue;
            }
            return Some(i);
        }
        None
    }
    fn add_cand(&mut self, c: Cand) {
        let name = &self.names[c.scene];
        match self.known.iter().position(|k| name.starts_with(&k.scene) && c.msg.contains(&k.msg)) {
            Some(i) => self.known_hit[i] += 1,
            None => self.cands.push(c),
        }
    }
}
struct Proc {
    child: Child,
    stdin: std::process::ChildStdin,
    rx: mpsc::Receiver<String>,
}
fn spawn(prop: &str, tier: u8, verify: bool) -> Proc {
    let mut child = Command::new(std::env::current_exe().unwrap())
        .args(["worker", prop, &tier.to_string(), if verify { "1" } else { "0" }])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn worker");
    let stdin = child.stdin.take().unwrap();
    let so = BufReader::new(child.stdout.take().unwrap());
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        for l in so.lines() {
            match l {
                Ok(l) => {
                    if tx.send(l).is_err() {
                        break;
                    }
                }
                Err(_) => break,
            }
        }
    });
    Proc { child, stdin, rx }
}
/// what happened to one batch
enum BatchEnd {
    Done,
    Crash(Option<Task>),
    Hang(Option<Task>),
}
fn batch(p: &mut Proc, t: &Task, ms: u64, careful: bool, sh: &Mutex<Shared>, hang: Duration) -> BatchEnd {
    let line = format!("T {} {} {}\n", ms, careful as u8, task_line(t));
    if p.stdin.write_all(line.as_bytes()).and_then(|_| p.stdin.flush()).is_err() {
        return BatchEnd::Crash(None);
    }
    let mut cur = None;
    let mut left = vec![];
    let mut lines = vec![];
    loop {
        match p.rx.recv_timeout(hang) {
            Ok(l) => {
                let (tag, rest) = l.split_at(1);
                let rest = rest.trim_start();
                match tag {
                    "." => {}
                    "P" => cur = Some(parse_task(&rest.split(' ').collect::<Vec<_>>())),
                    "L" => left.push(parse_task(&rest.split(' ').collect::<Vec<_>>())),
                    "D" => break,
                    _ => lines.push(l),
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => return BatchEnd::Hang(cur),
            Err(_) => return BatchEnd::Crash(cur),
        }
    }
    let mut s = sh.lock().unwrap();
    for t in left {
        s.queues[t.scene].push_back(t);
    }
    for l in lines {
        let (tag, rest) = l.split_at(1);
        let rest = rest.trim_start();
        match tag {
            "S" => {
                for kv in rest.split(' ') {
                    if let Some((k, v)) = kv.rsplit_once('=') {
                        let v: u64 = v.parse().unwrap();
                        let e = s.stats.entry(k.to_string()).or_insert(0);
                        if k.starts_with("max_") {
                            *e = (*e).max(v)
                        } else {
                            *e += v
                        }
                    }
                }
            }
            "V" => {
                let a: Vec<&str> = rest.splitn(5, ' ').collect();
                let c = Cand {
                    scene: a[0].parse().unwrap(),
                    kind: a[1].into(),
                    choices: uncsv(a[2], |x| x.parse().ok()),
                    model: if a[3] == "none" { None } else { Some(uncsv(a[3], Rat::parse)) },
                    msg: a[4].into(),
                };
                s.add_cand(c);
            }
            "U" => *s.unsupported.entry(rest.to_string()).or_insert(0) += 1,
            "X" => {
                if s.samples.len() < 4000 {
                    s.samples.push(rest.to_string())
                }
            }
            "Q" => {
                if s.unsat_smt.len() < 400 {
                    s.unsat_smt.push(rest.replace("\\n", "\n"))
                }
            }
            _ => {}
        }
    }
    BatchEnd::Done
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += " ",
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Known {
    scene: String,
    msg: String,
    what: String,
}
/// Lines `property=<id> scene=<prefix> msg=<substring> what=<text>` of known_findings.txt
fn known_findings(root: &str, prop: &str) -> Vec<Known> {
    let mut r = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.txt", root)) {
        for l in t.lines() {
            if l.starts_with('#') || !l.starts_with(&format!("property={} ", prop)) {
                continue;
            }
            let f = |a: &str, b: &str| -> String {
                let s = l.find(a).map(|i| i + a.len()).unwrap_or(l.len());
                let rest = &l[s..];
                if b.is_empty() {
                    rest.to_string()
                } else {
                    rest[..rest.find(b).unwrap_or(rest.len())].to_string()
                }
            };
            r.push(Known { scene: f(" scene=", " msg="), msg: f(" msg=", " what="), what: f(" what=", "") });
        }
    }
    r
}

fn replay_file(root: &str, prop: &str, tier: u8, names: &[String], c: &Cand, n: usize) -> String {
    let dir = format!("{}/evidence/replays", root);
    std::fs::create_dir_all(&dir).unwrap();
    let path = format!("{}/{}-{}.txt", dir, prop, n);
    let m = c.model.as_ref().map_or("none".to_string(), |m| csv(m));
    let txt = format!(
        "property {}\ntier {}\nscene {}\nkind {}\nchoices {}\nvalues {}\nmessage {}\n",
        prop, tier, names[c.scene], c.kind, csv(&c.choices), m, c.msg
    );
    std::fs::write(&path, txt).unwrap();
    path
}
/// Replays one candidate; false if there is none left.
fn confirm_one(sh: &Mutex<Shared>, root: &str, prop: &str, tier: u8, names: &[String]) -> bool {
    let (i, path) = {
        let mut s = sh.lock().unwrap();
        let i = match s.take_cand() {
            Some(i) => i,
            None => return false,
        };
        s.serial += 1;
        let n = s.serial;
        (i, replay_file(root, prop, tier, names, &s.cands[i], n))
    };
    let ok = confirm(&path) == Some(true);
    let mut s = sh.lock().unwrap();
    if ok {
        s.confirmed.push((i, path));
        s.first_confirmed.get_or_insert_with(Instant::now);
    } else {
        s.unconfirmed += 1;
    }
    true
}
/// Exact concrete replay in a process of its own. Some(true): the failure is confirmed.
fn confirm(path: &str) -> Option<bool> {
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .args(["replay", path])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let t0 = Instant::now();
    loop {
        match ch.try_wait().ok()? {
            Some(st) => {
                return match st.code() {
                    Some(0) => Some(false),
                    Some(1) => Some(true),
                    Some(3) => None,
                    _ => Some(true), // killed by a signal / abort
                }
            }
            None => {
                if t0.elapsed() > Duration::from_secs(30) {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return Some(true);
                }
                std::thread::sleep(Duration::from_millis(10));
            }
        }
    }
}

fn check(prop: &str, tier: u8, args: &HashMap<String, String>) -> i32 {
    if !scenes::rounding(prop, 1).is_empty() {
        install_hook();
        hush();
        return fprun::check(prop, tier, args, &scenes::info(prop).unwrap());
    }
    let t0 = Instant::now();
    let root = args.get("root").cloned().unwrap_or("/verif".into());
    let budget: u64 = args.get("budget").map(|s| s.parse().unwrap()).unwrap_or(if tier == 0 { 150 } else { 3000 });
    let workers: usize = args.get("workers").map(|s| s.parse().unwrap()).unwrap_or(8);
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let scenes = scenes::all(prop, tier);
    let info = match scenes::info(prop) {
        Some(i) => i,
        None => {
            eprintln!("unknown property {}", prop);
            return 2;
        }
    };
    if scenes.is_empty() {
        eprintln!("no scenes for {}", prop);
        return 2;
    }
    let only = args.get("scene").cloned();
    let mut sh = Shared::default();
    sh.names = scenes.iter().map(|s| s.name.clone()).collect();
    sh.known = known_findings(&root, prop);
    sh.known_hit = vec![0; sh.known.len()];
    for i in 0..scenes.len() {
        let mut q = VecDeque::new();
        if only.as_ref().map_or(true, |o| scenes[i].name.contains(o.as_str())) {
            q.push_back(Task { scene: i, prefix: vec![], model: None });
        }
        sh.queues.push(q);
        sh.scene_time.push(0.0);
    }
    let verify = true;
    let maxv: usize = args.get("maxviol").map(|s| s.parse().unwrap()).unwrap_or(3);
    let sh = Arc::new((Mutex::new(sh), Condvar::new()));
    let deadline = t0 + Duration::from_secs(budget);
    let progress = args.contains_key("progress");
    let mut hs = vec![];
    for _ in 0..workers {
        let sh = sh.clone();
        let prop = prop.to_string();
        let root2 = root.clone();
        let names: Vec<String> = scenes.iter().map(|s| s.name.clone()).collect();
        hs.push(std::thread::spawn(move || {
            let mut p = spawn(&prop, tier, verify);
            loop {
                let t = {
                    let mut s = sh.0.lock().unwrap();
                    loop {
                        if s.stop {
                            break None;
                        }
                        if Instant::now() > deadline {
                            if s.queues.iter().any(|q| !q.is_empty()) || s.busy > 0 {
                                s.deadline_hit = true;
                            }
                            s.stop = true;
                            sh.1.notify_all();
                            break None;
                        }
                        // enough confirmed violations to report
                        if s.confirmed.len() >= maxv || s.first_confirmed.map_or(false, |t| t.elapsed() > Duration::from_secs(20)) {
                            s.stop = true;
                            s.stopped_early = true;
                            sh.1.notify_all();
                            break None;
                        }
                        // round robin over scenes, shallowest task first
                        let n = s.queues.len();
                        let mut got = None;
                        for k in 0..n {
                            let i = (s.next + k) % n;
                            if let Some(t) = s.queues[i].pop_front() {
                                s.next = (i + 1) % n;
                                got = Some(t);
                                break;
                            }
                        }
                        if let Some(t) = got {
                            s.busy += 1;
                            break Some(t);
                        }
                        if s.busy == 0 {
                            s.stop = true;
                            sh.1.notify_all();
                            break None;
                        }
                        s = sh.1.wait_timeout(s, Duration::from_millis(200)).unwrap().0;
                    }
                };
                let t = match t {
                    Some(t) => t,
                    None => break,
                };
                let b0 = Instant::now();
                let left = deadline.saturating_duration_since(b0).as_millis() as u64;
                let r = batch(&mut p, &t, 1500.min(left.max(100)), false, &sh.0, Duration::from_secs(90));
                if !matches!(r, BatchEnd::Done) {
                    // find the path: run the same batch again, announcing each path
                    let _ = p.child.kill();
                    let _ = p.child.wait();
                    p = spawn(&prop, tier, verify);
                    let r2 = batch(&mut p, &t, 3000, true, &sh.0, Duration::from_secs(60));
                    let (kind, ct) = match r2 {
                        BatchEnd::Done => ("", None),
                        BatchEnd::Crash(c) => ("crash", c),
                        BatchEnd::Hang(c) => ("hang", c),
                    };
                    if kind != "" {
                        let _ = p.child.kill();
                        let _ = p.child.wait();
                        p = spawn(&prop, tier, verify);
                        let mut s = sh.0.lock().unwrap();
                        s.crashes += 1;
                        if let Some(c) = ct {
                            // choices are recorded in the prefix
                            let choices: Vec<usize> = c.prefix.iter().filter(|e| *e & 3 == 1).map(|e| ((e >> 2) & 0x3fff) as usize).collect();
                            s.add_cand(Cand { scene: c.scene, kind: kind.into(), choices, model: c.model, msg: format!("worker {} on this path", kind) });
                        }
                    }
                }
                let mut s = sh.0.lock().unwrap();
                s.busy -= 1;
                s.scene_time[t.scene] += b0.elapsed().as_secs_f64();
                if progress {
                    let left: usize = s.queues.iter().map(|q| q.len()).sum();
                    eprintln!("[{:.1}s] paths {:?} queued {} cands {}", t0.elapsed().as_secs_f64(), s.stats.get("paths_ok"), left, s.cands.len());
                }
                sh.1.notify_all();
                drop(s);
                confirm_one(&sh.0, &root2, &prop, tier, &names);
            }
            let _ = p.child.kill();
            let _ = p.child.wait();
        }));
    }
    for h in hs {
        let _ = h.join();
    }
    // ---- candidates not yet replayed against the real code
    let names: Vec<String> = scenes.iter().map(|s| s.name.clone()).collect();
    let conf0 = Instant::now();
    while conf0.elapsed() < Duration::from_secs(100) && sh.0.lock().unwrap().confirmed.len() < maxv {
        if !confirm_one(&sh.0, &root, prop, tier, &names) {
            break;
        }
    }
    let s = sh.0.lock().unwrap();
    let g = |k: &str| s.stats.get(k).copied().unwrap_or(0);
    let violations: Vec<(&Cand, String)> = s.confirmed.iter().map(|(i, p)| (&s.cands[*i], p.clone())).collect();
    let unconfirmed = s.unconfirmed;

    // ---- second solver on a sample of the unsatisfiable queries
    let mut cross = (0u64, 0u64, 0u64);
    let nx = if tier == 0 { 24 } else { 200 };
    if std::path::Path::new("/usr/bin/cvc5").exists() || which("cvc5") {
        let step = (s.unsat_smt.len() / nx).max(1);
        for q in s.unsat_smt.iter().step_by(step).take(nx) {
            match cvc5(q) {
                Some(true) => cross.0 += 1,
                Some(false) => cross.1 += 1,
                None => cross.2 += 1,
            }
        }
    }

    // ---- evidence
    let paths = g("paths_ok") + g("paths_assumed_away") + g("paths_failed") + g("paths_undecided") + g("paths_unsupported") + g("paths_diverged");
    let remaining: usize = s.queues.iter().map(|q| q.len()).sum();
    let complete = !s.deadline_hit && remaining == 0 && !s.stopped_early;
    let mut js = String::from("{\n");
    js += &format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n", json_str(prop), json_str(if tier == 0 { "quick" } else { "thorough" }), seed);
    js += " \"coverage\": {\n";
    js += &format!("  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n", paths, g("decisions"), g("validated"));
    js += &format!("  \"exhaustive\": {},\n", complete && g("undecided") == 0 && g("paths_unsupported") == 0 && g("paths_diverged") == 0 && unconfirmed == 0);
    js += &format!("  \"paths_completed\": {},\n  \"paths_outside_assumptions\": {},\n  \"paths_failed\": {},\n  \"paths_undecided\": {},\n  \"paths_unsupported\": {},\n  \"paths_diverged\": {},\n  \"subtrees_left_at_deadline\": {},\n", g("paths_ok"), g("paths_assumed_away"), g("paths_failed"), g("paths_undecided"), g("paths_unsupported"), g("paths_diverged"), remaining);
    js += &format!("  \"branch_decisions_with_one_feasible_side\": {},\n  \"symbolic_comparisons\": {},\n  \"constant_comparisons\": {},\n  \"scalar_operations\": {},\n  \"deepest_path_decisions\": {},\n  \"longest_path_operations\": {},\n", g("forced"), g("sym_compares"), g("const_compares"), g("steps"), g("max_depth"), g("max_steps"));
    js += &format!("  \"solver\": {{\"name\": {}, \"queries_sat\": {}, \"queries_unsat\": {}, \"queries_unknown\": {}, \"queries_nonlinear\": {}, \"refuted_by_an_earlier_unsat_core\": {}, \"seconds\": {:.2}, \"longest_query_s\": {:.3}, \"undecided_alternatives\": {}}},\n", json_str(&format!("libz3 {}", z3::version())), g("q_sat"), g("q_unsat"), g("q_unknown"), g("q_nonlinear"), g("q_lemma"), g("q_nanos") as f64 / 1e9, g("max_q_nanos") as f64 / 1e9, g("undecided"));
    js += &format!("  \"cvc5_cross_check\": {{\"unsat_agreed\": {}, \"disagreed\": {}, \"no_answer\": {}}},\n", cross.0, cross.1, cross.2);
    js += &format!("  \"candidates\": {}, \"confirmed\": {}, \"unconfirmed\": {}, \"worker_crashes\": {}, \"nudges\": {},\n", s.cands.len(), violations.len(), unconfirmed, s.crashes, g("nudged"));
    js += &format!("  \"functions_encoded\": [{}],\n", info.functions.iter().map(|f| json_str(f)).collect::<Vec<_>>().join(", "));
    js += &format!("  \"bounds\": {},\n", json_str(info.bounds));
    js += "  \"scenes\": [\n";
    for (i, sc) in scenes.iter().enumerate() {
        let mut cov: Vec<String> = vec![];
        let pre = format!("cover:{}:", i);
        for (k, v) in s.stats.range(pre.clone()..) {
            if !k.starts_with(&pre) {
                break;
            }
            cov.push(format!("{}: {}", json_str(&k[pre.len()..]), v));
        }
        js += &format!("   {{\"name\": {}, \"paths\": {}, \"left\": {}, \"worker_s\": {:.1}, \"reached\": {{{}}}}}{}\n", json_str(&sc.name), g(&format!("scene:{}", i)), s.queues[i].len(), s.scene_time[i], cov.join(", "), if i + 1 < scenes.len() { "," } else { "" });
    }
    js += "  ],\n";
    let un: Vec<String> = s.unsupported.iter().take(10).map(|(k, v)| json_str(&format!("{} x{}", k, v))).collect();
    js += &format!("  \"unsupported\": [{}],\n", un.join(", "));
    let mut smp = vec![];
    let st = (s.samples.len() / 8).max(1);
    for x in s.samples.iter().step_by(st).take(8) {
        let a: Vec<&str> = x.splitn(4, ' ').collect();
        smp.push(json_str(&format!("scene {} choices {} model {} path tail: {}", scenes[a[0].parse::<usize>().unwrap()].name, a[1], a[2], a.get(3).unwrap_or(&""))));
    }
    js += &format!("  \"samples\": [{}]\n }},\n", smp.join(",\n   "));
    js += &format!(" \"assumptions\": [{}],\n", info.assumptions.iter().map(|f| json_str(f)).collect::<Vec<_>>().join(", "));
    js += &format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", t0.elapsed().as_secs_f64(), violations.len());
    std::fs::create_dir_all(format!("{}/evidence", root)).unwrap();
    if only.is_none() {
        std::fs::write(format!("{}/evidence/{}.json", root, prop), &js).unwrap();
    } else {
        std::fs::write(format!("/tmp/symx-{}.json", prop), &js).unwrap();
    }

    // ---- report
    println!(
        "{} {}: {} scenes, {} paths ({} outside assumptions), {} decisions, queries sat/unsat/unknown {}/{}/{} (+{} by earlier cores), solver {:.1}s, validated {}, undecided {}, unsupported {}, left {}, cvc5 {:?}, {:.1}s{}",
        prop, if tier == 0 { "quick" } else { "thorough" }, scenes.len(), paths, g("paths_assumed_away"), g("decisions"), g("q_sat"), g("q_unsat"), g("q_unknown"), g("q_lemma"),
        g("q_nanos") as f64 / 1e9, g("validated"), g("undecided") + g("paths_undecided"), g("paths_unsupported") + g("paths_diverged"), remaining, cross, t0.elapsed().as_secs_f64(),
        if complete { " [complete]" } else { " [stopped at the time bound]" }
    );
    for (k, v) in s.unsupported.iter().take(8) {
        println!("note: {} x{}", k, v);
    }
    if unconfirmed > 0 {
        println!("note: {} candidate failures without a confirming concrete replay", unconfirmed);
    }
    for (i, k) in s.known.iter().enumerate() {
        if s.known_hit[i] > 0 {
            println!("KNOWN-FINDING: property={} {}", prop, k.what);
        }
    }
    if cross.1 > 0 {
        println!("ERROR: cvc5 disagrees with z3 on {} queries", cross.1);
        return 2;
    }
    for (c, p) in &violations {
        println!("  scene {} [{}]: {}", scenes[c.scene].name, c.kind, c.msg.chars().take(400).collect::<String>());
        println!("VIOLATION property={} replay={}", prop, p);
    }
    if !violations.is_empty() {
        return 1;
    }
    // a scene that never reached its assertions decided nothing
    if only.is_none() && complete {
        for (i, sc) in scenes.iter().enumerate() {
            if g(&format!("cover:{}:checked", i)) == 0 {
                println!("ERROR: scene {} never reached its assertions", sc.name);
                return 2;
            }
        }
    }
    0
}
fn which(x: &str) -> bool {
    std::env::var("PATH").unwrap_or_default().split(':').any(|d| std::path::Path::new(d).join(x).exists())
}
fn cvc5(q: &str) -> Option<bool> {
    let mut ch = Command::new("cvc5").args(["--lang=smt2", "--tlimit=2000", "-"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    ch.stdin.take()?.write_all(q.as_bytes()).ok()?;
    let o = ch.wait_with_output().ok()?;
    let t = String::from_utf8_lossy(&o.stdout);
    if t.starts_with("unsat") {
        Some(true)
    } else if t.starts_with("sat") {
        Some(false)
    } else {
        None
    }
}

// ------------------------------------------------------------------------------------ replay
fn replay(path: &str) -> i32 {
    let t = std::fs::read_to_string(path).expect("replay file");
    let f = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{} ", k)).map(|s| s.to_string())).unwrap_or_default();
    if f("kind") == "rounding" {
        return fprun::replay(path, &t);
    }
    let scenes = scenes::all(&f("property"), f("tier").parse().unwrap_or(1));
    let sc = match scenes.iter().find(|s| s.name == f("scene")) {
        Some(s) => s,
        None => {
            println!("no such scene");
            return 3;
        }
    };
    let choices = uncsv(&f("choices"), |x| x.parse().ok());
    if f("values") == "none" {
        return 3;
    }
    let vals: Vec<Rat> = uncsv(&f("values"), Rat::parse);
    cx().max_steps = 3_000_000;
    let r = run_concrete(sc, vals.clone(), choices.clone(), None);
    println!("exact replay: {:?}", r);
    let names = cx().var_names.clone();
    for (n, v) in names.iter().zip(&vals) {
        println!("  {} = {}", n, v);
    }
    let _ = std::io::stdout().flush();
    let fmsg = f("message");
    let soft = cx().findings.iter().any(|x| *x == fmsg);
    for x in &cx().findings {
        println!("  finding: {}", x);
    }
    let code = match r {
        Outcome::Ok if soft => 1,
        Outcome::Ok | Outcome::Assume => 0,
        Outcome::Fail(_) | Outcome::Steps => 1,
        _ => 3,
    };
    if !t.contains("f64-replay") {
        let mut fl = std::fs::OpenOptions::new().append(true).open(path).unwrap();
        let _ = writeln!(fl, "exact-replay {}", if code == 1 { "fails" } else { "passes" });
        if code == 1 {
            let r = run_f64(sc, vals.iter().map(|v| v.to_f64()).collect(), choices);
            println!("f64 replay: {:?}", r);
            let _ = writeln!(fl, "f64-replay {}", esc(&format!("{:?}", r)));
        }
    }
    code
}

fn fuzz(prop: &str, tier: u8, a: &HashMap<String, String>) -> i32 {
    let scenes = scenes::all(prop, tier);
    let n: u64 = a.get("n").map(|s| s.parse().unwrap()).unwrap_or(1000);
    let seed: u64 = a.get("seed").map(|s| s.parse().unwrap()).unwrap_or(1);
    let mut fails = 0;
    for sc in scenes.iter() {
        if let Some(o) = a.get("scene") {
            if !sc.name.contains(o.as_str()) {
                continue;
            }
        }
        let mut res: BTreeMap<String, (u64, String)> = BTreeMap::new();
        let t0 = Instant::now();
        for i in 0..n {
            let s = (seed + i).wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234567;
            cx().max_steps = 3_000_000;
            let r = run_concrete(sc, vec![], vec![], Some(s));
            let c = cx();
            let vals = match &c.mode {
                Mode::Concrete { vals, .. } => csv(&vals[..]),
                _ => String::new(),
            };
            let key = match &r {
                Outcome::Fail(m) => {
                    // group: drop coordinates
                    let mut o = String::from("FAIL ");
                    let mut depth = 0;
                    for c in m.chars() {
                        match c {
                            '(' => depth += 1,
                            ')' => depth -= 1,
                            _ if depth == 0 && !c.is_ascii_digit() => o.push(c),
                            _ => {}
                        }
                    }
                    let line = m.rsplit(':').next().unwrap_or("").to_string();
                    o.chars().take(160).collect::<String>() + " @" + &line
                }
                Outcome::Ok if !c.findings.is_empty() => format!("finding {}", c.findings.join("; ")),
                o => format!("{:?}", o),
            };
            let e = res.entry(key).or_insert((0, format!("choices {} values {}", csv(&c.choices), vals)));
            e.0 += 1;
        }
        println!("{} ({:.2}s)", sc.name, t0.elapsed().as_secs_f64());
        for (k, (n, ex)) in &res {
            if k.starts_with("FAIL") || k.starts_with("Steps") {
                fails += 1;
            }
            println!("   {:6} {}{}", n, k, if k == "Ok" || k == "Assume" { String::new() } else { format!("\n          e.g. {}", ex) });
        }
    }
    fails
}

extern "C" {
    fn dup2(a: i32, b: i32) -> i32;
}
/// The code under test writes to stderr on some inputs; not wanted once per explored path.
fn hush() {
    use std::os::fd::AsRawFd;
    if std::env::var_os("SYMX_STDERR").is_none() {
        if let Ok(f) = std::fs::OpenOptions::new().write(true).open("/dev/null") {
            unsafe { dup2(f.as_raw_fd(), 2) };
        }
    }
}
fn main() {
    sym::install();
    let a: Vec<String> = std::env::args().collect();
    let mut opts = HashMap::new();
    let mut pos = vec![];
    let mut i = 1;
    while i < a.len() {
        if let Some(k) = a[i].strip_prefix("--") {
            if let Some((k, v)) = k.split_once('=') {
                opts.insert(k.to_string(), v.to_string());
            } else {
                opts.insert(k.to_string(), "1".to_string());
            }
        } else {
            pos.push(a[i].clone());
        }
        i += 1;
    }
    let tier: u8 = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => 1,
        _ => 0,
    };
    let tier = opts.get("tier").map(|s| if s == "thorough" { 1 } else { 0 }).unwrap_or(tier);
    let code = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || match pos.first().map(|s| s.as_str()) {
            Some("worker") => {
                install_hook();
                hush();
                worker(&pos[1], pos[2].parse().unwrap(), pos[3] == "1");
                0
            }
            Some("check") => check(&pos[1], tier, &opts),
            Some("replay") => {
                scenes::SHOW.store(true, std::sync::atomic::Ordering::Relaxed);
                install_hook();
                hush();
                replay(&pos[1])
            }
            Some("fuzz") => {
                install_hook();
                hush();
                fprun::fuzz(&pos[1], tier, opts.get("n").map(|s| s.parse().unwrap()).unwrap_or(1000), opts.get("scene").map(|s| s.as_str()).unwrap_or(""));
                fuzz(&pos[1], tier, &opts)
            }
            Some("list") => {
                for p in scenes::PROPS {
                    println!("{} {}", p, scenes::all(p, 1).iter().map(|s| format!("{}:{}", s.name, s.tier)).collect::<Vec<_>>().join(" "));
                }
                0
            }
            _ => {
                eprintln!("usage: symx check|replay|fuzz|list ...");
                2
            }
        })
        .unwrap()
        .join()
        .unwrap_or(2);
    std::process::exit(code);
}
