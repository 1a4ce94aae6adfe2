//! The driver of the checks under rounding: paths are tasks of a shared queue.
use crate::fp::*;
use crate::run::Outcome;
use crate::z3fp::*;
use std::collections::{BTreeMap, HashMap};
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
struct FTask {
    scene: usize,
    input: Vec<f64>,
    choices: Vec<usize>,
    /// the steps before this one were already varied
    from: usize,
    expect: Option<Step>,
}
struct Fail {
    scene: usize,
    input: Vec<f64>,
    choices: Vec<usize>,
    msg: String,
    /// the same path, taken by numbers of a native format
    native: Vec<String>,
}
#[derive(Default)]
struct State {
    queues: Vec<Vec<FTask>>,
    turn: usize,
    busy: usize,
    stop: bool,
    st: BTreeMap<String, u64>,
    q: FStats,
    fails: Vec<Fail>,
    notes: BTreeMap<String, u64>,
    samples: Vec<String>,
    unsat: Vec<String>,
    running: HashMap<usize, (Instant, FTask)>,
    secs: Vec<f64>,
    errors: Vec<String>,
}
fn hex(v: &[f64]) -> String {
    if v.is_empty() {
        "-".into()
    } else {
        v.iter().map(|x| format!("{:016x}", x.to_bits())).collect::<Vec<_>>().join(",")
    }
}
fn list<T: std::fmt::Display>(v: &[T]) -> String {
    if v.is_empty() {
        "-".into()
    } else {
        v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
    }
}
fn short(o: &Outcome) -> String {
    format!("{:?}", o).chars().take(300).collect::<String>().replace('\n', " ")
}
fn one(scenes: &[FScene], t: &FTask, sh: &Mutex<State>, timeout: u32, record: bool, until: Instant) {
    let sc = &scenes[t.scene];
    let (o, x) = run(sc.format, &*sc.f, t.input.clone(), t.choices.clone(), true);
    let mut tasks = vec![];
    let mut st: BTreeMap<&str, u64> = BTreeMap::new();
    let mut add = |k: &'static str, v: u64| *st.entry(k).or_insert(0) += v;
    let used = x.bounds.len();
    let mut err = None;
    if let Some(e) = &t.expect {
        match x.path.get(t.from - 1) {
            Some(s) if s.c == e.c && s.holds != e.holds => {}
            s => err = Some(format!("scene {}: path left its prefix at step {}: {:?} instead of {:?}", sc.name, t.from, s, e)),
        }
    }
    for (k, (_, n, at)) in x.chosen.iter().enumerate().skip(t.choices.len()) {
        for c in 1..*n {
            let mut ch: Vec<usize> = x.chosen[..k].iter().map(|c| c.0).collect();
            ch.push(c);
            tasks.push(FTask { scene: t.scene, input: x.input.clone(), choices: ch, from: *at, expect: None });
        }
    }
    add("decisions", x.path.len() as u64);
    add("by_range", x.by_range);
    add("steps", x.steps);
    let all: Vec<usize> = x.chosen.iter().map(|c| c.0).collect();
    let mut fail = None;
    match &o {
        Outcome::Ok => add("paths_ok", 1),
        Outcome::Assume => add("paths_assumed_away", 1),
        Outcome::Fail(m) => {
            add("paths_failed", 1);
            let first = sh.lock().unwrap().fails.iter().filter(|f| f.scene == t.scene).count() < 3;
            let (c, _) = run(sc.format, &*sc.f, x.input.clone(), all.clone(), false);
            if first && matches!(c, Outcome::Fail(_)) {
                let mut native = vec![];
                for f in [SINGLE, DOUBLE] {
                    let r = run_native(f, &*sc.f, x.input.clone(), all.clone());
                    native.push(format!("{} the same numbers: {}", if f == SINGLE { "f32" } else { "f64" }, short(&r)));
                }
                if !native.iter().any(|n| n.contains("Fail")) {
                    // another input on the same path
                    let mut s = FSolver::new(&x, SINGLE, 20_000);
                    if let Ans::Sat(v) = s.flip(&x.path, None) {
                        let r = run_native(SINGLE, &*sc.f, v.clone(), all.clone());
                        native.push(format!("f32 {}: {}", hex(&v), short(&r)));
                    }
                }
                fail = Some(Fail { scene: t.scene, input: x.input.clone(), choices: all.clone(), msg: m.clone(), native });
            } else if !matches!(c, Outcome::Fail(_)) {
                err = Some(format!("scene {}: failing path not confirmed by its concrete run: {:?}", sc.name, c));
            }
        }
        Outcome::Steps => add("paths_too_long", 1),
        _ => add("paths_unsupported", 1),
    }
    let valid = if let Outcome::Ok = o {
        let (c, _) = run(sc.format, &*sc.f, x.input.clone(), all.clone(), false);
        if c != Outcome::Ok {
            err = Some(format!("scene {}: concrete run of a path differs: {:?}", sc.name, c));
        }
        1
    } else {
        0
    };
    let mut s = FSolver::new(&x, sc.format, timeout);
    if record {
        s.record = Some(vec![]);
    }
    for i in t.from..x.path.len() {
        if x.path[i].assumed {
            continue;
        }
        if Instant::now() > until {
            tasks.push(FTask { scene: t.scene, input: x.input.clone(), choices: x.chosen.iter().map(|c| c.0).collect(), from: i, expect: None });
            break;
        }
        match s.flip(&x.path, Some(i)) {
            Ans::Sat(v) => {
                let ch: Vec<usize> = x.chosen.iter().filter(|c| c.2 <= i).map(|c| c.0).collect();
                let mut v = v;
                v.extend_from_slice(&x.input[used.min(x.input.len())..]);
                tasks.push(FTask { scene: t.scene, input: v, choices: ch, from: i + 1, expect: Some(x.path[i].clone()) });
            }
            Ans::Unsat => {}
            Ans::Unknown => *st.entry("undecided").or_insert(0) += 1,
        }
    }
    let q = s.stats.clone();
    let unsat = s.record.take().unwrap_or_default();
    drop(s);
    let mut g = sh.lock().unwrap();
    for (k, v) in st {
        *g.st.entry(k.to_string()).or_insert(0) += v;
    }
    *g.st.entry(format!("scene:{}", t.scene)).or_insert(0) += 1;
    if x.checked {
        *g.st.entry(format!("checked:{}", t.scene)).or_insert(0) += 1;
    }
    *g.st.entry("validated".into()).or_insert(0) += valid;
    g.q.sat += q.sat;
    g.q.unsat += q.unsat;
    g.q.unknown += q.unknown;
    g.q.open += q.open;
    g.q.found += q.found;
    g.q.t_search += q.t_search;
    g.q.t_open += q.t_open;
    g.q.t_cvc5 += q.t_cvc5;
    g.q.exact += q.exact;
    g.q.audited += q.audited;
    g.q.wrong += q.wrong;
    g.q.t_exact += q.t_exact;
    g.q.second += q.second;
    g.q.nanos += q.nanos;
    g.q.max_nanos = g.q.max_nanos.max(q.max_nanos);
    if let Outcome::Unsupported(m) = &o {
        *g.notes.entry(m.clone()).or_insert(0) += 1;
    }
    if let Some(e) = err {
        g.errors.push(e);
    }
    if g.samples.len() < 200 && matches!(o, Outcome::Ok) {
        g.samples.push(format!("scene {} choices {} input {}: {} conditions", sc.name, list(&all), list(&x.input[..used]), x.path.len()));
    }
    if g.unsat.len() < 400 {
        g.unsat.extend(unsat);
    }
    g.fails.extend(fail);
    g.queues[t.scene].extend(tasks);
}
/// another implementation of bit-blasting, for a sample of the unsat answers
fn z3_new(q: &str) -> Option<bool> {
    let mut ch = Command::new("z3-new").args(["-in", "-T:10"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    ch.stdin.take()?.write_all(q.as_bytes()).ok()?;
    let o = ch.wait_with_output().ok()?;
    let t = String::from_utf8_lossy(&o.stdout);
    if t.starts_with("unsat") {
        Some(true)
    } else if t.starts_with("sat") {
        Some(false)
    } else {
        None
    }
}
pub fn check(prop: &str, tier: u8, args: &HashMap<String, String>, info: &crate::scenes::Info) -> i32 {
    let t0 = Instant::now();
    let root = args.get("root").cloned().unwrap_or("/verif".into());
    let budget: f64 = args.get("budget").map(|s| s.parse().unwrap()).unwrap_or(if tier == 0 { 150.0 } else { 3000.0 });
    let workers: usize = args.get("workers").map(|s| s.parse().unwrap()).unwrap_or(8);
    let only = args.get("scene").cloned();
    let progress = args.contains_key("progress");
    let mut sc = crate::scenes::rounding(prop, tier);
    if let Some(o) = &only {
        sc.retain(|s| s.name.contains(o.as_str()));
    }
    let scenes: Arc<Vec<FScene>> = Arc::new(sc);
    let sh = Arc::new((Mutex::new(State::default()), Condvar::new()));
    {
        let mut g = sh.0.lock().unwrap();
        for i in 0..scenes.len() {
            g.queues.push(vec![FTask { scene: i, input: vec![], choices: vec![], from: 0, expect: None }]);
            g.secs.push(0.0);
        }
    }
    let timeout = if tier == 0 { 10_000 } else { 60_000 };
    let known = Arc::new(crate::known_findings(&root, prop));
    let mut hs = vec![];
    for w in 0..workers {
        let (sh, scenes, known) = (sh.clone(), scenes.clone(), known.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(128 << 20)
                .spawn(move || loop {
                    let t = {
                        let mut g = sh.0.lock().unwrap();
                        loop {
                            if g.stop || t0.elapsed().as_secs_f64() > budget {
                                sh.1.notify_all();
                                return;
                            }
                            // the scene that got the least time goes next
                            let k = (0..g.queues.len()).filter(|k| !g.queues[*k].is_empty()).min_by(|a, b| g.secs[*a].partial_cmp(&g.secs[*b]).unwrap());
                            if let Some(k) = k {
                                // mostly depth first; now and then the oldest branch
                                g.turn += 1;
                                let t = if g.turn % 4 == 0 { g.queues[k].remove(0) } else { g.queues[k].pop().unwrap() };
                                g.busy += 1;
                                g.running.insert(w, (Instant::now(), t.clone()));
                                break t;
                            }
                            if g.busy == 0 {
                                sh.1.notify_all();
                                return;
                            }
                            g = sh.1.wait_timeout(g, Duration::from_millis(200)).unwrap().0;
                        }
                    };
                    let b = Instant::now();
                    one(&scenes, &t, &sh.0, timeout, w == 0, t0 + Duration::from_secs_f64(budget));
                    let mut g = sh.0.lock().unwrap();
                    g.busy -= 1;
                    g.running.remove(&w);
                    g.secs[t.scene] += b.elapsed().as_secs_f64();
                    let new = g.fails.iter().filter(|f| !known.iter().any(|k| scenes[f.scene].name.starts_with(&k.scene) && f.msg.contains(&k.msg))).count();
                    if new >= 3 {
                        g.stop = true;
                    }
                    if progress {
                        let left: usize = g.queues.iter().map(|q| q.len()).sum();
                        eprintln!("[{:.1}s] ok {:?} assumed {:?} queued {} fails {} q {:?}", t0.elapsed().as_secs_f64(), g.st.get("paths_ok"), g.st.get("paths_assumed_away"), left, g.fails.len(), g.q);
                    }
                    sh.1.notify_all();
                })
                .unwrap(),
        );
    }
    // a path that does not come back is an endless loop of the code under test
    let mut hung: Option<FTask> = None;
    while hs.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_millis(50));
        if t0.elapsed().as_secs_f64() > budget + 200.0 {
            let g = sh.0.lock().unwrap();
            hung = g.running.values().min_by_key(|v| v.0).map(|v| v.1.clone());
            break;
        }
    }
    let mut g = sh.0.lock().unwrap();
    let sg = |g: &State, k: &str| g.st.get(k).copied().unwrap_or(0);
    // ---- second solver
    let mut cross = (0u64, 0u64, 0u64);
    let nx = if tier == 0 { 8 } else { 64 };
    let step = (g.unsat.len() / nx).max(1);
    let picked: Vec<&String> = g.unsat.iter().step_by(step).take(nx).collect();
    for part in picked.chunks(8) {
        let r: Vec<Option<bool>> = std::thread::scope(|sc| {
            let h: Vec<_> = part.iter().map(|q| sc.spawn(move || z3_new(q))).collect();
            h.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for x in r {
            match x {
                Some(true) => cross.0 += 1,
                Some(false) => cross.1 += 1,
                None => cross.2 += 1,
            }
        }
    }
    if g.q.wrong > 0 {
        let n = g.q.wrong;
        g.errors.push(format!("{} answers by the laws of rounding are wrong", n));
    }
    let left: usize = g.queues.iter().map(|q| q.len()).sum();
    let complete = left == 0 && !g.stop && hung.is_none();
    let undecided = sg(&g, "undecided");
    if let Some(t) = &hung {
        g.fails.push(Fail { scene: t.scene, input: t.input.clone(), choices: t.choices.clone(), msg: "the code does not come back".into(), native: vec![] });
    }
    // ---- evidence
    let js_s = crate::json_str;
    let paths = sg(&g, "paths_ok") + sg(&g, "paths_assumed_away") + sg(&g, "paths_failed") + sg(&g, "paths_unsupported") + sg(&g, "paths_too_long");
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut js = String::from("{\n");
    js += &format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n", js_s(prop), js_s(if tier == 0 { "quick" } else { "thorough" }), seed);
    js += &format!(" \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n", paths, sg(&g, "decisions"), sg(&g, "validated"), complete && undecided == 0 && sg(&g, "paths_unsupported") == 0);
    js += &format!("  \"paths_completed\": {},\n  \"paths_outside_assumptions\": {},\n  \"paths_failed\": {},\n  \"paths_unsupported\": {},\n  \"paths_too_long\": {},\n  \"branches_left_at_deadline\": {},\n  \"comparisons_decided_by_ranges\": {},\n  \"scalar_operations\": {},\n", sg(&g, "paths_ok"), sg(&g, "paths_assumed_away"), sg(&g, "paths_failed"), sg(&g, "paths_unsupported"), sg(&g, "paths_too_long"), left, sg(&g, "by_range"), sg(&g, "steps"));
    js += &format!("  \"solver\": {{\"name\": {}, \"theory\": \"floating point, bit-blasted (cvc5); laws of rounding over linear real arithmetic, polynomials over the reals (z3)\", \"queries_sat\": {}, \"queries_unsat\": {}, \"of_these_by_the_laws_of_rounding\": {}, \"of_these_by_polynomials\": {}, \"answered_bit_precisely\": {}, \"inputs_found_without_a_query\": {}, \"queries_unknown\": {}, \"seconds\": {:.2}, \"longest_query_s\": {:.3}}},\n", js_s(&format!("cvc5 1.1.2, libz3 {}", crate::z3::version())), g.q.sat, g.q.unsat, g.q.open, g.q.exact, g.q.second, g.q.found, g.q.unknown, g.q.nanos as f64 / 1e9, g.q.max_nanos as f64 / 1e9);
    js += &format!("  \"z3_cross_check_of_bit_precise_answers\": {{\"unsat_agreed\": {}, \"disagreed\": {}, \"no_answer\": {}}},\n  \"answers_by_laws_of_rounding_asked_again_bit_precisely\": {{\"confirmed\": {}, \"refuted\": {}}},\n", cross.0, cross.1, cross.2, g.q.audited, g.q.wrong);
    js += &format!("  \"functions_encoded\": [{}],\n  \"bounds\": {},\n", info.functions.iter().map(|f| js_s(f)).collect::<Vec<_>>().join(", "), js_s(info.bounds));
    js += "  \"scenes\": [\n";
    for (i, s) in scenes.iter().enumerate() {
        js += &format!("   {{\"name\": {}, \"format\": \"{} bits, {} of them exponent\", \"paths\": {}, \"left\": {}, \"worker_s\": {:.1}, \"reached\": {{\"checked\": {}}}}}{}\n", js_s(s.name), s.format.bits(), s.format.eb, sg(&g, &format!("scene:{}", i)), g.queues[i].len(), g.secs[i], sg(&g, &format!("checked:{}", i)), if i + 1 < scenes.len() { "," } else { "" });
    }
    js += "  ],\n";
    let un: Vec<String> = g.notes.iter().take(10).map(|(k, v)| js_s(&format!("{} x{}", k, v))).collect();
    js += &format!("  \"unsupported\": [{}],\n", un.join(", "));
    let stp = (g.samples.len() / 8).max(1);
    let smp: Vec<String> = g.samples.iter().step_by(stp).take(8).map(|s| js_s(s)).collect();
    js += &format!("  \"samples\": [{}]\n }},\n", smp.join(",\n   "));
    js += &format!(" \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", info.assumptions.iter().map(|f| js_s(f)).collect::<Vec<_>>().join(", "), t0.elapsed().as_secs_f64(), g.fails.len());
    std::fs::create_dir_all(format!("{}/evidence/replays", root)).unwrap();
    std::fs::write(if only.is_none() { format!("{}/evidence/{}.json", root, prop) } else { format!("/tmp/symx-{}.json", prop) }, &js).unwrap();
    // ---- report
    if progress {
        println!("{:?}", g.q);
    }
    println!(
        "{} {}: {} scenes, {} paths ({} outside assumptions), {} conditions, queries sat/unsat/unknown {}/{}/{} ({} by laws of rounding, {} by polynomials, {} bit-precise; {} inputs without a query), solver {:.1}s (longest {:.1}s), validated {}, unsupported {}, left {}, z3 {:?}, {:.1}s{}",
        prop, if tier == 0 { "quick" } else { "thorough" }, scenes.len(), paths, sg(&g, "paths_assumed_away"), sg(&g, "decisions"), g.q.sat, g.q.unsat, g.q.unknown, g.q.open, g.q.exact, g.q.second, g.q.found, g.q.nanos as f64 / 1e9, g.q.max_nanos as f64 / 1e9, sg(&g, "validated"), sg(&g, "paths_unsupported"), left, cross, t0.elapsed().as_secs_f64(), if complete { " [complete]" } else { " [stopped at the time bound]" }
    );
    for (k, v) in g.notes.iter().take(8) {
        println!("note: {} x{}", k, v);
    }
    for e in g.errors.iter().take(5) {
        println!("ERROR: {}", e.chars().take(600).collect::<String>());
    }
    let mut hit = vec![false; known.len()];
    let mut n = 0;
    for f in &g.fails {
        let s = &scenes[f.scene];
        if let Some(i) = known.iter().position(|k| s.name.starts_with(&k.scene) && f.msg.contains(&k.msg)) {
            hit[i] = true;
            continue;
        }
        n += 1;
        let path = format!("{}/evidence/replays/{}-{}.txt", root, prop, n);
        let mut t = format!("property {}\ntier {}\nscene {}\nkind rounding\nchoices {}\ninput {}\nnumbers {}\nmessage {}\n", prop, tier, s.name, list(&f.choices), hex(&f.input), list(&f.input), f.msg.replace('\n', " "));
        for x in &f.native {
            t += &format!("native {}\n", x);
        }
        std::fs::write(&path, t).unwrap();
        println!("  scene {}: {}", s.name, f.msg.chars().take(400).collect::<String>().replace('\n', " "));
        println!("VIOLATION property={} replay={}", prop, path);
    }
    for (i, k) in known.iter().enumerate() {
        if hit[i] {
            println!("KNOWN-FINDING: property={} {}", prop, k.what);
        }
    }
    let _ = std::io::stdout().flush();
    if n > 0 {
        return 1;
    }
    if !g.errors.is_empty() || cross.1 > 0 {
        return 2;
    }
    if only.is_none() && complete {
        for (i, s) in scenes.iter().enumerate() {
            if sg(&g, &format!("checked:{}", i)) == 0 {
                println!("ERROR: scene {} never reached its assertions", s.name);
                return 2;
            }
        }
    }
    0
}
pub fn replay(path: &str, t: &str) -> i32 {
    let f = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{} ", k)).map(|s| s.to_string())).unwrap_or_default();
    let scenes = crate::scenes::rounding(&f("property"), f("tier").parse().unwrap_or(1));
    let sc = match scenes.iter().find(|s| s.name == f("scene")) {
        Some(s) => s,
        None => return 3,
    };
    let _ = path;
    let un = |s: String| -> Vec<String> { if s == "-" { vec![] } else { s.split(',').map(|x| x.to_string()).collect() } };
    let input: Vec<f64> = un(f("input")).iter().map(|x| f64::from_bits(u64::from_str_radix(x, 16).unwrap())).collect();
    let choices: Vec<usize> = un(f("choices")).iter().map(|x| x.parse().unwrap()).collect();
    let (r, x) = run(sc.format, &*sc.f, input.clone(), choices.clone(), false);
    println!("replay with {} bit numbers: {}", sc.format.bits(), short(&r));
    for (n, v) in x.names.iter().zip(&x.input) {
        println!("  {} = {}", n, v);
    }
    for l in t.lines().filter(|l| l.starts_with("native ")) {
        println!("{}", l);
    }
    matches!(r, Outcome::Fail(_) | Outcome::Steps) as i32
}
/// random inputs, concrete runs (for trying out scenes)
pub fn fuzz(prop: &str, tier: u8, n: u64, only: &str) {
    for sc in crate::scenes::rounding(prop, tier) {
        if !sc.name.contains(only) {
            continue;
        }
        let mut res: BTreeMap<String, (u64, String)> = BTreeMap::new();
        let mut s = 0x1234567u64;
        let mut rnd = move || {
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            s
        };
        for _ in 0..n {
            let (_, x) = run(sc.format, &*sc.f, vec![], vec![], false);
            // twice, as the bounds are only known after a run
            let mut input = vec![];
            for (lo, hi) in &x.bounds {
                let r = (rnd() >> 11) as f64 / (1u64 << 53) as f64;
                let v = sc.format.round(lo + (hi - lo) * r);
                input.push(if rnd() % 4 == 0 && !input.is_empty() { let k = rnd() as usize % input.len(); input[k] } else { v }.clamp(*lo, *hi));
            }
            let ch: Vec<usize> = (0..6).map(|_| rnd() as usize % 2).collect();
            let (o, x) = run(sc.format, &*sc.f, input.clone(), ch, false);
            let k = match &o {
                Outcome::Fail(m) => format!("FAIL {}", m.chars().filter(|c| !c.is_ascii_digit()).take(200).collect::<String>()),
                o => short(o),
            };
            let e = res.entry(k).or_insert((0, format!("{:?} choices {:?}", x.input, x.chosen)));
            e.0 += 1;
        }
        println!("{}", sc.name);
        for (k, (n, e)) in res {
            println!("  {:7} {}  e.g. {}", n, k, e);
        }
    }
}
