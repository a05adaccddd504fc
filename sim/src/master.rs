//! Batch driver: worker processes, determinism self-check, minimisation, replay files, evidence.

use crate::rt::*;
use crate::{scen, Prop};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ worker side

fn esc(s: &str) -> String {
    s.chars().map(|c| if c == '\t' || c == '\n' || c == '\r' { ' ' } else { c }).collect()
}

fn report(ctx: &Ctx, out: &Outcome, with_choices: bool, with_trace: bool) -> String {
    let mut s = String::new();
    let (k, class, msg) = match out {
        Outcome::Ok => ("ok", String::new(), String::new()),
        Outcome::Abandoned => ("abandoned", String::new(), String::new()),
        Outcome::Violation(v) => ("violation", v.class.clone(), v.msg.clone()),
    };
    s += &format!("{}\t{}\t{}\t{:016x}\t{}\t{}\t{}", k, esc(&class), esc(&msg), ctx.hash, ctx.now, ctx.evals, ctx.rec.len());
    let kv = |m: &BTreeMap<&'static str, u64>| m.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join(",");
    s += &format!("\t{}\t{}", kv(&ctx.faults), kv(&ctx.probes));
    s += &format!("\t{}", ctx.states.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(","));
    s += &format!("\t{}", ctx.foreign.iter().map(|(k, v)| format!("{}={}", esc(k).replace(';', ","), v)).collect::<Vec<_>>().join(";"));
    s += &format!("\t{}", ctx.known.iter().map(|(k, v)| format!("{}={}", k, esc(v).replace(';', ","))).collect::<Vec<_>>().join(";"));
    if with_choices {
        s += &format!("\t{}", ctx.rec.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    } else {
        s += "\t";
    }
    if with_trace {
        s += &format!("\t{}", ctx.trace.iter().map(|x| esc(x).replace('|', "/")).collect::<Vec<_>>().join("|"));
    } else {
        s += "\t";
    }
    s
}

/// Lines on stdin: `G idx seed forced trace` or `P choices trace`.
pub fn worker(prop: &'static Prop, thorough: bool) {
    install_hook();
    start_watchdog();
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => return,
        };
        let f: Vec<&str> = line.split('\t').collect();
        let nums = |s: &str| -> Vec<u64> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() };
        let (mut ctx, want_choices, want_trace) = match f[0] {
            "G" => (Ctx::gen(prop.id, thorough, f[1].parse().unwrap(), nums(f[2])), true, f[3] == "1"),
            _ => (Ctx::replay(prop.id, thorough, nums(f[1])), true, f[2] == "1"),
        };
        ctx.want_trace = want_trace;
        let o = run_one(&mut ctx, &scen(prop));
        let is_v = matches!(o, Outcome::Violation(_));
        let s = report(&ctx, &o, want_choices && (is_v || want_trace), want_trace);
        let mut l = out.lock();
        let _ = writeln!(l, "{}", s);
        let _ = l.flush();
    }
}

// ------------------------------------------------------------------ master side

#[derive(Clone, Default)]
pub struct Res {
    pub kind: String,
    pub class: String,
    pub msg: String,
    pub hash: String,
    pub now: u64,
    pub evals: u64,
    pub nchoices: u64,
    pub faults: Vec<(String, u64)>,
    pub probes: Vec<(String, u64)>,
    pub states: Vec<u64>,
    pub foreign: Vec<(String, u64)>,
    pub known: Vec<(String, String)>,
    pub choices: Vec<u64>,
    pub trace: Vec<String>,
}

fn parse(line: &str) -> Option<Res> {
    let f: Vec<&str> = line.split('\t').collect();
    if f.len() < 14 {
        return None;
    }
    let kv = |s: &str, sep: char| -> Vec<(String, u64)> {
        s.split(sep)
            .filter(|x| !x.is_empty())
            .filter_map(|x| x.rfind('=').map(|i| (x[..i].to_string(), x[i + 1..].parse().unwrap_or(0))))
            .collect()
    };
    Some(Res {
        kind: f[0].into(),
        class: f[1].into(),
        msg: f[2].into(),
        hash: f[3].into(),
        now: f[4].parse().ok()?,
        evals: f[5].parse().ok()?,
        nchoices: f[6].parse().ok()?,
        faults: kv(f[7], ','),
        probes: kv(f[8], ','),
        states: f[9].split(',').filter(|x| !x.is_empty()).filter_map(|x| u64::from_str_radix(x, 16).ok()).collect(),
        foreign: kv(f[10], ';'),
        known: f[11].split(';').filter(|x| !x.is_empty()).filter_map(|x| x.find('=').map(|i| (x[..i].to_string(), x[i + 1..].to_string()))).collect(),
        choices: f[12].split(',').filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect(),
        trace: f[13].split('|').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect(),
    })
}

struct W {
    child: Child,
    tx: ChildStdin,
    rx: BufReader<ChildStdout>,
}

pub struct Pool {
    prop: &'static Prop,
    thorough: bool,
}

impl Pool {
    fn spawn(&self, dump: Option<&str>) -> W {
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.arg("worker").arg(self.prop.id).arg(if self.thorough { "thorough" } else { "quick" });
        if let Some(d) = dump {
            c.env("SIM_DUMP", d);
        }
        let mut child = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn worker");
        let tx = child.stdin.take().unwrap();
        let rx = BufReader::new(child.stdout.take().unwrap());
        W { child, tx, rx }
    }
    /// Sends one job; a dead worker yields a crash or hang result.
    fn job(&self, w: &mut Option<W>, line: &str) -> Res {
        if w.is_none() {
            *w = Some(self.spawn(None));
        }
        let ww = w.as_mut().unwrap();
        let _ = writeln!(ww.tx, "{}", line);
        let _ = ww.tx.flush();
        let mut s = String::new();
        if ww.rx.read_line(&mut s).unwrap_or(0) > 0 {
            if let Some(r) = parse(s.trim_end_matches('\n')) {
                return r;
            }
        }
        let st = ww.child.wait().ok();
        *w = None;
        let (class, msg) = match st.and_then(|s| s.code()) {
            Some(77) => ("hang".to_string(), format!("no progress within {} s of CPU time", HANG_MS / 1000)),
            _ => ("crash".to_string(), format!("the process running the code under test died: {}", st.map(|s| s.to_string()).unwrap_or_default())),
        };
        Res { kind: "violation".into(), class, msg, ..Default::default() }
    }
}

pub fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    h2(h2(seed, hstr(prop)), idx)
}

fn gline(prop: &Prop, seed: u64, idx: u64, trace: bool) -> String {
    let forced = prop.directed.get(idx as usize).map(|f| f.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")).unwrap_or_default();
    format!("G\t{}\t{}\t{}", run_seed(seed, prop.id, idx), forced, trace as u8)
}
fn pline(choices: &[u64], trace: bool) -> String {
    format!("P\t{}\t{}", choices.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), trace as u8)
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 => o += " ",
            c => o.push(c),
        }
    }
    o + "\""
}

fn jobs() -> usize {
    std::env::var("SIM_JOBS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).clamp(2, 8))
}

/// Runs all jobs over the worker processes; `each` sees every result, and returns false to stop.
fn batch(pool: &Pool, njobs: usize, n: u64, start: Instant, cap: Duration, line: &(dyn Fn(u64) -> String + Sync), each: &(dyn Fn(u64, Res, &[u64]) -> bool + Sync)) {
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    std::thread::scope(|sc| {
        for _ in 0..njobs {
            sc.spawn(|| {
                let mut w = None;
                // runs this thread's current worker process has executed, in order
                let mut hist: Vec<u64> = Vec::new();
                loop {
                    if stop.load(Ordering::SeqCst) || start.elapsed() > cap {
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n {
                        break;
                    }
                    let r = pool.job(&mut w, &line(i));
                    if !each(i, r, &hist) {
                        stop.store(true, Ordering::SeqCst);
                    }
                    if w.is_some() {
                        hist.push(i);
                    } else {
                        hist.clear();
                    }
                }
                if let Some(mut w) = w {
                    drop(w.tx);
                    let _ = w.child.wait();
                }
            });
        }
    });
}

fn minimise(pool: &Pool, mut cur: Vec<u64>, class: &str, budget: Duration) -> (Vec<u64>, u64) {
    let start = Instant::now();
    let nj = jobs();
    let mut ws: Vec<Option<W>> = (0..nj).map(|_| None).collect();
    let mut tried = 0u64;
    let mut try_all = |cands: Vec<Vec<u64>>, ws: &mut Vec<Option<W>>| -> Option<Vec<u64>> {
        // First candidate (in order) that still fails the same way.
        for chunk in cands.chunks(nj) {
            if start.elapsed() > budget {
                return None;
            }
            tried += chunk.len() as u64;
            let results: Vec<bool> = std::thread::scope(|sc| {
                let hs: Vec<_> = chunk
                    .iter()
                    .zip(ws.iter_mut())
                    .map(|(c, w)| {
                        sc.spawn(move || {
                            let r = pool.job(w, &pline(c, false));
                            r.kind == "violation" && r.class == class
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or(false)).collect()
            });
            for (c, ok) in chunk.iter().zip(results) {
                if ok {
                    return Some(c.clone());
                }
            }
        }
        None
    };
    while cur.last() == Some(&0) {
        cur.pop();
    }
    loop {
        let before = (cur.len(), cur.iter().fold(0u128, |a, b| a + *b as u128));
        // Cut the tail, delete blocks, zero blocks, lower single values.
        let mut size = (cur.len() / 2).max(1);
        while size >= 1 && start.elapsed() < budget {
            let mut i = 0;
            while i < cur.len() && start.elapsed() < budget {
                let mut cands = Vec::new();
                let mut at = Vec::new();
                let mut j = i;
                while j < cur.len() && cands.len() < nj {
                    let e = (j + size).min(cur.len());
                    let mut c = cur.clone();
                    c.drain(j..e);
                    cands.push(c);
                    at.push(j);
                    if cur[j..e].iter().any(|x| *x != 0) {
                        let mut c = cur.clone();
                        c[j..e].iter_mut().for_each(|x| *x = 0);
                        cands.push(c);
                        at.push(j);
                    }
                    j = e;
                }
                match try_all(cands, &mut ws) {
                    Some(mut c) => {
                        while c.last() == Some(&0) {
                            c.pop();
                        }
                        cur = c;
                    }
                    None => i = j,
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        let mut i = 0;
        while i < cur.len() && start.elapsed() < budget {
            let v = cur[i];
            if v > 0 {
                let mut cands = Vec::new();
                for x in [0, 1, v / 2, v - v / 4, v - 1] {
                    if x < v && !cands.iter().any(|c: &Vec<u64>| c[i] == x) {
                        let mut c = cur.clone();
                        c[i] = x;
                        cands.push(c);
                    }
                }
                if let Some(c) = try_all(cands, &mut ws) {
                    cur = c;
                    continue;
                }
            }
            i += 1;
        }
        while cur.last() == Some(&0) {
            cur.pop();
        }
        let after = (cur.len(), cur.iter().fold(0u128, |a, b| a + *b as u128));
        if after == before || start.elapsed() > budget {
            return (cur, tried);
        }
    }
}

fn known_list(verif: &str) -> Vec<(String, String)> {
    // Lines: known: id=<ID> property=<P> <text>
    let mut v = Vec::new();
    if let Ok(t) = std::fs::read_to_string(format!("{}/known-findings.txt", verif)) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("known: id=") {
                let mut it = r.split(' ');
                let id = it.next().unwrap_or("").to_string();
                let p = it.next().unwrap_or("").strip_prefix("property=").unwrap_or("").to_string();
                v.push((id, p));
            }
        }
    }
    v
}

pub fn check(prop: &'static Prop, thorough: bool, seed: u64, verif: &str) -> i32 {
    let start = Instant::now();
    let pool = Pool { prop, thorough };
    let nj = jobs();
    let n: u64 = std::env::var("SIM_RUNS").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { prop.quick * prop.thorough_mult } else { prop.quick });
    let cap = Duration::from_secs(if thorough { 540 } else { 240 });
    println!("check property={} tier={} VERIF_SEED={} runs={} jobs={}", prop.id, if thorough { "thorough" } else { "quick" }, seed, n, nj);

    struct Agg {
        runs: u64,
        abandoned: u64,
        evals: u64,
        sim_ms: u64,
        choices: u64,
        faults: BTreeMap<String, u64>,
        probes: BTreeMap<String, u64>,
        states: BTreeSet<u64>,
        hashes: BTreeSet<String>,
        foreign: BTreeMap<String, u64>,
        known: BTreeMap<String, (u64, String)>,
        by_idx: BTreeMap<u64, String>,
        first: Option<(u64, Res, Vec<u64>)>,
    }
    let agg = Arc::new(Mutex::new(Agg {
        runs: 0,
        abandoned: 0,
        evals: 0,
        sim_ms: 0,
        choices: 0,
        faults: BTreeMap::new(),
        probes: BTreeMap::new(),
        states: BTreeSet::new(),
        hashes: BTreeSet::new(),
        foreign: BTreeMap::new(),
        known: BTreeMap::new(),
        by_idx: BTreeMap::new(),
        first: None,
    }));
    {
        let agg = agg.clone();
        batch(&pool, nj, n, start, cap, &|i| gline(prop, seed, i, false), &move |i, r, hist| {
            let mut a = agg.lock().unwrap();
            a.runs += 1;
            a.evals += r.evals;
            a.sim_ms += r.now;
            a.choices += r.nchoices;
            for (k, v) in &r.faults {
                *a.faults.entry(k.clone()).or_insert(0) += v;
            }
            for (k, v) in &r.probes {
                *a.probes.entry(k.clone()).or_insert(0) += v;
            }
            for (k, v) in &r.foreign {
                *a.foreign.entry(k.clone()).or_insert(0) += v;
            }
            for (k, v) in &r.known {
                let e = a.known.entry(k.clone()).or_insert((i, v.clone()));
                if i < e.0 {
                    *e = (i, v.clone());
                }
            }
            if r.kind == "abandoned" {
                a.abandoned += 1;
            }
            for s in &r.states {
                if a.states.len() < 3_000_000 {
                    a.states.insert(*s);
                }
            }
            if r.evals > 0 && r.kind != "abandoned" {
                a.hashes.insert(r.hash.clone());
            }
            a.by_idx.insert(i, format!("{}/{}/{}", r.kind, r.class, r.hash));
            if r.kind == "violation" {
                let better = match &a.first {
                    None => true,
                    Some((j, _, _)) => i < *j,
                };
                if better {
                    a.first = Some((i, r, hist.to_vec()));
                }
                return false;
            }
            true
        });
    }
    let explore_s = start.elapsed().as_secs_f64();
    let mut a = Arc::try_unwrap(agg).ok().unwrap().into_inner().unwrap();

    // Known findings: only those the committed file lists may be set aside.
    let listed = known_list(verif);
    let mut exit = 0;
    let mut known_out = Vec::new();
    for (id, (idx, msg)) in a.known.clone() {
        if listed.iter().any(|(k, p)| *k == id && p == prop.id) {
            println!("KNOWN-FINDING: property={} {} {}", prop.id, id, msg);
            known_out.push(format!("{} {}", id, msg));
        } else if a.first.is_none() {
            let r = Res { kind: "violation".into(), class: format!("known-{}", id), msg: msg.clone(), ..Default::default() };
            a.first = Some((idx, r, vec![]));
        }
    }

    // Determinism: a sample of runs again, other worker assignment, other worker count.
    let mut det_checked = 0u64;
    let mut det_bad = Vec::new();
    if a.first.is_none() {
        let m = (a.runs / 20).clamp(8, 64).min(a.runs);
        let step = (a.runs / m.max(1)).max(1);
        let idxs: Vec<u64> = a.by_idx.keys().cloned().step_by(step as usize).take(m as usize).collect();
        let out = Mutex::new(Vec::new());
        let dl = Instant::now();
        batch(&pool, (nj / 2).max(1), idxs.len() as u64, dl, Duration::from_secs(120), &|i| gline(prop, seed, idxs[i as usize], false), &|i, r, hist| {
            let h = format!("{}/{}/{}", r.kind, r.class, r.hash);
            out.lock().unwrap().push((idxs[i as usize], h, r, hist.iter().map(|j| idxs[*j as usize]).collect::<Vec<u64>>()));
            true
        });
        for (i, h, r, hist) in out.into_inner().unwrap() {
            det_checked += 1;
            if a.by_idx.get(&i) != Some(&h) {
                // A violation seen only with other runs before it in the process is one all the same.
                if r.kind == "violation" && a.first.is_none() {
                    a.first = Some((i, r, hist));
                }
                det_bad.push(format!("run {}: {} then {}", i, a.by_idx[&i], h));
            }
        }
    }

    let mut viol = 0;
    if let Some((idx, r, hist)) = a.first.clone() {
        viol = 1;
        exit = 1;
        let path = report_violation(&pool, prop, thorough, seed, idx, r, &hist, verif);
        println!("VIOLATION property={} replay={}", prop.id, path);
    } else if !det_bad.is_empty() {
        for d in &det_bad {
            println!("NONDETERMINISM {}", d);
        }
        exit = 2;
    }

    // Samples for the evidence: the event log of a few runs.
    let mut samples = Vec::new();
    if exit == 0 {
        let mut w = None;
        for k in 0..3u64 {
            let idx = if k == 0 { 0 } else { a.runs * k / 3 };
            if idx >= a.runs {
                continue;
            }
            let r = pool.job(&mut w, &gline(prop, seed, idx, true));
            let t: Vec<String> = r.trace.iter().take(30).map(|x| x.chars().take(200).collect()).collect();
            samples.push(format!("{{\"run\": {}, \"run_seed\": {}, \"choices\": {}, \"events\": [{}]}}", idx, run_seed(seed, prop.id, idx), r.nchoices, t.iter().map(|x| js(x)).collect::<Vec<_>>().join(", ")));
        }
    }
    let wall = start.elapsed().as_secs_f64();
    let map = |m: &BTreeMap<String, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    let arr = |v: &[&str]| format!("[{}]", v.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "));
    let per_h = if explore_s > 0.0 { a.runs as f64 * 3600.0 / explore_s } else { 0.0 };
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"runs_abandoned\": {},\n  \"oracle_evaluations\": {},\n  \"simulation_choices\": {},\n  \"runs_and_seeds_per_hour\": {:.0},\n  \"simulated_time_ms\": {},\n  \"faults_fired\": {},\n  \"probes\": {},\n  \"distinct_states\": {},\n  \"distinct_states_measure\": {},\n  \"determinism_reruns\": {},\n  \"determinism_mismatches\": {},\n  \"other_property_alarms\": {},\n  \"known_findings_seen\": [{}],\n  \"ran_real\": {},\n  \"ran_stub\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        js(prop.id),
        js(if thorough { "thorough" } else { "quick" }),
        seed,
        a.runs,
        a.hashes.len(),
        js(&format!("{} A run is one seed, i.e. one exactly repeatable execution; runs are distinct when their event-log hashes differ. {}", prop.rule, "Abandoned runs and runs without any oracle evaluation are not counted.")),
        samples.join(", "),
        a.abandoned,
        a.evals,
        a.choices,
        per_h,
        a.sim_ms,
        map(&a.faults),
        map(&a.probes),
        a.states.len(),
        js(prop.state_measure),
        det_checked,
        det_bad.len(),
        map(&a.foreign),
        known_out.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "),
        arr(prop.real),
        arr(prop.stub),
        arr(prop.assumptions),
        wall,
        viol
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif));
    if std::env::var("SIM_NO_EVIDENCE").is_err() {
        std::fs::write(format!("{}/evidence/{}.json", verif, prop.id), ev).expect("write evidence");
    }
    println!(
        "property={} runs={} abandoned={} evals={} distinct={} states={} sim_s={} wall={:.1}s explore={:.1}s determinism={}/{} exit={}",
        prop.id,
        a.runs,
        a.abandoned,
        a.evals,
        a.hashes.len(),
        a.states.len(),
        a.sim_ms / 1000,
        wall,
        explore_s,
        det_checked - det_bad.len() as u64,
        det_checked,
        exit
    );
    if std::env::var("SIM_VERBOSE").is_ok() {
        println!("faults {:?}\nprobes {:?}\nforeign {:?}", a.faults, a.probes, a.foreign);
    }
    exit
}

/// Executes `prelude` runs and then the run of `choices` in one fresh process.
fn with_prelude(pool: &Pool, prop: &'static Prop, seed: u64, prelude: &[u64], choices: &[u64]) -> Res {
    let mut w = None;
    for i in prelude {
        pool.job(&mut w, &gline(prop, seed, *i, false));
    }
    let r = pool.job(&mut w, &pline(choices, true));
    if let Some(mut w) = w {
        drop(w.tx);
        let _ = w.child.wait();
    }
    r
}

/// A violation that a fresh process does not show: state left behind by earlier runs in the
/// same process (all sessions of one host) takes part in it. Finds a small set of those runs.
fn needed_prelude(pool: &Pool, prop: &'static Prop, seed: u64, hist: &[u64], choices: &[u64], class: &str, budget: Duration) -> Option<Vec<u64>> {
    let start = Instant::now();
    let bad = |p: &[u64]| {
        let r = with_prelude(pool, prop, seed, p, choices);
        r.kind == "violation" && r.class == class
    };
    // the latest runs first: they are the likeliest
    let mut k = 1;
    let mut cur = loop {
        let p = &hist[hist.len().saturating_sub(k)..];
        if bad(p) {
            break p.to_vec();
        }
        if k >= hist.len() || start.elapsed() > 4 * budget {
            return None;
        }
        k *= 4;
    };
    let mut size = (cur.len() / 2).max(1);
    while !cur.is_empty() && start.elapsed() < budget {
        let mut i = 0;
        while i < cur.len() && start.elapsed() < budget {
            let mut c = cur.clone();
            c.drain(i..(i + size).min(cur.len()));
            if bad(&c) {
                cur = c;
            } else {
                i += size;
            }
        }
        if size == 1 {
            break;
        }
        size /= 2;
    }
    Some(cur)
}

fn report_violation(pool: &Pool, prop: &'static Prop, thorough: bool, seed: u64, idx: u64, r: Res, hist: &[u64], verif: &str) -> String {
    println!("run {} (seed {}) violates: {}: {}", idx, run_seed(seed, prop.id, idx), r.class, r.msg);
    let dir = format!("{}/replays", verif);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}.json", dir, prop.id, idx);
    let mut choices = r.choices.clone();
    let mut class = r.class.clone();
    if choices.is_empty() {
        // Crash or hang: run again recording the choices as they are made.
        let d = format!("{}.dump", path);
        let mut w = Some(pool.spawn(Some(&d)));
        let r2 = pool.job(&mut w, &gline(prop, seed, idx, true));
        choices = std::fs::read_to_string(&d).unwrap_or_default().lines().filter_map(|x| x.parse().ok()).collect();
        let _ = std::fs::remove_file(&d);
        if r2.kind == "violation" {
            class = r2.class;
        }
        if let Some(mut w) = w {
            drop(w.tx);
            let _ = w.child.wait();
        }
    }
    let n0 = choices.len();
    let budget = if class == "hang" { 0 } else if thorough { 120 } else { 40 };
    // Does the run alone fail in a fresh process, or are earlier runs needed?
    let mut prelude: Vec<u64> = vec![];
    let alone = with_prelude(pool, prop, seed, &[], &choices);
    if !(alone.kind == "violation" && alone.class == class) && !hist.is_empty() && class != "hang" {
        if let Some(p) = needed_prelude(pool, prop, seed, hist, &choices, &class, Duration::from_secs(budget)) {
            println!("fails only after {} earlier runs in the same process, listed in the replay file", p.len());
            prelude = p;
        }
    }
    let (min, tried) = if prelude.is_empty() { minimise(pool, choices, &class, Duration::from_secs(budget)) } else { (choices, 0) };
    // Fresh process: the minimised file must fail the same way.
    let fin = with_prelude(pool, prop, seed, &prelude, &min);
    println!("minimised {} choices to {} ({} candidates); replay in a fresh process: {} {}", n0, min.len(), tried, fin.kind, fin.class);
    let txt = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"verif_seed\": {},\n \"run\": {},\n \"run_seed\": {},\n \"class\": {},\n \"violation\": {},\n \"replays\": {},\n \"prelude_runs\": [{}],\n \"choices\": [{}],\n \"trace\": [\n  {}\n ]\n}}\n",
        js(prop.id),
        js(if thorough { "thorough" } else { "quick" }),
        seed,
        idx,
        run_seed(seed, prop.id, idx),
        js(&class),
        js(if fin.msg.is_empty() { &r.msg } else { &fin.msg }),
        fin.kind == "violation" && fin.class == class,
        prelude.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
        min.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
        fin.trace.iter().map(|x| js(x)).collect::<Vec<_>>().join(",\n  ")
    );
    std::fs::write(&path, txt).expect("write replay");
    for t in fin.trace.iter().rev().take(12).rev() {
        println!("  | {}", t.chars().take(220).collect::<String>());
    }
    path
}

/// Replays a file in a fresh process. Exit 1 when the violation happens again.
pub fn replay(path: &str) -> i32 {
    let t = std::fs::read_to_string(path).expect("replay file");
    let field = |k: &str| -> String {
        let i = t.find(&format!("\"{}\": \"", k)).expect("field");
        let r = &t[i + k.len() + 5..];
        r[..r.find('"').unwrap()].to_string()
    };
    let prop = crate::find(&field("property"));
    let thorough = field("tier") == "thorough";
    let list = |k: &str| -> Vec<u64> {
        let k = format!("\"{}\": [", k);
        let i = match t.find(&k) {
            Some(i) => i + k.len(),
            None => return vec![],
        };
        let e = t[i..].find(']').unwrap();
        t[i..i + e].split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect()
    };
    let seed: u64 = {
        let i = t.find("\"verif_seed\": ").expect("field") + 14;
        t[i..].chars().skip_while(|c| *c == ' ').take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap()
    };
    let (prelude, choices) = (list("prelude_runs"), list("choices"));
    let pool = Pool { prop, thorough };
    let r = with_prelude(&pool, prop, seed, &prelude, &choices);
    for l in &r.trace {
        println!("{}", l);
    }
    if r.kind == "violation" {
        println!("{}: {}", r.class, r.msg);
        println!("VIOLATION property={} replay={}", prop.id, path);
        1
    } else {
        println!("the replayed run did not violate {}", prop.id);
        0
    }
}
