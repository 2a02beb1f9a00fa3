mod alloc;
mod conv;
mod dectab;
mod explore;
mod rv;
mod scan;
mod spec;
mod util;
mod items;
mod checks;

use explore::*;
use std::fmt::Write as _;
use std::os::unix::process::ExitStatusExt;
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

pub fn base() -> String {
    std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into())
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn tier_deep(t: &str) -> bool {
    t == "thorough"
}

struct Run {
    id: String,
    tier: String,
    seed: i64,
    t0: Instant,
}

impl Run {
    fn write_replay(&self, unit: &Unit, bound: usize, choices: &[u32], detail: &str, steps: &[String]) -> String {
        self.write_replay_h(unit, bound, choices, detail, steps, &[])
    }
    fn write_replay_h(&self, unit: &Unit, bound: usize, choices: &[u32], detail: &str, steps: &[String], history: &[String]) -> String {
        let dir = format!("{}/replay", base());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}.json", dir, self.id);
        let mut s = String::new();
        let _ = write!(
            s,
            "{{\n \"property\": {},\n \"tier\": {},\n \"unit\": {},\n \"bound\": {},\n \"choices\": {:?},\n \"history\": {},\n \"detail\": {},\n \"steps\": [",
            jstr(&self.id),
            jstr(&self.tier),
            jstr(&unit.name),
            bound,
            choices,
            jstr(&history.join(";")),
            jstr(&clip(detail, 4000))
        );
        for (i, st) in steps.iter().enumerate() {
            let _ = write!(s, "{}\n  {}", if i > 0 { "," } else { "" }, jstr(&clip(st, 4000)));
        }
        s.push_str("\n ],\n \"rerun\": \"mc/target/release/mc replay <this file>\"\n}\n");
        let _ = std::fs::write(&path, s);
        path
    }

    /// A violation that its execution alone does not show: look for it in deterministic, single
    /// threaded explorations in fresh processes, twice, and reduce the history it needs.
    #[allow(clippy::type_complexity)]
    fn by_history(&self, units: &[Unit], ui: usize, bound: usize) -> Option<((String, String), String)> {
        let exe = std::env::current_exe().ok()?;
        let tmp = std::env::temp_dir().join(format!("mc-h-{}-{}", self.id, std::process::id()));
        let tmp = tmp.to_string_lossy().to_string();
        let alone = |out: &str| {
            let st = std::process::Command::new(&exe)
                .args(["history", &self.id, &units[ui].name, &bound.to_string(), out, "--tier", &self.tier])
                .stdout(std::process::Stdio::null())
                .status();
            let t = std::fs::read_to_string(out).unwrap_or_default();
            let _ = std::fs::remove_file(out);
            match st.ok().and_then(|s| s.code()) {
                Some(1) => Some(t),
                _ => None,
            }
        };
        let a = alone(&format!("{}-a", tmp))?;
        let b = alone(&format!("{}-b", tmp))?;
        let head = |t: &str| t.lines().next().unwrap_or("").to_string();
        // found again at another place: what matters is not in the executions alone
        let settled = head(&a) == head(&b);
        let paths: Vec<String> = a.lines().skip(1).map(|s| s.to_string()).collect();
        let fails = |ps: &[String]| -> Option<String> {
            let f = format!("{}-s", tmp);
            std::fs::write(&f, ps.join("\n") + "\n").ok()?;
            let o = std::process::Command::new(&exe)
                .args(["sequence", &self.id, &units[ui].name, &bound.to_string(), &f, "--tier", &self.tier])
                .output();
            let _ = std::fs::remove_file(&f);
            let o = o.ok()?;
            if o.status.code() == Some(1) {
                Some(String::from_utf8_lossy(&o.stdout).to_string())
            } else {
                None
            }
        };
        // the shortest suffix of the history that is enough, then without what it does not need
        let mut need = None;
        let mut k = 2;
        loop {
            if !settled {
                break;
            }
            let lo = paths.len().saturating_sub(k);
            if let Some(t) = fails(&paths[lo..]) {
                need = Some((paths[lo..].to_vec(), t));
                break;
            }
            if lo == 0 {
                break;
            }
            k *= 4;
        }
        let (ps, text) = match need {
            Some((mut ps, mut text)) => {
                let mut step = ps.len() / 2;
                let mut tries = 0;
                while step > 0 && tries < 300 {
                    let mut i = 0;
                    while i + 1 < ps.len() && tries < 300 {
                        let j = (i + step).min(ps.len() - 1);
                        let mut q = ps.clone();
                        q.drain(i..j);
                        tries += 1;
                        if let Some(t) = fails(&q) {
                            ps = q;
                            text = t;
                        } else {
                            i += step;
                        }
                    }
                    step /= 2;
                }
                (ps, text)
            }
            None => (vec!["*".to_string()], head(&a)),
        };
        let mut lines: Vec<&str> = text.lines().collect();
        let d = lines.pop().unwrap_or("").to_string();
        let d = if ps[0] == "*" {
            format!("{} (after a history of executions of this unit, explored from the start by one thread)", d)
        } else {
            format!("{} (after {} earlier execution(s) in the same process)", d, ps.len() - 1)
        };
        let steps: Vec<String> = lines.iter().map(|s| s.to_string()).collect();
        let last: Vec<u32> = ps.last().map(|p| p.split(' ').filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
        let p = self.write_replay_h(&units[ui], bound, &last, &d, &steps, &ps);
        Some(((p, units[ui].name.clone()), d))
    }

    /// The same exploration once more in a process of its own, with all its threads.
    fn again(&self, units: &[Unit], ui: usize) -> Option<((String, String), String)> {
        let o = std::process::Command::new(std::env::current_exe().ok()?)
            .args(["again", &self.id, &units[ui].name, "--tier", &self.tier])
            .output()
            .ok()?;
        if o.status.code() != Some(1) {
            return None;
        }
        let d = format!(
            "{} (found twice, in processes of their own, but not by single executions: it depends on what else happens in the process)",
            String::from_utf8_lossy(&o.stdout).trim()
        );
        let p = self.write_replay_h(&units[ui], 0, &[], &d, &[], &["**".to_string()]);
        Some(((p, units[ui].name.clone()), d))
    }

    fn violation(&self, path: &str, unit: &str, detail: &str) {
        println!("  unit {}: {}", unit, clip(detail, 1500));
        println!("VIOLATION property={} replay={}", self.id, path);
    }

    fn evidence(&self, rep: Option<&Report>, violations: u32, extra: &str) {
        let dir = format!("{}/evidence", base());
        let _ = std::fs::create_dir_all(&dir);
        let mut s = String::new();
        let _ = write!(
            s,
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n",
            jstr(&self.id),
            jstr(&self.tier),
            self.seed
        );
        if let Some(r) = rep {
            let _ = write!(
                s,
                "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n",
                r.states,
                r.transitions,
                r.traces,
                !r.capped && r.found.is_none() && r.engine.is_none()
            );
            s.push_str("  \"samples\": [");
            // spread over the units
            let step = (r.samples.len() / 24).max(1);
            let mut first = true;
            for x in r.samples.iter().step_by(step) {
                let _ = write!(s, "{}\n   {}", if first { "" } else { "," }, jstr(x));
                first = false;
            }
            s.push_str("\n  ],\n  \"outcomes\": {");
            for (i, (k, v)) in r.outcomes.iter().enumerate() {
                let _ = write!(s, "{}\n   {}: {}", if i > 0 { "," } else { "" }, jstr(k), v);
            }
            s.push_str("\n  },\n  \"units\": [");
            for (i, (n, b, e, st)) in r.units.iter().enumerate() {
                let _ = write!(
                    s,
                    "{}\n   {{\"unit\": {}, \"deviation_bound_completed\": {}, \"executions\": {}, \"states\": {}}}",
                    if i > 0 { "," } else { "" },
                    jstr(n),
                    b,
                    e,
                    st
                );
            }
            s.push_str("\n  ],\n");
            if r.capped {
                s.push_str("  \"capped\": \"the time limit was reached; units list what was completed\",\n");
            }
        } else {
            s.push_str("  \"states\": 0,\n  \"transitions\": 0,\n  \"traces_validated_against_impl\": 0,\n  \"exhaustive\": false,\n  \"samples\": [],\n");
        }
        let _ = write!(
            s,
            "  \"note\": {}\n }},\n \"assumptions\": [\"the choice trees are enumerated completely within the bounds listed in DESIGN.md; inputs outside those alphabets and bounds are not covered\", \"the reference model in mc/src (rv.rs, spec.rs) states AMQP 1.0 correctly\"],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            jstr(extra),
            self.t0.elapsed().as_secs_f64(),
            violations
        );
        let _ = std::fs::write(format!("{}/{}.json", dir, self.id), s);
    }
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let tier = arg(&args, "--tier")
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or_else(|| "quick".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let code = match cmd {
        "check" => supervise(&args[2], &tier, seed),
        "again" => again(&args[2], &tier, &args[3]),
        "worker" => work(&args[2], &tier, seed, &args[3]),
        "observed" => observed(&tier, &args[2], &args[3], &args[4]),
        "observe" => observe(&args[2], &tier, &args[3]),
        "dict" => {
            // the values named in several source trees together
            let d = util::dict_of(&args[2..]);
            for n in &d.nums {
                println!("n {}", n);
            }
            for s in &d.strs {
                println!("s {}", s.bytes().map(|b| format!("{:02x}", b)).collect::<String>());
            }
            0
        }
        "history" => history(&args[2], &tier, &args[3], &args[4], &args[5]),
        "sequence" => run_sequence(&args[2], &tier, &args[3], &args[4], &args[5]),
        "replay" => replay_file(&args[2]),
        "replay-raw" => replay_raw(&args[2], &tier, &args[3], &args[4], &args[5]),
        "deep" => checks::c01::deep_child(&args[2..]),
        "units" => {
            for u in checks::units(&args[2], tier_deep(&tier)) {
                println!("{} (deviation bound {})", u.name, u.bound);
            }
            0
        }
        _ => {
            eprintln!("usage: mc check|worker|replay|units ...");
            2
        }
    };
    std::process::exit(code);
}

fn supervise(id: &str, tier: &str, seed: i64) -> i32 {
    let run = Run {
        id: id.into(),
        tier: tier.into(),
        seed,
        t0: Instant::now(),
    };
    let exe = std::env::current_exe().expect("exe");
    let rec = std::env::temp_dir().join(format!("mc-{}-{}.rec", id, std::process::id()));
    let rec = rec.to_string_lossy().to_string();
    let st = std::process::Command::new(&exe)
        .args(["worker", id, &rec, "--tier", tier])
        .env("VERIF_SEED", seed.to_string())
        .status()
        .expect("spawn worker");
    if let Some(c) = st.code() {
        let _ = std::fs::remove_file(&rec);
        return c;
    }
    let sig = st.signal().unwrap_or(0);
    eprintln!("worker ended by signal {}; confirming on the recorded executions", sig);
    let cands = read_recorder(&rec);
    let _ = std::fs::remove_file(&rec);
    let units = checks::units(id, tier_deep(tier));
    for (ui, b, ch) in cands {
        if ui >= units.len() {
            continue;
        }
        let list: Vec<String> = ch.iter().map(|c| c.to_string()).collect();
        let st = std::process::Command::new(&exe)
            .args(["replay-raw", id, &ui.to_string(), &b.to_string(), &list.join(","), "--tier", tier])
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status()
            .expect("spawn replay");
        let s = st.signal().unwrap_or(0);
        if [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(&s) {
            let what = format!("the process is killed by signal {} (stack overflow or abort) in this execution", s);
            let p = run.write_replay(&units[ui], b, &ch, &what, &[]);
            run.evidence(None, 1, "a worker process was killed; confirmed by re-execution");
            run.violation(&p, &units[ui].name, &what);
            return 1;
        }
    }
    eprintln!("not reproducible: error of the check");
    3
}

fn work(id: &str, tier: &str, seed: i64, rec: &str) -> i32 {
    let run = Run {
        id: id.into(),
        tier: tier.into(),
        seed,
        t0: Instant::now(),
    };
    install_hook();
    map_recorder(rec);
    let deep = tier_deep(tier);
    let mut units = checks::units(id, deep);
    if let Ok(only) = std::env::var("MC_ONLY") {
        units.retain(|u| u.name.contains(&only));
    }
    {
        let us = units.clone();
        let (id, tier) = (run.id.clone(), run.tier.clone());
        *REPORTER.lock().unwrap() = Some(Box::new(move |ui, b, ch, msg| {
            let r = Run {
                id: id.clone(),
                tier: tier.clone(),
                seed,
                t0: Instant::now(),
            };
            let p = r.write_replay(&us[ui], b, &ch, &msg, &[]);
            r.evidence(None, 1, "exploration stopped by a runaway execution");
            r.violation(&p, &us[ui].name, &msg);
        }));
    }
    // how the regenerated definitions behave in the same executions
    if id == "C22" {
        let f = std::env::var("MC_OBS").unwrap_or_default();
        match load_obs(&f) {
            Some(v) => {
                let _ = OBS.set(Obs::Compare(v));
            }
            None => {
                eprintln!("C22 is run by tools/c22.py: no record of the regenerated definitions");
                return 2;
            }
        }
    }
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(NSLOTS);
    let limit = std::env::var("MC_WALL").ok().and_then(|s| s.parse().ok()).unwrap_or(if deep { 7200 } else { 600 });
    let cfg = Cfg {
        threads,
        deadline: Instant::now() + Duration::from_secs(limit),
        exec_limit: Duration::from_secs(60),
    };
    let mut rep = run_all(&units, &cfg);
    if let Some(e) = rep.engine.clone() {
        eprintln!("ENGINE ERROR: {}", e);
        run.evidence(Some(&rep), 0, &format!("engine error: {}", e));
        return 2;
    }
    if let Some(f) = rep.found.take() {
        let u = &units[f.unit];
        // the same execution must fail the same way again, twice
        let (o1, steps, _) = replay(u, f.bound, &f.choices);
        let (o2, _, _) = replay(u, f.bound, &f.choices);
        let d = match (o1, o2) {
            (Out::Violation(a), Out::Violation(_)) => a,
            _ => {
                // not by itself: does it need what earlier executions left behind?
                if let Some((path, d)) = run.by_history(&units, f.unit, f.bound).or_else(|| run.again(&units, f.unit)) {
                    rep.found = Some(f);
                    run.evidence(Some(&rep), 1, "a violation was found that depends on the executions before it; exploration stopped there");
                    run.violation(&path.0, &path.1, &d);
                    return 1;
                }
                eprintln!("ENGINE ERROR: violation of unit {} did not reproduce: {}", u.name, f.detail);
                return 2;
            }
        };
        let p = run.write_replay(u, f.bound, &f.choices, &d, &steps);
        rep.found = Some(f);
        run.evidence(Some(&rep), 1, "a violation was found; exploration stopped there");
        run.violation(&p, &u.name, &d);
        return 1;
    }
    // findings that are recorded rather than repaired
    let mut notes = vec![];
    let (known, bad) = checks::findings(id, deep);
    for k in known {
        println!("KNOWN-FINDING: property={} {}", id, k);
        notes.push(k);
    }
    if let Some(b) = bad {
        let u = unit(b.0.clone(), 0, |_| Ok(()));
        let p = run.write_replay(&u, 0, &[], &b.1, &[]);
        run.evidence(Some(&rep), 1, &b.1);
        run.violation(&p, &b.0, &b.1);
        return 1;
    }
    let note = if notes.is_empty() {
        std::env::var("MC_NOTE").unwrap_or_default()
    } else {
        format!("known findings: {}", notes.join("; "))
    };
    run.evidence(Some(&rep), 0, &note);
    println!(
        "{} {}: held on {} states, {} transitions, {} executions of the real code ({} units{}) in {:.1} s",
        id,
        tier,
        rep.states,
        rep.transitions,
        rep.traces,
        rep.units.len(),
        if rep.capped { ", CAPPED by time" } else { "" },
        run.t0.elapsed().as_secs_f64()
    );
    if std::env::var("MC_VERBOSE").is_ok() {
        for (n, b, e, s) in &rep.units {
            println!("   {:<44} bound {} executions {:>10} states {:>10}", n, b, e, s);
        }
        for (k, v) in &rep.outcomes {
            println!("   outcome {:<40} {}", k, v);
        }
    }
    0
}

/// Record what this build of the library does in every execution of the units.
fn observe(id: &str, tier: &str, out: &str) -> i32 {
    install_hook();
    let deep = tier_deep(tier);
    let units = checks::units(id, deep);
    let _ = OBS.set(Obs::Record(Default::default()));
    let cfg = Cfg {
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(NSLOTS),
        deadline: Instant::now() + Duration::from_secs(if deep { 7200 } else { 300 }),
        exec_limit: Duration::from_secs(60),
    };
    let rep = run_all(&units, &cfg);
    if rep.capped || rep.engine.is_some() || rep.found.is_some() {
        eprintln!("{:?} {:?}", rep.engine, rep.found.map(|f| f.detail));
        return 2;
    }
    if let Some(Obs::Record(r)) = OBS.get() {
        let v = std::mem::take(&mut *r.lock().unwrap());
        let mut b = Vec::with_capacity(v.len() * 16);
        for (k, x) in &v {
            b.extend_from_slice(&k.to_le_bytes());
            b.extend_from_slice(&x.to_le_bytes());
        }
        if std::fs::write(out, b).is_err() {
            return 2;
        }
        println!("{} observations", v.len());
    }
    0
}

/// What one execution shows in this build.
fn observed(tier: &str, name: &str, b: &str, ch: &str) -> i32 {
    install_hook();
    let units = checks::units("C22", tier_deep(tier));
    let ch: Vec<u32> = ch.split(',').filter_map(|x| x.parse().ok()).collect();
    if let Some(u) = units.iter().find(|u| u.name == name) {
        let (_, steps, _) = replay(u, b.parse().unwrap_or(0), &ch);
        for s in steps.iter().filter_map(|s| s.strip_prefix("observed: ")) {
            println!("{}", s);
        }
    }
    0
}

fn load_obs(f: &str) -> Option<Vec<(u64, u64)>> {
    let b = std::fs::read(f).ok()?;
    let w = |c: &[u8]| u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]);
    let mut v: Vec<(u64, u64)> = b.chunks_exact(16).map(|c| (w(&c[..8]), w(&c[8..]))).collect();
    v.sort_unstable();
    Some(v)
}

/// Explore everything up to the named unit; exit 1 and say what when something is found.
fn again(id: &str, tier: &str, name: &str) -> i32 {
    install_hook();
    let mut us = checks::units(id, tier_deep(tier));
    match us.iter().position(|u| u.name == name) {
        Some(i) => us.truncate(i + 1),
        None => return 2,
    }
    // the last one first: most often it is enough
    let last = us[us.len() - 1].clone();
    let cfg = |secs| Cfg {
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(NSLOTS),
        deadline: Instant::now() + Duration::from_secs(secs),
        exec_limit: Duration::from_secs(60),
    };
    for part in [&[last][..], &us[..]] {
        if let Some(f) = run_all(part, &cfg(100)).found {
            println!("unit {}: {}", part[f.unit].name, clip(&f.detail, 3000).replace('\n', " "));
            return 1;
        }
    }
    0
}

fn on_worker_thread<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> Option<T> {
    std::thread::Builder::new().stack_size(8 << 20).spawn(f).ok()?.join().ok()
}

fn named(id: &str, tier: &str, name: &str) -> Option<Unit> {
    checks::units(id, tier_deep(tier)).into_iter().find(|u| u.name == name)
}

/// Explore one unit alone; on a violation write its description and the paths that led to it.
fn history(id: &str, tier: &str, name: &str, b: &str, out: &str) -> i32 {
    install_hook();
    let u = match named(id, tier, name) {
        Some(u) => u,
        None => return 2,
    };
    let b = b.parse().unwrap_or(0);
    let deadline = Instant::now() + Duration::from_secs(240);
    match on_worker_thread(move || explore_alone(&u, b, deadline, 1 << 16)) {
        Some(Ok(Some((n, paths, m)))) => {
            let mut s = format!("execution {}: {}\n", n, clip(&m, 3000).replace('\n', " "));
            for p in paths {
                let l: Vec<String> = p.iter().map(|c| c.to_string()).collect();
                s.push_str(&l.join(" "));
                s.push('\n');
            }
            match std::fs::write(out, s) {
                Ok(()) => 1,
                Err(_) => 2,
            }
        }
        Some(Ok(None)) => 0,
        _ => 2,
    }
}

/// Run the listed executions in order; exit 1 and say why when the last one is a violation.
fn run_sequence(id: &str, tier: &str, name: &str, b: &str, file: &str) -> i32 {
    install_hook();
    let u = match named(id, tier, name) {
        Some(u) => u,
        None => return 2,
    };
    let b = b.parse().unwrap_or(0);
    let t = std::fs::read_to_string(file).unwrap_or_default();
    let paths: Vec<Vec<u32>> = t
        .trim_end_matches('\n')
        .split('\n')
        .map(|l| l.split(' ').filter_map(|x| x.parse().ok()).collect())
        .collect();
    match on_worker_thread(move || sequence(&u, b, &paths)) {
        Some((Out::Violation(m), steps)) => {
            for s in steps {
                println!("{}", s.replace('\n', " "));
            }
            println!("{}", m.replace('\n', " "));
            1
        }
        Some((Out::Ok, _)) => 0,
        _ => 2,
    }
}

fn replay_raw(id: &str, tier: &str, ui: &str, b: &str, ch: &str) -> i32 {
    let units = checks::units(id, tier_deep(tier));
    let ch: Vec<u32> = ch.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    // run on a thread with the stack size of a worker
    let u = units[ui.parse::<usize>().unwrap()].clone();
    let b = b.parse().unwrap();
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || matches!(replay(&u, b, &ch).0, Out::Ok))
        .unwrap();
    i32::from(!h.join().unwrap_or(false))
}

fn field<'a>(s: &'a str, k: &str) -> Option<&'a str> {
    let i = s.find(&format!("\"{}\": ", k))? + k.len() + 4;
    let e = s[i..].find('\n')? + i;
    Some(s[i..e].trim_end_matches(','))
}

fn replay_file(path: &str) -> i32 {
    install_hook();
    let s = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| field(&s, k).unwrap_or("").trim_matches('"').to_string();
    let units = checks::units(&get("property"), tier_deep(&get("tier")));
    let name = get("unit");
    let u = match units.iter().find(|u| jstr(&u.name).trim_matches('"') == name) {
        Some(u) => u.clone(),
        None => {
            eprintln!("no unit {}", name);
            return 2;
        }
    };
    if get("history") == "**" {
        let c = again(&get("property"), &get("tier"), &u.name);
        println!("{}", if c == 1 { "violation" } else { "no violation" });
        return c;
    }
    let b = get("bound").parse().unwrap_or(0);
    let ch: Vec<u32> = get("choices")
        .trim_matches(|c| c == '[' || c == ']')
        .split(',')
        .filter_map(|x| x.trim().parse().ok())
        .collect();
    // the executions before it, where it needs them
    let all = get("history") == "*";
    let mut hist: Vec<Vec<u32>> = get("history")
        .split(';')
        .filter(|s| !s.is_empty())
        .map(|p| p.split(' ').filter_map(|x| x.parse().ok()).collect())
        .collect();
    if hist.is_empty() {
        hist.push(ch);
    }
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let (o, steps) = if all {
                match explore_alone(&u, b, Instant::now() + Duration::from_secs(3600), 1) {
                    Ok(Some((n, _, m))) => (Out::Violation(format!("execution {}: {}", n, m)), vec![]),
                    Ok(None) => (Out::Ok, vec![]),
                    Err(m) => (Out::Engine(m), vec![]),
                }
            } else {
                sequence(&u, b, &hist)
            };
            for s in steps {
                println!("  {}", s);
            }
            match o {
                Out::Ok => {
                    println!("no violation");
                    0
                }
                Out::Violation(m) => {
                    println!("violation: {}", m);
                    1
                }
                Out::Engine(m) => {
                    println!("engine error: {}", m);
                    2
                }
            }
        })
        .unwrap();
    h.join().unwrap_or(2)
}
