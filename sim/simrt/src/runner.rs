//! Executes runs in forked children, shrinks failures, writes and replays replay files.

use std::collections::{BTreeMap, HashSet};
use std::time::Instant;

use serde_json::{json, Value};

use crate::rt::{self, Input};
use crate::shm::{self, shm, NSTREAM};
use crate::{fnv, mix};

pub type RunFn = fn();

#[derive(Clone, Debug)]
pub struct Outcome {
    /// `None`: no violation.
    pub violation: Option<(String, String)>,
    pub streams: [Vec<u32>; NSTREAM],
    pub ev_hash: u64,
    pub ev_count: u64,
    pub evals: u64,
    pub sim_ns: u64,
}

/// CPU seconds and wall seconds one run may take.
const CPU_LIMIT: u64 = 60;
const WALL_LIMIT: u32 = 240;

pub fn run_child(input: &Input, trace: bool, f: RunFn) -> Outcome {
    shm::init();
    shm::reset();
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        unsafe {
            let r = libc::rlimit { rlim_cur: CPU_LIMIT, rlim_max: CPU_LIMIT + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &r);
            let r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &r);
            let r = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &r);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            // Whatever the code under test prints is not part of our output.
            if std::env::var_os("SIM_STDERR").is_none() {
                let n = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
                libc::dup2(n, 1);
                libc::dup2(n, 2);
            }
            libc::alarm(WALL_LIMIT);
        }
        rt::install_panic_hook();
        rt::start(input.clone(), trace);
        let r = std::panic::catch_unwind(f);
        if let Err(p) = r {
            let m = if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else {
                "?".into()
            };
            rt::violation("harness-panic", format!("the harness itself panicked: {}", m));
        }
        if shm().status == 0 {
            shm().status = 1;
        }
        unsafe { libc::_exit(0) }
    }
    let mut st = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
        let e = std::io::Error::last_os_error();
        assert_eq!(e.raw_os_error(), Some(libc::EINTR), "waitpid: {}", e);
    }
    let s = shm();
    let violation = if libc::WIFSIGNALED(st) {
        let sig = libc::WTERMSIG(st);
        let (c, what) = match sig {
            libc::SIGXCPU | libc::SIGKILL => ("hang", "used up the CPU time (or memory) of a run"),
            libc::SIGALRM => ("hang", "did not make progress"),
            libc::SIGABRT => ("abort", "the process aborted"),
            libc::SIGSEGV | libc::SIGBUS | libc::SIGILL => ("crash", "the process crashed"),
            _ => ("crash", "the process was killed"),
        };
        Some((c.to_string(), format!("{} (signal {})", what, sig)))
    } else if s.status == 2 {
        let class = String::from_utf8_lossy(&s.class[..s.class_len as usize]).into_owned();
        let msg = String::from_utf8_lossy(&s.msg[..s.msg_len as usize]).into_owned();
        Some((class, msg))
    } else if s.status != 1 {
        Some(("exit".into(), format!("the process exited by itself with status {}", libc::WEXITSTATUS(st))))
    } else {
        None
    };
    Outcome {
        violation,
        streams: [0, 1, 2].map(|i| s.streams[i].data[..s.streams[i].len as usize].to_vec()),
        ev_hash: s.ev_hash,
        ev_count: s.ev_count,
        evals: s.evals,
        sim_ns: s.sim_ns,
    }
}

pub fn take_trace() -> String {
    String::from_utf8_lossy(&shm().trace[..shm().trace_len as usize]).into_owned()
}

/// Shrinks a failing choice sequence while the class of the violation stays the same.
pub fn shrink(out: &Outcome, f: RunFn, budget: usize, secs: f64) -> Outcome {
    let class = out.violation.as_ref().unwrap().0.clone();
    let t0 = Instant::now();
    let mut best = out.clone();
    let mut left = budget;
    macro_rules! attempt {
        ($streams:expr) => {{
            let streams: [Vec<u32>; 3] = $streams;
            if left == 0 || t0.elapsed().as_secs_f64() > secs {
                left = 0;
                false
            } else {
                left -= 1;
                let o = run_child(&Input::Replay(streams), false, f);
                let ok = o.violation.as_ref().map_or(false, |v| v.0 == class);
                if ok && size(&o.streams) < size(&best.streams) {
                    best = o;
                    true
                } else {
                    false
                }
            }
        }};
    }
    loop {
        let before = size(&best.streams);
        // Schedules and faults first, then the generated data.
        for st in [1usize, 2, 0] {
            // Zero the whole stream, then truncate.
            let mut s = best.streams.clone();
            s[st].clear();
            attempt!(s);
            let mut n = best.streams[st].len();
            while n > 0 && left > 0 {
                n /= 2;
                if n < best.streams[st].len() {
                    let mut s = best.streams.clone();
                    s[st].truncate(n);
                    if !attempt!(s) {
                        break;
                    }
                }
            }
            // Delete chunks.
            for k in [64usize, 16, 8, 4, 2, 1] {
                let mut i = 0;
                while i < best.streams[st].len() && left > 0 {
                    let mut s = best.streams.clone();
                    let e = (i + k).min(s[st].len());
                    s[st].drain(i..e);
                    if !attempt!(s) {
                        // Zero the chunk instead.
                        let mut s = best.streams.clone();
                        let e = (i + k).min(s[st].len());
                        if s[st][i..e].iter().any(|&x| x != 0) {
                            s[st][i..e].iter_mut().for_each(|x| *x = 0);
                            attempt!(s);
                        }
                        i += k;
                    }
                }
            }
            // Lower single values.
            let mut i = 0;
            while i < best.streams[st].len() && left > 0 {
                let v = best.streams[st][i];
                for c in [0, 1, v / 2, v.saturating_sub(1)] {
                    if i < best.streams[st].len() && c < best.streams[st][i] {
                        let mut s = best.streams.clone();
                        s[st][i] = c;
                        if attempt!(s) {
                            break;
                        }
                    }
                }
                i += 1;
            }
        }
        if left == 0 || size(&best.streams) >= before {
            break;
        }
    }
    best
}

fn size(s: &[Vec<u32>; 3]) -> (usize, u64) {
    let strip = |v: &Vec<u32>| v.len() - v.iter().rev().take_while(|&&x| x == 0).count();
    (
        s.iter().map(strip).sum(),
        s.iter().flatten().map(|&x| x as u64).sum(),
    )
}

fn strip(v: &[u32]) -> &[u32] {
    let n = v.len() - v.iter().rev().take_while(|&&x| x == 0).count();
    &v[..n]
}

pub struct Scenario {
    pub prop: &'static str,
    pub name: &'static str,
    pub f: RunFn,
    /// Runs of the quick and thorough tiers (summed over all workers).
    pub quick: u64,
    pub thorough: u64,
    /// Analyses the bulk output of all runs of a worker; returns a violation.
    pub post: Option<fn(&[u8]) -> Option<(String, String)>>,
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).map(|i| args[i + 1].clone())
}

fn profile() -> &'static str {
    if cfg!(debug_assertions) {
        "debug"
    } else {
        "release"
    }
}

pub fn run_seed(base: u64, prop: &str, name: &str, i: u64) -> u64 {
    mix(mix(base, fnv(3, prop.as_bytes())), mix(fnv(5, name.as_bytes()), i))
}

/// Command line of the simulator binary.
pub fn main(scenarios: &[Scenario]) {
    crate::interpose::touch();
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| &**s) {
        Some("list") => {
            for s in scenarios {
                println!("{} {} {} {}", s.prop, s.name, s.quick, s.thorough);
            }
            0
        }
        Some("worker") => worker(scenarios, &args),
        Some("replay") => replay(scenarios, &args[2], args.iter().any(|a| a == "--trace")),
        Some("one") => one(scenarios, &args),
        _ => {
            eprintln!("usage: sim list|worker|replay FILE|one");
            2
        }
    };
    std::process::exit(code);
}

fn one(scenarios: &[Scenario], args: &[String]) -> i32 {
    shm::init();
    let name = arg(args, "--scenario").unwrap();
    let base: u64 = arg(args, "--seed").unwrap_or("1".into()).parse().unwrap();
    let i: u64 = arg(args, "--index").unwrap_or("0".into()).parse().unwrap();
    let s = scenarios.iter().find(|s| s.name == name).expect("scenario");
    let o = run_child(&Input::Random(run_seed(base, s.prop, s.name, i)), true, s.f);
    print!("{}", take_trace());
    println!("{:?} evals={} hash={:x}", o.violation, o.evals, o.ev_hash);
    0
}

fn worker(scenarios: &[Scenario], args: &[String]) -> i32 {
    shm::init();
    let name = arg(args, "--scenario").unwrap();
    let base: u64 = arg(args, "--seed").unwrap().parse().unwrap();
    let w: u64 = arg(args, "--worker").unwrap().parse().unwrap();
    let nw: u64 = arg(args, "--workers").unwrap().parse().unwrap();
    let runs: u64 = arg(args, "--runs").unwrap().parse().unwrap();
    let max_secs: f64 = arg(args, "--max-secs").unwrap_or("1e9".into()).parse().unwrap();
    let out = arg(args, "--out").unwrap();
    let replay_dir = arg(args, "--replay-dir").unwrap();
    let s = scenarios.iter().find(|s| s.name == name).expect("scenario");

    let t0 = Instant::now();
    let mut evs: HashSet<u64> = HashSet::new();
    let mut states: HashSet<u64> = HashSet::new();
    let (mut done, mut evals, mut sim_ns, mut events) = (0u64, 0u64, 0u128, 0u64);
    let mut violations: Vec<Value> = Vec::new();
    let mut classes: Vec<String> = Vec::new();
    let mut redo = (0u64, 0u64);
    let mut bulk: Vec<u8> = Vec::new();
    let mut schedules: HashSet<u64> = HashSet::new();
    let mut i = w;
    while i < runs {
        if t0.elapsed().as_secs_f64() > max_secs {
            break;
        }
        let seed = run_seed(base, s.prop, s.name, i);
        let o = run_child(&Input::Random(seed), false, s.f);
        if s.post.is_some() {
            bulk.extend_from_slice(&shm().out[..shm().out_len as usize]);
        }
        done += 1;
        evals += o.evals;
        sim_ns += o.sim_ns as u128;
        events += o.ev_count;
        if evs.len() < 1_000_000 {
            evs.insert(o.ev_hash);
        }
        let sh = o.streams[1].iter().chain(&o.streams[2]).fold(11u64, |h, &x| fnv(h, &x.to_le_bytes()));
        if schedules.len() < 1_000_000 {
            schedules.insert(sh);
        }
        for k in 0..shm().nstate as usize {
            if states.len() < 1_000_000 {
                states.insert(shm().states[k]);
            }
        }
        if let Some((class, msg)) = o.violation.clone() {
            if !classes.contains(&class) {
                classes.push(class.clone());
                violations.push(report(s, base, i, seed, &class, &msg, &o, &replay_dir));
            }
            if classes.len() >= 3 {
                break;
            }
        } else if i % 997 == 3 {
            // Determinism self-check: the same seed has to be the same execution.
            let o2 = run_child(&Input::Random(seed), false, s.f);
            redo.0 += 1;
            if o2.ev_hash != o.ev_hash || o2.streams != o.streams {
                redo.1 += 1;
            }
        }
        i += nw;
    }
    if let Some(post) = s.post {
        if let Some((class, msg)) = post(&bulk) {
            let path = format!("{}/{}-{}-{}-w{}.json", replay_dir, s.prop, s.name, profile(), w);
            let v = json!({
                "kind": "sweep", "property": s.prop, "scenario": s.name, "profile": profile(),
                "base_seed": base, "worker": w, "workers": nw, "runs": runs, "class": class, "message": msg,
            });
            std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
            violations.push(json!({"class": class, "message": msg, "replay": path}));
        }
    }
    let mut probes = BTreeMap::new();
    for p in shm().probes.iter() {
        let n = p.name.iter().position(|&c| c == 0).unwrap_or(56);
        if n > 0 {
            probes.insert(String::from_utf8_lossy(&p.name[..n]).into_owned(), p.count);
        }
    }
    let edges: Vec<usize> = (0..shm::NCOV).filter(|&i| shm().cov[i] != 0).collect();
    let v = json!({
        "property": s.prop, "scenario": s.name, "profile": profile(), "worker": w,
        "runs": done, "evals": evals, "sim_ns": sim_ns.to_string(), "events": events,
        "distinct_histories": evs.len(), "distinct_schedules": schedules.len(), "distinct_states": states.len(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "probes": probes, "violations": violations,
        "determinism_rechecked": redo.0, "determinism_mismatches": redo.1,
        "edges": edges,
        "history_hashes": evs.iter().take(100_000).map(|h| format!("{:x}", h)).collect::<Vec<_>>(),
        "state_hashes": states.iter().take(100_000).map(|h| format!("{:x}", h)).collect::<Vec<_>>(),
    });
    std::fs::write(&out, serde_json::to_string(&v).unwrap()).unwrap();
    0
}

fn report(
    s: &Scenario, base: u64, i: u64, seed: u64, class: &str, msg: &str, o: &Outcome, dir: &str,
) -> Value {
    let slow = class == "hang";
    let min = shrink(o, s.f, if slow { 6 } else { 1500 }, if slow { 90.0 } else { 25.0 });
    let streams: [Vec<u32>; 3] = [0, 1, 2].map(|k| strip(&min.streams[k]).to_vec());
    let r = run_child(&Input::Replay(streams.clone()), true, s.f);
    let trace = take_trace();
    let r2 = run_child(&Input::Replay(streams.clone()), true, s.f);
    let exact = r.ev_hash == r2.ev_hash && r.violation == r2.violation;
    let (c2, m2) = r.violation.clone().unwrap_or((class.into(), msg.into()));
    let path = format!("{}/{}-{}-{}-{}.json", dir, s.prop, s.name, profile(), i);
    let v = json!({
        "kind": "run", "property": s.prop, "scenario": s.name, "profile": profile(),
        "base_seed": base, "run_index": i, "run_seed": seed,
        "class": c2, "message": m2, "original_message": msg,
        "streams": {"gen": streams[0], "sched": streams[1], "fault": streams[2]},
        "original_choices": o.streams.iter().map(|s| s.len()).sum::<usize>(),
        "minimised_choices": streams.iter().map(|s| s.len()).sum::<usize>(),
        "event_hash": format!("{:x}", r.ev_hash),
        "replays_exactly": exact,
        "trace": trace.lines().collect::<Vec<_>>(),
    });
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    json!({"class": class, "message": m2, "replay": path})
}

fn replay(scenarios: &[Scenario], file: &str, _trace: bool) -> i32 {
    shm::init();
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let name = v["scenario"].as_str().unwrap();
    let s = scenarios.iter().find(|s| s.name == name).expect("scenario");
    if v["kind"] == "sweep" {
        let (w, nw, runs) = (v["worker"].as_u64().unwrap(), v["workers"].as_u64().unwrap(), v["runs"].as_u64().unwrap());
        let base = v["base_seed"].as_u64().unwrap();
        let mut bulk = Vec::new();
        let mut i = w;
        while i < runs {
            run_child(&Input::Random(run_seed(base, s.prop, s.name, i)), false, s.f);
            bulk.extend_from_slice(&shm().out[..shm().out_len as usize]);
            i += nw;
        }
        return match s.post.unwrap()(&bulk) {
            Some((c, m)) => {
                println!("{}: {}", c, m);
                println!("VIOLATION property={} replay={}", s.prop, file);
                1
            }
            None => 0,
        };
    }
    let get = |k: &str| -> Vec<u32> {
        v["streams"][k].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect()
    };
    let o = run_child(&Input::Replay([get("gen"), get("sched"), get("fault")]), true, s.f);
    print!("{}", take_trace());
    match o.violation {
        Some((c, m)) => {
            println!("{}: {}", c, m);
            let same = v["event_hash"] == format!("{:x}", o.ev_hash) && v["class"] == c;
            println!("replay: {}", if same { "exact (same event hash)" } else { "DIFFERS from the recorded run" });
            println!("VIOLATION property={} replay={}", s.prop, file);
            1
        }
        None => {
            println!("replay: no violation");
            0
        }
    }
}
