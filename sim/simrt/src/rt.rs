//! Per-run state, living in the forked child.
//!
//! At any time at most one thread executes the code of a run: the main thread, or the simulated
//! thread that holds the baton. All of the state below is only touched by that thread.

use std::any::Any;
use std::arch::asm;
use std::cell::{Cell, RefCell};
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, Ordering};

use crate::shm::{self, shm};
use crate::{fnv, Rng};

pub const GEN: usize = 0;
pub const SCHED: usize = 1;
pub const FAULT: usize = 2;

#[derive(Clone)]
pub enum Input {
    Random(u64),
    Replay([Vec<u32>; 3]),
}

enum StreamIn {
    Random(Rng),
    Replay(Vec<u32>, usize),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum TState {
    Runnable,
    /// Waiting on the futex word, until the optional deadline (simulated nanoseconds).
    Futex(usize, Option<u64>),
    Sleep(u64),
    Done,
}

struct Th {
    go: Box<AtomicU32>,
    state: TState,
    timed_out: bool,
    node: usize,
}

pub struct Node {
    /// Nanoseconds since the Unix epoch when simulated time is 0.
    pub base: i128,
    /// Clock drift in parts per million.
    pub drift_ppm: i64,
    pub entropy: Rng,
    /// Total number of entropy bytes that the node has drawn.
    pub drawn: u64,
}

#[derive(Clone, Default)]
pub struct EntropyPlan {
    /// Probabilities in 1/256.
    pub eintr: u32,
    pub short: u32,
    pub zeros: u32,
    /// Bytes since `zeros` last fired.
    pub since_zeros: u64,
    /// Fails every read from the n-th read on (0-based, counted over the plan's life), `len` times.
    pub fail_at: Option<(u64, u64)>,
    pub errno: i32,
    pub reads: u64,
    /// Whether any read failed for good (not EINTR).
    pub failed: u64,
    pub eintrs: u64,
    pub shorts: u64,
    pub consecutive_eintr: u32,
    /// Flip this bit (counted over all the bytes the nodes draw).
    pub flip_bit: Option<u64>,
    pub total: u64,
}

#[derive(Clone, Default)]
pub struct ClockPlan {
    /// Probability in 1/256 that a clock read is preceded by a jump.
    pub jump: u32,
    /// Maximum tick (ns) per clock read.
    pub tick: u64,
}

enum Strategy {
    /// Preempt about every `preempt_span` points, for a while.
    Walk,
    /// Short bursts of preemptions, rarely.
    Bursts { gap: u32, left: u32 },
    /// Preempt about every `span`-th access to static data only.
    Accesses { span: u32 },
    /// Always run the thread with the highest priority, but lower that of the running thread to the
    /// lowest at a few points.
    Priorities { prio: Vec<i64>, points: Vec<u64>, passed: u64, lowest: i64 },
}

pub struct Rt {
    ins: [StreamIn; 3],
    threads: Vec<Th>,
    cur: usize,
    sched_on: bool,
    pub edges_on: bool,
    countdown: u32,
    pub preempt_span: u32,
    /// How preemption points are chosen; drawn for each set of threads.
    strategy: Strategy,
    main_go: AtomicU32,
    pub now: u64,
    pub nodes: Vec<Node>,
    pub main_node: usize,
    pub entropy: EntropyPlan,
    pub clock: ClockPlan,
    /// (sim event index, node, seconds): every value (whole seconds) the nodes' clocks took on.
    pub clock_log: Vec<(usize, i64)>,
    pub trace_on: bool,
    pub steps: u64,
    pub switches: u64,
    /// Accesses to static data by the code under test.
    pub accesses: u64,
    /// What `getpid` returns.
    pub pid: i32,
    record: bool,
}

static mut RT: *mut Rt = std::ptr::null_mut();

thread_local! {
    static TID: Cell<i32> = const { Cell::new(-1) };
    static IN_SUT: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static LAST_INJECTED: Cell<bool> = const { Cell::new(false) };
}

#[inline]
pub fn active() -> bool {
    unsafe { !RT.is_null() }
}

#[inline]
#[allow(static_mut_refs)]
pub fn rt() -> &'static mut Rt {
    unsafe { &mut *RT }
}

pub fn start(input: Input, trace: bool) {
    let ins = match input {
        Input::Random(seed) => [
            StreamIn::Random(Rng(crate::mix(seed, 1))),
            StreamIn::Random(Rng(crate::mix(seed, 2))),
            StreamIn::Random(Rng(crate::mix(seed, 3))),
        ],
        Input::Replay([a, b, c]) => [
            StreamIn::Replay(a, 0),
            StreamIn::Replay(b, 0),
            StreamIn::Replay(c, 0),
        ],
    };
    let rt = Box::new(Rt {
        ins,
        threads: Vec::new(),
        cur: 0,
        sched_on: false,
        edges_on: false,
        countdown: 0,
        preempt_span: 16,
        strategy: Strategy::Walk,
        main_go: AtomicU32::new(0),
        now: 0,
        nodes: Vec::new(),
        main_node: 0,
        entropy: EntropyPlan::default(),
        clock: ClockPlan::default(),
        clock_log: Vec::new(),
        trace_on: trace,
        steps: 0,
        switches: 0,
        accesses: 0,
        pid: 1,
        record: true,
    });
    unsafe { RT = Box::into_raw(rt) };
    new_node(1_600_000_000_000_000_000, 0);
}

pub fn new_node(base: i128, drift_ppm: i64) -> usize {
    let n = rt().nodes.len();
    // The operating system's generator is modelled as a strong one: the streams of different nodes
    // (and of different lives of a node) are unrelated.
    let seed = (draw(FAULT, u32::MAX) as u64) << 32 | draw(FAULT, u32::MAX) as u64;
    rt().nodes.push(Node {
        base,
        drift_ppm,
        entropy: Rng(crate::mix(seed, 0xE27 + n as u64)),
        drawn: 0,
    });
    n
}

/// Draws a number in `0..n` from a recorded stream. 0 is the simplest choice.
pub fn draw(stream: usize, n: u32) -> u32 {
    debug_assert!(n > 0);
    let v = match rt().ins[stream] {
        StreamIn::Random(ref mut r) => ((r.next() >> 32) * n as u64 >> 32) as u32,
        StreamIn::Replay(ref d, ref mut pos) => {
            let v = d.get(*pos).copied().unwrap_or(0);
            *pos += 1;
            if v < n {
                v
            } else {
                v % n
            }
        }
    };
    let s = &mut shm().streams[stream];
    if rt().record && (s.len as usize) < shm::STREAM_CAP {
        s.data[s.len as usize] = v;
        s.len += 1;
    }
    v
}

/// Generation choices.
pub fn below(n: usize) -> usize {
    draw(GEN, n as u32) as usize
}

/// True with probability about `p`/256; false is the simplest.
pub fn chance(p: u32) -> bool {
    draw(GEN, 256) >= 256 - p.min(256)
}

pub fn fault_chance(p: u32) -> bool {
    p > 0 && draw(FAULT, 256) >= 256 - p.min(256)
}

pub fn pick<'a, T: ?Sized>(xs: &[&'a T]) -> &'a T {
    xs[below(xs.len())]
}

pub fn pickc<T: Copy>(xs: &[T]) -> T {
    xs[below(xs.len())]
}

pub fn probe(name: &str) {
    shm::probe_slot(name).count += 1;
}

pub fn probe_n(name: &str, n: u64) {
    if n > 0 {
        shm::probe_slot(name).count += n;
    }
}

/// Counts one evaluation of the property's oracle.
pub fn eval() {
    shm().evals += 1;
}

/// Records a state (a hash) that the run reached.
pub fn state(h: u64) {
    let s = shm();
    if (s.nstate as usize) < shm::NSTATE {
        s.states[s.nstate as usize] = h;
        s.nstate += 1;
    }
}

/// Appends an event to the run's log.
pub fn ev(f: impl FnOnce() -> String) {
    let line = f();
    let s = shm();
    s.ev_hash = fnv(s.ev_hash, line.as_bytes());
    s.ev_count += 1;
    if rt().trace_on {
        let t = format!(
            "{:>12}ns {:>4} {}\n",
            rt().now,
            if tid() < 0 { "main".to_string() } else { format!("t{}", tid()) },
            line
        );
        let b = t.as_bytes();
        let at = s.trace_len as usize;
        if at + b.len() <= shm::TRACE_CAP {
            s.trace[at..at + b.len()].copy_from_slice(b);
            s.trace_len += b.len() as u32;
        }
    }
}

pub fn out(bytes: &[u8]) {
    let s = shm();
    let at = s.out_len as usize;
    if at + bytes.len() <= shm::NOUT {
        s.out[at..at + bytes.len()].copy_from_slice(bytes);
        s.out_len += bytes.len() as u32;
    }
}

/// Reports a violation and ends the run. `class` identifies the kind of violation for the shrinker.
pub fn violation(class: &str, msg: String) -> ! {
    let s = shm();
    if active() {
        ev(|| format!("VIOLATION {}: {}", class, msg));
    }
    let c = class.as_bytes();
    let n = c.len().min(256);
    s.class[..n].copy_from_slice(&c[..n]);
    s.class_len = n as u32;
    let m = msg.as_bytes();
    let n = m.len().min(shm::MSG_CAP);
    s.msg[..n].copy_from_slice(&m[..n]);
    s.msg_len = n as u32;
    s.status = 2;
    unsafe { libc::_exit(0) }
}

/// A violation, unless `class` is in SIM_KNOWN (from known_findings.txt): then the run goes on.
pub fn finding(class: &str, msg: String) {
    let known = std::env::var("SIM_KNOWN").unwrap_or_default();
    if !known.split(',').any(|k| k == class) {
        violation(class, msg);
    }
    ev(|| format!("known: {}: {}", class, msg));
    probe(&format!("known.{}", class));
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $class:expr, $($arg:tt)+) => {
        if !$cond {
            $crate::violation($class, format!($($arg)+));
        }
    };
}

// ---------------------------------------------------------------------------------------------
// Calling the system under test.

pub struct Injected(pub &'static str);

#[derive(Debug, Clone)]
pub struct Panicked {
    pub msg: String,
    pub loc: String,
    /// Whether the payload is one that a harness callback injected.
    pub injected: bool,
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let prev = IN_SUT.with(|c| c.replace(false));
        let msg = payload_str(info.payload());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if !active() {
            eprintln!("panic: {} at {}", msg, loc);
        }
        let inj = info.payload().is::<Injected>();
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = Some((msg, loc));
            }
        });
        LAST_INJECTED.with(|c| c.set(inj));
        IN_SUT.with(|c| c.set(prev));
    }));
}

fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(i) = p.downcast_ref::<Injected>() {
        format!("<injected: {}>", i.0)
    } else {
        "<opaque panic payload>".into()
    }
}

struct InSut(bool);
impl Drop for InSut {
    fn drop(&mut self) {
        IN_SUT.with(|c| c.set(self.0));
    }
}

/// Runs library code: edges inside are scheduling points, panics are caught and reported.
pub fn sut<R>(f: impl FnOnce() -> R) -> Result<R, Panicked> {
    let guard = InSut(IN_SUT.with(|c| c.replace(true)));
    if tid() < 0 {
        rt().steps = 0;
    }
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    drop(guard);
    match r {
        Ok(r) => Ok(r),
        Err(p) => {
            let prev = IN_SUT.with(|c| c.replace(false));
            let (mut msg, loc) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if msg.is_empty() {
                msg = payload_str(&*p);
            }
            let injected = p.is::<Injected>();
            drop(p);
            IN_SUT.with(|c| c.set(prev));
            Err(Panicked { msg, loc, injected })
        }
    }
}

pub struct Callback(bool);
impl Drop for Callback {
    fn drop(&mut self) {
        IN_SUT.with(|c| c.set(self.0));
    }
}

/// Enters harness code from library code. A scheduling point.
pub fn callback() -> Callback {
    let g = Callback(IN_SUT.with(|c| c.replace(false)));
    if active() {
        yield_point();
    }
    g
}

pub fn in_sut() -> bool {
    IN_SUT.try_with(|c| c.get()).unwrap_or(false)
}

pub fn tid() -> i32 {
    TID.with(|c| c.get())
}

pub fn node() -> usize {
    let t = tid();
    if t >= 0 {
        rt().threads[t as usize].node
    } else {
        rt().main_node
    }
}

/// Assigns the calling (main or simulated) thread to a node.
pub fn set_node(n: usize) {
    let t = tid();
    if t >= 0 {
        rt().threads[t as usize].node = n;
    } else {
        rt().main_node = n;
    }
}

// ---------------------------------------------------------------------------------------------
// Scheduler.

pub(crate) unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!(
        "syscall",
        inlateout("rax") n => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    r
}

fn park(go: &AtomicU32) {
    while go.swap(0, Ordering::Acquire) == 0 {
        unsafe {
            raw_syscall(libc::SYS_futex, go as *const _ as i64, 128, 0, 0, 0, 0);
        }
    }
}

fn unpark(go: &AtomicU32) {
    go.store(1, Ordering::Release);
    unsafe {
        raw_syscall(libc::SYS_futex, go as *const _ as i64, 129, 1, 0, 0, 0);
    }
}

fn runnable() -> Vec<usize> {
    rt().threads
        .iter()
        .enumerate()
        .filter(|(_, t)| t.state == TState::Runnable)
        .map(|(i, _)| i)
        .collect()
}

fn choose_strategy(threads: usize) {
    rt().strategy = match draw(SCHED, 8) {
        0 | 3 | 4 => Strategy::Walk,
        2 => Strategy::Accesses { span: [2, 3, 8, 30, 200][draw(SCHED, 5) as usize] },
        1 | 5 => Strategy::Bursts { gap: [100, 1000, 5000, 20_000][draw(SCHED, 4) as usize], left: 0 },
        _ => {
            let length = [300, 2000, 10_000, 50_000, 200_000][draw(SCHED, 5) as usize];
            let mut points: Vec<u64> = (0..draw(SCHED, 8)).map(|_| draw(SCHED, length) as u64).collect();
            points.sort_unstable();
            Strategy::Priorities { prio: (0..threads).map(|_| draw(SCHED, 1000) as i64).collect(), points, passed: 0, lowest: 0 }
        }
    };
}

fn reset_countdown() {
    // 0: do not preempt any more.
    let span = rt().preempt_span;
    let r = rt();
    r.countdown = match r.strategy {
        Strategy::Walk => match draw(SCHED, span * 16) {
            0 => 0,
            v => 1 + v % span,
        },
        Strategy::Accesses { span } => match draw(SCHED, span * 32) {
            0 => 0,
            v => 1 + v % span,
        },
        Strategy::Bursts { gap, ref mut left } => match draw(SCHED, 1 << 20) {
            0 => 0,
            v if *left > 0 => {
                *left -= 1;
                1 + v % 6
            }
            v => {
                *left = v & 7;
                1 + (v >> 3) % gap
            }
        },
        Strategy::Priorities { ref points, ref mut passed, .. } => match points.get(*passed as usize) {
            Some(p) => {
                let before = if *passed > 0 { points[*passed as usize - 1] } else { 0 };
                *passed += 1;
                (1 + p - before) as u32
            }
            None => 0,
        },
    };
}

/// Picks one of the runnable threads.
fn choose(r: &[usize]) -> usize {
    if r.len() == 1 {
        return r[0];
    }
    match rt().strategy {
        Strategy::Priorities { ref prio, .. } => *r.iter().max_by_key(|i| (prio[**i], **i)).unwrap(),
        _ => r[draw(SCHED, r.len() as u32) as usize],
    }
}

/// Picks the next thread to run when the current one cannot continue. `None`: all are done.
fn pick_next() -> Option<usize> {
    loop {
        let r = runnable();
        if !r.is_empty() {
            return Some(choose(&r));
        }
        if rt().threads.iter().all(|t| t.state == TState::Done) {
            return None;
        }
        // Advance the simulated time to the next timer.
        let next = rt()
            .threads
            .iter()
            .filter_map(|t| match t.state {
                TState::Sleep(d) | TState::Futex(_, Some(d)) => Some(d),
                _ => None,
            })
            .min();
        match next {
            Some(d) => {
                if d > rt().now {
                    advance(d - rt().now);
                }
                let now = rt().now;
                for t in rt().threads.iter_mut() {
                    match t.state {
                        TState::Sleep(d) if d <= now => t.state = TState::Runnable,
                        TState::Futex(_, Some(d)) if d <= now => {
                            t.state = TState::Runnable;
                            t.timed_out = true;
                        }
                        _ => {}
                    }
                }
            }
            None => violation(
                "deadlock",
                format!(
                    "deadlock: no thread can run: {:?}",
                    rt().threads.iter().map(|t| t.state).collect::<Vec<_>>()
                ),
            ),
        }
    }
}

fn hand_over(to: usize) {
    let me = rt().cur;
    if to == me {
        return;
    }
    rt().cur = to;
    rt().switches += 1;
    let my_go = &*rt().threads[me].go as *const AtomicU32;
    unpark(&rt().threads[to].go);
    park(unsafe { &*my_go });
}

#[inline]
pub fn yield_point() {
    if tid() < 0 || !rt().sched_on {
        return;
    }
    let r = rt();
    if r.countdown == 0 {
        return;
    }
    r.countdown -= 1;
    if r.countdown == 0 {
        if let Strategy::Priorities { ref mut prio, ref mut lowest, .. } = r.strategy {
            *lowest -= 1;
            prio[r.cur] = *lowest;
        }
        reset_countdown();
        let rs = runnable();
        if rs.len() > 1 {
            let to = choose(&rs);
            let prev = IN_SUT.with(|c| c.replace(false));
            hand_over(to);
            IN_SUT.with(|c| c.set(prev));
        }
    }
}

/// Runs the closures as simulated threads under the seeded scheduler until all of them finished.
/// Returns their panics, if any.
pub fn run_threads(fs: Vec<(usize, Box<dyn FnOnce() + Send>)>) -> Vec<Option<String>> {
    assert!(tid() < 0);
    let n = fs.len();
    rt().threads.clear();
    for (node, _) in &fs {
        rt().threads.push(Th {
            go: Box::new(AtomicU32::new(0)),
            state: TState::Runnable,
            timed_out: false,
            node: *node,
        });
    }
    let mut handles = Vec::new();
    for (i, (_, f)) in fs.into_iter().enumerate() {
        let go = &*rt().threads[i].go as *const AtomicU32 as usize;
        handles.push(
            std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn(move || {
                    park(unsafe { &*(go as *const AtomicU32) });
                    TID.with(|c| c.set(i as i32));
                    let r = panic::catch_unwind(AssertUnwindSafe(f));
                    let msg = r.err().map(|p| {
                        let m = payload_str(&*p);
                        match LAST_PANIC.with(|p| p.borrow_mut().take()) {
                            Some((a, b)) => format!("{} at {}", a, b),
                            None => m,
                        }
                    });
                    // Done: pass the baton on.
                    rt().threads[i].state = TState::Done;
                    let next = pick_next();
                    TID.with(|c| c.set(-1));
                    match next {
                        Some(t) => {
                            rt().cur = t;
                            unpark(&rt().threads[t].go);
                        }
                        None => unpark(&rt().main_go),
                    }
                    msg
                })
                .expect("spawn"),
        );
    }
    rt().sched_on = true;
    choose_strategy(n);
    reset_countdown();
    if let Some(t) = pick_next() {
        rt().cur = t;
        unpark(&rt().threads[t].go);
        park(&rt().main_go);
    }
    rt().sched_on = false;
    let _ = n;
    handles.into_iter().map(|h| h.join().unwrap_or_else(|_| Some("thread died".into()))).collect()
}

/// Simulated sleep of the calling thread.
pub fn sleep_ns(ns: u64) {
    if tid() < 0 || !rt().sched_on {
        advance(ns);
        return;
    }
    let me = rt().cur;
    rt().threads[me].state = TState::Sleep(rt().now.saturating_add(ns));
    let to = pick_next().expect("a sleeping thread exists");
    hand_over(to);
}

/// Returns 0, or a negative errno.
pub(crate) fn futex_wait(addr: usize, val: u32, deadline: Option<u64>) -> i64 {
    let cur = unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) };
    if cur != val {
        return -(libc::EAGAIN as i64);
    }
    if tid() < 0 || !rt().sched_on {
        // The only thread there is.
        match deadline {
            Some(d) => {
                let now = rt().now;
                if d > now {
                    advance(d - now);
                }
                return -(libc::ETIMEDOUT as i64);
            }
            None => violation("deadlock", "the only thread waits for a lock forever".into()),
        }
    }
    let prev = IN_SUT.with(|c| c.replace(false));
    let me = rt().cur;
    rt().threads[me].timed_out = false;
    rt().threads[me].state = TState::Futex(addr, deadline);
    probe("sched.blocked_on_lock");
    let to = pick_next().expect("a waiting thread exists");
    hand_over(to);
    IN_SUT.with(|c| c.set(prev));
    if rt().threads[me].timed_out {
        -(libc::ETIMEDOUT as i64)
    } else {
        0
    }
}

pub(crate) fn futex_wake(addr: usize, n: u32) -> i64 {
    let mut woken = 0;
    for t in rt().threads.iter_mut() {
        if woken as u32 >= n {
            break;
        }
        if let TState::Futex(a, _) = t.state {
            if a == addr {
                t.state = TState::Runnable;
                woken += 1;
            }
        }
    }
    woken
}

pub(crate) fn is_sim_thread() -> bool {
    active() && (tid() >= 0 || in_sut())
}

// ---------------------------------------------------------------------------------------------
// Clocks and entropy.

/// Advances the simulated time.
pub fn advance(ns: u64) {
    rt().now = rt().now.saturating_add(ns);
    shm().sim_ns = shm().sim_ns.saturating_add(ns);
    log_clocks();
}

pub fn jump_clock(node: usize, delta_ns: i128) {
    rt().nodes[node].base += delta_ns;
    log_clocks();
}

pub fn set_clock(node: usize, wall_ns: i128) {
    let cur = wall(node);
    rt().nodes[node].base += wall_ns - cur;
    log_clocks();
}

fn log_clocks() {
    for i in 0..rt().nodes.len() {
        let s = wall_secs(i);
        rt().clock_log.push((i, s));
    }
}

pub fn wall(node: usize) -> i128 {
    let r = rt();
    let n = &r.nodes[node];
    n.base + r.now as i128 + r.now as i128 * n.drift_ppm as i128 / 1_000_000
}

/// Whole seconds since the epoch (floor).
pub fn wall_secs(node: usize) -> i64 {
    wall(node).div_euclid(1_000_000_000) as i64
}

pub(crate) fn clock_read(realtime: bool) -> i128 {
    let prev = IN_SUT.with(|c| c.replace(false));
    probe("seam.clock_reads");
    // A slow call: time passes (and the clock may be stepped) before and after the read.
    let tick = |()| {
        let p = rt().clock.clone();
        if p.tick > 0 {
            let t = draw(FAULT, 1 << 16) as u64 * (p.tick / (1 << 16) + 1);
            if t > 0 {
                advance(t);
            }
        }
        if fault_chance(p.jump) {
            let d = jump_amount();
            probe(if d < 0 { "fault.clock_jump_back" } else { "fault.clock_jump_forward" });
            let n = node();
            jump_clock(n, d);
        }
    };
    tick(());
    let v = if realtime { wall(node()) } else { rt().now as i128 };
    yield_point();
    tick(());
    IN_SUT.with(|c| c.set(prev));
    v
}

fn jump_amount() -> i128 {
    let s = 1_000_000_000i128;
    match draw(FAULT, 8) {
        0 => s,
        1 => -s,
        2 => draw(FAULT, 3600) as i128 * s,
        3 => -(draw(FAULT, 3600) as i128) * s,
        4 => draw(FAULT, 1000) as i128 * 1_000_000,
        5 => -(draw(FAULT, 1000) as i128) * 1_000_000,
        6 => draw(FAULT, 100_000_000) as i128 * s,
        _ => -(draw(FAULT, 100_000_000) as i128) * s,
    }
}

/// Serves a read of entropy. Returns the number of bytes, or a negative errno.
pub(crate) fn entropy_read(buf: *mut u8, len: usize) -> i64 {
    let prev = IN_SUT.with(|c| c.replace(false));
    yield_point();
    let r = entropy_read_(buf, len);
    IN_SUT.with(|c| c.set(prev));
    r
}

fn entropy_read_(buf: *mut u8, len: usize) -> i64 {
    if len == 0 {
        return 0;
    }
    let n = node();
    let p = &mut rt().entropy;
    probe("seam.entropy_reads");
    let idx = p.reads;
    p.reads += 1;
    if let Some((at, cnt)) = p.fail_at {
        if idx >= at && idx - at < cnt {
            p.failed += 1;
            probe("fault.entropy_failure");
            return -(p.errno as i64);
        }
    }
    if p.consecutive_eintr < 8 && fault_chance(p.eintr) {
        p.eintrs += 1;
        p.consecutive_eintr += 1;
        probe("fault.entropy_eintr");
        return -(libc::EINTR as i64);
    }
    p.consecutive_eintr = 0;
    let mut take = len;
    if len > 1 && fault_chance(p.short) {
        p.shorts += 1;
        take = 1 + draw(FAULT, len as u32 - 1) as usize;
        probe("fault.entropy_short_read");
    }
    // (Not in each of several reads of a call: all its entropy being zero does not happen.)
    let zeros = p.since_zeros >= 64 && fault_chance(p.zeros);
    p.since_zeros = if zeros { 0 } else { p.since_zeros.saturating_add(take as u64) };
    let nz = if zeros {
        probe("fault.entropy_leading_zero_bytes");
        1 + draw(FAULT, 6) as usize
    } else {
        0
    };
    let node = &mut rt().nodes[n];
    for i in 0..take {
        let mut b = node.entropy.next() as u8;
        if i < nz {
            b = 0;
        } else if i == nz && nz > 0 {
            b |= 1;
        }
        if let Some(bit) = p.flip_bit {
            if bit / 8 == p.total {
                b ^= 1 << (bit % 8);
            }
        }
        p.total += 1;
        node.drawn += 1;
        unsafe { *buf.add(i) = b };
    }
    take as i64
}

pub(crate) fn edge(id: u32) {
    if !IN_SUT.with(|c| c.get()) || !active() {
        return;
    }
    let s = shm();
    s.cov[id as usize % shm::NCOV] = 1;
    let r = rt();
    r.steps += 1;
    if r.steps > 600_000_000 {
        violation("hang", "a call did not finish within 600M steps".into());
    }
    if r.edges_on && !matches!(r.strategy, Strategy::Accesses { .. }) {
        yield_point();
    }
}

pub(crate) fn access(p: *const u8) {
    // (The simulator's own variable is read by its inlined functions.)
    if p == &raw const RT as *const u8 || !IN_SUT.with(|c| c.get()) || !active() {
        return;
    }
    let r = rt();
    r.accesses += 1;
    if r.edges_on {
        yield_point();
    }
}

/// Re-enters library code from a callback (e.g. calling back a formatter that the library passed).
pub fn reenter() -> Callback {
    Callback(IN_SUT.with(|c| c.replace(true)))
}

/// Forks the simulated process: `f` runs in the copy, on the same node, until it returns, while the
/// original waits. Returns what `f` returned. `new_pid`: as `fork(2)`; otherwise the copy is a process
/// of its own that was started from the same image (with the same pid, as in a container).
///
/// The choices of the copy are a function of one choice of the original.
pub fn fork_child(new_pid: bool, f: impl FnOnce() -> Vec<u8>) -> Vec<u8> {
    assert!(tid() < 0);
    const CAP: usize = 1 << 20;
    let seed = (draw(FAULT, u32::MAX) as u64) << 32 | draw(FAULT, u32::MAX) as u64;
    probe(if new_pid { "fault.fork" } else { "fault.process_start" });
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(), CAP, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0,
        );
        assert!(p != libc::MAP_FAILED);
        let p = p as *mut u8;
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            let r = rt();
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::alarm(200);
            r.record = false;
            r.ins = [0, 1, 2].map(|i| StreamIn::Random(Rng(crate::mix(seed, 100 + i))));
            if new_pid {
                r.pid += 1 + (seed % 1000) as i32;
            }
            for (i, n) in r.nodes.iter_mut().enumerate() {
                n.entropy = Rng(crate::mix(seed, 200 + i as u64));
            }
            let r = panic::catch_unwind(AssertUnwindSafe(f));
            match r {
                Ok(v) => {
                    let n = v.len().min(CAP - 8);
                    *(p as *mut u64) = n as u64 + 1;
                    std::ptr::copy_nonoverlapping(v.as_ptr(), p.add(8), n);
                }
                Err(e) => violation("harness-panic", format!("the harness itself panicked: {}", payload_str(&*e))),
            }
            libc::_exit(0);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) != pid {}
        if shm().status == 2 {
            libc::_exit(0);
        }
        let n = *(p as *mut u64);
        if n == 0 {
            violation("abort", format!("a forked process ended abnormally (status {:x})", st));
        }
        let v = std::slice::from_raw_parts(p.add(8), n as usize - 1).to_vec();
        libc::munmap(p as *mut _, CAP);
        v
    }
}
