//! Memory shared between the worker and the forked child that executes one simulated run. What the
//! child recorded survives however it ends (return, `_exit`, abort, kill by a resource limit).

use std::ptr;

pub const NSTREAM: usize = 3;
pub const STREAM_CAP: usize = 1 << 18;
pub const MSG_CAP: usize = 1 << 16;
pub const TRACE_CAP: usize = 4 << 20;
pub const NPROBE: usize = 1024;
pub const NSTATE: usize = 8192;
pub const NCOV: usize = 1 << 17;
pub const NOUT: usize = 1 << 20;

#[repr(C)]
pub struct Stream {
    pub len: u32,
    pub data: [u32; STREAM_CAP],
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Probe {
    pub name: [u8; 56],
    pub count: u64,
}

#[repr(C)]
pub struct Shm {
    /// 0: not finished, 1: finished without a violation, 2: violation
    pub status: u32,
    pub class_len: u32,
    pub class: [u8; 256],
    pub msg_len: u32,
    pub msg: [u8; MSG_CAP],
    pub streams: [Stream; NSTREAM],
    pub ev_hash: u64,
    pub ev_count: u64,
    pub evals: u64,
    pub sim_ns: u64,
    pub nstate: u32,
    pub states: [u64; NSTATE],
    pub trace_len: u32,
    pub trace: [u8; TRACE_CAP],
    // Accumulated across the runs of a worker:
    pub probes: [Probe; NPROBE],
    pub cov: [u8; NCOV],
    /// Bulk output of a run for cross-run analysis (e.g. nonces).
    pub out_len: u32,
    pub out: [u8; NOUT],
}

static mut SHM: *mut Shm = ptr::null_mut();

pub fn init() {
    unsafe {
        if SHM.is_null() {
            let p = libc::mmap(
                ptr::null_mut(),
                std::mem::size_of::<Shm>(),
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED, "mmap");
            SHM = p as *mut Shm;
        }
    }
}

#[inline]
#[allow(static_mut_refs)]
pub fn shm() -> &'static mut Shm {
    unsafe { &mut *SHM }
}

pub fn ready() -> bool {
    unsafe { !SHM.is_null() }
}

/// Resets the per-run part.
pub fn reset() {
    let s = shm();
    s.status = 0;
    s.class_len = 0;
    s.msg_len = 0;
    for st in s.streams.iter_mut() {
        st.len = 0;
    }
    s.ev_hash = 0xcbf29ce484222325;
    s.ev_count = 0;
    s.evals = 0;
    s.sim_ns = 0;
    s.nstate = 0;
    s.trace_len = 0;
    s.out_len = 0;
}

pub fn probe_slot(name: &str) -> &'static mut Probe {
    let s = shm();
    let b = name.as_bytes();
    assert!(b.len() <= 56, "probe name too long: {}", name);
    let mut i = (crate::fnv(7, b) as usize) % NPROBE;
    loop {
        let p = unsafe { &mut *(&mut s.probes[i] as *mut Probe) };
        let n = p.name.iter().position(|&c| c == 0).unwrap_or(56);
        if n == 0 {
            p.name[..b.len()].copy_from_slice(b);
            return p;
        }
        if &p.name[..n] == b {
            return p;
        }
        i = (i + 1) % NPROBE;
    }
}
