//! The journal shared by a worker process and its supervisor: a mapped file
//! that holds the case being evaluated, so that a crash or a hang of the
//! process still tells which case it was.

use std::fs::OpenOptions;
use std::os::fd::AsRawFd;
use std::path::Path;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
    fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

pub const CAP: usize = 1 << 22;

#[derive(Clone, Copy)]
pub struct Journal(*mut u8);
unsafe impl Send for Journal {}
unsafe impl Sync for Journal {}

impl Journal {
    pub fn open(path: &Path, create: bool) -> Journal {
        let f = OpenOptions::new()
            .read(true)
            .write(true)
            .create(create)
            .open(path)
            .expect("journal");
        if create {
            f.set_len(CAP as u64).expect("journal size");
        }
        let p = unsafe { mmap(std::ptr::null_mut(), CAP, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "mmap");
        Journal(p)
    }
    fn beat(&self) -> &AtomicU64 {
        unsafe { &*(self.0 as *const AtomicU64) }
    }
    fn flag(&self) -> &AtomicU32 {
        unsafe { &*(self.0.add(8) as *const AtomicU32) }
    }
    fn len(&self) -> &AtomicU32 {
        unsafe { &*(self.0.add(12) as *const AtomicU32) }
    }
    pub fn record(&self, kind: &str, args: &[&str]) {
        self.beat().fetch_add(1, SeqCst);
        let mut o = 16;
        let mut put = |s: &str| {
            let n = s.len().min(CAP - o - 8);
            unsafe {
                (self.0.add(o) as *mut [u8; 4]).write_unaligned((n as u32).to_le_bytes());
                std::ptr::copy_nonoverlapping(s.as_ptr(), self.0.add(o + 4), n);
            }
            o += 4 + n;
        };
        put(kind);
        for a in args {
            put(a);
        }
        self.len().store(o as u32, SeqCst);
    }
    pub fn enter(&self) {
        self.beat().fetch_add(1, SeqCst);
        self.flag().store(1, SeqCst);
    }
    pub fn leave(&self) {
        self.flag().store(0, SeqCst);
    }
    pub fn state(&self) -> (u64, bool) {
        (self.beat().load(SeqCst), self.flag().load(SeqCst) != 0)
    }
    pub fn current(&self) -> (String, Vec<String>) {
        let n = (self.len().load(SeqCst) as usize).min(CAP);
        let b = unsafe { std::slice::from_raw_parts(self.0, n) };
        let mut v = vec![];
        let mut o = 16;
        while o + 4 <= n {
            let l = u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]]) as usize;
            v.push(String::from_utf8_lossy(&b[o + 4..(o + 4 + l).min(n)]).into_owned());
            o += 4 + l;
        }
        if v.is_empty() {
            return (String::new(), vec![]);
        }
        let k = v.remove(0);
        (k, v)
    }
}

pub fn limits() {
    unsafe {
        // address space 4 GB, no core files, die with the supervisor
        setrlimit(9, &[4 << 30, 4 << 30]);
        setrlimit(4, &[0, 0]);
        prctl(1, 9, 0, 0, 0);
    }
}

/// processor time of this thread
pub fn cpu_ns() -> u64 {
    let mut t = [0i64; 2];
    unsafe { clock_gettime(3, &mut t) };
    t[0] as u64 * 1_000_000_000 + t[1] as u64
}
