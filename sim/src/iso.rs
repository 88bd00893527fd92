//! Fresh processes: what state the code under test keeps between runs (statics,
//! thread locals, the heap) must not make one run depend on another.

use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn prctl(option: i32, ...) -> i32;
}

/// Run `f` in a copy of this process made here and now, and return its answer; Err: the wait
/// status of a copy that died.  Only for a process with no other thread.
pub fn fresh(f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, i32> {
    let mut fds = [0i32; 2];
    assert_eq!(unsafe { pipe(fds.as_mut_ptr()) }, 0, "pipe");
    let (mut rd, mut wr) = unsafe { (File::from_raw_fd(fds[0]), File::from_raw_fd(fds[1])) };
    let mut tries = 0;
    let pid = loop {
        let pid = unsafe { fork() };
        if pid >= 0 {
            break pid;
        }
        tries += 1;
        assert!(tries < 200, "fork");
        std::thread::sleep(std::time::Duration::from_millis(20));
    };
    if pid == 0 {
        // PR_SET_PDEATHSIG, SIGKILL: do not outlive a supervisor's kill
        unsafe { prctl(1, 9u64, 0u64, 0u64, 0u64) };
        let code = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(b) => wr.write_all(&b).map_or(111, |_| 0),
            Err(_) => 112,
        };
        unsafe { _exit(code) }
    }
    drop(wr);
    let mut b = vec![];
    rd.read_to_end(&mut b).expect("pipe");
    let mut st = 0;
    while unsafe { waitpid(pid, &mut st, 0) } < 0 {}
    if st == 0 {
        Ok(b)
    } else {
        Err(st)
    }
}

/// Just enough to pass answers through a pipe.
#[derive(Default)]
pub struct Enc(pub Vec<u8>);
impl Enc {
    pub fn u(&mut self, v: u64) -> &mut Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn us(&mut self, v: &[u64]) -> &mut Self {
        self.u(v.len() as u64);
        for &x in v {
            self.u(x);
        }
        self
    }
    pub fn s(&mut self, v: &str) -> &mut Self {
        self.u(v.len() as u64);
        self.0.extend_from_slice(v.as_bytes());
        self
    }
}
pub struct Dec<'a>(pub &'a [u8]);
impl Dec<'_> {
    pub fn u(&mut self) -> u64 {
        let (a, b) = self.0.split_at(8);
        self.0 = b;
        u64::from_le_bytes(a.try_into().expect("8 bytes"))
    }
    pub fn us(&mut self) -> Vec<u64> {
        (0..self.u()).map(|_| self.u()).collect()
    }
    pub fn s(&mut self) -> String {
        let n = self.u() as usize;
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        String::from_utf8_lossy(a).into_owned()
    }
}
