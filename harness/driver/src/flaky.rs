//! A reader that follows a schedule of partial reads, interruptions and faults.
use std::{
    cell::Cell,
    io::{self, Cursor, Read, Seek, SeekFrom},
    rc::Rc,
};

use serde_json::Value;

#[derive(Clone, Default)]
pub struct Counters {
    pub reads: Rc<Cell<usize>>,
    pub seeks: Rc<Cell<usize>>,
    pub faults: Rc<Cell<usize>>,
    /// when set, the schedule and the faults apply
    pub armed: Rc<Cell<bool>>,
    /// the read or seek after so many further ones fails; 0 = none
    pub fail_in: Rc<Cell<usize>>,
}

pub struct Flaky {
    inner: Cursor<Vec<u8>>,
    /// maximal sizes of successive reads (cycled); 0 = interrupted; empty = no limit
    sched: Vec<usize>,
    /// ordinal of the read call that fails, and whether all later ones fail too
    fail_read: Option<usize>,
    fail_seek: Option<usize>,
    sticky: bool,
    step: usize,
    pub counters: Counters,
}

impl Flaky {
    pub fn new(data: Vec<u8>, case: &Value) -> Self {
        let mut inner = Cursor::new(data);
        inner.set_position(case["start"].as_u64().unwrap_or(0));
        let counters = Counters::default();
        counters.armed.set(true);
        Self {
            inner,
            sched: case["sched"]
                .as_array()
                .map(|a| a.iter().map(|v| v.as_u64().unwrap() as usize).collect())
                .unwrap_or_default(),
            fail_read: case["fail_read"].as_u64().map(|v| v as usize),
            fail_seek: case["fail_seek"].as_u64().map(|v| v as usize),
            sticky: case["sticky"].as_bool().unwrap_or(false),
            step: 0,
            counters,
        }
    }

    fn fault(&self, at: Option<usize>, n: usize) -> bool {
        match self.counters.fail_in.get() {
            0 => {}
            k => {
                self.counters.fail_in.set(k - 1);
                if k == 1 {
                    return true;
                }
            }
        }
        match at {
            Some(k) if self.counters.armed.get() => n == k || (self.sticky && n > k),
            _ => false,
        }
    }
}

impl Read for Flaky {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.counters.reads.get();
        self.counters.reads.set(n + 1);
        if self.fault(self.fail_read, n) {
            self.counters.faults.set(self.counters.faults.get() + 1);
            return Err(io::Error::new(io::ErrorKind::Other, "injected read failure"));
        }
        let mut max = buf.len();
        if !self.sched.is_empty() && self.counters.armed.get() {
            let lim = self.sched[self.step % self.sched.len()];
            self.step += 1;
            if lim == 0 {
                return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
            }
            max = max.min(lim);
        }
        self.inner.read(&mut buf[..max])
    }
}

impl Seek for Flaky {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        let n = self.counters.seeks.get();
        self.counters.seeks.set(n + 1);
        if self.fault(self.fail_seek, n) {
            self.counters.faults.set(self.counters.faults.get() + 1);
            return Err(io::Error::new(io::ErrorKind::Other, "injected seek failure"));
        }
        self.inner.seek(pos)
    }
}
