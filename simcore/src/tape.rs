//! The choice tape. Every decision of a simulated run (workload, schedule, fault) is one call to the
//! Chooser and is appended to the tape; a run is a pure function of (world, tape). The value 0 is by
//! convention the simplest decision (no fault, keep running, stop generating), so shrinking is
//! "make the tape shorter and smaller".
use crate::rng::Rng;

pub enum Src {
    Rng(Rng),
    Replay(Vec<u32>, usize),
}
pub struct Chooser {
    pub src: Src,
    /// Recorded values live in shared memory so that they survive a crash of the run.
    buf: *mut u32,
    cap: usize,
    len: *mut u64,
    pub overflow: bool,
    /// The directed scenario of a run that is not a replay (0: generated).
    pub directed: u32,
}
impl Chooser {
    pub fn new(src: Src, buf: *mut u32, cap: usize, len: *mut u64) -> Self {
        unsafe { *len = 0 };
        Chooser { src, buf, cap, len, overflow: false, directed: 0 }
    }
    /// Start a new random stream (in a forked part of a run) and take the position from the shared tape.
    pub fn resync(&mut self, k: u64) {
        match &mut self.src {
            Src::Rng(r) => *r = Rng::new(crate::rng::mix(r.0, k)),
            Src::Replay(_, p) => *p = unsafe { *self.len } as usize,
        }
    }
    fn record(&mut self, v: u32) {
        unsafe {
            let n = *self.len as usize;
            if n < self.cap {
                *self.buf.add(n) = v;
                *self.len = n as u64 + 1;
            } else {
                self.overflow = true;
            }
        }
    }
    /// Uniform in 0..n (n >= 1).
    pub fn pick(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.src {
            Src::Rng(r) => r.below(n as u64) as u32,
            Src::Replay(t, p) => {
                let v = t.get(*p).copied().unwrap_or(0);
                *p += 1;
                v.min(n - 1)
            }
        };
        self.record(v);
        v
    }
    /// First decision of a run that knows directed scenarios: which one (0: none, generate).
    pub fn scenario(&mut self) -> u32 {
        let v = match &mut self.src {
            Src::Rng(_) => self.directed,
            Src::Replay(t, p) => {
                let v = t.get(*p).copied().unwrap_or(0);
                *p += 1;
                v
            }
        };
        self.record(v);
        v
    }
    /// lo..=hi, biased towards nothing; shrinks towards lo.
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.pick(hi - lo + 1)
    }
    /// True with probability num/den. False is the simple answer.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        if num == 0 {
            return false;
        }
        match &mut self.src {
            Src::Rng(r) => {
                let v = (r.below(den as u64) < num as u64) as u32;
                self.record(v);
                v == 1
            }
            Src::Replay(t, p) => {
                let v = t.get(*p).copied().unwrap_or(0).min(1);
                *p += 1;
                self.record(v);
                v == 1
            }
        }
    }
    /// Index into weights; index 0 is the simple answer.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u32 = w.iter().sum();
        if tot == 0 {
            return 0;
        }
        match &mut self.src {
            Src::Rng(r) => {
                let mut x = r.below(tot as u64) as u32;
                let mut i = 0;
                while x >= w[i] {
                    x -= w[i];
                    i += 1;
                }
                self.record(i as u32);
                i
            }
            Src::Replay(t, p) => {
                let mut v = t.get(*p).copied().unwrap_or(0).min(w.len() as u32 - 1) as usize;
                *p += 1;
                if w[v] == 0 {
                    v = w.iter().position(|&x| x > 0).unwrap_or(0);
                }
                self.record(v as u32);
                v
            }
        }
    }
    pub fn of<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.pick(v.len() as u32) as usize]
    }
    pub fn u64(&mut self) -> u64 {
        ((self.pick(u32::MAX) as u64) << 32) | self.pick(u32::MAX) as u64
    }
    pub fn byte(&mut self) -> u8 {
        self.pick(256) as u8
    }
}

static mut CH: *mut Chooser = std::ptr::null_mut();
/// The run's chooser (one per simulated process; runs are single-OS-threaded or baton-passed).
#[allow(static_mut_refs)]
pub fn ch() -> &'static mut Chooser {
    unsafe { &mut *CH }
}
pub fn install(c: Chooser) {
    unsafe { CH = Box::into_raw(Box::new(c)) }
}
