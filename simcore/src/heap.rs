//! Tracked heap of the simulated process. Every block sits at the end of its own pages with a guard
//! page after it, is filled with garbage, never reused within a run, and becomes inaccessible when
//! freed, so any touch of freed or out-of-range memory faults at the instruction that does it.
use crate::runner::{ev, stat, violation};

const REGION: usize = 0x2000_0000_0000;
const REGION_SIZE: usize = 1 << 37; // 128 GiB of address space, reserved only
const PAGE: usize = 4096;
const CANARY: u8 = 0xA7;

#[derive(Clone, Debug)]
pub struct Block {
    pub addr: usize,
    pub size: usize,
    pub live: bool,
    pub page: usize,
    pub pages: usize,
    pub alloc_seq: u64,
    pub free_seq: u64,
    pub phase: u32,
}
pub struct Heap {
    pub blocks: Vec<Block>,
    next: usize,
    pub seq: u64,
    pub live: usize,
    pub live_bytes: usize,
    pub peak_live: usize,
    pub frees: Vec<usize>, // block indices in order of release
    pub phase: u32,
    fill: u8,
    pub attempts: u64,
}
static mut H: *mut Heap = std::ptr::null_mut();
pub fn heap() -> &'static mut Heap {
    unsafe {
        if H.is_null() {
            let p = libc::mmap(REGION as *mut _, REGION_SIZE, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE, -1, 0);
            if p as usize != REGION {
                crate::runner::harness_error("cannot reserve the simulated heap");
            }
            H = Box::into_raw(Box::new(Heap { blocks: vec![], next: REGION + PAGE, seq: 0, live: 0, live_bytes: 0, peak_live: 0, frees: vec![], phase: 0, fill: 0x51, attempts: 0 }));
        }
        &mut *H
    }
}
pub fn in_region(a: usize) -> bool {
    (REGION..REGION + REGION_SIZE).contains(&a)
}
impl Heap {
    pub fn alloc(&mut self, size: usize, align: usize) -> usize {
        let align = align.max(1);
        let pages = size.max(1).div_ceil(PAGE);
        if pages > (1 << 16) || align > PAGE || self.next + (pages + 1) * PAGE > REGION + REGION_SIZE {
            return 0;
        }
        let page = self.next;
        self.next += (pages + 1) * PAGE;
        unsafe {
            if libc::mprotect(page as *mut _, pages * PAGE, libc::PROT_READ | libc::PROT_WRITE) != 0 {
                crate::runner::violation("runaway-memory", "the program holds more blocks than the simulated heap has room for");
            }
            let addr = (page + pages * PAGE - size) & !(align - 1);
            self.fill = self.fill.wrapping_mul(5).wrapping_add(17);
            std::ptr::write_bytes(page as *mut u8, CANARY, addr - page);
            std::ptr::write_bytes(addr as *mut u8, self.fill | 1, size);
            let end = page + pages * PAGE;
            std::ptr::write_bytes((addr + size) as *mut u8, CANARY, end - addr - size);
            self.seq += 1;
            self.blocks.push(Block { addr, size, live: true, page, pages, alloc_seq: self.seq, free_seq: 0, phase: self.phase });
            self.live += 1;
            self.live_bytes += size;
            self.peak_live = self.peak_live.max(self.live_bytes);
            stat("sum.heap_blocks");
            addr
        }
    }
    /// Index of the block whose pages contain `a`.
    pub fn containing(&self, a: usize) -> Option<usize> {
        let i = self.blocks.partition_point(|b| b.page <= a);
        if i == 0 {
            return None;
        }
        let b = &self.blocks[i - 1];
        (a < b.page + (b.pages + 1) * PAGE).then_some(i - 1)
    }
    pub fn find(&self, addr: usize) -> Option<usize> {
        self.containing(addr).filter(|&i| self.blocks[i].addr == addr)
    }
    pub fn check_canaries(&self, i: usize) {
        let b = &self.blocks[i];
        unsafe {
            let left = std::slice::from_raw_parts(b.page as *const u8, b.addr - b.page);
            if let Some(p) = left.iter().rposition(|&x| x != CANARY) {
                violation("heap-underflow", &format!("byte {} before block #{} (size {}) was overwritten", left.len() - p, b.alloc_seq, b.size));
            }
            let end = b.page + b.pages * PAGE;
            let right = std::slice::from_raw_parts((b.addr + b.size) as *const u8, end - b.addr - b.size);
            if let Some(p) = right.iter().position(|&x| x != CANARY) {
                violation("heap-overflow", &format!("byte {} after the end of block #{} (size {}) was overwritten", p, b.alloc_seq, b.size));
            }
        }
    }
    pub fn free(&mut self, addr: usize) {
        if addr == 0 {
            return;
        }
        match self.find(addr) {
            None => violation("invalid-free", &format!("free of {addr:#x}: {}", self.describe(addr))),
            Some(i) => {
                if !self.blocks[i].live {
                    violation("double-free", &format!("block #{} (size {}) freed twice", self.blocks[i].alloc_seq, self.blocks[i].size));
                }
                self.check_canaries(i);
                self.seq += 1;
                let b = &mut self.blocks[i];
                b.live = false;
                b.free_seq = self.seq;
                self.live -= 1;
                self.live_bytes -= b.size;
                self.frees.push(i);
                ev("free", b.alloc_seq, b.size as u64);
                unsafe {
                    libc::madvise(b.page as *mut _, b.pages * PAGE, libc::MADV_DONTNEED);
                    libc::mprotect(b.page as *mut _, b.pages * PAGE, libc::PROT_NONE);
                }
            }
        }
    }
    pub fn check_all(&self) {
        for i in 0..self.blocks.len() {
            if self.blocks[i].live {
                self.check_canaries(i);
            }
        }
    }
    pub fn live_blocks(&self) -> usize {
        self.blocks.iter().filter(|b| b.live).count()
    }
    pub fn describe(&self, a: usize) -> String {
        if a < 4096 {
            return "null-pointer dereference".into();
        }
        if !in_region(a) {
            return "address outside the simulated heap".into();
        }
        match self.containing(a) {
            None => "address in never-allocated heap".into(),
            Some(i) => {
                let b = &self.blocks[i];
                let off = a as i64 - b.addr as i64;
                format!("offset {off} of {} block (size {}, allocation #{})", if b.live { "a live" } else { "a FREED" }, b.size, b.alloc_seq)
            }
        }
    }
    /// Is [a, a+n) inside one live block?
    pub fn valid(&self, a: usize, n: usize) -> bool {
        match self.containing(a) {
            Some(i) => {
                let b = &self.blocks[i];
                b.live && a >= b.addr && a + n <= b.addr + b.size
            }
            None => false,
        }
    }
}
pub fn crash_describer(_sig: i32, addr: usize, _ip: usize) -> String {
    unsafe {
        if H.is_null() {
            return String::new();
        }
    }
    heap().describe(addr)
}
