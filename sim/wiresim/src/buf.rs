//! The simulated transport: a reader that delivers bytes in scheduled fragments, a writer with
//! scheduled chunk sizes and a hard capacity, and an allocator that accounts for the decoder's
//! memory.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
};

use bytes::{Buf, BufMut, buf::UninitSlice};

/// Reader over `data`, delivered as consecutive chunks ending at `cuts`.
pub struct SimBuf<'a> {
    data: &'a [u8],
    cuts: &'a [usize],
    next: usize,
    pos: usize,
    work: Cell<u64>,
    budget: u64,
}

impl<'a> SimBuf<'a> {
    /// `cuts` is strictly increasing and every cut is inside `1..data.len()`.
    pub fn new(data: &'a [u8], cuts: &'a [usize]) -> Self {
        Self { data, cuts, next: 0, pos: 0, work: Cell::new(0), budget: 4000 + 400 * data.len() as u64 }
    }

    pub fn pos(&self) -> usize {
        self.pos
    }

    pub fn set_pos(&mut self, pos: usize) {
        self.pos = pos;
        self.next = self.cuts.partition_point(|c| *c <= pos);
    }

    pub fn work(&self) -> u64 {
        self.work.get()
    }

    fn tick(&self) {
        self.work.set(self.work.get() + 1);
        assert!(
            self.work.get() <= self.budget,
            "work bound exceeded: {} buffer operations on {} bytes of input",
            self.work.get(),
            self.data.len()
        );
    }
}

impl Buf for SimBuf<'_> {
    fn remaining(&self) -> usize {
        self.tick();
        self.data.len() - self.pos
    }

    fn chunk(&self) -> &[u8] {
        self.tick();
        let end = self.cuts.get(self.next).copied().unwrap_or(self.data.len());
        &self.data[self.pos..end]
    }

    fn advance(&mut self, cnt: usize) {
        self.tick();
        assert!(cnt <= self.data.len() - self.pos, "advanced past the end of the buffer");
        self.pos += cnt;
        while self.next < self.cuts.len() && self.cuts[self.next] <= self.pos {
            self.next += 1;
        }
    }
}

/// Writer with a hard capacity that hands out memory in scheduled pieces.
pub struct SimSink {
    out: Vec<u8>,
    len: usize,
    piece: usize,
}

impl SimSink {
    pub fn new(capacity: usize, piece: usize) -> Self {
        Self { out: vec![0xAA; capacity], len: 0, piece: piece.max(1) }
    }

    pub fn written(&self) -> &[u8] {
        &self.out[..self.len]
    }
}

unsafe impl BufMut for SimSink {
    fn remaining_mut(&self) -> usize {
        self.out.len() - self.len
    }

    unsafe fn advance_mut(&mut self, cnt: usize) {
        assert!(cnt <= self.out.len() - self.len, "wrote past the announced size");
        self.len += cnt;
    }

    fn chunk_mut(&mut self) -> &mut UninitSlice {
        let end = (self.len + self.piece).min(self.out.len());
        UninitSlice::new(&mut self.out[self.len..end])
    }
}

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

/// Counts this thread's live bytes; a single absurd request fails like a real out-of-memory.
pub struct Meter;

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if layout.size() > 1 << 30 {
            return std::ptr::null_mut();
        }
        note(layout.size() as i64);
        unsafe { System.alloc(layout) }
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        note(-(layout.size() as i64));
        unsafe { System.dealloc(ptr, layout) }
    }

    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new: usize) -> *mut u8 {
        if new > 1 << 30 {
            return std::ptr::null_mut();
        }
        note(new as i64 - layout.size() as i64);
        unsafe { System.realloc(ptr, layout, new) }
    }
}

fn note(delta: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + delta;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v);
            }
        });
    });
}

/// Peak additional bytes allocated by `f` on this thread.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let base = LIVE.with(Cell::get);
    PEAK.with(|p| p.set(base));
    let r = f();
    (r, (PEAK.with(Cell::get) - base).max(0) as u64)
}
