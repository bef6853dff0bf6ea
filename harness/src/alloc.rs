//! Allocation monitor. With feature `track`, every allocation made while a
//! library call is in progress (`enter`..drop of the guard) gets
//!  * exactly the alignment asked for and no more,
//!  * canaries before and after, junk contents (fresh: 0xA5, freed: 0xDD),
//!  * an entry in a table (layout, liveness), with freed blocks quarantined.
//! Breaches of the allocator contract and damaged canaries are queued as
//! reports and fetched by the driver after each call.
//! Without the feature all of this is inert (sanitizer and Miri builds).

#[derive(Clone, Copy, Debug)]
pub struct Stats {
    pub live_blocks: usize,
    pub live_bytes: usize,
    pub total_allocs: u64,
    pub total_frees: u64,
}

#[cfg(feature = "track")]
mod imp {
    use super::Stats;
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::UnsafeCell;
    use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};

    pub static IN_LIB: AtomicBool = AtomicBool::new(false);
    static LOCK: AtomicBool = AtomicBool::new(false);
    pub static OP_BYTES: AtomicUsize = AtomicUsize::new(0);
    pub static LIMIT: AtomicUsize = AtomicUsize::new(3 << 29);
    static NREPORT: AtomicU64 = AtomicU64::new(0);

    const FRONT: usize = 32;
    const BACK: usize = 48;
    const CANARY: u8 = 0xC7;
    const FRESH: u8 = 0xA5;
    const FREED: u8 = 0xDD;
    const QUARANTINE: usize = 8 << 20;

    #[derive(Clone, Copy)]
    struct Rec {
        ptr: usize, // 0 = empty, 1 = tombstone
        base: usize,
        size: usize,
        align: usize,
        live: bool,
    }
    #[derive(Clone, Copy, PartialEq, Debug)]
    pub enum ReportKind {
        Overflow,
        Underflow,
        BadLayout,
        DoubleFree,
        ZeroSize,
        UseAfterFree,
        Unknown,
    }
    #[derive(Clone, Copy, Debug)]
    pub struct Report {
        pub kind: ReportKind,
        pub a: usize,
        pub b: usize,
        pub c: usize,
        pub d: usize,
    }
    struct State {
        tab: *mut Rec,
        cap: usize,
        used: usize, // incl. tombstones
        live: usize,
        live_bytes: usize,
        allocs: u64,
        frees: u64,
        q: *mut usize, // ring of quarantined user pointers
        qcap: usize,
        qhead: usize,
        qlen: usize,
        qbytes: usize,
        reports: [Report; 16],
        nrep: usize,
    }
    struct Cell(UnsafeCell<State>);
    unsafe impl Sync for Cell {}
    static ST: Cell = Cell(UnsafeCell::new(State {
        tab: std::ptr::null_mut(),
        cap: 0,
        used: 0,
        live: 0,
        live_bytes: 0,
        allocs: 0,
        frees: 0,
        q: std::ptr::null_mut(),
        qcap: 0,
        qhead: 0,
        qlen: 0,
        qbytes: 0,
        reports: [Report { kind: ReportKind::Unknown, a: 0, b: 0, c: 0, d: 0 }; 16],
        nrep: 0,
    }));

    fn with<R>(f: impl FnOnce(&mut State) -> R) -> R {
        while LOCK.swap(true, std::sync::atomic::Ordering::Acquire) {
            std::hint::spin_loop();
        }
        let r = f(unsafe { &mut *ST.0.get() });
        LOCK.store(false, std::sync::atomic::Ordering::Release);
        r
    }
    fn h(p: usize) -> usize {
        (p >> 3).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 20
    }
    unsafe fn sys_array<T>(n: usize) -> *mut T {
        System.alloc_zeroed(Layout::array::<T>(n).unwrap()) as *mut T
    }
    impl State {
        unsafe fn slot(&mut self, p: usize) -> Option<usize> {
            if self.cap == 0 {
                return None;
            }
            let mut i = h(p) & (self.cap - 1);
            loop {
                let r = &*self.tab.add(i);
                if r.ptr == p {
                    return Some(i);
                }
                if r.ptr == 0 {
                    return None;
                }
                i = (i + 1) & (self.cap - 1);
            }
        }
        unsafe fn insert(&mut self, r: Rec) {
            if self.cap == 0 || self.used * 2 >= self.cap {
                let old = self.tab;
                let oldcap = self.cap;
                let mut n = 0usize;
                for i in 0..oldcap {
                    if (*old.add(i)).ptr > 1 {
                        n += 1;
                    }
                }
                let newcap = ((n + 512) * 4).next_power_of_two();
                self.tab = sys_array::<Rec>(newcap);
                self.cap = newcap;
                self.used = 0;
                for i in 0..oldcap {
                    let r = *old.add(i);
                    if r.ptr > 1 {
                        self.put(r);
                    }
                }
                if oldcap > 0 {
                    System.dealloc(old as *mut u8, Layout::array::<Rec>(oldcap).unwrap());
                }
            }
            self.put(r);
        }
        unsafe fn put(&mut self, r: Rec) {
            let mut i = h(r.ptr) & (self.cap - 1);
            while (*self.tab.add(i)).ptr > 1 {
                i = (i + 1) & (self.cap - 1);
            }
            if (*self.tab.add(i)).ptr == 0 {
                self.used += 1;
            }
            *self.tab.add(i) = r;
        }
        fn report(&mut self, kind: ReportKind, a: usize, b: usize, c: usize, d: usize) {
            if self.nrep < 16 {
                self.reports[self.nrep] = Report { kind, a, b, c, d };
            }
            self.nrep += 1;
            NREPORT.fetch_add(1, Relaxed);
        }
        unsafe fn check_canaries(&mut self, r: &Rec) {
            let front = (r.ptr - FRONT) as *const u8;
            for i in 0..FRONT {
                if *front.add(i) != CANARY {
                    self.report(ReportKind::Underflow, r.ptr, r.size, r.align, i);
                    break;
                }
            }
            let back = (r.ptr + r.size) as *const u8;
            for i in 0..BACK {
                if *back.add(i) != CANARY {
                    self.report(ReportKind::Overflow, r.ptr, r.size, r.align, i);
                    break;
                }
            }
        }
        unsafe fn real_free(&mut self, r: &Rec) {
            let (front, total, al) = shape(r.size, r.align);
            let _ = front;
            System.dealloc(r.base as *mut u8, Layout::from_size_align_unchecked(total, al));
        }
        unsafe fn evict(&mut self) {
            let p = *self.q.add(self.qhead);
            self.qhead = (self.qhead + 1) % self.qcap;
            self.qlen -= 1;
            if let Some(i) = self.slot(p) {
                let r = *self.tab.add(i);
                self.qbytes -= r.size;
                let body = r.ptr as *const u8;
                for k in 0..r.size {
                    if *body.add(k) != FREED {
                        self.report(ReportKind::UseAfterFree, r.ptr, r.size, r.align, k);
                        break;
                    }
                }
                self.check_canaries(&r);
                (*self.tab.add(i)).ptr = 1;
                self.real_free(&r);
            }
        }
        unsafe fn enqueue(&mut self, p: usize, size: usize) {
            if self.qcap == 0 {
                self.qcap = 1 << 16;
                self.q = sys_array::<usize>(self.qcap);
            }
            while self.qlen > 0 && (self.qlen == self.qcap || self.qbytes + size > QUARANTINE) {
                self.evict();
            }
            let at = (self.qhead + self.qlen) % self.qcap;
            *self.q.add(at) = p;
            self.qlen += 1;
            self.qbytes += size;
        }
    }
    fn shape(size: usize, align: usize) -> (usize, usize, usize) {
        let al = (2 * align).max(16);
        // user pointer = base + front, congruent to `align` modulo 2*align
        let front = FRONT.div_ceil(2 * align) * 2 * align + align;
        (front, front + size + BACK, al)
    }

    pub struct Mon;
    unsafe impl GlobalAlloc for Mon {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            if !IN_LIB.load(Relaxed) {
                return System.alloc(l);
            }
            tracked(l, FRESH)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            if !IN_LIB.load(Relaxed) {
                return System.alloc_zeroed(l);
            }
            tracked(l, 0)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            let in_lib = IN_LIB.load(Relaxed);
            let mine = with(|s| {
                let i = match s.slot(p as usize) {
                    None => {
                        if in_lib && l.size() == 0 {
                            s.report(ReportKind::ZeroSize, p as usize, 0, l.align(), 1);
                            return true;
                        }
                        return false;
                    }
                    Some(i) => i,
                };
                let r = *s.tab.add(i);
                if !r.live {
                    s.report(ReportKind::DoubleFree, r.ptr, r.size, r.align, l.size());
                    return true;
                }
                if r.size != l.size() || r.align != l.align() {
                    s.report(ReportKind::BadLayout, r.size, r.align, l.size(), l.align());
                }
                s.check_canaries(&r);
                std::ptr::write_bytes(r.ptr as *mut u8, FREED, r.size);
                (*s.tab.add(i)).live = false;
                s.live -= 1;
                s.live_bytes -= r.size;
                s.frees += 1;
                s.enqueue(r.ptr, r.size);
                true
            });
            if !mine {
                System.dealloc(p, l)
            }
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
            let known = with(|s| s.slot(p as usize).is_some());
            if !known && !IN_LIB.load(Relaxed) {
                return System.realloc(p, l, new);
            }
            let nl = Layout::from_size_align_unchecked(new, l.align());
            // a tracked block stays tracked wherever it is resized
            let was = IN_LIB.swap(known || IN_LIB.load(Relaxed), Relaxed);
            let q = self.alloc(nl);
            IN_LIB.store(was, Relaxed);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                self.dealloc(p, l);
            }
            q
        }
    }
    unsafe fn tracked(l: Layout, init: u8) -> *mut u8 {
        let (front, total, al) = shape(l.size(), l.align());
        let spent = OP_BYTES.fetch_add(l.size() + 16, Relaxed);
        if spent > LIMIT.load(Relaxed) {
            crate::crash::runaway();
        }
        let base = System.alloc(Layout::from_size_align_unchecked(total, al));
        if base.is_null() {
            return base;
        }
        let p = base.add(front);
        std::ptr::write_bytes(p.sub(FRONT), CANARY, FRONT);
        std::ptr::write_bytes(p, init, l.size());
        std::ptr::write_bytes(p.add(l.size()), CANARY, BACK);
        with(|s| {
            if l.size() == 0 {
                s.report(ReportKind::ZeroSize, p as usize, 0, l.align(), 0);
            }
            s.allocs += 1;
            s.live += 1;
            s.live_bytes += l.size();
            s.insert(Rec { ptr: p as usize, base: base as usize, size: l.size(), align: l.align(), live: true });
        });
        p
    }

    pub fn reports() -> Vec<Report> {
        if NREPORT.load(Relaxed) == 0 {
            return Vec::new();
        }
        let (n, a) = with(|s| {
            let n = s.nrep.min(16);
            s.nrep = 0;
            (n, s.reports)
        });
        NREPORT.store(0, Relaxed);
        a[..n].to_vec()
    }
    /// Check the canaries of every live block and the contents of every
    /// quarantined one (queues reports).
    pub fn sweep() {
        with(|s| unsafe {
            for i in 0..s.cap {
                let r = *s.tab.add(i);
                if r.ptr > 1 {
                    s.check_canaries(&r);
                    if !r.live {
                        let body = r.ptr as *const u8;
                        for k in 0..r.size {
                            if *body.add(k) != FREED {
                                s.report(ReportKind::UseAfterFree, r.ptr, r.size, r.align, k);
                                std::ptr::write_bytes(r.ptr as *mut u8, FREED, r.size);
                                break;
                            }
                        }
                    }
                }
            }
        })
    }
    pub fn stats() -> Stats {
        with(|s| Stats { live_blocks: s.live, live_bytes: s.live_bytes, total_allocs: s.allocs, total_frees: s.frees })
    }
    /// (start, size) of live tracked blocks, sorted by address.
    pub fn blocks() -> Vec<(usize, usize)> {
        let n = with(|s| s.live);
        let mut v = Vec::with_capacity(n + 8);
        with(|s| unsafe {
            for i in 0..s.cap {
                let r = *s.tab.add(i);
                if r.ptr > 1 && r.live && v.len() < v.capacity() {
                    v.push((r.ptr, r.size));
                }
            }
        });
        v.sort_unstable();
        v
    }
}

#[cfg(feature = "track")]
#[allow(unused_imports)]
pub use imp::{Report, ReportKind};
#[cfg(feature = "track")]
#[global_allocator]
static GLOBAL: imp::Mon = imp::Mon;

pub struct Scope(#[allow(dead_code)] bool);

#[cfg(feature = "track")]
mod api {
    use super::imp::*;
    use super::{Scope, Stats};
    use std::sync::atomic::Ordering::Relaxed;
    pub const TRACKED: bool = true;
    #[inline]
    pub fn enter() -> Scope {
        OP_BYTES.store(0, Relaxed);
        Scope(IN_LIB.swap(true, Relaxed))
    }
    impl Drop for Scope {
        #[inline]
        fn drop(&mut self) {
            IN_LIB.store(self.0, Relaxed);
        }
    }
    #[inline]
    pub fn outside<R>(f: impl FnOnce() -> R) -> R {
        let was = IN_LIB.swap(false, Relaxed);
        let r = f();
        IN_LIB.store(was, Relaxed);
        r
    }
    pub fn force_out() {
        IN_LIB.store(false, Relaxed);
    }
    pub fn take_reports() -> Vec<String> {
        reports()
            .into_iter()
            .map(|r| match r.kind {
                ReportKind::Overflow => format!("heap block of {} bytes (align {}) written past its end (+{})", r.b, r.c, r.d),
                ReportKind::Underflow => format!("heap block of {} bytes (align {}) written before its start", r.b, r.c),
                ReportKind::BadLayout => format!("block allocated with size {} align {} released with size {} align {}", r.a, r.b, r.c, r.d),
                ReportKind::DoubleFree => format!("block of {} bytes (align {}) released twice", r.b, r.c),
                ReportKind::ZeroSize => format!("zero-size layout passed to the allocator ({})", if r.d == 0 { "alloc" } else { "dealloc" }),
                ReportKind::UseAfterFree => format!("freed block of {} bytes written at offset {}", r.b, r.d),
                ReportKind::Unknown => "?".into(),
            })
            .collect()
    }
    pub fn sweep() {
        super::imp::sweep()
    }
    pub fn stats() -> Stats {
        super::imp::stats()
    }
    pub fn blocks() -> Vec<(usize, usize)> {
        super::imp::blocks()
    }
    pub fn set_op_limit(bytes: usize) {
        LIMIT.store(bytes, Relaxed)
    }
}
#[cfg(not(feature = "track"))]
mod api {
    use super::{Scope, Stats};
    pub const TRACKED: bool = false;
    #[inline]
    pub fn enter() -> Scope {
        Scope(false)
    }
    #[inline]
    pub fn outside<R>(f: impl FnOnce() -> R) -> R {
        f()
    }
    pub fn force_out() {}
    pub fn take_reports() -> Vec<String> {
        Vec::new()
    }
    pub fn sweep() {}
    pub fn stats() -> Stats {
        Stats { live_blocks: 0, live_bytes: 0, total_allocs: 0, total_frees: 0 }
    }
    pub fn blocks() -> Vec<(usize, usize)> {
        Vec::new()
    }
    pub fn set_op_limit(_bytes: usize) {}
}
pub use api::*;
