//! Buffers with an inaccessible page on either side.

pub const MAX: usize = 64 << 20;
const PAGE: usize = 4096;

pub struct Arena {
    base: *mut u8,
    out: *mut u8,
    fences: Vec<*mut u8>,
    last_out: (usize, usize),
    locked: bool,
}

const OUT: usize = 1 << 20;
const FENCED: usize = 32768;
const CANARY: u8 = 0xA5;

unsafe impl Send for Arena {}

unsafe fn map(len: usize, prot: libc::c_int) -> *mut u8 {
    let p = libc::mmap(
        std::ptr::null_mut(),
        len,
        prot,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
        -1,
        0,
    );
    if p == libc::MAP_FAILED {
        eprintln!("driver: mmap failed");
        std::process::exit(3);
    }
    p as *mut u8
}

unsafe fn guarded(len: usize) -> *mut u8 {
    let p = map(len + 2 * PAGE, libc::PROT_NONE);
    libc::mprotect(p.add(PAGE) as _, len, libc::PROT_READ | libc::PROT_WRITE);
    p.add(PAGE)
}

impl Arena {
    pub fn new() -> Self {
        unsafe { Arena { base: guarded(MAX), out: guarded(OUT), fences: Vec::new(), last_out: (0, 0), locked: false } }
    }

    /// n bytes: ending right before the inaccessible page behind the arena
    /// (al = 0), al - 1 bytes behind the one in front of it (al > 0).
    pub fn place(&mut self, n: usize, al: usize) -> &'static mut [u8] {
        assert!(n + al <= MAX, "driver: too long");
        self.lock(false);
        unsafe {
            let p = if al == 0 { self.base.add(MAX - n) } else { self.base.add(al - 1) };
            std::slice::from_raw_parts_mut(p, n)
        }
    }

    /// n bytes in a place of their own: right before an inaccessible page, or
    /// right behind one.
    pub fn fence(&mut self, slot: usize, n: usize, front: bool) -> &'static mut [u8] {
        assert!(n <= FENCED, "driver: too long");
        self.lock(false);
        unsafe {
            while self.fences.len() <= slot {
                self.fences.push(guarded(FENCED));
            }
            let p = self.fences[slot];
            std::slice::from_raw_parts_mut(if front { p } else { p.add(FENCED - n) }, n)
        }
    }

    /// Make everything but the outputs read-only, until the next call that
    /// hands out some of it.
    pub fn lock(&mut self, on: bool) {
        if on == self.locked {
            return;
        }
        let prot = if on { libc::PROT_READ } else { libc::PROT_READ | libc::PROT_WRITE };
        unsafe {
            libc::mprotect(self.base as _, MAX, prot);
            for p in &self.fences {
                libc::mprotect(*p as _, FENCED, prot);
            }
        }
        self.locked = on;
    }

    /// n bytes for output: ending right before an inaccessible page (al = 0),
    /// or al - 1 bytes behind one. They and what is around them are filled with
    /// a canary.
    pub fn output_at(&mut self, n: usize, al: usize) -> &'static mut [u8] {
        assert!(n + al <= OUT, "driver: too long");
        let at = if al == 0 { OUT - n } else { al - 1 };
        self.last_out = (at, n);
        unsafe {
            let (lo, hi) = self.around();
            std::ptr::write_bytes(self.out.add(lo), CANARY, hi - lo);
            std::slice::from_raw_parts_mut(self.out.add(at), n)
        }
    }

    pub fn output(&mut self, n: usize) -> &'static mut [u8] {
        self.output_at(n, 0)
    }

    fn around(&self) -> (usize, usize) {
        let (at, n) = self.last_out;
        (at.saturating_sub(4096), (at + n + 4096).min(OUT))
    }

    /// Whether something was written next to the last output.
    pub fn stray(&self) -> bool {
        let (at, n) = self.last_out;
        let (lo, hi) = self.around();
        unsafe {
            let all = std::slice::from_raw_parts(self.out.add(lo), hi - lo);
            all[..at - lo].iter().chain(&all[at - lo + n..]).any(|x| *x != CANARY)
        }
    }
}

impl Drop for Arena {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.base.sub(PAGE) as _, MAX + 2 * PAGE);
            libc::munmap(self.out.sub(PAGE) as _, OUT + 2 * PAGE);
            for p in &self.fences {
                libc::munmap(p.sub(PAGE) as _, FENCED + 2 * PAGE);
            }
        }
    }
}

/// A long run of zeros that takes no memory as long as it is only read (never
/// unmapped).
pub fn long(n: usize) -> &'static mut [u8] {
    unsafe {
        let size = (n + PAGE - 1) / PAGE * PAGE;
        let p = guarded(size);
        let start = p.add(size - n);
        std::slice::from_raw_parts_mut(start, n)
    }
}
