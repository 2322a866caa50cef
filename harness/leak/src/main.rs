//! Carries out operations between two marks for a tool that watches the execution
//! (harness/walk): a store to the page of marks before, one after. Everything of
//! an operation is at the same place each time, so that only its course can
//! differ.
//!
//! usage: leak PLATFORM IN OUT [room]
//!
//! A record of IN: operation, length and number of outputs or size of pieces (u32
//! each), two secrets of 32 bytes, the secret data (of operations below 50). OUT
//! gets 64 bytes for each, what the tool has put behind the marks, and the room
//! taken on the heap and, if that is asked for, on the stack.

use arrayvec::Array;
use std::ffi::c_void;
use std::alloc::{GlobalAlloc, Layout, System};
use std::hint::black_box;
use std::io::Read;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

// Where neither a heap behind the program nor anything else comes to lie.
const MARKS: usize = 0x6000_0000;
const MAX: usize = 1 << 25;

#[repr(align(4096))]
struct Place<const N: usize>([u8; N]);

static mut KEY: Place<32> = Place([0; 32]);
static mut OTHER: Place<32> = Place([0; 32]);
static mut DATA: Place<MAX> = Place([0; MAX]);
static mut OUT: Place<4096> = Place([0; 4096]);

// The library's comparison of bytes may take a shortcut, and this one does.
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn memcmp(a: *const c_void, b: *const c_void, n: usize) -> i32 {
    let (a, b) = (a as *const u8, b as *const u8);
    let mut i = 0;
    while i < n {
        let (x, y) = (std::ptr::read_volatile(a.add(i)), std::ptr::read_volatile(b.add(i)));
        if x != y {
            return x as i32 - y as i32;
        }
        i += 1;
    }
    0
}

#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn bcmp(a: *const c_void, b: *const c_void, n: usize) -> i32 {
    memcmp(a, b, n)
}

/// Counts what is on the heap.
struct Counting;

static NOW: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let now = NOW.fetch_add(l.size(), Relaxed) + l.size();
        PEAK.fetch_max(now, Relaxed);
        System.alloc(l)
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        NOW.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
}

#[global_allocator]
static ALLOCATOR: Counting = Counting;

struct Job<'a> {
    key: &'a [u8; 32],
    other: &'a [u8; 32],
    data: &'a [u8],
    n: usize,
    out: &'a mut [u8; 4096],
}

fn output(mut o: baokeshed::Output, j: &mut Job) {
    for i in 0..j.n {
        j.out[64 * i..64 * (i + 1)].copy_from_slice(&o.read());
    }
}

/// The data in pieces.
fn pieces(data: &[u8], mut f: impl FnMut(&[u8])) {
    let (mut at, mut size) = (0, 1);
    while at < data.len() {
        let n = size.min(data.len() - at);
        f(&data[at..at + n]);
        at += n;
        size = (size * 3 + 60).min(20000);
    }
}

fn incremental(mut h: baokeshed::Hasher, j: &mut Job) {
    pieces(j.data, |x| {
        h.update(x);
    });
    if j.n == 0 {
        j.out[..32].copy_from_slice(h.finalize().as_bytes());
    } else {
        output(h.finalize_xof(), j);
    }
}

fn reference(mut h: reference_impl::Hasher, j: &mut Job) {
    pieces(j.data, |x| {
        h.update(x);
    });
    h.finalize(&mut j.out[..if j.n == 0 { 32 } else { 64 * j.n }]);
}

fn words64(bytes: &[u8; 32]) -> [u64; 4] {
    let mut out = [0; 4];
    for i in 0..4 {
        let mut w = [0; 8];
        w.copy_from_slice(&bytes[8 * i..8 * i + 8]);
        out[i] = u64::from_le_bytes(w);
    }
    out
}

fn many64<A: Array<Item = u8>>(j: &mut Job) {
    let size = A::CAPACITY;
    let inputs: Vec<&A> = j.data.chunks_exact(size).map(|x| unsafe { &*(x.as_ptr() as *const A) }).collect();
    let key = words64(j.key);
    let out = &mut j.out[..32 * inputs.len()];
    mark(0);
    baokeshed::portable64::hash_many(&inputs, &key, 4096, size as u64, 16, 1, 2, out);
    mark(1);
}

#[inline(never)]
fn mark(i: usize) {
    unsafe { std::ptr::write_volatile((MARKS + 8 * i) as *mut u64, 1) };
}

#[inline(never)]
fn compare(op: u32, a: &baokeshed::Hash, b: &baokeshed::Hash, c: &[u8; 32]) -> bool {
    match op {
        1 => a == b,
        2 => a != b,
        3 => a == c,
        _ => a != c,
    }
}

#[inline(never)]
fn operation(op: u32, j: &mut Job) {
    use baokeshed::*;
    match op {
        10 => j.out[..32].copy_from_slice(hash(j.data).as_bytes()),
        11 => j.out[..32].copy_from_slice(keyed_hash(j.key, j.data).as_bytes()),
        12 => j.out[..32].copy_from_slice(&derive_key(j.key, j.data)),
        13 => output(hash_xof(j.data), j),
        14 => output(keyed_hash_xof(j.key, j.data), j),
        15 => output(derive_key_xof(j.key, j.data), j),
        16 => incremental(Hasher::new(), j),
        17 => incremental(Hasher::new_keyed(j.key), j),
        18 => incremental(Hasher::new_derive_key(j.key), j),
        19 => reference(reference_impl::Hasher::new(), j),
        20 => reference(reference_impl::Hasher::new_keyed(j.key), j),
        21 => reference(reference_impl::Hasher::new_derive_key(j.key), j),
        _ => panic!("no such operation"),
    }
}

fn run(op: u32, j: &mut Job) {
    if op < 10 {
        let (a, b) = (baokeshed::Hash::from(*j.key), baokeshed::Hash::from(*j.other));
        let (a, b, c) = (black_box(&a), black_box(&b), black_box(j.other));
        mark(0);
        let r = compare(op, a, b, c);
        mark(1);
        j.out[0] = r as u8;
    } else if op >= 60 {
        afterwards(op, j);
    } else if op >= 50 {
        throughout(op, j);
    } else if op == 40 {
        // (Of blocks, and of chunks.)
        if j.data.len() % 4096 == 0 {
            many64::<[u8; 4096]>(j)
        } else {
            many64::<[u8; 128]>(j)
        }
    } else {
        mark(0);
        operation(op, j);
        mark(1);
    }
}

/// A reader that gives so much at a time.
struct Pieces<'a>(&'a [u8], usize);

impl Read for Pieces<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.1.min(buf.len()).min(self.0.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

/// Operations on a hasher that has been given the data before.
fn afterwards(op: u32, j: &mut Job) {
    let mut h = baokeshed::Hasher::new();
    h.update(j.data);
    let mut r = reference_impl::Hasher::new();
    if op >= 65 {
        r.update(j.data);
    }
    mark(0);
    match op {
        60 => j.out[..32].copy_from_slice(h.finalize().as_bytes()),
        61 => {
            h.update(&[1]);
        }
        62 => {
            black_box(h.clone());
        }
        63 => j.out[..64].copy_from_slice(&h.finalize_xof().read()),
        65 => r.finalize(&mut j.out[..32]),
        _ => r.update(&[1]),
    }
    mark(1);
    black_box((h, r));
}

/// Everything at once, in pieces, or a long output.
fn throughout(op: u32, j: &mut Job) {
    mark(0);
    match op {
        50 => {
            let mut h = baokeshed::Hasher::new();
            j.data.chunks(j.n).for_each(|x| {
                h.update(x);
            });
            j.out[..32].copy_from_slice(h.finalize().as_bytes());
        }
        51 => {
            let mut h = reference_impl::Hasher::new();
            j.data.chunks(j.n).for_each(|x| h.update(x));
            h.finalize(&mut j.out[..32]);
        }
        52 => {
            let mut h = baokeshed::Hasher::new();
            baokeshed::copy::copy_wide(&mut Pieces(j.data, j.n), &mut h).unwrap();
            j.out[..32].copy_from_slice(h.finalize().as_bytes());
        }
        53 => j.out[..32].copy_from_slice(baokeshed::hash(j.data).as_bytes()),
        _ => {
            // An output as long as the data.
            let mut o = baokeshed::hash_xof(b"");
            for _ in 0..j.data.len() / 64 {
                j.out[..64].copy_from_slice(&o.read());
            }
        }
    }
    mark(1);
}

const STACK: usize = 0x7000_0000;
const STACK_SIZE: usize = 8 << 20;
const UNUSED: u64 = 0x5ca1_ab1e_0b5e_55ed;

/// Runs on a stack of its own, and says how much of it was used.
fn on_a_stack(op: u32, j: &mut Job) -> u64 {
    struct Call<'a, 'b>(u32, &'a mut Job<'b>);
    extern "C" fn start(p: *mut c_void) -> *mut c_void {
        let call = unsafe { &mut *(p as *mut Call) };
        run(call.0, call.1);
        std::ptr::null_mut()
    }
    let mut call = Call(op, j);
    unsafe {
        let p = libc::mmap(STACK as *mut _, STACK_SIZE, libc::PROT_READ | libc::PROT_WRITE,
                           libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED, -1, 0);
        assert_eq!(p as usize, STACK);
        std::slice::from_raw_parts_mut(STACK as *mut u64, STACK_SIZE / 8).fill(UNUSED);
        let mut attr = std::mem::zeroed();
        libc::pthread_attr_init(&mut attr);
        assert_eq!(libc::pthread_attr_setstack(&mut attr, p, STACK_SIZE), 0);
        let mut thread = std::mem::zeroed();
        assert_eq!(libc::pthread_create(&mut thread, &attr, start, &mut call as *mut Call as *mut c_void), 0);
        libc::pthread_join(thread, std::ptr::null_mut());
        let used = std::slice::from_raw_parts(STACK as *const u64, STACK_SIZE / 8);
        (STACK_SIZE - 8 * used.iter().position(|&x| x != UNUSED).unwrap()) as u64
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    #[cfg(feature = "hooks")]
    baokeshed::verif::force_platform(&args[1]);
    unsafe {
        let p = libc::mmap(MARKS as *mut _, 4096, libc::PROT_READ | libc::PROT_WRITE,
                           libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED, -1, 0);
        assert_eq!(p as usize, MARKS);
    }
    let input = std::fs::read(&args[2]).unwrap();
    let num = |at: usize| u32::from_le_bytes([input[at], input[at + 1], input[at + 2], input[at + 3]]);
    let mut results = Vec::new();
    let room = args.len() > 4;
    let mut at = 0;
    while at < input.len() {
        let (op, len, n) = (num(at), num(at + 4) as usize, num(at + 8) as usize);
        unsafe {
            #[allow(static_mut_refs)]
            let (key, other, data, out) = (&mut KEY.0, &mut OTHER.0, &mut DATA.0, &mut OUT.0);
            key.copy_from_slice(&input[at + 12..at + 44]);
            other.copy_from_slice(&input[at + 44..at + 76]);
            if op < 50 {
                data[..len].copy_from_slice(&input[at + 76..at + 76 + len]);
                at += len;
            }
            at += 76;
            out.fill(0);
            let before = NOW.load(Relaxed);
            PEAK.store(before, Relaxed);
            let mut job = Job { key, other, data: &data[..len], n, out };
            let stack = if room {
                on_a_stack(op, &mut job)
            } else {
                run(op, &mut job);
                0
            };
            let heap = (PEAK.load(Relaxed) - before) as u64;
            results.extend_from_slice(&out[..64]);
            for i in 2..5 {
                results.extend_from_slice(&std::ptr::read_volatile((MARKS + 8 * i) as *const u64).to_le_bytes());
            }
            results.extend_from_slice(&heap.to_le_bytes());
            results.extend_from_slice(&stack.to_le_bytes());
        }
    }
    std::fs::write(&args[3], results).unwrap();
}
