//! The Rust back ends: compress, compress_xof and hash_many, with 32- and 64-bit
//! words.

use crate::arena::Arena;
use crate::content::pattern;
use crate::{hex, n, nd, s, u64_of, unhex, Obj};
use arrayvec::Array;
use baokeshed::{avx2, portable, portable64, sse41};
use serde_json::json;

pub const KEYS: usize = 200;         // slots of the arena, behind those of the inputs
const POINTERS: usize = 201;

/// Parameters of a hash_many call.
struct Many<'a> {
    back_end: &'a str,
    key: *const u8,
    off: u64,
    delta: u64,
    flags: [u8; 3],
}

fn call_many<A: Array<Item = u8>>(m: &Many, inputs: &[*const u8], out: &mut [u8]) {
    let arrays: &[&A] = unsafe { std::slice::from_raw_parts(inputs.as_ptr() as *const &A, inputs.len()) };
    let key32 = unsafe { &*(m.key as *const [u32; 8]) };
    let key64 = unsafe { &*(m.key as *const [u64; 4]) };
    let [f, fs, fe] = m.flags;
    match m.back_end {
        "portable" => portable::hash_many(arrays, key32, m.off, m.delta, f, fs, fe, out),
        "sse41" => unsafe { sse41::hash_many(arrays, key32, m.off, m.delta, f, fs, fe, out) },
        "avx2" => unsafe { avx2::hash_many(arrays, key32, m.off, m.delta, f, fs, fe, out) },
        "portable64" => portable64::hash_many(arrays, key64, m.off, m.delta, f, fs, fe, out),
        other => panic!("driver: no hash_many for {}", other),
    }
}

pub fn run(arena: &mut Arena, e: &mut Obj) {
    let back_end = s(e, "be").to_string();
    let off = u64_of(&e["off"]);
    let op = s(e, "op").to_string();
    if op == "many" {
        let nin = n(e, "nin") as usize;
        let bytes = n(e, "bytes") as usize;
        let kind = n(e, "k");
        let m = Many {
            back_end: &back_end,
            key: {
                // (Its words are little-endian, as this machine is.)
                let place = arena.fence(KEYS, 32, nd(e, "al", 0) % 2 == 1);
                place.copy_from_slice(&unhex(s(e, "cv")));
                place.as_ptr()
            },
            off,
            delta: u64_of(&e["delta"]),
            flags: [n(e, "f") as u8, n(e, "fs") as u8, n(e, "fe") as u8],
        };
        // The inputs are apart from each other by a gap, the last one ends at
        // an inaccessible page; or every one is next to inaccessible pages.
        let fence = nd(e, "fence", 0);
        let gap = nd(e, "gap", 0) as usize;
        let total = nin * (bytes + gap);
        let buf = arena.place(total, nd(e, "al", 0) as usize);
        let pointers = arena.fence(POINTERS, nin * 8, false);
        let ptrs: &mut [*const u8] = unsafe { std::slice::from_raw_parts_mut(pointers.as_mut_ptr() as *mut *const u8, nin) };
        for i in 0..nin {
            // (In memory the inputs can be in another order than they are given.)
            let slot = match nd(e, "order", 0) {
                0 => i,
                1 => nin - 1 - i,
                _ => if i % 2 == 0 { i / 2 } else { nin - 1 - i / 2 },
            };
            let at = slot * (bytes + gap) + gap;
            let place = if fence > 0 { arena.fence(i, bytes, fence == 2) } else { &mut buf[at..at + bytes] };
            for b in 0..bytes {
                place[b] = pattern(kind, i as u64, b);
            }
            ptrs[i] = place.as_ptr();
        }
        let spare = nd(e, "spare", 0) as usize;
        let out = arena.output_at(nin * 32 + spare, nd(e, "oal", 0) as usize);
        arena.lock(e.contains_key("ro"));
        match bytes {
            64 => call_many::<[u8; 64]>(&m, ptrs, out),
            128 => call_many::<[u8; 128]>(&m, ptrs, out),
            192 => call_many::<[u8; 192]>(&m, ptrs, out),
            256 => call_many::<[u8; 256]>(&m, ptrs, out),
            384 => call_many::<[u8; 384]>(&m, ptrs, out),
            512 => call_many::<[u8; 512]>(&m, ptrs, out),
            768 => call_many::<[u8; 768]>(&m, ptrs, out),
            1024 => call_many::<[u8; 1024]>(&m, ptrs, out),
            2048 => call_many::<[u8; 2048]>(&m, ptrs, out),
            4096 => call_many::<[u8; 4096]>(&m, ptrs, out),
            8192 => call_many::<[u8; 8192]>(&m, ptrs, out),
            16384 => call_many::<[u8; 16384]>(&m, ptrs, out),
            other => panic!("driver: no array of {}", other),
        }
        e.insert("out".into(), json!(hex(&out[..nin * 32])));
        e.insert("tail".into(), json!(hex(&out[nin * 32..])));
        if arena.stray() {
            e.insert("stray".into(), json!(true));
        }
        return;
    }
    let cv = unhex(s(e, "cv"));
    let block = unhex(s(e, "block"));
    let (blen, flags) = (n(e, "blen") as u8, n(e, "f") as u8);
    // Put the block and the chaining value where reading or writing past them
    // faults.
    let placed = arena.place(block.len(), nd(e, "al", 0) as usize);
    placed.copy_from_slice(&block);
    let state = arena.output_at(32, nd(e, "oal", 0) as usize / 8 * 8 + (nd(e, "oal", 0) > 0) as usize);
    state.copy_from_slice(&cv);
    arena.lock(e.contains_key("ro"));
    let b32 = unsafe { &*(placed.as_ptr() as *const [u8; 64]) };
    let s32 = unsafe { &mut *(state.as_mut_ptr() as *mut [u32; 8]) };
    let s64 = unsafe { &mut *(state.as_mut_ptr() as *mut [u64; 4]) };
    let mut xof = None;
    match (back_end.as_str(), op.as_str()) {
        ("portable64", _) => {
            let b = unsafe { &*(placed.as_ptr() as *const [u8; 128]) };
            if op == "compress" {
                portable64::compress(s64, b, blen, off, flags);
            } else {
                xof = Some(portable64::compress_xof(s64, b, blen, off, flags).to_vec());
            }
        }
        ("portable", "compress") => portable::compress(s32, b32, blen, off, flags),
        ("portable", _) => xof = Some(portable::compress_xof(s32, b32, blen, off, flags).to_vec()),
        ("sse41", "compress") => unsafe { sse41::compress(s32, b32, blen, off, flags) },
        ("sse41", _) => xof = Some(unsafe { sse41::compress_xof(s32, b32, blen, off, flags) }.to_vec()),
        _ => panic!("driver: no compress for {}", back_end),
    }
    let changed = xof.is_some() && state != &cv[..];
    e.insert("out".into(), json!(hex(&xof.unwrap_or(state.to_vec()))));
    if changed || arena.stray() {
        e.insert("stray".into(), json!(true));
    }
}
