//! Drives the Rust code on machines that are interpreted (Miri): commands and
//! data from one file, results to another. lib/portdrive.py writes the one and
//! reads the other; harness/c/port.c is the same for the C code. Numbers are
//! little-endian.

use std::collections::HashMap;
use std::io::Write;

#[cfg(ref_ff)]
#[allow(dead_code)]
mod reference_ff {
    include!(concat!(env!("OUT_DIR"), "/ref_ff.rs"));
}
#[cfg(not(ref_ff))]
use reference_impl as reference_ff;

struct Input<'a>(&'a [u8]);

impl<'a> Input<'a> {
    fn take(&mut self, n: usize) -> &'a [u8] {
        let (head, tail) = self.0.split_at(n);
        self.0 = tail;
        head
    }

    fn num(&mut self, bytes: usize) -> u64 {
        self.take(bytes).iter().rev().fold(0, |a, &x| (a << 8) | x as u64)
    }

    fn key(&mut self) -> [u8; 32] {
        let mut key = [0; 32];
        key.copy_from_slice(self.take(32));
        key
    }
}

enum H {
    Rust(baokeshed::Hasher),
    Ref(reference_ff::Hasher),
}

fn words32(bytes: &[u8]) -> [u32; 8] {
    let mut out = [0; 8];
    for i in 0..8 {
        out[i] = Input(&bytes[4 * i..]).num(4) as u32;
    }
    out
}

fn words64(bytes: &[u8]) -> [u64; 4] {
    let mut out = [0; 4];
    for i in 0..4 {
        out[i] = Input(&bytes[8 * i..]).num(8);
    }
    out
}

fn array<const N: usize>(bytes: &[u8]) -> &[u8; N] {
    bytes.try_into().unwrap()
}

struct Many {
    wide: bool,
    key: [u8; 32],
    off: u64,
    delta: u64,
    flags: [u8; 3],
}

fn many<A: arrayvec::Array<Item = u8>>(m: &Many, inputs: &[&A], out: &mut [u8]) {
    let [f, fs, fe] = m.flags;
    if m.wide {
        baokeshed::portable64::hash_many(inputs, &words64(&m.key), m.off, m.delta, f, fs, fe, out);
    } else {
        baokeshed::portable::hash_many(inputs, &words32(&m.key), m.off, m.delta, f, fs, fe, out);
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let file = std::fs::read(&args[1]).unwrap();
    let mut out = std::fs::File::create(&args[2]).unwrap();
    let mut input = Input(&file);
    let mut hashers: HashMap<u64, H> = HashMap::new();
    let mut outputs: HashMap<u64, baokeshed::Output> = HashMap::new();
    loop {
        let op = input.num(1);
        match op {
            // The end of everything.
            0 => break,
            1 => {
                let (h, implementation, mode) = (input.num(1), input.num(1), input.num(1));
                let key = input.key();
                let hasher = match (implementation, mode) {
                    (0, 0) => H::Rust(baokeshed::Hasher::new()),
                    (0, 1) => H::Rust(baokeshed::Hasher::new_keyed(&key)),
                    (0, _) => H::Rust(baokeshed::Hasher::new_derive_key(&key)),
                    (_, 0) => H::Ref(reference_ff::Hasher::new()),
                    (_, 1) => H::Ref(reference_ff::Hasher::new_keyed(&key)),
                    _ => H::Ref(reference_ff::Hasher::new_derive_key(&key)),
                };
                hashers.insert(h, hasher);
            }
            2 => {
                let (h, n) = (input.num(1), input.num(4) as usize);
                // (A copy, so that reading behind it does not go unnoticed.)
                let data = input.take(n).to_vec().into_boxed_slice();
                match hashers.get_mut(&h).unwrap() {
                    H::Rust(h) => {
                        h.update(&data);
                    }
                    H::Ref(h) => {
                        h.update(&data);
                    }
                }
            }
            3 => {
                let (h, n) = (input.num(1), input.num(4) as usize);
                match &hashers[&h] {
                    H::Rust(h) => out.write_all(h.finalize().as_bytes()).unwrap(),
                    H::Ref(h) => {
                        let mut bytes = vec![0; n].into_boxed_slice();
                        h.finalize(&mut bytes);
                        out.write_all(&bytes).unwrap();
                    }
                }
            }
            4 => {
                let mode = input.num(1);
                let key = input.key();
                let n = input.num(4) as usize;
                let data = input.take(n).to_vec().into_boxed_slice();
                match mode {
                    0 => out.write_all(baokeshed::hash(&data).as_bytes()).unwrap(),
                    1 => out.write_all(baokeshed::keyed_hash(&key, &data).as_bytes()).unwrap(),
                    _ => out.write_all(&baokeshed::derive_key(&key, &data)).unwrap(),
                }
            }
            5 => {
                let (h, o) = (input.num(1), input.num(1));
                if let H::Rust(h) = &hashers[&h] {
                    outputs.insert(o, h.finalize_xof());
                }
            }
            6 => {
                let (o, n) = (input.num(1), input.num(4));
                let o = outputs.get_mut(&o).unwrap();
                for _ in 0..n {
                    out.write_all(&o.read()[..]).unwrap();
                }
            }
            7 => {
                let o = input.num(1);
                out.write_all(outputs[&o].clone().to_hash().as_bytes()).unwrap();
            }
            8 => {
                let (_o, _pos) = (input.num(1), input.num(8));
                #[cfg(feature = "hooks")]
                baokeshed::verif::seek(outputs.get_mut(&_o).unwrap(), _pos);
            }
            9 => {
                let (h, h2) = (input.num(1), input.num(1));
                if let H::Rust(h) = &hashers[&h] {
                    let copy = h.clone();
                    hashers.insert(h2, H::Rust(copy));
                }
            }
            10 => {
                let (h, _chunks, n) = (input.num(1), input.num(8), input.num(1));
                let _cvs: Vec<[u8; 32]> = (0..n).map(|_| input.key()).collect();
                match hashers.get_mut(&h).unwrap() {
                    #[cfg(feature = "hooks")]
                    H::Rust(h) => baokeshed::verif::fast_forward(h, _chunks, &_cvs),
                    #[cfg(ref_ff)]
                    H::Ref(h) => reference_ff::vp_fast_forward(h, _chunks, &_cvs),
                    #[allow(unreachable_patterns)]
                    _ => panic!("no fast_forward"),
                }
            }
            11 => {
                let (o, o2) = (input.num(1), input.num(1));
                let copy = outputs[&o].clone();
                outputs.insert(o2, copy);
            }
            // Nothing is kept from one scenario to the next.
            12 => {
                out.write_all(&[0xee]).unwrap();
                hashers.clear();
                outputs.clear();
                out.flush().unwrap();
            }
            13 => {
                let m = Many {
                    wide: input.num(1) == 64,
                    key: input.key(),
                    off: 0,
                    delta: 0,
                    flags: [0; 3],
                };
                let (nin, bytes) = (input.num(4) as usize, input.num(4) as usize);
                let m = Many {
                    off: input.num(8),
                    delta: input.num(8),
                    flags: [input.num(1) as u8, input.num(1) as u8, input.num(1) as u8],
                    ..m
                };
                let data: Vec<Box<[u8]>> = (0..nin).map(|_| input.take(bytes).to_vec().into_boxed_slice()).collect();
                let mut result = vec![0; 32 * nin].into_boxed_slice();
                macro_rules! sizes {
                    ($($n:expr),*) => {
                        match bytes {
                            $($n => many::<[u8; $n]>(&m, &data.iter().map(|x| array::<$n>(x)).collect::<Vec<_>>(), &mut result),)*
                            other => panic!("no array of {}", other),
                        }
                    };
                }
                sizes!(64, 128, 192, 256, 384, 512, 1024, 2048, 4096);
                out.write_all(&result).unwrap();
            }
            14 => {
                let (wide, xof) = (input.num(1) == 64, input.num(1) == 1);
                let cv = input.key();
                let (blen, off, flags) = (input.num(1) as u8, input.num(8), input.num(1) as u8);
                let block = input.take(if wide { 128 } else { 64 }).to_vec();
                let mut result = Vec::new();
                if wide {
                    let mut state = words64(&cv);
                    let block = array::<128>(&block);
                    if xof {
                        result = baokeshed::portable64::compress_xof(&state, block, blen, off, flags).to_vec();
                    } else {
                        baokeshed::portable64::compress(&mut state, block, blen, off, flags);
                        state.iter().for_each(|w| result.extend_from_slice(&w.to_le_bytes()));
                    }
                } else {
                    let mut state = words32(&cv);
                    let block = array::<64>(&block);
                    if xof {
                        result = baokeshed::portable::compress_xof(&state, block, blen, off, flags).to_vec();
                    } else {
                        baokeshed::portable::compress(&mut state, block, blen, off, flags);
                        state.iter().for_each(|w| result.extend_from_slice(&w.to_le_bytes()));
                    }
                }
                out.write_all(&result).unwrap();
            }
            other => panic!("no command {}", other),
        }
    }
}
