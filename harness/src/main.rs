//! Drives the implementations with scenarios and records what they do.
//!
//! usage: drive SCENARIOS OUT
//!
//! SCENARIOS has one JSON object per line: {"id", "impl", "plat", "pool", "ev":
//! [calls]}. OUT gets the same objects with what was observed added to every
//! call. A call that panics is recorded with "panic" and ends its scenario. OUT
//! is flushed after every scenario, so that whoever started this process can
//! tell which one crashed it.

mod arena;
mod backend;
mod copy;
mod content;

#[cfg(ref_ff)]
#[allow(dead_code)]
mod reference_ff {
    include!(concat!(env!("OUT_DIR"), "/ref_ff.rs"));
}

use arena::Arena;
use content::{fill, Pos};
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Barrier;

pub type Obj = Map<String, Value>;

pub fn s<'a>(e: &'a Obj, k: &str) -> &'a str {
    e.get(k).and_then(|v| v.as_str()).unwrap_or_else(|| panic!("driver: no string {} in {:?}", k, e))
}

pub fn n(e: &Obj, k: &str) -> u64 {
    e.get(k).and_then(|v| v.as_u64()).unwrap_or_else(|| panic!("driver: no number {} in {:?}", k, e))
}

pub fn nd(e: &Obj, k: &str, d: u64) -> u64 {
    e.get(k).and_then(|v| v.as_u64()).unwrap_or(d)
}

/// A u64 given as four 16-bit limbs.
pub fn u64_of(v: &Value) -> u64 {
    v.as_array().unwrap().iter().rev().fold(0, |a, x| (a << 16) | x.as_u64().unwrap())
}

pub fn hex(bytes: &[u8]) -> String {
    let mut out = String::with_capacity(2 * bytes.len());
    for b in bytes {
        out.push(char::from_digit((b >> 4) as u32, 16).unwrap());
        out.push(char::from_digit((b & 15) as u32, 16).unwrap());
    }
    out
}

pub fn unhex(text: &str) -> Vec<u8> {
    (0..text.len() / 2).map(|i| u8::from_str_radix(&text[2 * i..2 * i + 2], 16).unwrap()).collect()
}

pub fn key32(text: &str) -> [u8; 32] {
    let mut key = [0; 32];
    key.copy_from_slice(&unhex(text));
    key
}

/// The key, with an inaccessible page on one side.
fn placed_key(arena: &mut Arena, e: &Obj) -> &'static [u8; 32] {
    let key = match e.get("key").and_then(|v| v.as_str()) {
        Some(k) if !k.is_empty() => key32(k),
        _ => [0; 32],
    };
    let place = arena.fence(backend::KEYS, 32, nd(e, "al", 0) % 2 == 1);
    place.copy_from_slice(&key);
    unsafe { &*(place.as_ptr() as *const [u8; 32]) }
}

enum H {
    Rust(baokeshed::Hasher),
    Ref(reference_impl::Hasher),
    #[cfg(ref_ff)]
    RefFf(reference_ff::Hasher),
    #[cfg(feature = "c_avx2")]
    C(baokeshed::c::Hasher),
}

#[derive(Default)]
struct World {
    implementation: String,
    hashers: HashMap<u64, (H, Pos)>,
    outputs: HashMap<u64, baokeshed::Output>,
    hash_values: HashMap<u64, baokeshed::Hash>,
    clones: u64,
}

fn segments(e: &Obj) -> Vec<(u64, usize)> {
    e["segs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|p| {
            // [kind, bytes] or [kind, bytes, chunks]
            let chunks = p.get(2).map_or(0, |v| v.as_u64().unwrap() as usize);
            (p[0].as_u64().unwrap(), p[1].as_u64().unwrap() as usize + chunks * content::CHUNK)
        })
        .collect()
}

fn whole(arena: &mut Arena, e: &Obj) -> *const [u8] {
    let segs = segments(e);
    let total = segs.iter().map(|x| x.1).sum();
    if total > arena::MAX {
        // Zeros, and something short behind them.
        let buf = arena::long(total);
        let mut pos = Pos::default();
        pos.advance(segs[0].1);
        let mut at = segs[0].1;
        for (kind, len) in &segs[1..] {
            fill(&mut buf[at..at + len], *kind, &mut pos);
            at += len;
        }
        return buf;
    }
    let buf = arena.place(total, nd(e, "al", 0) as usize);
    let mut pos = Pos::default();
    let mut at = 0;
    for (kind, len) in segs {
        fill(&mut buf[at..at + len], kind, &mut pos);
        at += len;
    }
    buf
}

/// Writes input in up to 40 pieces, some of them empty, as often as it takes.
fn write_vectored(h: &mut baokeshed::Hasher, input: &[u8]) -> usize {
    let count = 1 + input.len() % 40;
    let mut state = input.len() as u64;
    let mut rest = input;
    let mut pieces = Vec::new();
    for left in (0..count).rev() {
        state = state.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let len = match (state >> 33) % 5 {
            _ if left == 0 => rest.len(),
            0 => 0,
            1 => rest.len().min(1),
            _ => rest.len().min((state >> 40) as usize % (1 + 2 * rest.len() / (left + 1))),
        };
        pieces.push(std::io::IoSlice::new(&rest[..len]));
        rest = &rest[len..];
    }
    let mut pieces = &mut pieces[..];
    let mut total = 0;
    while total < input.len() {
        let n = h.write_vectored(pieces).expect("write_vectored failed");
        total += n;
        if n == 0 || total > input.len() {
            return total;
        }
        std::io::IoSlice::advance_slices(&mut pieces, n);
    }
    total
}

impl World {
    fn new_hasher(&self, arena: &mut Arena, e: &Obj) -> H {
        let mode = s(e, "mode");
        let key = placed_key(arena, e);
        match self.implementation.as_str() {
            "ref" => H::Ref(match mode {
                "hash" => reference_impl::Hasher::new(),
                "keyed" => reference_impl::Hasher::new_keyed(key),
                _ => reference_impl::Hasher::new_derive_key(key),
            }),
            #[cfg(ref_ff)]
            "ref_ff" => H::RefFf(match mode {
                "hash" => reference_ff::Hasher::new(),
                "keyed" => reference_ff::Hasher::new_keyed(key),
                _ => reference_ff::Hasher::new_derive_key(key),
            }),
            #[cfg(feature = "c_avx2")]
            "c" => {
                const IV: [u32; 8] = [
                    0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB,
                    0x5BE0CD19,
                ];
                let mut iv = [0; 32];
                for i in 0..8 {
                    iv[4 * i..4 * i + 4].copy_from_slice(&IV[i].to_le_bytes());
                }
                H::C(match mode {
                    "hash" => baokeshed::c::Hasher::new(&iv, 0),
                    "keyed" => baokeshed::c::Hasher::new(key, 16),
                    _ => baokeshed::c::Hasher::new(key, 32),
                })
            }
            _ => H::Rust(match mode {
                "hash" => baokeshed::Hasher::new(),
                "keyed" => baokeshed::Hasher::new_keyed(key),
                _ => baokeshed::Hasher::new_derive_key(key),
            }),
        }
    }

    fn rust(&self, e: &Obj) -> &baokeshed::Hasher {
        match &self.hashers[&n(e, "h")].0 {
            H::Rust(h) => h,
            _ => panic!("driver: not a Rust hasher"),
        }
    }

    fn step(&mut self, arena: &mut Arena, e: &mut Obj) {
        let op = s(e, "op").to_string();
        let mut stray = false;
        match op.as_str() {
            "new" => {
                let h = self.new_hasher(arena, e);
                self.hashers.insert(n(e, "h"), (h, Pos::default()));
            }
            "upd" => {
                let id = n(e, "h");
                let extra = nd(e, "nc", 0) as usize * content::CHUNK;
                let len = n(e, "n") as usize + extra;
                let (h, pos) = self.hashers.get_mut(&id).unwrap();
                let kind = n(e, "k");
                let zero_run;
                let input: &[u8] = if kind == 0 && len > arena::MAX {
                    zero_run = arena::long(len);
                    pos.advance(len);
                    &*zero_run
                } else {
                    let buf = arena.place(len, nd(e, "al", 0) as usize);
                    fill(buf, kind, pos);
                    buf
                };
                let how = e.get("how").and_then(|v| v.as_str()).unwrap_or("update");
                arena.lock(e.contains_key("ro"));
                let ret = match h {
                    H::Rust(h) => match how {
                        "write" => h.write(input).expect("write failed"),
                        "write_all" => {
                            h.write_all(input).expect("write_all failed");
                            h.flush().expect("flush failed");
                            len
                        }
                        "vectored" => write_vectored(h, input),
                        "copy" => baokeshed::copy::copy_wide(&mut &*input, h).expect("copy failed") as usize,
                        _ => {
                            h.update(input);
                            len
                        }
                    },
                    H::Ref(h) => {
                        h.update(input);
                        len
                    }
                    #[cfg(ref_ff)]
                    H::RefFf(h) => {
                        h.update(input);
                        len
                    }
                    #[cfg(feature = "c_avx2")]
                    H::C(h) => {
                        h.update(input);
                        len
                    }
                };
                e.insert("ret".into(), json!((ret as i64 - extra as i64).clamp(-1, i32::MAX as i64)));
            }
            // Into a handle that is in use, every other time by clone_from.
            "clone" => {
                self.clones += 1;
                if self.clones % 2 == 0 && n(e, "h") != n(e, "h2") {
                    if let Some((H::Rust(mut h2), _)) = self.hashers.remove(&n(e, "h2")) {
                        if let (H::Rust(h), pos) = &self.hashers[&n(e, "h")] {
                            h2.clone_from(h);
                            let pos = *pos;
                            self.hashers.insert(n(e, "h2"), (H::Rust(h2), pos));
                            return;
                        }
                    }
                }
                let copy = match &self.hashers[&n(e, "h")] {
                    (H::Rust(h), pos) => (H::Rust(h.clone()), *pos),
                    #[cfg(feature = "c_avx2")]
                    (H::C(h), pos) => (H::C(*h), *pos),
                    _ => panic!("driver: cannot clone"),
                };
                self.hashers.insert(n(e, "h2"), copy);
            }
            "fin" => {
                let len = n(e, "n") as usize;
                let out = match &self.hashers[&n(e, "h")].0 {
                    H::Rust(h) => hex(h.finalize().as_bytes()),
                    H::Ref(h) => {
                        // Behind the output is a guard page.
                        let out = arena.output_at(len, nd(e, "oal", 0) as usize);
                        h.finalize(out);
                        stray = arena.stray();
                        hex(out)
                    }
                    #[cfg(ref_ff)]
                    H::RefFf(h) => {
                        let out = arena.output_at(len, nd(e, "oal", 0) as usize);
                        h.finalize(out);
                        stray = arena.stray();
                        hex(out)
                    }
                    #[cfg(feature = "c_avx2")]
                    H::C(h) => hex(&h.finalize()),
                };
                e.insert("out".into(), json!(out));
            }
            "xof" => {
                let o = self.rust(e).finalize_xof();
                self.outputs.insert(n(e, "o"), o);
            }
            "one" | "onexof" => {
                let mode = s(e, "mode").to_string();
                let input: &[u8] = unsafe { &*whole(arena, e) };
                let key = placed_key(arena, e);
                arena.lock(e.contains_key("ro"));
                if op == "one" {
                    let out = match mode.as_str() {
                        "hash" => hex(baokeshed::hash(input).as_bytes()),
                        "keyed" => hex(baokeshed::keyed_hash(key, input).as_bytes()),
                        _ => hex(&baokeshed::derive_key(key, input)),
                    };
                    e.insert("out".into(), json!(out));
                } else {
                    let o = match mode.as_str() {
                        "hash" => baokeshed::hash_xof(input),
                        "keyed" => baokeshed::keyed_hash_xof(key, input),
                        _ => baokeshed::derive_key_xof(key, input),
                    };
                    self.outputs.insert(n(e, "o"), o);
                }
            }
            // A message given by its bytes.
            "lit" => {
                let data = unhex(s(e, "data"));
                let input = arena.place(data.len(), nd(e, "al", 0) as usize);
                input.copy_from_slice(&data);
                let len = n(e, "n") as usize;
                let mut h = self.new_hasher(arena, e);
                let mode = s(e, "mode").to_string();
                let key = placed_key(arena, e);
                let how = e.get("how").and_then(|v| v.as_str()).unwrap_or("").to_string();
                let cut = (nd(e, "cut", 0) as usize).min(input.len());
                let out = match &mut h {
                    H::Rust(h) => {
                        let mut o = if how == "hasher" {
                            h.update(&input[..cut]);
                            h.update(&input[cut..]);
                            h.finalize_xof()
                        } else {
                            match mode.as_str() {
                                "hash" => baokeshed::hash_xof(input),
                                "keyed" => baokeshed::keyed_hash_xof(key, input),
                                _ => baokeshed::derive_key_xof(key, input),
                            }
                        };
                        if len == 32 {
                            hex(o.to_hash().as_bytes())
                        } else {
                            hex(&o.read()[..len])
                        }
                    }
                    H::Ref(h) => {
                        h.update(&input[..cut]);
                        h.update(&input[cut..]);
                        let out = arena.output_at(len, nd(e, "oal", 0) as usize);
                        h.finalize(out);
                        stray = arena.stray();
                        hex(out)
                    }
                    #[cfg(feature = "c_avx2")]
                    H::C(h) => {
                        h.update(&input[..cut]);
                        h.update(&input[cut..]);
                        hex(&h.finalize())
                    }
                    #[allow(unreachable_patterns)]
                    _ => panic!("driver: no such call"),
                };
                e.insert("out".into(), json!(out));
            }
            "read" => {
                let o = self.outputs.get_mut(&n(e, "o")).unwrap();
                let mut bytes = Vec::new();
                for _ in 0..e["n"].as_u64().unwrap() {
                    bytes.extend_from_slice(&o.read()[..]);
                }
                e.insert("out".into(), json!(hex(&bytes)));
            }
            "tohash" => {
                let o = self.outputs[&n(e, "o")].clone();
                e.insert("out".into(), json!(hex(o.to_hash().as_bytes())));
            }
            "cloneo" => {
                self.clones += 1;
                match self.outputs.remove(&n(e, "o2")) {
                    Some(mut o2) if self.clones % 2 == 0 && n(e, "o") != n(e, "o2") => {
                        o2.clone_from(&self.outputs[&n(e, "o")]);
                        self.outputs.insert(n(e, "o2"), o2);
                    }
                    o2 => {
                        if n(e, "o") == n(e, "o2") {
                            self.outputs.insert(n(e, "o"), o2.unwrap());
                        }
                        let o = self.outputs[&n(e, "o")].clone();
                        self.outputs.insert(n(e, "o2"), o);
                    }
                }
            }
            "debug" => {
                let form = nd(e, "form", 0);
                let out = if s(e, "type").starts_with("hasher") { shown(self.rust(e), form) } else { shown(&self.outputs[&n(e, "o")], form) };
                e.insert("out".into(), json!(out));
            }
            #[cfg(feature = "hooks")]
            "ff" => {
                let cvs: Vec<[u8; 32]> = e["cvs"].as_array().unwrap().iter().map(|x| key32(x.as_str().unwrap())).collect();
                match &mut self.hashers.get_mut(&n(e, "h")).unwrap().0 {
                    H::Rust(h) => baokeshed::verif::fast_forward(h, u64_of(&e["n"]), &cvs),
                    #[cfg(ref_ff)]
                    H::RefFf(h) => reference_ff::vp_fast_forward(h, u64_of(&e["n"]), &cvs),
                    _ => panic!("driver: cannot fast-forward"),
                }
            }
            #[cfg(feature = "hooks")]
            "seek" => {
                baokeshed::verif::seek(self.outputs.get_mut(&n(e, "o")).unwrap(), u64_of(&e["pos"]));
            }
            // Hash values.
            "hval" => {
                let bytes = key32(s(e, "bytes"));
                let h = baokeshed::Hash::from(bytes);
                self.hash_values.insert(n(e, "v"), h);
            }
            "hshow" => {
                let h = self.hash_values[&n(e, "v")];
                let array: [u8; 32] = h.into();
                let copy = h;
                e.insert("hex".into(), json!(h.to_hex().as_str()));
                e.insert("as_bytes".into(), json!(hex(h.as_bytes())));
                e.insert("into".into(), json!(hex(&array)));
                e.insert("copied".into(), json!(hex(copy.clone().as_bytes())));
                e.insert("debug".into(), json!(format!("{:?}", h)));
                e.insert("pretty".into(), json!(format!("{:#?}", h)));
            }
            "hfin" => {
                let h = self.rust(e).finalize();
                self.hash_values.insert(n(e, "v"), h);
            }
            "heq" => {
                let a = self.hash_values[&n(e, "v")];
                let b = self.hash_values[&n(e, "w")];
                let array: [u8; 32] = b.into();
                e.insert("eq".into(), json!(a == b));
                e.insert("ne".into(), json!(a != b));
                e.insert("eqa".into(), json!(a == array));
                e.insert("nea".into(), json!(a != array));
            }
            "copy" => copy::run(e),
            "compress" | "cxof" | "many" => backend::run(arena, e),
            other => panic!("driver: unknown call {}", other),
        }
        if stray {
            e.insert("stray".into(), json!(true));
        }
    }
}

fn run_events(world: &mut World, arena: &mut Arena, events: &[Value]) -> Vec<Value> {
    let mut out = Vec::with_capacity(events.len());
    for ev in events {
        let mut e = ev.as_object().unwrap().clone();
        let r = catch_unwind(AssertUnwindSafe(|| world.step(arena, &mut e)));
        if let Err(p) = r {
            let msg = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string()))
                .unwrap_or_else(|| "panic".into());
            if msg.starts_with("driver:") {
                eprintln!("{}", msg);
                std::process::exit(3);
            }
            e.insert("panic".into(), json!(msg));
            out.push(Value::Object(e));
            break;
        }
        // Again and again, in case something else comes out of it; the record of
        // that is a call of its own.
        let mut others: Vec<Obj> = Vec::new();
        for _ in 1..nd(&e, "times", 1) {
            let mut again = ev.as_object().unwrap().clone();
            if catch_unwind(AssertUnwindSafe(|| world.step(arena, &mut again))).is_err() {
                again.insert("panic".into(), json!("panic"));
            }
            if again != e && others.len() < 3 {
                others.push(again);
            }
        }
        out.push(Value::Object(e));
        out.extend(others.into_iter().map(Value::Object));
    }
    out
}

fn force_platform(_name: &str) {
    #[cfg(feature = "hooks")]
    baokeshed::verif::force_platform(_name);
}

fn in_pool<R: Send>(size: usize, f: impl FnOnce() -> R + Send) -> R {
    #[cfg(feature = "threads")]
    if size > 0 {
        return rayon::ThreadPoolBuilder::new().num_threads(size).build().unwrap().install(f);
    }
    let _ = size;
    f()
}

/// What Debug shows, in all forms it can be asked for.
fn shown<T: std::fmt::Debug>(x: &T, form: u64) -> String {
    match form {
        0 => format!("{:?}", x),
        1 => format!("{:#?}", x),
        2 => format!("{:x?}", x),
        3 => format!("{:#X?}", x),
        4 => format!("{:+?}", x),
        5 => format!("{:-200?}", x),
        6 => format!("{:0>200.9?}", x),
        7 => format!("{:.1?}", x),
        8 => format!("{:?}", (1, [x], Some(x))),
        9 => format!("{:#?}", (1, [x], Some(x))),
        10 => format!("{:08.3?}", x),
        _ => format!("{:#?}", Err::<(), _>(x)),
    }
}

fn on_threads(
    lists: &[Vec<Value>],
    worlds: &mut [World],
    run: impl Fn(&mut World, &mut Arena, &[Value]) -> Vec<Value> + Sync,
) -> Vec<Vec<Value>> {
    let barrier = Barrier::new(lists.len());
    let (barrier, run) = (&barrier, &run);
    std::thread::scope(|scope| {
        let handles: Vec<_> = lists
            .iter()
            .zip(worlds)
            .map(|(list, mine)| {
                scope.spawn(move || {
                    let mut arena = Arena::new();
                    barrier.wait();
                    run(mine, &mut arena, list)
                })
            })
            .collect();
        handles.into_iter().map(|h| h.join().unwrap()).collect()
    })
}

fn in_one_pool(size: usize, lists: &[Vec<Value>], worlds: &mut [World]) -> Vec<Vec<Value>> {
    #[cfg(feature = "threads")]
    {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(size).build().unwrap();
        return on_threads(lists, worlds, |mine, arena, list| {
            let mut out = Vec::new();
            for ev in list {
                out.extend(pool.install(|| run_events(mine, arena, std::slice::from_ref(ev))));
                if out.last().unwrap().get("panic").is_some() {
                    break;
                }
            }
            out
        });
    }
    #[allow(unreachable_code)]
    {
        let _ = size;
        on_threads(lists, worlds, |mine, arena, list| run_events(mine, arena, list))
    }
}

fn as_tasks(size: usize, lists: &[Vec<Value>], worlds: &mut [World]) -> Vec<Vec<Value>> {
    #[cfg(feature = "threads")]
    {
        let mut recorded: Vec<Vec<Value>> = lists.iter().map(|_| Vec::new()).collect();
        in_pool(size, || {
            rayon::scope(|scope| {
                for ((list, mine), rec) in lists.iter().zip(worlds.iter_mut()).zip(recorded.iter_mut()) {
                    scope.spawn(move |_| *rec = run_events(mine, &mut Arena::new(), list));
                }
            })
        });
        return recorded;
    }
    #[allow(unreachable_code)]
    {
        let _ = size;
        on_threads(lists, worlds, |mine, arena, list| run_events(mine, arena, list))
    }
}

fn on_turns(n: usize, world: &mut World, arena: &mut Arena, events: &[Value]) -> Vec<Value> {
    let state = std::sync::Mutex::new((0, world, arena, Vec::new()));
    let turn = std::sync::Condvar::new();
    std::thread::scope(|scope| {
        for me in 0..n {
            let (state, turn) = (&state, &turn);
            scope.spawn(move || loop {
                let mut held = turn.wait_while(state.lock().unwrap(), |x| x.0 < events.len() && x.0 % n != me).unwrap();
                let (at, world, arena, out) = &mut *held;
                if *at >= events.len() {
                    break;
                }
                let r = run_events(world, arena, std::slice::from_ref(&events[*at]));
                let stop = r[0].get("panic").is_some();
                out.extend(r);
                *at = if stop { events.len() } else { *at + 1 };
                turn.notify_all();
            });
        }
    });
    state.into_inner().unwrap().3
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    if args[1] == "--can" {
        // What this driver can do: whether it has a fast-forward of each kind.
        println!("{}", json!({"ff": cfg!(feature = "hooks"), "ref_ff": cfg!(ref_ff) && cfg!(feature = "hooks")}));
        return;
    }
    let input = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap());
    let mut out = std::io::BufWriter::new(std::fs::OpenOptions::new().create(true).append(true).open(&args[2]).unwrap());
    let mut arena = Arena::new();
    for line in input.lines() {
        let mut sc: Obj = match serde_json::from_str(&line.unwrap()) {
            Ok(v) => v,
            Err(e) => {
                eprintln!("driver: {}", e);
                std::process::exit(3);
            }
        };
        force_platform(sc.get("plat").and_then(|v| v.as_str()).unwrap_or(""));
        let pool = nd(&sc, "pool", 0) as usize;
        let mut world = World::default();
        world.implementation = sc.get("impl").and_then(|v| v.as_str()).unwrap_or("rust").into();
        let events: Vec<Value> = sc["ev"].as_array().unwrap().clone();
        if let Some(threads) = sc.remove("threads") {
            // Concurrent callers: "ev" first, then one list of calls for each
            // of them, on clones of every handle. Each one's calls become a
            // scenario of their own, continuing "ev". They are threads that
            // have a pool each or one together, or tasks of a pool, which may
            // begin another one's calls while they wait inside of one.
            let pre = run_events(&mut world, &mut arena, &events);
            let lists: Vec<Vec<Value>> = threads.as_array().unwrap().iter().map(|x| x.as_array().unwrap().clone()).collect();
            let mut worlds: Vec<World> = lists
                .iter()
                .map(|_| {
                    let mut mine = World::default();
                    mine.implementation = world.implementation.clone();
                    for (k, (h, pos)) in &world.hashers {
                        if let H::Rust(h) = h {
                            mine.hashers.insert(*k, (H::Rust(h.clone()), *pos));
                        }
                    }
                    for (k, o) in &world.outputs {
                        mine.outputs.insert(*k, o.clone());
                    }
                    mine
                })
                .collect();
            let recorded = match sc.get("share").and_then(|v| v.as_str()).unwrap_or("") {
                "tasks" => as_tasks(pool, &lists, &mut worlds),
                "pool" => in_one_pool(pool, &lists, &mut worlds),
                _ => on_threads(&lists, &mut worlds, |mine, arena, list| in_pool(pool, || run_events(mine, arena, list))),
            };
            for (i, r) in recorded.into_iter().enumerate() {
                let mut o = sc.clone();
                o.insert("id".into(), json!(format!("{}/{}", s(&sc, "id"), i)));
                o.insert("ev".into(), Value::Array(pre.iter().cloned().chain(r).collect()));
                serde_json::to_writer(&mut out, &Value::Object(o)).unwrap();
                out.write_all(b"\n").unwrap();
            }
        } else if sc.contains_key("hop") {
            // Every call on another thread.
            let hop = nd(&sc, "hop", 1) as usize;
            let ev = on_turns(hop, &mut world, &mut arena, &events);
            sc.insert("ev".into(), Value::Array(ev));
            serde_json::to_writer(&mut out, &Value::Object(sc)).unwrap();
            out.write_all(b"\n").unwrap();
        } else {
            let (world_ref, arena_ref) = (&mut world, &mut arena);
            let ev = in_pool(pool, || run_events(world_ref, arena_ref, &events));
            sc.insert("ev".into(), Value::Array(ev));
            serde_json::to_writer(&mut out, &Value::Object(sc)).unwrap();
            out.write_all(b"\n").unwrap();
        }
        out.flush().unwrap();
    }
}
