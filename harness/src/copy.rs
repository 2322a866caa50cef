//! copy_wide between a scripted reader and a scripted writer.

use crate::content::{fill, Pos};
use crate::{hex, n, Obj};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io;
use std::rc::Rc;

type Log = Rc<RefCell<Vec<Value>>>;

struct R {
    kind: u64,
    pos: Pos,
    script: Vec<Value>,
    at: usize,
    log: Log,
}

const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::WouldBlock,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionRefused,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::Other,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::AddrInUse,
    io::ErrorKind::AddrNotAvailable,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::InvalidData,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WriteZero,
    io::ErrorKind::Unsupported,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::StorageFull,
    io::ErrorKind::HostUnreachable,
    io::ErrorKind::NetworkDown,
    io::ErrorKind::Deadlock,
    io::ErrorKind::ResourceBusy,
    io::ErrorKind::StaleNetworkFileHandle,
];

/// An error by its number: 0 is an interruption, 1 and on the kinds above, 200
/// and on errors of the operating system, or 100 and on bare kinds.
fn error(code: u64) -> io::Error {
    match code {
        0 => io::Error::new(io::ErrorKind::Interrupted, "0"),
        k if k >= 200 => io::Error::from_raw_os_error(k as i32 - 200),
        100 => io::ErrorKind::Interrupted.into(),
        k if k > 100 => KINDS[k as usize - 101].into(),
        k => io::Error::new(KINDS[k as usize - 1], k.to_string()),
    }
}

/// The number in the record: an interruption is an interruption.
fn shown(code: u64) -> u64 {
    if error(code).kind() == io::ErrorKind::Interrupted { 0 } else { code }
}

fn number(err: &io::Error) -> u64 {
    if err.kind() == io::ErrorKind::Interrupted {
        return 0;
    }
    if let Some(os) = err.raw_os_error() {
        return 200 + os as u64;
    }
    let kind = KINDS.iter().position(|k| *k == err.kind()).map(|k| k as u64 + 1);
    match (kind, err.to_string().parse::<u64>()) {
        (Some(k), Ok(code)) => if k == code { code } else { 999 },
        (Some(_), Err(_)) if err.kind() == io::ErrorKind::WriteZero => 1000,
        (Some(k), Err(_)) => 100 + k,
        (None, _) => 999,
    }
}

/// A script is a list of [what, number]: "data"/n, "err"/code (0: interrupted);
/// past its end a reader is at its end and a writer accepts everything.
impl io::Read for R {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let step = self.script.get(self.at).cloned().unwrap_or(json!(["data", 0]));
        self.at += 1;
        if self.at > 100_000 {
            panic!("the reader is read without end");
        }
        let num = step[1].as_u64().unwrap();
        if step[0] == "err" {
            self.log.borrow_mut().push(json!({"op": "read", "err": shown(num)}));
            return Err(error(num));
        }
        let take = (num as usize).min(buf.len());
        fill(&mut buf[..take], self.kind, &mut self.pos);
        if take > 0 && take < num as usize {
            // The rest of this piece stays for the next read.
            self.at -= 1;
            self.script[self.at] = json!(["data", num as usize - take]);
        }
        self.log.borrow_mut().push(json!({"op": "read", "ret": take}));
        Ok(take)
    }
}

struct W {
    script: Vec<Value>,
    at: usize,
    log: Log,
}

impl io::Write for W {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let step = self.script.get(self.at).cloned().unwrap_or(json!(["data", buf.len()]));
        self.at += 1;
        if self.at > 100_000 {
            panic!("the writer is written to without end");
        }
        let num = step[1].as_u64().unwrap();
        if step[0] == "err" {
            self.log.borrow_mut().push(json!({"op": "write", "err": shown(num), "len": buf.len()}));
            return Err(error(num));
        }
        let take = (num as usize).min(buf.len());
        self.log.borrow_mut().push(json!({"op": "write", "ret": take, "len": buf.len(), "data": hex(&buf[..take])}));
        Ok(take)
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// The amounts of a long copy are counted in these.
const UNIT: usize = 4096;

/// What happened, with immediate repetitions of a read and the write of all of
/// it put together.
#[derive(Default)]
struct LongLog {
    calls: Vec<Value>,
    read: Option<usize>,
    piece: usize,
    times: u64,
}

impl LongLog {
    fn settle(&mut self) {
        if self.times > 0 {
            self.calls.push(json!({"op": "both", "ret": self.piece / UNIT, "times": self.times}));
            self.times = 0;
        }
    }

    fn read(&mut self, n: usize) {
        if let Some(before) = self.read.replace(n) {
            self.settle();
            self.calls.push(json!({"op": "read", "ret": before / UNIT}));
        }
    }

    fn write(&mut self, len: usize, n: usize) {
        if self.read == Some(len) && len == n && (self.times == 0 || self.piece == n) {
            self.read = None;
            self.piece = n;
            self.times += 1;
            return;
        }
        self.flush();
        if len % UNIT != 0 || n % UNIT != 0 {
            self.calls.push(json!({"op": "write", "odd": len.to_string()}));
        } else {
            self.calls.push(json!({"op": "write", "len": len / UNIT, "ret": n / UNIT, "data": "zeros"}));
        }
    }

    fn flush(&mut self) {
        self.settle();
        if let Some(before) = self.read.take() {
            self.calls.push(json!({"op": "read", "ret": before / UNIT}));
        }
    }
}

struct Zeros {
    left: u64,
    log: Rc<RefCell<LongLog>>,
}

impl io::Read for Zeros {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = (buf.len() / UNIT * UNIT).min(self.left.min(1 << 30) as usize);
        if n == 0 && self.left > 0 {
            panic!("driver: a buffer of less than a unit");
        }
        for x in &mut buf[..n] {
            *x = 0;
        }
        self.left -= n as u64;
        self.log.borrow_mut().read(n);
        Ok(n)
    }
}

struct Sink {
    log: Rc<RefCell<LongLog>>,
}

impl io::Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let sum = buf.iter().fold(0, |a, x| a | x);
        assert!(sum == 0, "something else than what was read is written");
        self.log.borrow_mut().write(buf.len(), buf.len());
        Ok(buf.len())
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Copy `units` units of zeros.
fn run_long(e: &mut Obj) {
    let log: Rc<RefCell<LongLog>> = Default::default();
    let mut reader = Zeros { left: n(e, "units") * UNIT as u64, log: log.clone() };
    let mut writer = Sink { log: log.clone() };
    let result = baokeshed::copy::copy_wide(&mut reader, &mut writer);
    log.borrow_mut().flush();
    let mut calls = log.borrow().calls.clone();
    calls.push(match result {
        Ok(total) if total % UNIT as u64 == 0 => json!({"op": "done", "total": total / UNIT as u64}),
        Ok(total) => json!({"op": "done", "odd": total.to_string()}),
        Err(err) => json!({"op": "failed", "err": number(&err)}),
    });
    e.insert("calls".into(), Value::Array(calls));
}

pub fn run(e: &mut Obj) {
    if e.contains_key("units") {
        return run_long(e);
    }
    let log: Log = Default::default();
    let mut reader = R {
        kind: n(e, "k"),
        pos: Pos::default(),
        script: e["reader"].as_array().unwrap().clone(),
        at: 0,
        log: log.clone(),
    };
    let mut writer = W { script: e["writer"].as_array().unwrap().clone(), at: 0, log: log.clone() };
    let result = baokeshed::copy::copy_wide(&mut reader, &mut writer);
    let last = match result {
        Ok(total) => json!({"op": "done", "total": total}),
        Err(err) => {
            json!({"op": "failed", "err": number(&err)})
        }
    };
    let mut calls = log.borrow().clone();
    calls.push(last);
    e.insert("calls".into(), Value::Array(calls));
}
