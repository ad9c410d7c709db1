//! Drives the writer under test with concrete calls against a sink that observes everything.
use crate::model::*;
use std::cell::RefCell;
use std::io::{self, Write};
use std::rc::Rc;
use tsfile_writer::writer::errors::TsFileError;
use tsfile_writer::writer::ts_file_config::TsFileConfig;
use tsfile_writer::writer::tsfile_writer::{DataPoint, TsFileWriter};
use tsfile_writer::writer::PositionedWrite;

pub trait IntoResult {
    fn res(self) -> Result<(), TsFileError>;
}
impl IntoResult for () {
    fn res(self) -> Result<(), TsFileError> {
        Ok(())
    }
}
impl<X> IntoResult for Result<X, TsFileError> {
    fn res(self) -> Result<(), TsFileError> {
        self.map(|_| ())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Generic,
    Io,
    Write,
    OutOfOrder,
    IllegalState,
    Compression,
    WrongType,
    Encoding,
}

pub fn kind(e: &TsFileError) -> Kind {
    match e {
        TsFileError::Error { .. } => Kind::Generic,
        TsFileError::IoError { .. } => Kind::Io,
        TsFileError::WriteError => Kind::Write,
        TsFileError::OutOfOrderData => Kind::OutOfOrder,
        TsFileError::IllegalState { .. } => Kind::IllegalState,
        TsFileError::Compression => Kind::Compression,
        TsFileError::WrongTypeForSeries => Kind::WrongType,
        TsFileError::Encoding => Kind::Encoding,
    }
}

pub type Res = Result<(), Kind>;

/// Is the outcome of a call what the contract says?
pub fn agrees(got: &Res, want: &Result<(), Vec<Why>>) -> bool {
    match (got, want) {
        (Ok(()), Ok(())) => true,
        (Err(k), Err(why)) => {
            if why.len() != 1 {
                return true;
            }
            match why[0] {
                Why::UnknownSeries => *k == Kind::IllegalState,
                Why::WrongType => *k == Kind::WrongType,
                Why::Encoding => *k == Kind::Encoding,
                Why::OutOfOrder => *k == Kind::OutOfOrder,
                Why::Closed => true,
            }
        }
        _ => false,
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    Plain,
    /// accepts only parts of requests and interrupts now and then
    Short { seed: u64, max: u16 },
    /// the write that would pass `at` accepts the bytes up to it and the next one fails, always
    FailFrom { at: u64, zero: bool },
    /// fails only once
    FailOnce { at: u64, zero: bool },
    /// the n-th flush fails (once)
    FlushFail { n: u32, forever: bool },
}

pub struct SinkState {
    pub data: Vec<u8>,
    pub keep: bool,
    /// a sink that is never full would end the machine
    pub cap: u64,
    pub accepted: u64,
    pub base: u64,
    pub mode: Mode,
    pub errors: u64,
    /// length of the data before the first error
    pub first_error_at: Option<u64>,
    pub flushes: u32,
    /// accepted before the last flush
    pub synced: u64,
    pub interrupted: u64,
    /// interruptions to come
    burst: u32,
    rng: Mix,
}

#[derive(Clone)]
pub struct Sink(pub Rc<RefCell<SinkState>>);

pub const SINK_CAP: u64 = 3 << 30;

impl Sink {
    pub fn new(mode: Mode, base: u64) -> Sink {
        let seed = match mode {
            Mode::Short { seed, .. } => seed,
            _ => 0,
        };
        Sink(Rc::new(RefCell::new(SinkState {
            data: vec![],
            keep: true,
            cap: SINK_CAP,
            accepted: 0,
            base,
            mode,
            errors: 0,
            first_error_at: None,
            flushes: 0,
            synced: 0,
            interrupted: 0,
            burst: 0,
            rng: Mix(seed),
        })))
    }
    pub fn take(&self) -> Vec<u8> {
        std::mem::take(&mut self.0.borrow_mut().data)
    }
    pub fn len(&self) -> u64 {
        self.0.borrow().accepted
    }
    pub fn errors(&self) -> u64 {
        self.0.borrow().errors
    }
}

impl SinkState {
    fn accept(&mut self, b: &[u8]) -> usize {
        if self.keep {
            self.data.extend_from_slice(b);
        }
        self.accepted += b.len() as u64;
        b.len()
    }
    fn fail(&mut self, zero: bool) -> io::Result<usize> {
        self.errors += 1;
        if self.first_error_at.is_none() {
            self.first_error_at = Some(self.accepted);
        }
        if zero {
            Ok(0)
        } else {
            // all kinds but `Interrupted`, which asks for another attempt
            use io::ErrorKind::*;
            const KINDS: [io::ErrorKind; 16] = [
                Other, WouldBlock, BrokenPipe, TimedOut, WriteZero, UnexpectedEof, InvalidInput, InvalidData,
                PermissionDenied, NotFound, AlreadyExists, OutOfMemory, ConnectionReset, ConnectionAborted,
                NotConnected, Unsupported,
            ];
            // disk full, I/O error, try again, file too large, quota, invalid argument
            const CODES: [i32; 6] = [28, 5, 11, 27, 122, 22];
            let k = Mix(self.accepted.wrapping_mul(31).wrapping_add(self.flushes as u64)).below(22) as usize;
            Err(match KINDS.get(k) {
                Some(kind) => io::Error::new(*kind, "injected"),
                None => io::Error::from_raw_os_error(CODES[k - KINDS.len()]),
            })
        }
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        if buf.is_empty() {
            return Ok(0);
        }
        if s.keep && s.accepted + buf.len() as u64 > s.cap {
            return s.fail(false);
        }
        match s.mode {
            Mode::Plain | Mode::FlushFail { .. } => Ok(s.accept(buf)),
            Mode::Short { max, .. } => {
                if s.burst == 0 && s.rng.below(2000) == 0 {
                    s.burst = 200;
                }
                if s.burst > 0 || s.rng.below(5) == 0 {
                    s.burst = s.burst.saturating_sub(1);
                    s.interrupted += 1;
                    return Err(io::Error::new(io::ErrorKind::Interrupted, "injected"));
                }
                let n = 1 + s.rng.below(max as u64 + 1) as usize;
                let n = n.min(buf.len());
                Ok(s.accept(&buf[..n]))
            }
            Mode::FailFrom { at, zero } | Mode::FailOnce { at, zero } => {
                let once = matches!(s.mode, Mode::FailOnce { .. });
                if once && s.errors > 0 {
                    return Ok(s.accept(buf));
                }
                let left = at.saturating_sub(s.accepted);
                if left == 0 {
                    return s.fail(zero);
                }
                let n = (buf.len() as u64).min(left) as usize;
                Ok(s.accept(&buf[..n]))
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut s = self.0.borrow_mut();
        s.flushes += 1;
        if let Mode::FlushFail { n, forever } = s.mode {
            if s.flushes == n + 1 || (forever && s.flushes > n) {
                return s.fail(false).map(|_| ());
            }
        }
        s.synced = s.accepted;
        Ok(())
    }
}
impl PositionedWrite for Sink {
    fn get_position(&self) -> u64 {
        let s = self.0.borrow();
        s.base.wrapping_add(s.accepted)
    }
}

#[derive(Clone, Debug)]
pub struct Outcome {
    /// of the construction
    pub created: Res,
    /// one per call; for `Points` the first error
    pub results: Vec<Res>,
    /// sink length after each call
    pub lens: Vec<u64>,
    /// sink errors so far after each call
    pub errs: Vec<u64>,
    pub errs_created: u64,
    /// accepted before the last flush of the sink, after each call
    pub synced: Vec<u64>,
    pub bytes: Vec<u8>,
}

pub fn config(degree: Option<usize>) -> TsFileConfig {
    #[cfg(feature = "degree")]
    if let Some(d) = degree {
        return TsFileConfig::verif_with_degree(d);
    }
    let _ = degree;
    TsFileConfig::default()
}

pub fn apply<'a, T: PositionedWrite>(
    w: &mut TsFileWriter<'a, T>,
    flat: &'a Flat,
    call: &'a Call,
    split: bool,
) -> Res {
    match call {
        Call::Write(d, m, t, v) => w.write(d, m, *t, v.real()).res().map_err(|e| kind(&e)),
        Call::Many(d, t, items) if split => {
            for (m, v) in items {
                w.write(d, m, *t, v.real()).res().map_err(|e| kind(&e))?;
            }
            Ok(())
        }
        Call::Many(d, t, items) => w
            .write_many(
                d,
                *t,
                items.iter().map(|(m, v)| DataPoint::new(m, v.real())),
            )
            .res()
            .map_err(|e| kind(&e)),
        Call::Points(s, pts) => {
            let (d, m, dt) = (flat.dev(*s), flat.meas(*s), flat.ms(*s).dt);
            for (t, b) in pts {
                if let Err(e) = w.write(d, m, *t, Val::from_bits(dt, *b).real()).res() {
                    return Err(kind(&e));
                }
            }
            Ok(())
        }
        #[cfg(feature = "flush")]
        Call::Flush => w.verif_flush().res().map_err(|e| kind(&e)),
        #[cfg(not(feature = "flush"))]
        Call::Flush => Ok(()),
        Call::Close => w.close().res().map_err(|e| kind(&e)),
    }
}

/// Options of a run
#[derive(Clone, Copy, Debug)]
pub struct How {
    pub perm: u64,
    pub degree: Option<usize>,
    pub mode: Mode,
    pub base: u64,
    /// through the wrapper used for files
    pub wrap: bool,
    /// write_many as single writes, up to the first refused one
    pub split: bool,
}
pub const DEFAULT: How = How {
    perm: 0,
    degree: None,
    mode: Mode::Plain,
    base: 0,
    wrap: false,
    split: false,
};

fn drive<'a, T: PositionedWrite>(
    mut w: TsFileWriter<'a, T>,
    flat: &'a Flat,
    calls: &'a [Call],
    out: &mut Outcome,
    probe: impl Fn() -> (u64, u64, u64),
    split: bool,
    after: &mut dyn FnMut(usize, &Res),
) {
    for (i, c) in calls.iter().enumerate() {
        let r = apply(&mut w, flat, c, split);
        let (l, e, f) = probe();
        out.synced.push(f);
        out.results.push(r);
        out.lens.push(l);
        out.errs.push(e);
        after(i, &r);
    }
}

pub fn execute(flat: &Flat, calls: &[Call], how: How) -> Outcome {
    execute_with(flat, calls, how, &mut |_, _| {})
}

#[cfg(feature = "sink")]
pub fn execute_with(
    flat: &Flat,
    calls: &[Call],
    how: How,
    after: &mut dyn FnMut(usize, &Res),
) -> Outcome {
    let sink = Sink::new(how.mode, how.base);
    let schema = flat.build(how.perm);
    let cfg = config(how.degree);
    let mut out = Outcome {
        created: Ok(()),
        results: vec![],
        lens: vec![],
        errs: vec![],
        errs_created: 0,
        synced: vec![],
        bytes: vec![],
    };
    let probe = || (sink.len(), sink.errors(), sink.0.borrow().synced);
    if how.wrap {
        match TsFileWriter::verif_from_writer(
            schema,
            tsfile_writer::writer::verif::wrap(sink.clone()),
            cfg,
        ) {
            Ok(w) => {
                out.errs_created = sink.errors();
                drive(w, flat, calls, &mut out, probe, how.split, after)
            }
            Err(e) => {
                out.errs_created = sink.errors();
                out.created = Err(kind(&e))
            }
        }
    } else {
        match TsFileWriter::verif_from_writer(schema, sink.clone(), cfg) {
            Ok(w) => {
                out.errs_created = sink.errors();
                drive(w, flat, calls, &mut out, probe, how.split, after)
            }
            Err(e) => {
                out.errs_created = sink.errors();
                out.created = Err(kind(&e))
            }
        }
    }
    out.bytes = sink.take();
    out
}

/// Without hooks only the public constructor is used: a real file.
#[cfg(not(feature = "sink"))]
pub fn execute_with(
    flat: &Flat,
    calls: &[Call],
    how: How,
    after: &mut dyn FnMut(usize, &Res),
) -> Outcome {
    let dir = crate::scratch::dir();
    let path = dir.join("f.tsfile");
    let name = path.to_str().unwrap().to_string();
    let schema = flat.build(how.perm);
    let mut out = Outcome {
        created: Ok(()),
        results: vec![],
        lens: vec![],
        errs: vec![],
        errs_created: 0,
        synced: vec![],
        bytes: vec![],
    };
    let probe = || {
        let l = std::fs::metadata(&path).map(|m| m.len()).unwrap_or(0);
        (l, 0, l)
    };
    match TsFileWriter::new(&name, schema, config(how.degree)) {
        Ok(w) => drive(w, flat, calls, &mut out, probe, how.split, after),
        Err(e) => out.created = Err(kind(&e)),
    }
    out.bytes = std::fs::read(&path).unwrap_or_default();
    out
}
