//! C27: writers that are alive at the same time do not influence each other.
use crate::auto::Auto;
use crate::common::*;
use crate::exec::*;
use crate::model::*;
use crate::run::*;
use crate::scratch;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use tsfile_writer::writer::tsfile_writer::{DataPoint, TsFileWriter};
use tsfile_writer::writer::PositionedWrite;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Sinks {
    Plain,
    /// through the wrapper used for files
    Wrapped,
    /// a real file
    File,
    Short { seed: u64, max: u16 },
    /// fails after that share (of 65536) of what it gets alone
    Fail { at: u16, zero: bool, once: bool },
    FlushFail { n: u8 },
}

/// How the schema of a writer relates to the one of the first writer
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Share {
    Own,
    Same,
    /// the same names, other types, encodings and compressions
    Names(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Who {
    pub h: Hist,
    pub sink: Sinks,
    pub share: Share,
    /// abandoned after that share (of 256) of its calls
    pub stop: Option<u8>,
    pub base: u64,
    /// dropped as soon as it is done
    pub eager: bool,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Style {
    /// one after the other in one thread
    After,
    /// a call of one, a call of another
    Fine,
    /// runs of calls
    Bursts,
    Threads,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Iso {
    Calls {
        who: Vec<Who>,
        style: Style,
        seed: u64,
        /// long runs of points are cut into calls of that many
        piece: u16,
    },
    /// long runs whose groups are flushed automatically
    Auto { runs: Vec<Auto>, slice: u32, threads: bool },
}

pub struct C27;

/// For a process that runs one of the writers and nothing else
#[derive(Serialize, Deserialize)]
struct Order {
    case: Iso,
    index: usize,
    /// what each writer delivers in all, for the place of the failure
    lens: Vec<u64>,
    path: String,
}

fn digest(text: String, bytes: &[u8]) -> String {
    use sha2::Digest;
    let mut h = sha2::Sha256::new();
    h.update(text.as_bytes());
    h.update(bytes);
    h.finalize().iter().map(|b| format!("{:02x}", b)).collect()
}

impl Seen {
    fn digest(&self) -> String {
        digest(format!("{:?} {:?}", self.created, self.calls), &self.bytes)
    }
}

pub fn worker_alone(file: &str) -> i32 {
    install_panic_hook();
    let r = guarded(|| -> String {
        let text = std::fs::read(file).expect("the order");
        let o: Order = serde_json::from_slice(&text).expect("JSON");
        match &o.case {
            Iso::Calls { who, piece, .. } => {
                let flats = flats(who);
                let names = names(&flats);
                let mut ms = members(who, &flats, &names, *piece as usize);
                place_failures(who, &mut ms, &o.lens);
                alone(&ms[o.index], &o.path).digest()
            }
            #[cfg(feature = "sink")]
            Iso::Auto { runs, .. } => {
                let a = &runs[o.index];
                let flat = a.flat();
                stream_alone(a, &flat).digest()
            }
            #[cfg(not(feature = "sink"))]
            Iso::Auto { .. } => String::new(),
        }
    });
    match r {
        Ok(d) => {
            println!("digest {}", d);
            0
        }
        Err(e) => {
            println!("panic {}", e);
            0
        }
    }
}

/// What a process sees that runs this writer only
fn in_process(case: Iso, index: usize, lens: &[u64]) -> Result<String, String> {
    let dir = scratch::fresh();
    let file = dir.path().join("order");
    let path = dir.path().join("out.tsfile").to_str().unwrap().to_string();
    let o = Order { case, index, lens: lens.to_vec(), path };
    std::fs::write(&file, serde_json::to_vec(&o).expect("JSON")).expect("scratch file");
    let out = std::process::Command::new(std::env::current_exe().expect("own path"))
        .args(["worker", "alone"])
        .arg(&file)
        .output()
        .expect("the worker starts");
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    match text.lines().find_map(|l| l.strip_prefix("digest ")) {
        Some(d) => Ok(d.to_string()),
        None => Err(format!("writer {} in a process of its own: {:?} {}", index, out.status, text.trim())),
    }
}

fn names(flats: &[Flat]) -> HashSet<String> {
    flats.iter().flat_map(|f| &f.devs).flat_map(|d| d.meas.iter().map(|m| &m.name).chain([&d.name])).cloned().collect()
}

fn place_failures(who: &[Who], ms: &mut [Member], lens: &[u64]) {
    for (i, w) in who.iter().enumerate() {
        if let Sinks::Fail { at, zero, once } = w.sink {
            let at = lens[i] * at as u64 / 65536;
            ms[i].how.mode = if once { Mode::FailOnce { at, zero } } else { Mode::FailFrom { at, zero } };
        }
    }
}

struct Member<'f> {
    flat: &'f Flat,
    /// equal names are the same text for all writers, as in a program that uses constants
    names: &'f HashSet<String>,
    calls: Vec<Call>,
    how: How,
    file: bool,
    stop: usize,
    eager: bool,
}

trait Drive<'a> {
    fn call(&mut self, m: &'a Member, c: &'a Call) -> Res;
}
impl<'a, T: PositionedWrite> Drive<'a> for TsFileWriter<'a, T> {
    fn call(&mut self, m: &'a Member, c: &'a Call) -> Res {
        let name = |s: &'a String| -> &'a str { m.names.get(s).unwrap_or(s) };
        let r = match c {
            Call::Write(d, x, t, v) => self.write(name(d), name(x), *t, v.real()).res(),
            Call::Many(d, t, items) => {
                self.write_many(name(d), *t, items.iter().map(|(x, v)| DataPoint::new(name(x), v.real()))).res()
            }
            c => return apply(self, m.flat, c, false),
        };
        r.map_err(|e| kind(&e))
    }
}

/// What can be seen of a writer
#[derive(PartialEq, Debug, Default)]
struct Seen {
    created: Option<Res>,
    /// results, bytes delivered and sink errors after each call
    calls: Vec<(Res, u64, u64)>,
    bytes: Vec<u8>,
}

struct Live<'a> {
    m: &'a Member<'a>,
    w: Option<Box<dyn Drive<'a> + 'a>>,
    sink: Option<Sink>,
    path: &'a str,
    seen: Seen,
    done: bool,
}

impl<'a> Live<'a> {
    fn new(m: &'a Member<'a>, path: &'a str) -> Live<'a> {
        Live { m, w: None, sink: None, path, seen: Seen::default(), done: false }
    }
    fn create(&mut self) -> Result<Box<dyn Drive<'a> + 'a>, Kind> {
        let m = self.m;
        let cfg = config(m.how.degree);
        #[cfg(feature = "sink")]
        if !m.file {
            let sink = Sink::new(m.how.mode, m.how.base);
            self.sink = Some(sink.clone());
            let schema = m.flat.build(m.how.perm);
            if m.how.wrap {
                let w = TsFileWriter::verif_from_writer(schema, tsfile_writer::writer::verif::wrap(sink), cfg);
                return Ok(Box::new(w.map_err(|e| kind(&e))?));
            }
            let w = TsFileWriter::verif_from_writer(schema, sink, cfg);
            return Ok(Box::new(w.map_err(|e| kind(&e))?));
        }
        let w = TsFileWriter::new(self.path, m.flat.build(m.how.perm), cfg);
        Ok(Box::new(w.map_err(|e| kind(&e))?))
    }
    fn probe(&self) -> (u64, u64) {
        match &self.sink {
            Some(s) => (s.len(), s.errors()),
            None => (0, 0),
        }
    }
    fn step(&mut self) {
        if self.done {
            return;
        }
        if self.seen.created.is_none() {
            match self.create() {
                Ok(w) => {
                    self.w = Some(w);
                    self.seen.created = Some(Ok(()));
                }
                Err(k) => {
                    self.seen.created = Some(Err(k));
                    self.done = true;
                }
            }
        } else {
            let i = self.seen.calls.len();
            let r = self.w.as_mut().unwrap().call(self.m, &self.m.calls[i]);
            let (l, e) = self.probe();
            self.seen.calls.push((r, l, e));
        }
        if self.seen.calls.len() >= self.m.stop {
            self.done = true;
        }
        if self.done && self.m.eager {
            self.w = None;
        }
    }
    fn finish(mut self) -> Seen {
        self.w = None;
        self.seen.bytes = match &self.sink {
            Some(s) => s.take(),
            None => std::fs::read(self.path).unwrap_or_default(),
        };
        self.seen
    }
}

fn alone(m: &Member, path: &str) -> Seen {
    let mut l = Live::new(m, path);
    while !l.done {
        l.step();
    }
    l.finish()
}

/// In a thread of its own that never had another writer
fn in_fresh_thread<X: Send>(f: impl FnOnce() -> X + Send) -> Result<X, String> {
    std::thread::scope(|s| s.spawn(|| guarded(f)).join().unwrap_or_else(|_| Err("a thread died".into())))
}

fn difference(i: usize, got: &Seen, want: &Seen) -> Result<(), String> {
    if got.created != want.created {
        return Err(format!("writer {}: created with {:?}, alone {:?}", i, got.created, want.created));
    }
    for (k, (g, w)) in got.calls.iter().zip(&want.calls).enumerate() {
        if g != w {
            return Err(format!(
                "writer {}: call {} (result, bytes delivered, sink errors): {:?}, alone {:?}",
                i, k, g, w
            ));
        }
    }
    same_bytes(&format!("writer {} next to others and alone", i), &got.bytes, &want.bytes)
}

fn cut(calls: Vec<Call>, piece: usize) -> Vec<Call> {
    let mut out = vec![];
    for c in calls {
        match c {
            Call::Points(s, p) if p.len() > piece => out.extend(p.chunks(piece).map(|x| Call::Points(s, x.to_vec()))),
            c => out.push(c),
        }
    }
    out
}

fn retyped(flat: &Flat, seed: u64) -> SchemaSpec {
    let mut m = Mix(seed);
    let mut devs = flat.devs.clone();
    for d in devs.iter_mut() {
        for x in d.meas.iter_mut() {
            let r = m.next();
            x.dt = [DT::I32, DT::I64, DT::F32][(r % 3) as usize];
            x.enc = if x.dt != DT::F32 && (r >> 8) & 1 == 1 { Enc::Diff } else { Enc::Plain };
            x.comp = if (r >> 9) & 1 == 1 { Comp::Snappy } else { Comp::Un };
        }
    }
    SchemaSpec::Explicit(devs)
}

fn flats(who: &[Who]) -> Vec<Flat> {
    let first = who[0].h.schema.expand();
    who.iter()
        .enumerate()
        .map(|(i, w)| match w.share {
            Share::Names(seed) if i > 0 => retyped(&first, seed).expand(),
            _ => w.h.schema.expand(),
        })
        .collect()
}

fn members<'f>(who: &[Who], flats: &'f [Flat], names: &'f HashSet<String>, piece: usize) -> Vec<Member<'f>> {
    who.iter()
        .enumerate()
        .map(|(i, w)| {
            let flat = if w.share == Share::Same { &flats[0] } else { &flats[i] };
            let mut calls = resolve(flat, &w.h.ops);
            calls.push(Call::Close);
            let calls = cut(calls, piece.max(1));
            let stop = match w.stop {
                Some(f) => calls.len() * f as usize / 256,
                None => calls.len(),
            };
            let mode = match w.sink {
                Sinks::Short { seed, max } => Mode::Short { seed, max },
                Sinks::FlushFail { n } => Mode::FlushFail { n: n as u32, forever: false },
                _ => Mode::Plain,
            };
            Member {
                flat,
                names,
                calls,
                how: How { mode, base: w.base, wrap: matches!(w.sink, Sinks::Wrapped), ..w.h.how() },
                file: matches!(w.sink, Sinks::File),
                stop,
                eager: w.eager,
            }
        })
        .collect()
}

fn check_calls(who: &[Who], style: Style, seed: u64, piece: u16, obs: &mut Obs) -> Result<(), String> {
    let flats = flats(who);
    let names = names(&flats);
    let mut ms = members(who, &flats, &names, piece as usize);
    let dir = scratch::fresh();
    let paths: Vec<String> = (0..3 * who.len())
        .map(|k| dir.path().join(format!("{}.tsfile", k)).to_str().unwrap().to_string())
        .collect();
    let path = |k: usize, i: usize| -> &str { &paths[k * who.len() + i] };
    // where the sinks fail depends on what they would get
    let mut lens = vec![0; who.len()];
    for (i, w) in who.iter().enumerate() {
        if let Sinks::Fail { .. } = w.sink {
            let m = &ms[i];
            lens[i] = in_fresh_thread(|| alone(m, path(0, i)))?.bytes.len() as u64;
        }
    }
    place_failures(who, &mut ms, &lens);
    let mut want = vec![];
    for (i, m) in ms.iter().enumerate() {
        want.push(in_fresh_thread(|| alone(m, path(1, i)))?);
    }
    let mut switches = 0u64;
    let got: Vec<Seen> = if style == Style::Threads {
        let gate = std::sync::Barrier::new(ms.len());
        let gate = &gate;
        let path = &path;
        let all: Vec<Result<Seen, String>> = std::thread::scope(|s| {
            let hs: Vec<_> = ms
                .iter()
                .enumerate()
                .map(|(i, m)| {
                    s.spawn(move || {
                        gate.wait();
                        guarded(|| alone(m, path(2, i)))
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread died".into()))).collect()
        });
        all.into_iter().collect::<Result<_, _>>()?
    } else {
        let mut lives: Vec<Live> = ms.iter().enumerate().map(|(i, m)| Live::new(m, path(2, i))).collect();
        let mut mix = Mix(seed);
        let mut open: Vec<usize> = (0..lives.len()).collect();
        let mut last = usize::MAX;
        while !open.is_empty() {
            let k = if style == Style::After { 0 } else { mix.below(open.len() as u64) as usize };
            let n = match style {
                Style::After => u64::MAX,
                Style::Bursts => 1 + mix.below(12),
                _ => 1,
            };
            let i = open[k];
            switches += u64::from(last != i && last != usize::MAX && open.contains(&last));
            last = i;
            let mut c = 0;
            while c < n && !lives[i].done {
                lives[i].step();
                c += 1;
            }
            if lives[i].done {
                open.remove(k);
            }
        }
        lives.into_iter().map(|l| l.finish()).collect()
    };
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        difference(i, g, w)?;
    }
    // something may have been there for all of them
    if seed % 8 == 0 {
        for (i, g) in got.iter().enumerate() {
            let case = Iso::Calls { who: who.to_vec(), style, seed, piece };
            if in_process(case, i, &lens)? != g.digest() {
                return Err(format!("writer {} does not do what it does in a process of its own", i));
            }
        }
        obs.class("compared with processes");
    }
    let with = ms
        .iter()
        .zip(&got)
        .filter(|(m, g)| g.calls.iter().zip(&m.calls).any(|(r, c)| r.0.is_ok() && !matches!(c, Call::Flush | Call::Close)))
        .count();
    obs.nontrivial = with >= 2 && (switches > 0 || matches!(style, Style::Threads | Style::After));
    obs.add("writers", ms.len() as u64);
    obs.add("switches", switches);
    obs.add("bytes", got.iter().map(|g| g.bytes.len() as u64).sum());
    obs.class(match style {
        Style::After => "one after the other",
        Style::Fine => "alternating calls",
        Style::Bursts => "runs of calls",
        Style::Threads => "threads",
    });
    obs.class_if(who.iter().skip(1).any(|w| w.share == Share::Same), "same schema");
    obs.class_if(who.iter().skip(1).any(|w| matches!(w.share, Share::Names(_))), "same names, other types");
    obs.class_if(who.iter().any(|w| matches!(w.sink, Sinks::File)), "real files");
    obs.class_if(got.iter().any(|g| g.calls.iter().any(|c| c.2 > 0)), "with a failing writer");
    obs.class_if(ms.iter().any(|m| m.stop < m.calls.len()), "with an abandoned writer");
    Ok(())
}

// ---- long runs

#[derive(PartialEq, Default)]
struct Ran {
    failed: Option<(u64, Kind)>,
    /// (round, bytes delivered) where that changed
    jumps: Vec<(u64, u64)>,
    bytes: Vec<u8>,
}

#[cfg(feature = "sink")]
struct Stream<'a> {
    a: &'a Auto,
    flat: &'a Flat,
    w: Option<TsFileWriter<'a, Sink>>,
    sink: Sink,
    times: crate::auto::Times,
    round: u64,
    rounds: u64,
    len: u64,
    ran: Ran,
}

#[cfg(feature = "sink")]
impl<'a> Stream<'a> {
    fn new(a: &'a Auto, flat: &'a Flat) -> Stream<'a> {
        let sink = Sink::new(Mode::Plain, 0);
        let mut ran = Ran::default();
        let w = match TsFileWriter::verif_from_writer(flat.build(0), sink.clone(), config(None)) {
            Ok(w) => Some(w),
            Err(e) => {
                ran.failed = Some((0, kind(&e)));
                None
            }
        };
        Stream { a, flat, w, len: sink.len(), sink, times: a.times(), round: 0, rounds: a.rounds(flat), ran }
    }
    /// false: finished
    fn round(&mut self) -> bool {
        let Some(w) = self.w.as_mut() else { return false };
        let (r, flat) = (self.round, self.flat);
        let mut res: Res = Ok(());
        let more = r < self.rounds;
        if more {
            let t = self.times.next().unwrap();
            for s in 0..flat.series.len() {
                if self.a.active(s, r) {
                    let v = Val::from_bits(flat.ms(s).dt, self.a.value(s, r, flat.ms(s).dt));
                    if let Err(e) = w.write(flat.dev(s), flat.meas(s), t, v.real()).res() {
                        res = Err(kind(&e));
                        break;
                    }
                }
            }
        } else {
            res = w.close().res().map_err(|e| kind(&e));
        }
        let l = self.sink.len();
        if l != self.len {
            self.len = l;
            self.ran.jumps.push((r, l));
        }
        self.round += 1;
        if let Err(k) = res {
            self.ran.failed = Some((r, k));
        }
        if !more || res.is_err() {
            self.w = None;
        }
        self.w.is_some()
    }
    fn finish(mut self) -> Ran {
        self.w = None;
        self.ran.bytes = self.sink.take();
        self.ran
    }
}

#[cfg(feature = "sink")]
fn stream_alone(a: &Auto, flat: &Flat) -> Ran {
    let mut s = Stream::new(a, flat);
    while s.round() {}
    s.finish()
}

#[cfg(feature = "sink")]
impl Ran {
    fn digest(&self) -> String {
        digest(format!("{:?} {:?}", self.failed, self.jumps), &self.bytes)
    }
}

#[cfg(feature = "sink")]
fn check_auto(runs: &[Auto], slice: u32, threads: bool, obs: &mut Obs) -> Result<(), String> {
    let flats: Vec<Flat> = runs.iter().map(|a| a.flat()).collect();
    let mut want = vec![];
    for (a, f) in runs.iter().zip(&flats) {
        want.push(in_fresh_thread(|| stream_alone(a, f))?);
    }
    let got: Vec<Ran> = if threads {
        let all: Vec<Result<Ran, String>> = std::thread::scope(|s| {
            let hs: Vec<_> = runs.iter().zip(&flats).map(|(a, f)| s.spawn(move || guarded(|| stream_alone(a, f)))).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread died".into()))).collect()
        });
        all.into_iter().collect::<Result<_, _>>()?
    } else {
        let mut v: Vec<Stream> = runs.iter().zip(&flats).map(|(a, f)| Stream::new(a, f)).collect();
        let mut open = true;
        while open {
            open = false;
            for s in v.iter_mut() {
                let mut n = 0;
                while n <= slice && s.round() {
                    n += 1;
                }
                open |= s.w.is_some();
            }
        }
        v.into_iter().map(|s| s.finish()).collect()
    };
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        if g.failed != w.failed {
            return Err(format!("writer {}: first failure {:?}, alone {:?}", i, g.failed, w.failed));
        }
        if g.jumps != w.jumps {
            return Err(format!("writer {}: bytes delivered (round, length) {:?}, alone {:?}", i, g.jumps, w.jumps));
        }
        same_bytes(&format!("writer {} next to others and alone", i), &g.bytes, &w.bytes)?;
        let case = Iso::Auto { runs: runs.to_vec(), slice, threads };
        if in_process(case, i, &[])? != g.digest() {
            return Err(format!("writer {} does not do what it does in a process of its own", i));
        }
    }
    obs.nontrivial = true;
    obs.add("bytes", got.iter().map(|g| g.bytes.len() as u64).sum());
    obs.add("automatic flushes", got.iter().map(|g| (g.jumps.len() as u64).saturating_sub(1)).sum());
    obs.class(if threads { "automatic flushes, threads" } else { "automatic flushes, alternating" });
    Ok(())
}

#[cfg(not(feature = "sink"))]
fn check_auto(_runs: &[Auto], _slice: u32, _threads: bool, _obs: &mut Obs) -> Result<(), String> {
    Ok(())
}

fn sinks() -> BoxedStrategy<Sinks> {
    prop_oneof![
        8 => Just(Sinks::Plain),
        2 => Just(Sinks::Wrapped),
        2 => Just(Sinks::File),
        2 => (any::<u64>(), 1u16..600).prop_map(|(seed, max)| Sinks::Short { seed, max }),
        3 => (any::<u16>(), any::<bool>(), any::<bool>()).prop_map(|(at, zero, once)| Sinks::Fail { at, zero, once }),
        1 => (0u8..4).prop_map(|n| Sinks::FlushFail { n }),
    ]
    .boxed()
}

fn who(h: BoxedStrategy<Hist>) -> BoxedStrategy<Who> {
    (
        h,
        sinks(),
        prop_oneof![2 => Just(Share::Own), 2 => Just(Share::Same), 2 => any::<u64>().prop_map(Share::Names)],
        prop_oneof![5 => Just(None), 1 => any::<u8>().prop_map(Some)],
        prop_oneof![5 => Just(0u64), 1 => any::<u32>().prop_map(|x| x as u64)],
        any::<bool>(),
    )
        .prop_map(|(h, sink, share, stop, base, eager)| Who { h, sink, share, stop, base, eager })
        .boxed()
}

fn iso(h: BoxedStrategy<Hist>, n: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Iso> {
    (
        proptest::collection::vec(who(h), n),
        prop_oneof![
            1 => Just(Style::After),
            4 => Just(Style::Fine),
            3 => Just(Style::Bursts),
            2 => Just(Style::Threads),
        ],
        any::<u64>(),
        prop_oneof![Just(1u16), 2u16..40, 40u16..3000],
    )
        .prop_map(|(who, style, seed, piece)| Iso::Calls { who, style, seed, piece })
        .boxed()
}

/// A first run and one of more data than is kept in memory
fn autos(first: BoxedStrategy<Auto>) -> BoxedStrategy<Iso> {
    (
        first,
        crate::auto::auto_strat(60..170, false),
        prop_oneof![Just(0u32), 1u32..2000, Just(100_000_000u32)],
        any::<bool>(),
    )
        .prop_map(|(a, b, slice, threads)| Iso::Auto {
            runs: [a, b].into_iter().map(|a| Auto { tail: None, ..a }).collect(),
            slice,
            threads,
        })
        .boxed()
}

impl Prop for C27 {
    type Case = Iso;
    fn id(&self) -> &'static str {
        "C27"
    }
    fn rule(&self) -> &'static str {
        "two to five histories (own schemas, the same schema, or the same names with other types) are run alone, each in a new thread, and then by writers alive at the same time: calls alternating in one thread, runs of calls, one after the other, or threads, some on failing sinks, some abandoned; results, lengths after each call and bytes must be those of the writer alone, for an eighth of the cases those of a process that runs only this writer; non-trivial: at least two writers got points, and calls alternated"
    }
    fn quick_scale(&self) -> f64 {
        2.0
    }
    fn phases(&self, _t: Tier) -> Vec<Phase<Iso>> {
        vec![
            phase("histories", 4000, 100_000, iso(hist(schema_strat(3, 4, 0), op_strat(OpMix { pages: 0, ..GOOD }), 0..=14), 2..=5)),
            phase("histories with refused calls", 3000, 80_000, iso(hist(schema_strat(3, 4, 10), op_strat(OpMix { pages: 0, ..WITH_BAD }), 0..=14), 2..=4)),
            phase("several pages", 60, 1500, iso(pages(), 2..=3)),
            phase("many series", 200, 5000, iso(wide(12, 12), 2..=3)),
            heavy("automatic flushes", 8, 120, autos(crate::auto::auto_strat(60..150, false).boxed())),
            heavy(
                "automatic flushes next to a series of small points",
                8,
                80,
                autos(
                    (crate::auto::auto_strat(140..170, false), 11u16..16, 0u8..3)
                        .prop_map(|(a, mib, bits)| Auto {
                            devs: 1,
                            meas: 1,
                            uniform: Some((DT::I32, Enc::Diff, Comp::Un)),
                            step_bits: bits,
                            val_bits: bits,
                            pauses: None,
                            silent: false,
                            mib,
                            ..a
                        })
                        .boxed(),
                ),
            ),
        ]
    }
    fn check(&self, c: &Iso, obs: &mut Obs) -> Result<(), String> {
        match c {
            Iso::Calls { who, style, seed, piece } => check_calls(who, *style, *seed, *piece, obs),
            Iso::Auto { runs, slice, threads } => check_auto(runs, *slice, *threads, obs),
        }
    }
}
