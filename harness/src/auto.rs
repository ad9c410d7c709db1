//! Long runs that make the writer flush on its own, streamed: neither the calls nor the expected
//! points are kept in memory.
use crate::common::*;
use crate::exec::*;
use crate::model::*;
use crate::reader;
use crate::run::Obs;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tsfile_writer::writer::tsfile_writer::{DataPoint, TsFileWriter};
use tsfile_writer::writer::{IoTDBValue, PositionedWrite};

pub const THRESHOLD: u64 = 128 << 20;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Auto {
    pub devs: u8,
    pub meas: u8,
    /// Some: all series have this type
    pub uniform: Option<(DT, Enc, Comp)>,
    pub step_bits: u8,
    pub val_bits: u8,
    pub seed: u64,
    /// approximate amount of data
    pub mib: u16,
    /// with multi-point calls
    pub many: bool,
    /// multi-point calls end with a point that is refused: 1 all of them, 2 some of them
    #[serde(default)]
    pub refuse: u8,
    /// each series pauses in a third of the periods of this many rounds
    #[serde(default)]
    pub pauses: Option<u32>,
    /// the run ends that many rounds after the last automatic flush
    #[serde(default)]
    pub tail: Option<u8>,
    /// an additional series is never written
    #[serde(default)]
    pub silent: bool,
    /// the sink fails after that share (of 65536) of the data
    pub fail: Option<u16>,
}

pub fn auto_strat(mib: std::ops::Range<u16>, fail: bool) -> BoxedStrategy<Auto> {
    (
        prop_oneof![5 => (1u8..=6, 1u8..=10), 1 => Just((1u8, 1u8))],
        prop_oneof![
            2 => Just(None),
            3 => (dt_strat(), any::<bool>(), comp_strat()).prop_map(|(d, e, c)| {
                let e = if e && d != DT::F32 { Enc::Diff } else { Enc::Plain };
                Some((d, e, c))
            }),
        ],
        20u8..38,
        16u8..=64,
        any::<u64>(),
        mib,
        ((any::<bool>(), any::<bool>()), prop_oneof![2 => Just(None), 1 => (0u8..4).prop_map(Some)], prop_oneof![3 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)], prop_oneof![
            2 => Just(None),
            1 => (8u32..22).prop_map(|b| Some(1 << b)),
        ]),
        if fail {
            any::<u16>().prop_map(Some).boxed()
        } else {
            Just(None).boxed()
        },
    )
        .prop_map(|((devs, meas), uniform, step_bits, val_bits, seed, mib, ((many, silent), tail, refuse, pauses), fail)| Auto {
            devs,
            meas,
            uniform,
            step_bits,
            val_bits,
            seed,
            mib,
            many,
            refuse,
            pauses,
            tail,
            silent,
            fail,
        })
        .boxed()
}

pub struct Jump {
    /// rounds completely accepted, and series accepted in the round after them
    pub rounds: u64,
    pub part: usize,
    pub before: u64,
    pub after: u64,
}

/// device and measurement that get no points
const SILENT: &str = "silent";

pub struct AutoOut {
    pub flat: Flat,
    pub rounds: u64,
    pub created: Res,
    /// the first call that failed (round, series) and how
    pub failed: Option<(u64, usize, Kind)>,
    /// jump during which the sink failed was reported by that very call
    pub errors_unreported: Option<String>,
    pub close: Option<Res>,
    pub jumps: Vec<Jump>,
    pub bytes: Vec<u8>,
    pub sink_errors: u64,
    pub reopened: Option<Res>,
    pub stale: Vec<(usize, Res)>,
    /// a multi-point call with a point to refuse returned Ok in this round
    pub wrongly_accepted: Option<u64>,
}

impl Auto {
    pub fn flat(&self) -> Flat {
        let mut m = Mix(self.seed);
        let devs: Vec<DevSpec> = (0..self.devs.max(1))
            .map(|i| DevSpec {
                name: format!("root.d{}", i),
                meas: (0..self.meas.max(1))
                    .map(|j| {
                        let (dt, enc, comp) = self.uniform.unwrap_or_else(|| {
                            let r = m.next();
                            let dt = [DT::I32, DT::I64, DT::F32][(r % 3) as usize];
                            let enc = if dt != DT::F32 && (r >> 8) & 1 == 1 { Enc::Diff } else { Enc::Plain };
                            (dt, enc, if (r >> 9) & 1 == 1 { Comp::Snappy } else { Comp::Un })
                        });
                        MeasSpec { name: format!("s{}", j), dt, enc, comp }
                    })
                    .collect(),
            })
            .collect();
        let mut devs = devs;
        if self.silent {
            let k = self.meas.max(1) as usize;
            let last = devs.len() - 1;
            let mut spec = devs[last].meas[k - 1].clone();
            spec.name = SILENT.to_string();
            devs.push(DevSpec { name: SILENT.to_string(), meas: vec![spec] });
        }
        SchemaSpec::Explicit(devs).expand()
    }
    pub fn rounds(&self, flat: &Flat) -> u64 {
        let w = self.val_bits as u64;
        let per: u64 = (0..flat.series.len())
            .map(|s| {
                let m = flat.ms(s);
                let v = match (m.dt, m.enc) {
                    (DT::F32, _) => 4,
                    (DT::I64, Enc::Plain) => 8,
                    (DT::I32, Enc::Plain) => (w.min(32) / 7 + 1).min(5),
                    (DT::I32, _) => (w.min(32) + 8) / 8,
                    (DT::I64, _) => (w + 8) / 8,
                };
                v + self.step_bits as u64 / 8
            })
            .sum();
        ((self.mib as u64) << 20) / per.max(1)
    }
    /// when the run ends
    fn end(&self, flat: &Flat) -> u64 {
        let k = match self.tail {
            None => return self.rounds(flat),
            Some(k) => k as u64,
        };
        let free = Auto { tail: None, fail: None, ..self.clone() };
        thread_local!(static LAST: std::cell::RefCell<Option<(Auto, u64)>> = const { std::cell::RefCell::new(None) });
        if let Some((_, r)) = LAST.with(|l| l.borrow().clone()).filter(|l| l.0 == free) {
            return r + k;
        }
        let out = run_how(&free, DEFAULT, false);
        // the last jump is that of close
        let r = match out.jumps.iter().rev().find(|j| j.rounds < out.rounds) {
            Some(j) => j.rounds + 1,
            None => out.rounds,
        };
        LAST.with(|l| *l.borrow_mut() = Some((free, r)));
        r + k
    }
    pub fn value(&self, s: usize, r: u64, dt: DT) -> u64 {
        let mut m = Mix(self.seed ^ ((s as u64) << 48) ^ r);
        let b = m.bits(self.val_bits as u32);
        match dt {
            DT::I32 => Val::I(b as u32 as i32).bits(),
            DT::I64 => Val::L(b as i64).bits(),
            DT::F32 => Val::F((b as f32).to_bits() ^ (b as u32 & 0x7f)).bits(),
        }
    }
    /// whether a series gets a point in a round
    pub fn active(&self, s: usize, r: u64) -> bool {
        if self.silent && s == self.devs.max(1) as usize * self.meas.max(1) as usize {
            return false;
        }
        match self.pauses {
            None => true,
            Some(p) => Mix(self.seed ^ ((s as u64) << 40) ^ (r / p.max(1) as u64)).next() % 3 != 0,
        }
    }
    /// how many points a series has after complete rounds
    pub fn total(&self, s: usize, rounds: u64) -> u64 {
        match self.pauses {
            None if self.active(s, 0) => rounds,
            None => 0,
            Some(p) => {
                let p = p.max(1) as u64;
                (0..rounds.div_ceil(p))
                    .filter(|w| self.active(s, w * p))
                    .map(|w| p.min(rounds - w * p))
                    .sum()
            }
        }
    }
    pub fn times(&self) -> Times {
        Times {
            m: Mix(self.seed ^ 0x7115e5),
            w: self.step_bits as u32,
            t: 0,
        }
    }
    /// the points of a series, endless
    pub fn points(&self, flat: &Flat, s: usize) -> impl Iterator<Item = (i64, u64)> + '_ {
        let dt = flat.ms(s).dt;
        self.times()
            .enumerate()
            .filter(move |(r, _)| self.active(s, *r as u64))
            .map(move |(r, t)| (t, self.value(s, r as u64, dt)))
    }
}

pub struct Times {
    m: Mix,
    w: u32,
    t: i64,
}
impl Iterator for Times {
    type Item = i64;
    fn next(&mut self) -> Option<i64> {
        self.t += 1 + self.m.bits(self.w.min(38)) as i64;
        Some(self.t)
    }
}

pub fn run_auto(a: &Auto, expected_len: Option<u64>) -> AutoOut {
    let mode = match (a.fail, expected_len) {
        (Some(f), Some(l)) => Mode::FailFrom {
            at: l * f as u64 / 65536,
            zero: f % 7 == 0,
        },
        _ => Mode::Plain,
    };
    run_how(a, How { mode, ..DEFAULT }, false)
}

/// `noise`: with refused single writes between the others
pub fn run_how(a: &Auto, how: How, noise: bool) -> AutoOut {
    let flat = a.flat();
    let rounds = a.end(&flat);
    let mode = how.mode;
    let mut out = AutoOut {
        rounds,
        created: Ok(()),
        failed: None,
        errors_unreported: None,
        close: None,
        jumps: vec![],
        bytes: vec![],
        sink_errors: 0,
        reopened: None,
        stale: vec![],
        wrongly_accepted: None,
        flat: flat.clone(),
    };
    #[cfg(feature = "sink")]
    {
        let sink = Sink::new(mode, how.base);
        let probe = || (sink.len(), sink.errors());
        if how.wrap {
            match TsFileWriter::verif_from_writer(flat.build(how.perm), tsfile_writer::writer::verif::wrap(sink.clone()), config(None)) {
                Ok(w) => stream(a, &flat, w, rounds, probe, &mut out, noise),
                Err(e) => out.created = Err(kind(&e)),
            }
        } else {
            match TsFileWriter::verif_from_writer(flat.build(how.perm), sink.clone(), config(None)) {
                Ok(w) => stream(a, &flat, w, rounds, probe, &mut out, noise),
                Err(e) => out.created = Err(kind(&e)),
            }
        }
        out.sink_errors = sink.errors();
        out.bytes = sink.take();
    }
    #[cfg(not(feature = "sink"))]
    {
        let _ = mode;
        let path = crate::scratch::dir().join("auto.tsfile");
        let name = path.to_str().unwrap().to_string();
        let probe = || (std::fs::metadata(&path).map(|m| m.len()).unwrap_or(0), 0);
        match TsFileWriter::new(&name, flat.build(0), config(None)) {
            Ok(w) => stream(a, &flat, w, rounds, probe, &mut out, noise),
            Err(e) => out.created = Err(kind(&e)),
        }
        out.bytes = std::fs::read(&path).unwrap_or_default();
        let _ = std::fs::remove_file(&path);
    }
    out
}

fn stream<'a, T: PositionedWrite>(
    a: &Auto,
    flat: &'a Flat,
    mut w: TsFileWriter<'a, T>,
    rounds: u64,
    probe: impl Fn() -> (u64, u64),
    out: &mut AutoOut,
    noise: bool,
) {
    let mut mix = Mix(a.seed ^ 0x6e);
    let (mut len, mut errs) = probe();
    // the file system is only asked now and then
    let every = if cfg!(feature = "sink") { 1 } else { 256 };
    let mut n = 0u64;
    let mut times = a.times();
    'all: for r in 0..rounds {
        let t = times.next().unwrap();
        for (d, dev) in flat.devs.iter().enumerate() {
            let first = flat.dev_first[d];
            let mut i = 0;
            while i < dev.meas.len() {
                if noise && mix.below(4) == 0 {
                    let m = &dev.meas[mix.below(dev.meas.len() as u64) as usize];
                    let refused = match mix.below(3) {
                        0 => w.write(&dev.name, &m.name, t, IoTDBValue::DOUBLE(0.5)),
                        1 => w.write(&dev.name, "no such series", t, Val::from_bits(m.dt, 1).real()),
                        _ => w.write(&dev.name, &m.name, -1, Val::from_bits(m.dt, 1).real()),
                    };
                    if refused.is_ok() {
                        out.wrongly_accepted = Some(r);
                        break 'all;
                    }
                }
                let (res, upto) = if a.many {
                    let items = dev.meas.iter().enumerate().filter(|(j, _)| a.active(first + j, r)).map(|(j, m)| {
                        DataPoint::new(&m.name, Val::from_bits(m.dt, a.value(first + j, r, m.dt)).real())
                    });
                    let refuse = a.refuse == 1 || a.refuse == 2 && (r ^ a.seed).count_ones() % 2 == 0;
                    let res = if refuse {
                        let bad = match r % 3 {
                            0 => DataPoint::new("no such series", IoTDBValue::INT(1)),
                            1 => DataPoint::new(&dev.meas[0].name, IoTDBValue::DOUBLE(1.0)),
                            _ => DataPoint::new(&dev.meas[dev.meas.len() - 1].name, IoTDBValue::DOUBLE(1.0)),
                        };
                        match w.write_many(&dev.name, t, items.chain([bad])) {
                            Ok(()) => {
                                out.wrongly_accepted = Some(r);
                                break 'all;
                            }
                            Err(e) if matches!(kind(&e), Kind::IllegalState | Kind::WrongType | Kind::OutOfOrder) => Ok(()),
                            Err(e) => Err(e),
                        }
                    } else {
                        w.write_many(&dev.name, t, items)
                    };
                    (res, dev.meas.len())
                } else if !a.active(first + i, r) {
                    i += 1;
                    continue;
                } else {
                    let m = &dev.meas[i];
                    let v = Val::from_bits(m.dt, a.value(first + i, r, m.dt)).real();
                    (w.write(&dev.name, &m.name, t, v), i + 1)
                };
                n += 1;
                let (l, e) = if n % every == 0 { probe() } else { (len, errs) };
                if e != errs && res.is_ok() {
                    out.errors_unreported =
                        Some(format!("the sink failed in a write of round {} that returned success", r));
                    break 'all;
                }
                errs = e;
                if l != len {
                    out.jumps.push(Jump {
                        rounds: r,
                        part: first + upto,
                        before: len,
                        after: l,
                    });
                    len = l;
                }
                if let Err(e) = res {
                    out.failed = Some((r, first + i, kind(&e)));
                    break 'all;
                }
                i = upto;
            }
        }
    }
    // points that are too old, after whatever happened
    if out.failed.is_none() && out.errors_unreported.is_none() {
        let mut lasts = vec![None; flat.series.len()];
        for (r, t) in a.times().take(rounds as usize).enumerate() {
            // any round of the last period in which the series is active will do
            if r as u64 % 64 == 0 || r as u64 + 1 == rounds {
                for (s, l) in lasts.iter_mut().enumerate() {
                    if a.active(s, r as u64) {
                        *l = Some(t);
                    }
                }
            }
        }
        for (s, l) in lasts.into_iter().enumerate() {
            let last = match l {
                Some(t) => t,
                None => continue,
            };
            for t in [last, last / 2] {
                let m = flat.ms(s);
                let v = Val::from_bits(m.dt, 1).real();
                let r = w.write(flat.dev(s), &m.name, t, v).map_err(|e| kind(&e));
                out.stale.push((s, r));
            }
        }
    }
    let c = w.close().res().map_err(|e| kind(&e));
    let (l, _) = probe();
    if l != len {
        out.jumps.push(Jump {
            rounds,
            part: 0,
            before: len,
            after: l,
        });
    }
    out.close = Some(c);
    out.reopened = Some(w.close().res().map_err(|e| kind(&e)));
}

/// A run on a healthy sink where everything must be accepted
pub fn healthy(a: &Auto, obs: &mut Obs) -> Result<AutoOut, String> {
    healthy_how(a, DEFAULT, false, obs)
}

fn healthy_how(a: &Auto, how: How, noise: bool, obs: &mut Obs) -> Result<AutoOut, String> {
    let a = Auto { fail: None, ..a.clone() };
    let out = run_how(&a, how, noise);
    if let Err(e) = out.created {
        return Err(format!("the writer cannot be created: {:?}", e));
    }
    if let Some(r) = out.wrongly_accepted {
        return Err(format!("a call with an inadmissible point (round {}) returned success", r));
    }
    if let Some((r, s, k)) = out.failed {
        return Err(format!("an admissible point (round {}, series {}) was refused: {:?}", r, s, k));
    }
    if let Some(Err(k)) = out.close {
        return Err(format!("close failed on a healthy sink: {:?}", k));
    }
    obs.add("points", (0..out.flat.series.len()).map(|s| a.total(s, out.rounds)).sum());
    obs.add("automatic flushes", out.jumps.len().saturating_sub(1) as u64);
    obs.add("MiB", (out.bytes.len() >> 20) as u64);
    obs.class_if(out.jumps.len() > 1, "automatic flush");
    obs.class_if(out.jumps.len() > 2, "several automatic flushes");
    obs.class_if(a.many, "multi-point calls");
    obs.class_if(a.many && a.refuse > 0, "partly refused multi-point calls");
    obs.class_if(a.pauses.is_some(), "pausing series");
    obs.class_if(a.silent, "a series without points");
    obs.class_if(a.tail.is_some(), "ends just after an automatic flush");
    obs.nontrivial = out.jumps.len() > 1;
    Ok(out)
}

/// The chunks front to back contain per series a prefix of the points: returns the counts
pub fn counts(
    a: &Auto,
    flat: &Flat,
    chunks: &[reader::Chunk],
    rounds: u64,
) -> Result<Vec<u64>, String> {
    let index = flat.index();
    let mut have = vec![0u64; flat.series.len()];
    let total: Vec<u64> = (0..flat.series.len()).map(|s| a.total(s, rounds)).collect();
    let mut iters: Vec<_> = (0..flat.series.len()).map(|s| a.points(flat, s)).collect();
    for c in chunks {
        let s = match index.get(&(c.dev.clone(), c.meas.clone())) {
            None => return Err(format!("chunk at {} of unknown series {:?} {:?}", c.pos, c.dev, c.meas)),
            Some(s) => *s,
        };
        for p in c.points() {
            let want = iters[s].next().unwrap();
            if have[s] >= total[s] || *p != want {
                return Err(format!(
                    "series {} point {} is ({}, {:#x}) instead of ({}, {:#x}) (of {})",
                    s, have[s], p.0, p.1, want.0, want.1, total[s]
                ));
            }
            have[s] += 1;
        }
    }
    Ok(have)
}

/// Everything is in the file, and after each automatic flush everything accepted before is delivered
pub fn lossless(a: &Auto, out: &AutoOut, scan: &reader::Scan) -> Result<(), String> {
    let have = counts(a, &out.flat, &scan.chunks, out.rounds)?;
    for (s, h) in have.iter().enumerate() {
        if *h != a.total(s, out.rounds) {
            return Err(format!("series {} has {} points instead of {}", s, h, a.total(s, out.rounds)));
        }
    }
    for j in &out.jumps {
        if j.rounds == out.rounds {
            continue;
        }
        let mut got = vec![0u64; out.flat.series.len()];
        let index = out.flat.index();
        for c in &scan.chunks {
            if c.end as u64 <= j.after {
                got[index[&(c.dev.clone(), c.meas.clone())]] += c.points().count() as u64;
            }
        }
        for (s, g) in got.iter().enumerate() {
            let want = a.total(s, j.rounds) + u64::from(s < j.part && a.active(s, j.rounds));
            // without hooks the jump is noticed late
            let ok = if cfg!(feature = "sink") { *g == want } else { *g <= want };
            if !ok {
                return Err(format!(
                    "after the automatic flush in round {} (sink at {}) {} of {} points of series {} are delivered",
                    j.rounds, j.after, g, want, s
                ));
            }
        }
    }
    Ok(())
}

/// Histories that consist of such a run
pub fn auto_hist(mib: std::ops::Range<u16>) -> BoxedStrategy<Hist> {
    auto_strat(mib, false)
        .prop_map(|a| Hist {
            auto: Some(a),
            ..Hist::none()
        })
        .boxed()
}

/// C01: read through the index
pub fn check_stored(a: &Auto, obs: &mut Obs) -> Result<(), String> {
    let out = healthy(a, obs)?;
    let f = reader::footer(&out.bytes)?;
    for s in 0..out.flat.series.len() {
        let what = format!("series {:?} {:?}", out.flat.dev(s), out.flat.meas(s));
        let got = match reader::read_series(&out.bytes, 0, &f, out.flat.dev(s), out.flat.meas(s))? {
            Some(p) => p,
            None if a.total(s, out.rounds) == 0 => continue,
            None => return Err(format!("{} is not in the index", what)),
        };
        if got.len() as u64 != a.total(s, out.rounds) {
            return Err(format!("{}: {} points instead of {}", what, got.len(), a.total(s, out.rounds)));
        }
        if let Some((i, (g, w))) = got.iter().zip(a.points(&out.flat, s)).enumerate().find(|(_, (g, w))| **g != *w) {
            return Err(format!("{}: point {} is {:?} instead of {:?}", what, i, g, w));
        }
    }
    Ok(())
}

/// C02
pub fn check_wellformed(a: &Auto, obs: &mut Obs) -> Result<(), String> {
    let out = healthy(a, obs)?;
    crate::props_file::well_formed(&out.flat, &out.bytes, 0, 256).map(|_| ())
}

/// C06: everything in order is accepted, what is too old after the flushes is refused
pub fn check_admission(a: &Auto, obs: &mut Obs) -> Result<(), String> {
    let out = healthy(a, obs)?;
    for (s, r) in &out.stale {
        if *r != Err(Kind::OutOfOrder) {
            return Err(format!(
                "a point of series {} that is not newer than those of earlier flushes: {:?}",
                s, r
            ));
        }
    }
    Ok(())
}

/// C12: cut anywhere, and after each flush
pub fn check_prefixes(a: &Auto, obs: &mut Obs) -> Result<(), String> {
    let out = healthy(a, obs)?;
    let whole = reader::scan(&out.bytes, false)?;
    lossless(a, &out, &whole)?;
    let mut cuts: Vec<usize> = out.jumps.iter().map(|j| j.after as usize).collect();
    let mut m = Mix(a.seed);
    cuts.push(m.below(out.bytes.len() as u64) as usize);
    for cut in cuts {
        let part = reader::scan(&out.bytes[..cut], true).map_err(|e| format!("cut at {}: {}", cut, e))?;
        let ends: Vec<usize> = part.chunks.iter().map(|c| c.end).collect();
        let want: Vec<usize> = whole.chunks.iter().map(|c| c.end).filter(|e| *e <= cut).collect();
        if ends != want {
            return Err(format!("cut at {}: {} chunks instead of {}", cut, ends.len(), want.len()));
        }
        counts(a, &out.flat, &part.chunks, out.rounds).map_err(|e| format!("cut at {}: {}", cut, e))?;
    }
    Ok(())
}

/// C11: the sink fails for good at some byte
pub fn check_failure(a: &Auto, obs: &mut Obs) -> Result<(), String> {
    let good = healthy(a, obs)?;
    let total = good.bytes.len() as u64;
    let bad = run_auto(a, Some(total));
    if !cfg!(feature = "sink") {
        return Ok(());
    }
    let at = total * a.fail.unwrap_or(0) as u64 / 65536;
    obs.nontrivial = true;
    if let Some(e) = bad.errors_unreported {
        return Err(e);
    }
    if bad.sink_errors == 0 {
        return Err(format!("the sink takes only {} of {} bytes but never failed", at, total));
    }
    if bad.created.is_ok() {
        match bad.close {
            Some(Ok(())) | None => return Err("close reports success for a file that is missing bytes".into()),
            Some(Err(_)) => {}
        }
        if bad.reopened == Some(Ok(())) {
            return Err("the second close reports success for a file that is missing bytes".into());
        }
        obs.class_if(bad.failed.is_some(), "automatic flush failed in a write");
        obs.class_if(bad.failed.is_none(), "failed in close");
    }
    if bad.bytes.len() > good.bytes.len() || good.bytes[..bad.bytes.len()] != bad.bytes[..] {
        return Err("what was delivered is no prefix of the fault-free file".into());
    }
    Ok(())
}

/// C07, C09, C10: other ways to write the same
pub fn check_same(a: &Auto, ways: &[(&str, How, bool)], obs: &mut Obs) -> Result<(), String> {
    let want = healthy(a, obs)?;
    for (what, how, noise) in ways {
        let got = healthy_how(a, *how, *noise, &mut Obs::default()).map_err(|e| format!("{}: {}", what, e))?;
        same_bytes(what, &got.bytes, &want.bytes)?;
    }
    Ok(())
}

/// The file on disk and in memory
pub fn check_disk(a: &Auto, obs: &mut Obs) -> Result<(), String> {
    let want = healthy(a, obs)?;
    let path = crate::scratch::dir().join("auto.tsfile");
    let name = path.to_str().unwrap().to_string();
    let flat = a.flat();
    let mut out = AutoOut {
        rounds: want.rounds,
        created: Ok(()),
        failed: None,
        errors_unreported: None,
        close: None,
        jumps: vec![],
        bytes: vec![],
        sink_errors: 0,
        reopened: None,
        stale: vec![],
        wrongly_accepted: None,
        flat: flat.clone(),
    };
    match TsFileWriter::new(&name, flat.build(1), config(None)) {
        Ok(w) => stream(a, &flat, w, want.rounds, || (0, 0), &mut out, false),
        Err(e) => out.created = Err(kind(&e)),
    }
    let bytes = std::fs::read(&path).unwrap_or_default();
    let _ = std::fs::remove_file(&path);
    if out.created.is_err() || out.failed.is_some() || out.close != Some(Ok(())) {
        return Err(format!("writing to a file fails: {:?} {:?} {:?}", out.created, out.failed, out.close));
    }
    same_bytes("file on disk and in memory", &bytes, &want.bytes)
}

/// C18: the files at position 0 and at another one
pub fn two_bases(a: &Auto, base: u64, obs: &mut Obs) -> Result<(Vec<u8>, Vec<u8>), String> {
    let x = healthy(a, obs)?;
    let y = healthy_how(a, How { base, ..DEFAULT }, false, &mut Obs::default())?;
    Ok((x.bytes, y.bytes))
}
