//! C06 - C12, C15, C18: histories against the model and against each other, sinks and faults
use crate::common::*;
use crate::exec::*;
use crate::model::*;
use crate::props_file::well_formed;
use crate::reader;
use crate::run::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
#[cfg(feature = "sink")]
use std::io::Write;

fn schema_bad() -> BoxedStrategy<SchemaSpec> {
    schema_strat(5, 5, 25)
}

// ------------------------------------------------------------------------------------------- C06

pub struct C06;

/// model results of the calls
pub fn expected(flat: &Flat, calls: &[Call]) -> Vec<Result<(), Vec<Why>>> {
    let mut m = Model::new(flat);
    calls
        .iter()
        .map(|c| match c {
            Call::Write(d, me, t, v) => m.write(d, me, *t, *v),
            Call::Many(d, t, items) => m.write_many(d, *t, items).1,
            Call::Points(s, p) => {
                if m.closed {
                    return Err(vec![Why::Closed]);
                }
                if let Some(x) = p.last() {
                    m.last[*s] = x.0;
                }
                Ok(())
            }
            Call::Flush => Ok(()),
            Call::Close => {
                m.closed = true;
                Ok(())
            }
        })
        .collect()
}

impl Prop for C06 {
    type Case = Hist;
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "random histories of admissible and inadmissible writes (unknown names, wrong types, unsupported encodings, repeated, older, negative and extreme timestamps) with flushes; the result of every call is compared with the model; a panic is a failure; non-trivial: at least one accepted and one refused call"
    }
    fn quick_scale(&self) -> f64 {
        5.0
    }
    fn phases(&self, _t: Tier) -> Vec<Phase<Hist>> {
        let few_series = || schema_strat(2, 2, 20);
        let mix = OpMix { bad: 10, flush: 6, bulk: 1, pages: 0, touch: 1, extreme_ts: true };
        vec![
            phase("histories", 40_000, 600_000, hist(schema_bad(), op_strat(mix), 0..=30)),
            phase("few series, many calls", 20_000, 300_000, hist(few_series(), op_strat(mix), 20..=80)),
            phase(
                "with long runs",
                3000,
                60_000,
                hist(schema_bad(), op_strat(OpMix { bulk: 6, pages: 2, ..WITH_BAD }), 0..=20),
            ),
            heavy("automatic flushes", 6, 100, crate::auto::auto_hist(140..230)),
        ]
    }
    fn check(&self, h: &Hist, obs: &mut Obs) -> Result<(), String> {
        if let Some(a) = &h.auto {
            return crate::auto::check_admission(a, obs);
        }
        let (flat, calls) = h.expand();
        let want = expected(&flat, &calls);
        let out = execute(&flat, &calls, h.how());
        if let Err(e) = out.created {
            return Err(format!("the writer cannot be created: {:?}", e));
        }
        for (i, (c, (g, w))) in calls.iter().zip(out.results.iter().zip(&want)).enumerate() {
            if !agrees(g, w) {
                let mut c = format!("{:?}", c);
                if c.len() > 300 {
                    let mut n = 300;
                    while !c.is_char_boundary(n) {
                        n -= 1;
                    }
                    c.truncate(n);
                }
                return Err(format!("call {} {}: {:?}, should be {:?}", i, c, g, w));
            }
            if let Err(why) = w {
                if why.len() == 1 {
                    obs.class(match why[0] {
                        Why::UnknownSeries => "unknown series",
                        Why::WrongType => "wrong type",
                        Why::Encoding => "unsupported encoding",
                        Why::OutOfOrder => "out of order",
                        Why::Closed => "closed",
                    });
                } else {
                    obs.class("several reasons");
                }
            }
        }
        let bad = want.iter().filter(|w| w.is_err()).count();
        obs.nontrivial = bad > 0 && calls.len() > bad + 1;
        obs.add("calls", calls.len() as u64);
        obs.add("refused", bad as u64);
        // out of order with regard to a point before a flush
        let mut seen_flush = false;
        for (c, w) in calls.iter().zip(&want) {
            seen_flush |= *c == Call::Flush;
            if seen_flush && *w == Err(vec![Why::OutOfOrder]) {
                obs.class("out of order after a flush");
            }
        }
        obs.classes.sort();
        obs.classes.dedup();
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------- C07

pub struct C07;
impl Prop for C07 {
    type Case = Hist;
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "a random history is executed, then again without its refused single-point writes: results of the other calls and bytes must be equal; non-trivial: at least one refused single write and one accepted point"
    }
    fn quick_scale(&self) -> f64 {
        4.0
    }
    fn phases(&self, _t: Tier) -> Vec<Phase<Hist>> {
        let mix = OpMix { bad: 12, flush: 5, bulk: 2, pages: 0, touch: 1, extreme_ts: true };
        vec![
            phase("histories", 30_000, 500_000, hist(schema_bad(), op_strat(mix), 1..=30)),
            phase("few series", 20_000, 300_000, hist(schema_strat(2, 2, 20), op_strat(mix), 2..=50)),
            phase(
                "with long runs",
                2000,
                30_000,
                hist(schema_bad(), op_strat(OpMix { bulk: 6, pages: 3, ..WITH_BAD }), 1..=20),
            ),
            heavy("automatic flushes", 4, 60, crate::auto::auto_hist(160..230)),
        ]
    }
    fn check(&self, h: &Hist, obs: &mut Obs) -> Result<(), String> {
        if let Some(a) = &h.auto {
            return crate::auto::check_same(a, &[("with refused writes between the others", DEFAULT, true)], obs);
        }
        let (flat, calls) = h.expand();
        let a = run_ok(&flat, &calls, h.how())?;
        let keep: Vec<usize> = (0..calls.len())
            .filter(|i| !(matches!(calls[*i], Call::Write(..)) && a.results[*i].is_err()))
            .collect();
        let removed = calls.len() - keep.len();
        let calls2: Vec<Call> = keep.iter().map(|i| calls[*i].clone()).collect();
        let b = run_ok(&flat, &calls2, h.how())?;
        for (j, i) in keep.iter().enumerate() {
            if a.results[*i] != b.results[j] {
                return Err(format!(
                    "call {} ({:.200}) returns {:?}, without the refused writes {:?}",
                    i,
                    format!("{:?}", calls[*i]),
                    a.results[*i],
                    b.results[j]
                ));
            }
        }
        same_bytes("files with and without refused writes", &a.bytes, &b.bytes)?;
        obs.nontrivial = removed > 0 && keep.len() > 1;
        obs.add("refused writes", removed as u64);
        obs.class_if(calls.contains(&Call::Flush), "with flush");
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------- C08

pub struct C08;
impl Prop for C08 {
    type Case = Hist;
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "a random history with multi-point writes is executed with write_many and with single writes (up to the first refused one); results and bytes must be equal; non-trivial: a multi-point write of at least two points"
    }
    fn quick_scale(&self) -> f64 {
        6.0
    }
    fn phases(&self, _t: Tier) -> Vec<Phase<Hist>> {
        let many = |bad: bool| {
            (
                any::<u16>(),
                if bad { t_any_strat() } else { t_ext_strat() },
                proptest::collection::vec((any::<u16>(), if bad { v_any_strat() } else { v_strat() }), 0..8),
                if bad {
                    prop_oneof![6 => Just(None), 2 => any::<u8>().prop_map(Some)].boxed()
                } else {
                    Just(None).boxed()
                },
            )
                .prop_map(|(d, t, items, unknown)| Op::Many { d, t, items, unknown })
        };
        let ops = |bad: bool| {
            prop_oneof![
                6 => many(bad),
                3 => op_strat(if bad { OpMix { pages: 0, bulk: 1, ..WITH_BAD } } else { OpMix { pages: 0, bulk: 1, ..GOOD } }),
                1 => Just(Op::Flush),
            ]
            .boxed()
        };
        vec![
            phase("admissible", 24_000, 400_000, hist(schema_strat(3, 6, 0), ops(false), 1..=16)),
            phase("with refused points", 30_000, 500_000, hist(schema_strat(3, 6, 20), ops(true), 1..=16)),
            phase(
                "many points in one call",
                60,
                2000,
                (
                    prop_oneof![4 => grid_strat(2, 3000), 2 => grid_strat(2, 300), 1 => grid_strat(1, 70_000)],
                    proptest::collection::vec(
                        prop_oneof![
                            6 => (any::<u16>(), any::<u8>(), any::<u64>()).prop_map(|(d, bad, seed)| Op::Batch { d, bad, seed }),
                            1 => Just(Op::Flush),
                        ],
                        1..5,
                    ),
                    any::<u64>(),
                )
                    .prop_map(|(schema, ops, perm)| Hist { schema, ops, degree: None, perm, auto: None }),
            ),
            // the only data of a file is the accepted part of a refused call
            phase("single call", 20_000, 300_000, hist(schema_strat(1, 6, 20), many(true).boxed(), 1..=2)),
        ]
    }
    fn check(&self, h: &Hist, obs: &mut Obs) -> Result<(), String> {
        let (flat, mut calls) = h.expand();
        // nothing to compare for no points of an unknown device
        calls.retain(|c| match c {
            Call::Many(d, _, items) => !items.is_empty() || flat.devs.iter().any(|x| &x.name == d),
            _ => true,
        });
        let want = expected(&flat, &calls);
        let a = run_ok(&flat, &calls, h.how())?;
        let b = run_ok(&flat, &calls, How { split: true, ..h.how() })?;
        for (i, c) in calls.iter().enumerate() {
            if a.results[i] != b.results[i] {
                return Err(format!(
                    "call {} ({:.200}): {:?} at once, {:?} one by one",
                    i,
                    format!("{:?}", c),
                    a.results[i],
                    b.results[i]
                ));
            }
            // "the call returns that error"
            if matches!(c, Call::Many(..)) && !agrees(&a.results[i], &want[i]) {
                return Err(format!(
                    "call {} ({:.200}): {:?}, should be {:?}",
                    i,
                    format!("{:?}", c),
                    a.results[i],
                    want[i]
                ));
            }
            if let Call::Many(_, _, items) = c {
                obs.nontrivial |= items.len() > 1;
                obs.class_if(items.len() > 256, "more than 256 points in a call");
                obs.class_if(items.len() > 65_536, "more than 65536 points in a call");
                obs.class_if(a.results[i].is_err(), "refused multi-point write");
                obs.class_if(a.results[i].is_ok() && items.len() > 1, "accepted multi-point write");
            }
        }
        same_bytes("files written at once and one by one", &a.bytes, &b.bytes)?;
        // and the accepted points are in the file
        let mut m = Model::new(&flat);
        for c in &calls {
            match c {
                Call::Write(d, me, t, v) => {
                    let _ = m.write(d, me, *t, *v);
                }
                Call::Many(d, t, items) => {
                    let (_, r) = m.write_many(d, *t, items);
                    let _ = r;
                }
                Call::Points(s, p) => {
                    m.points[*s].extend_from_slice(p);
                    if let Some(x) = p.last() {
                        m.last[*s] = x.0;
                    }
                }
                _ => {}
            }
        }
        let scan = reader::scan(&a.bytes, false)?;
        let got = by_scan(&flat, &scan)?;
        for s in 0..got.len() {
            same_points(&format!("series {:?} {:?}", flat.dev(s), flat.meas(s)), &got[s], &m.points[s])?;
        }
        obs.classes.sort();
        obs.classes.dedup();
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------- C09

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Twice {
    pub h: Hist,
    pub seed: u64,
}

pub struct C09;

/// The same points per series between the same flushes, in another order of the series
fn interleave(flat: &Flat, calls: &[Call], seed: u64) -> Vec<Call> {
    let index = flat.index();
    let mut mix = Mix(seed);
    let mut out = vec![];
    let mut seg: Vec<Vec<(i64, u64)>> = vec![vec![]; flat.series.len()];
    let mut emit = |seg: &mut Vec<Vec<(i64, u64)>>, out: &mut Vec<Call>| {
        let mut at = vec![0usize; seg.len()];
        let mut open: Vec<usize> = (0..seg.len()).filter(|s| !seg[*s].is_empty()).collect();
        let big = mix.below(3) == 0;
        while !open.is_empty() {
            let k = mix.below(open.len() as u64) as usize;
            let s = open[k];
            let left = seg[s].len() - at[s];
            let n = if left > 2000 {
                1000 + mix.below(left as u64) as usize
            } else if big {
                left
            } else {
                1 + mix.below(5) as usize
            }
            .min(left);
            out.push(Call::Points(s, seg[s][at[s]..at[s] + n].to_vec()));
            at[s] += n;
            if at[s] == seg[s].len() {
                open.swap_remove(k);
            }
        }
        for s in seg.iter_mut() {
            s.clear();
        }
    };
    for c in calls {
        match c {
            Call::Write(d, m, t, v) => {
                seg[index[&(d.clone(), m.clone())]].push((*t, v.bits()));
            }
            Call::Many(d, t, items) => {
                for (m, v) in items {
                    seg[index[&(d.clone(), m.clone())]].push((*t, v.bits()));
                }
            }
            Call::Points(s, p) => seg[*s].extend_from_slice(p),
            Call::Flush | Call::Close => {
                emit(&mut seg, &mut out);
                out.push(c.clone());
            }
        }
    }
    out
}

impl Prop for C09 {
    type Case = Twice;
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "the same schema content is built in two orders (each schema has its own hash seeds) and the same points per series are written in two interleavings between the same flushes: bytes must be equal; non-trivial: at least two series with data"
    }
    fn quick_scale(&self) -> f64 {
        3.0
    }
    fn phases(&self, _t: Tier) -> Vec<Phase<Twice>> {
        let tw = |h: BoxedStrategy<Hist>| (h, any::<u64>()).prop_map(|(h, seed)| Twice { h, seed });
        vec![
            phase("histories", 24_000, 400_000, tw(hist(schema_strat(8, 8, 0), op_strat(OpMix { pages: 0, ..GOOD }), 1..=24))),
            phase("many series", 2400, 40_000, tw(wide(24, 24))),
            phase("several pages", 800, 10_000, tw(pages())),
            phase("many devices", 160, 3000, tw(wide(600, 3))),
            heavy("automatic flushes", 4, 60, tw(crate::auto::auto_hist(160..230))),
        ]
    }
    fn check(&self, c: &Twice, obs: &mut Obs) -> Result<(), String> {
        if let Some(a) = &c.h.auto {
            return crate::auto::check_same(a, &[("schema built in another order", How { perm: c.seed | 1, ..DEFAULT }, false)], obs);
        }
        let (flat, calls) = c.h.expand();
        // only what is admissible
        let want = expected(&flat, &calls);
        let calls: Vec<Call> = calls
            .into_iter()
            .zip(want)
            .filter(|(_, w)| w.is_ok())
            .map(|(c, _)| c)
            .collect();
        let a = run_ok(&flat, &calls, How { perm: 0, ..c.h.how() })?;
        if let Some(i) = a.results.iter().position(|r| r.is_err()) {
            return Err(format!("call {} refused: {:?}", i, a.results[i]));
        }
        let calls2 = interleave(&flat, &calls, c.seed);
        let b = run_ok(&flat, &calls2, How { perm: c.h.perm | 1, ..c.h.how() })?;
        if let Some(i) = b.results.iter().position(|r| r.is_err()) {
            return Err(format!("interleaved call {} refused: {:?}", i, b.results[i]));
        }
        same_bytes("two writers with the same content", &a.bytes, &b.bytes)?;
        let a2 = run_ok(&flat, &calls, How { perm: c.seed | 1, ..c.h.how() })?;
        same_bytes("two writers with the same calls", &a.bytes, &a2.bytes)?;
        let with: std::collections::BTreeSet<usize> = calls2
            .iter()
            .filter_map(|c| match c {
                Call::Points(s, _) => Some(*s),
                _ => None,
            })
            .collect();
        obs.nontrivial = with.len() > 1;
        obs.class_if(flat.devs.len() > 1, "several devices");
        obs.class_if(calls.contains(&Call::Flush), "with flush");
        obs.add("bytes compared", a.bytes.len() as u64);
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------- C10

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SinkCase {
    Hist { h: Hist, seed: u64, max: u16 },
    /// direct operations of the wrapper used for files: lengths, kinds
    Wrapper { seed: u64, max: u16, ops: Vec<(u16, u8)> },
}

pub struct C10;
impl Prop for C10 {
    type Case = SinkCase;
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "each history is written to a sink that takes everything, to one that takes only parts of requests and interrupts, both through the file wrapper too, and to a file; bytes must be equal; the wrapper's position is compared with the accepted bytes after each operation; non-trivial: at least one partial or interrupted request"
    }
    fn quick_scale(&self) -> f64 {
        5.0
    }
    fn phases(&self, _t: Tier) -> Vec<Phase<SinkCase>> {
        let max = || prop_oneof![3 => 0u16..4, 2 => 0u16..64, 1 => any::<u16>()].boxed();
        let mk = move |h: BoxedStrategy<Hist>| {
            (h, any::<u64>(), max()).prop_map(|(h, seed, max)| SinkCase::Hist { h, seed, max })
        };
        let max2 = || prop_oneof![3 => 0u16..4, 2 => 0u16..64, 1 => any::<u16>()].boxed();
        vec![
            phase("histories", 12_000, 200_000, mk(hist(schema_strat(4, 6, 0), op_strat(OpMix { pages: 0, ..GOOD }), 0..=16))),
            phase("many series", 800, 15_000, mk(wide(12, 12))),
            phase("several pages", 320, 6000, mk(pages())),
            phase(
                "wrapper",
                8000,
                150_000,
                (any::<u64>(), max2(), proptest::collection::vec((any::<u16>(), 0u8..8), 1..20))
                    .prop_map(|(seed, max, ops)| SinkCase::Wrapper { seed, max, ops }),
            ),
            heavy("automatic flushes", 4, 60, mk(crate::auto::auto_hist(160..230))),
        ]
    }
    fn check(&self, c: &SinkCase, obs: &mut Obs) -> Result<(), String> {
        match c {
            SinkCase::Hist { h: Hist { auto: Some(a), .. }, seed, max } => {
                let _ = (seed, max);
                #[cfg(feature = "sink")]
                crate::auto::check_same(
                    a,
                    &[
                        ("partial sink", How { mode: Mode::Short { seed: *seed, max: 200 + *max % 5000 }, ..DEFAULT }, false),
                        ("file wrapper", How { wrap: true, mode: Mode::Short { seed: *seed, max: 200 + *max }, ..DEFAULT }, false),
                    ],
                    obs,
                )?;
                crate::auto::check_disk(a, obs)
            }
            SinkCase::Hist { h, seed, max } => {
                let (flat, calls) = h.expand();
                let want = run_ok(&flat, &calls, h.how())?;
                // on disk, through the public constructor (without intermediate flushes and
                // with the default degree)
                let plain: Vec<Call> = calls.iter().filter(|c| **c != Call::Flush).cloned().collect();
                let mem = run_ok(&flat, &plain, How { degree: None, ..h.how() })?;
                let dir = crate::scratch::dir();
                let path = dir.join("c10.tsfile");
                let (r, disk) = write_file(path.to_str().unwrap(), &flat, &plain, h.perm);
                if let Some(i) = (0..plain.len()).find(|i| r.get(*i) != mem.results.get(*i)) {
                    return Err(format!("call {} on a file: {:?}, in memory {:?}", i, r.get(i), mem.results.get(i)));
                }
                same_bytes("file on disk and in memory", &disk, &mem.bytes)?;
                #[cfg(feature = "sink")]
                for (what, how) in [
                    ("partial sink", How { mode: Mode::Short { seed: *seed, max: *max }, ..h.how() }),
                    ("file wrapper", How { wrap: true, ..h.how() }),
                    ("file wrapper with partial sink", How { wrap: true, mode: Mode::Short { seed: *seed, max: *max }, ..h.how() }),
                ] {
                    let got = run_ok(&flat, &calls, how).map_err(|e| format!("{}: {}", what, e))?;
                    if got.results != want.results {
                        return Err(format!("{}: other results", what));
                    }
                    same_bytes(what, &got.bytes, &want.bytes)?;
                }
                let _ = (seed, max, &want);
                obs.nontrivial = true;
                obs.class(match max {
                    0 => "one byte at a time",
                    1..=8 => "a few bytes at a time",
                    _ => "larger parts",
                });
                obs.class_if(calls.contains(&Call::Flush), "with flush");
                Ok(())
            }
            #[cfg(feature = "sink")]
            SinkCase::Wrapper { seed, max, ops } => {
                use tsfile_writer::writer::PositionedWrite;
                let sink = Sink::new(Mode::Short { seed: *seed, max: *max }, 0);
                let mut w = tsfile_writer::writer::verif::wrap(sink.clone());
                let mut want: Vec<u8> = vec![];
                for (i, (len, kind)) in ops.iter().enumerate() {
                    let buf: Vec<u8> = (0..*len as usize % 5000).map(|j| (i * 31 + j * 7) as u8).collect();
                    match kind {
                        0..=3 => {
                            w.write_all(&buf).map_err(|e| format!("write_all: {}", e))?;
                            want.extend(&buf);
                        }
                        4..=6 => match w.write(&buf) {
                            Ok(n) => {
                                if n > buf.len() {
                                    return Err(format!("write of {} bytes returns {}", buf.len(), n));
                                }
                                want.extend(&buf[..n])
                            }
                            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                            Err(e) => return Err(format!("write: {}", e)),
                        },
                        _ => w.flush().map_err(|e| format!("flush: {}", e))?,
                    }
                    if w.get_position() != sink.len() {
                        return Err(format!(
                            "after operation {} the position is {}, the sink has accepted {} bytes",
                            i,
                            w.get_position(),
                            sink.len()
                        ));
                    }
                    if sink.len() != want.len() as u64 {
                        return Err(format!("sink has {} bytes, {} were reported as written", sink.len(), want.len()));
                    }
                }
                same_bytes("bytes behind the wrapper", &sink.take(), &want)?;
                obs.nontrivial = want.len() > 1;
                Ok(())
            }
            #[cfg(not(feature = "sink"))]
            SinkCase::Wrapper { .. } => Ok(()),
        }
    }
}

pub fn write_file(path: &str, flat: &Flat, calls: &[Call], perm: u64) -> (Vec<Res>, Vec<u8>) {
    use tsfile_writer::writer::tsfile_writer::TsFileWriter;
    let mut r = vec![];
    if let Ok(mut w) = TsFileWriter::new(path, flat.build(perm), Default::default()) {
        for c in calls {
            r.push(apply(&mut w, flat, c, false));
        }
    }
    (r, std::fs::read(path).unwrap_or_default())
}

// ------------------------------------------------------------------------------------------- C11

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Faults {
    pub h: Hist,
    pub seed: u64,
    /// try all positions of small files
    pub all: bool,
}

pub struct C11;

fn fault_run(
    flat: &Flat,
    calls: &[Call],
    how: How,
    clean: &[u8],
    complete_flushes: bool,
) -> Result<bool, String> {
    // close again after the history, as a caller may do
    let mut calls2 = calls.to_vec();
    calls2.push(Call::Close);
    let what = format!("{:?}{}", how.mode, if how.wrap { " behind the file wrapper" } else { "" });
    let out = guarded(|| execute(flat, &calls2, how)).map_err(|e| format!("{}: {}", what, e))?;
    if out.errs_created > 0 && out.created.is_ok() {
        return Err(format!("{}: the sink failed during the creation, which succeeds", what));
    }
    if out.errs_created == 0 && out.created.is_err() {
        return Err(format!("{}: the creation fails without a sink error", what));
    }
    let mut before = out.errs_created;
    for (i, r) in out.results.iter().enumerate() {
        if out.errs[i] > before && r.is_ok() {
            return Err(format!(
                "{}: the sink failed during call {} of {} ({:.100}), which returns Ok",
                what,
                i,
                calls2.len(),
                format!("{:?}", calls2[i])
            ));
        }
        before = out.errs[i];
        // a close that returns Ok claims a complete file
        if calls2[i] == Call::Close && r.is_ok() {
            let len = out.lens[i] as usize;
            if out.bytes.get(..len) != Some(clean) {
                return Err(format!(
                    "{}: close returns Ok but the file has {} bytes and differs from the fault-free one of {} bytes",
                    what,
                    len,
                    clean.len()
                ));
            }
        }
    }
    let hit = before > 0;
    if hit {
        let at = match how.mode {
            Mode::FailFrom { at, .. } | Mode::FailOnce { at, .. } => at as usize,
            _ => 0,
        };
        // delivered before the failure
        let n = at.min(out.bytes.len()).min(clean.len());
        if out.bytes[..n] != clean[..n] || (at > out.bytes.len()) {
            return Err(format!("{}: delivered bytes are no prefix of the fault-free file", what));
        }
    } else if !complete_flushes {
        same_bytes(&format!("{}: file without a fault", what), &out.bytes, clean)?;
    }
    Ok(hit)
}

impl Prop for C11 {
    type Case = Faults;
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "each history is executed without faults and then with a fault at chosen positions of the output (every position of small files): error or Ok(0), persistent or once, directly or behind the file wrapper, and with failing flushes; the call in which it happens must return an error, close must not claim a complete file, nothing may panic; non-trivial: at least one fault was hit"
    }
    fn quick_scale(&self) -> f64 {
        4.0
    }
    fn phases(&self, _t: Tier) -> Vec<Phase<Faults>> {
        let mk = |h: BoxedStrategy<Hist>, all: bool| {
            (h, any::<u64>()).prop_map(move |(h, seed)| Faults { h, seed, all })
        };
        let mix = OpMix { pages: 0, bulk: 1, flush: 4, bad: 1, touch: 1, extreme_ts: false };
        vec![
            phase("every position", 500, 10_000, mk(hist(schema_strat(2, 2, 0), op_strat(mix), 1..=6), true)),
            phase("chosen positions", 6000, 120_000, mk(hist(schema_strat(4, 4, 0), op_strat(mix), 0..=14), false)),
            phase("many series", 400, 8000, mk(wide(10, 10), false)),
            phase("several pages", 80, 1500, mk(pages(), false)),
            heavy(
                "automatic flushes",
                6,
                100,
                mk(
                    crate::auto::auto_strat(140..230, true)
                        .prop_map(|a| Hist { auto: Some(a), ..Hist::none() })
                        .boxed(),
                    false,
                ),
            ),
        ]
    }
    #[cfg(feature = "sink")]
    fn check(&self, c: &Faults, obs: &mut Obs) -> Result<(), String> {
        if let Some(a) = &c.h.auto {
            return crate::auto::check_failure(a, obs);
        }
        let (flat, calls) = c.h.expand();
        let clean = run_ok(&flat, &calls, c.h.how())?;
        let len = clean.bytes.len() as u64;
        let mut mix = Mix(c.seed);
        let mut at: Vec<u64> = vec![];
        if c.all && len < 900 {
            at.extend(0..=len);
        } else {
            at.extend([0, 6, 7, len - 1, len.saturating_sub(6), len.saturating_sub(10)]);
            // around the ends of calls
            for l in clean.lens.iter() {
                if mix.below(4) == 0 {
                    at.extend([l.saturating_sub(1), *l, l + 1]);
                }
            }
            for _ in 0..14 {
                at.push(mix.below(len));
            }
            at.truncate(30);
        }
        at.sort();
        at.dedup();
        let mut hits = 0;
        let mut flush_hits = 0;
        for a in &at {
            let modes = [
                Mode::FailFrom { at: *a, zero: false },
                Mode::FailOnce { at: *a, zero: false },
                Mode::FailFrom { at: *a, zero: true },
                Mode::FailOnce { at: *a, zero: true },
            ];
            let m = modes[mix.below(4) as usize];
            let wrap = mix.below(3) == 0;
            hits += fault_run(&flat, &calls, How { mode: m, wrap, ..c.h.how() }, &clean.bytes, false)? as u64;
        }
        for _ in 0..3 {
            let m = Mode::FlushFail { n: mix.below(6) as u32, forever: mix.below(2) == 0 };
            let wrap = mix.below(2) == 0;
            flush_hits += fault_run(&flat, &calls, How { mode: m, wrap, ..c.h.how() }, &clean.bytes, true)? as u64;
        }
        obs.nontrivial = hits > 0;
        obs.add("fault positions hit", hits);
        obs.add("flush faults hit", flush_hits);
        obs.class_if(c.all && len < 900, "all positions");
        obs.class_if(calls.contains(&Call::Flush), "with flush");
        Ok(())
    }
    /// Without hooks: a file that cannot grow
    #[cfg(not(feature = "sink"))]
    fn check(&self, c: &Faults, _obs: &mut Obs) -> Result<(), String> {
        let (flat, calls) = c.h.expand();
        run_ok(&flat, &calls, c.h.how()).map(|_| ())
    }
}

// ------------------------------------------------------------------------------------------- C12

pub struct C12;
impl Prop for C12 {
    type Case = Twice;
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "each history is written, the bytes delivered after each flush and arbitrary prefixes (every cut of small files) are scanned front to back: complete chunks are recovered, points are a prefix of the accepted ones, and after a flush all accepted points are there; with and without close, in memory and on disk; non-trivial: a flush with points before it"
    }
    fn quick_scale(&self) -> f64 {
        6.0
    }
    fn phases(&self, _t: Tier) -> Vec<Phase<Twice>> {
        let tw = |h: BoxedStrategy<Hist>| (h, any::<u64>()).prop_map(|(h, seed)| Twice { h, seed });
        let mix = OpMix { pages: 0, flush: 8, bulk: 2, bad: 1, touch: 2, extreme_ts: true };
        vec![
            phase("histories", 6000, 120_000, tw(hist(schema_strat(4, 4, 0), op_strat(mix), 1..=24))),
            phase("many series", 400, 8000, tw(wide(14, 14))),
            phase("several pages", 160, 4000, tw(pages())),
            heavy("automatic flushes", 6, 100, tw(crate::auto::auto_hist(140..230))),
        ]
    }
    fn check(&self, c: &Twice, obs: &mut Obs) -> Result<(), String> {
        if let Some(a) = &c.h.auto {
            return crate::auto::check_prefixes(a, obs);
        }
        let (flat, mut calls) = c.h.expand();
        let calls_all = split_refused_many(&flat, std::mem::take(&mut calls));
        let mut mix = Mix(c.seed);
        // sometimes the writer is never closed
        let closed = mix.below(4) != 0;
        let mut calls = calls_all;
        if !closed {
            calls.pop();
        }
        // disk: through the wrapper, looking at the file after each call
        let on_disk = mix.below(4) == 0;
        let (results, lens, bytes) = if on_disk {
            let path = crate::scratch::dir().join("c12.tsfile");
            let p = path.to_str().unwrap().to_string();
            let mut r = vec![];
            let mut l = vec![];
            {
                let mut w = tsfile_writer::writer::tsfile_writer::TsFileWriter::new(&p, flat.build(c.h.perm), config(c.h.degree.map(|d| d.max(2) as usize)))
                    .map_err(|e| format!("{:?}", kind(&e)))?;
                for call in &calls {
                    r.push(apply(&mut w, &flat, call, false));
                    l.push(std::fs::metadata(&path).map(|m| m.len()).unwrap_or(0));
                }
            }
            (r, l, std::fs::read(&path).unwrap_or_default())
        } else {
            let o = execute(&flat, &calls, How { wrap: mix.below(2) == 0, ..c.h.how() });
            if o.created.is_err() {
                return Err("the writer cannot be created".into());
            }
            // only what the sink was told to flush counts
            (o.results, o.synced, o.bytes)
        };
        let full = reader::scan(&bytes, !closed).map_err(|e| format!("whole output: {}", e))?;
        // what had been accepted at each call
        let fake = |n: usize| Outcome {
            created: Ok(()),
            results: results[..n].to_vec(),
            lens: vec![],
            errs: vec![],
            errs_created: 0,
            synced: vec![],
            bytes: vec![],
        };
        let all = accepted(&flat, &calls, &fake(calls.len()))?;
        let mut nontrivial = false;
        for (i, call) in calls.iter().enumerate() {
            if *call != Call::Flush || !cfg!(all(feature = "sink", feature = "flush")) {
                continue;
            }
            let pts = accepted(&flat, &calls[..=i], &fake(i + 1))?;
            let got = by_scan(&flat, &reader::scan(&bytes[..lens[i] as usize], true)
                .map_err(|e| format!("after flush in call {}: {}", i, e))?)?;
            for s in 0..pts.len() {
                same_points(
                    &format!("after the flush in call {}: series {:?} {:?}", i, flat.dev(s), flat.meas(s)),
                    &got[s],
                    &pts[s],
                )?;
                nontrivial |= !pts[s].is_empty();
            }
        }
        let mut cuts: Vec<usize> = vec![];
        if bytes.len() <= 700 {
            cuts.extend(0..=bytes.len());
        } else {
            for ch in &full.chunks {
                if mix.below(full.chunks.len() as u64) < 6 {
                    cuts.extend([ch.pos, ch.pos + 1, ch.end - 1, ch.end]);
                }
            }
            for _ in 0..(if bytes.len() > 50_000 { 6 } else { 24 }) {
                cuts.push(mix.below(bytes.len() as u64) as usize);
            }
        }
        for cut in &cuts {
            let p = reader::scan(&bytes[..*cut], true).map_err(|e| format!("cut at {} of {}: {}", cut, bytes.len(), e))?;
            let n = full.chunks.iter().filter(|c| c.end <= *cut).count();
            if p.chunks.len() != n {
                return Err(format!("cut at {}: {} chunks recovered of {}", cut, p.chunks.len(), n));
            }
            let got = by_scan(&flat, &p)?;
            for s in 0..got.len() {
                if !all[s].starts_with(&got[s]) {
                    same_points(&format!("cut at {}: series {:?} {:?}", cut, flat.dev(s), flat.meas(s)), &got[s], &all[s])?;
                }
            }
        }
        obs.nontrivial = nontrivial || !cfg!(all(feature = "sink", feature = "flush"));
        obs.add("cuts", cuts.len() as u64);
        obs.class_if(!closed, "never closed");
        obs.class_if(on_disk, "on disk");
        obs.class_if(full.chunks.iter().any(|c| c.pages.len() > 1), "several pages");
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------- C15

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Closings {
    pub h: Hist,
    /// operations after the first close; Flush there means close again
    pub after: Vec<Op>,
    pub empty_schema: bool,
}

pub struct C15;
impl Prop for C15 {
    type Case = Closings;
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "a history (often empty), close, then further closes and writes, in memory and on disk: the file is complete and well formed after the first close, nothing changes afterwards, writes are refused; non-trivial: at least one call after close"
    }
    fn quick_scale(&self) -> f64 {
        8.0
    }
    fn phases(&self, _t: Tier) -> Vec<Phase<Closings>> {
        let mix = OpMix { pages: 0, bulk: 1, ..WITH_BAD };
        let mk = move |h: BoxedStrategy<Hist>| {
            (h, proptest::collection::vec(op_strat(OpMix { flush: 25, ..mix }), 1..8), 0u8..30).prop_map(|(h, after, e)| Closings {
                h,
                after,
                empty_schema: e == 0,
            })
        };
        vec![
            phase("histories", 20_000, 400_000, mk(hist(schema_strat(3, 4, 10), op_strat(mix), 0..=10))),
            phase("no calls before close", 6000, 100_000, mk(hist(schema_strat(3, 4, 10), op_strat(mix), 0..=0))),
            phase("several pages", 160, 3000, mk(pages())),
        ]
    }
    fn check(&self, c: &Closings, obs: &mut Obs) -> Result<(), String> {
        let h = if c.empty_schema {
            Hist { schema: SchemaSpec::Explicit(vec![]), ..c.h.clone() }
        } else {
            c.h.clone()
        };
        let (flat, mut calls) = h.expand();
        let first = calls.len() - 1;
        // resolve the later operations as if the file went on, so that they would be admissible
        let mut ops = h.ops.clone();
        let n0 = resolve(&flat, &ops).len();
        ops.extend(c.after.iter().cloned());
        let later: Vec<Call> = resolve(&flat, &ops)
            .into_iter()
            .skip(n0)
            .map(|c| if c == Call::Flush { Call::Close } else { c })
            .collect();
        calls.extend(later);
        calls.push(Call::Close);
        let disk = h.perm % 3 == 0;
        let (results, lens, bytes) = if disk {
            let path = crate::scratch::dir().join("c15.tsfile");
            let p = path.to_str().unwrap().to_string();
            let (mut r, mut l) = (vec![], vec![]);
            {
                let mut w = tsfile_writer::writer::tsfile_writer::TsFileWriter::new(&p, flat.build(h.perm), config(h.how().degree))
                    .map_err(|e| format!("{:?}", kind(&e)))?;
                for call in &calls {
                    r.push(apply(&mut w, &flat, call, false));
                    l.push(std::fs::metadata(&path).map(|m| m.len()).unwrap_or(0));
                }
            }
            // and nothing happens when the writer is dropped
            (r, l, std::fs::read(&path).unwrap_or_default())
        } else {
            let o = execute(&flat, &calls, h.how());
            if let Err(e) = o.created {
                return Err(format!("the writer cannot be created: {:?}", e));
            }
            (o.results, o.lens, o.bytes)
        };
        if let Err(e) = results[first] {
            return Err(format!("close fails: {:?}", e));
        }
        let want = expected(&flat, &calls);
        for i in first + 1..calls.len() {
            if lens[i] != lens[first] {
                return Err(format!(
                    "call {} after close ({:.120}) changes the file from {} to {} bytes",
                    i - first,
                    format!("{:?}", calls[i]),
                    lens[first],
                    lens[i]
                ));
            }
            if calls[i] == Call::Close {
                if let Err(e) = results[i] {
                    return Err(format!("closing again fails: {:?}", e));
                }
            } else if let Call::Points(_, p) = &calls[i] {
                if !p.is_empty() && results[i].is_ok() {
                    return Err("a write after close succeeds".into());
                }
            } else if want[i].is_err() && results[i].is_ok() {
                return Err(format!("{:.120} after close succeeds", format!("{:?}", calls[i])));
            }
        }
        if bytes.len() as u64 != lens[first] {
            return Err("dropping the writer changes the file".into());
        }
        let f = well_formed(&flat, &bytes, 0, h.degree())?;
        obs.nontrivial = calls.len() > first + 1;
        obs.class_if(f.series.is_empty(), "file without series");
        obs.class_if(flat.devs.is_empty(), "empty schema");
        obs.class_if(disk, "on disk");
        obs.add("calls after close", (calls.len() - first - 1) as u64);
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------- C18

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Shift {
    Base { h: Hist, base: u64 },
    /// really more than 4 GiB: points in millions
    Huge { millions: u32 },
}

pub struct C18;
impl Prop for C18 {
    type Case = Shift;
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "each history is written to a sink at position 0 and to one at a base position (around 2^31, 2^32, 2^40, up to 2^62): the second file must equal the first with every offset field increased by the base; non-trivial: at least one series"
    }
    fn shards(&self) -> usize {
        8
    }
    fn quick_scale(&self) -> f64 {
        8.0
    }
    fn phases(&self, t: Tier) -> Vec<Phase<Shift>> {
        let base = || {
            prop_oneof![
                3 => (any::<u32>()).prop_map(|x| (1u64 << 31) - 300 + x as u64 % 600),
                3 => (any::<u32>()).prop_map(|x| (1u64 << 32) - 300 + x as u64 % 600),
                1 => (any::<u32>()).prop_map(|x| (1u64 << 33) - 300 + x as u64 % 600),
                1 => Just((1u64 << 31) - 1),
                1 => Just(1u64 << 32),
                2 => (any::<u64>(), 8u32..62).prop_map(|(x, w)| x >> (64 - w)),
                1 => Just(1u64 << 53),
            ]
            .boxed()
        };
        let mk = move |h: BoxedStrategy<Hist>| (h, base()).prop_map(|(h, base)| Shift::Base { h, base });
        let mut v = vec![
            phase("histories", 16_000, 300_000, mk(hist(schema_strat(4, 5, 0), op_strat(OpMix { pages: 0, ..GOOD }), 0..=16))),
            phase("many series", 1600, 30_000, mk(wide(20, 20))),
            phase("many devices", 80, 2000, mk(wide(600, 2))),
            phase("several pages", 240, 5000, mk(pages())),
            heavy("automatic flushes", 4, 60, mk(crate::auto::auto_hist(160..230))),
        ];
        if t == Tier::Thorough {
            v.push(phase("more than 4 GiB", 0, 1, Just(Shift::Huge { millions: 560 })));
        }
        v
    }
    #[cfg(feature = "sink")]
    fn check(&self, c: &Shift, obs: &mut Obs) -> Result<(), String> {
        match c {
            Shift::Base { h, base } => {
                let (a, b) = match &h.auto {
                    Some(x) => crate::auto::two_bases(x, *base, obs)?,
                    None => {
                        let (flat, calls) = h.expand();
                        let a = run_ok(&flat, &calls, h.how())?;
                        let b = run_ok(&flat, &calls, How { base: *base, ..h.how() })?;
                        if a.results != b.results {
                            return Err("results depend on the position".into());
                        }
                        (a.bytes, b.bytes)
                    }
                };
                let f = reader::file(&a, 0, if h.auto.is_some() { 256 } else { h.degree() })?;
                let mut want = a;
                let fields = f.offset_fields();
                for p in &fields {
                    let o = u64::from_be_bytes(want[*p..*p + 8].try_into().unwrap());
                    want[*p..*p + 8].copy_from_slice(&o.wrapping_add(*base).to_be_bytes());
                }
                if want != b {
                    let i = (0..want.len().max(b.len())).find(|i| want.get(*i) != b.get(*i)).unwrap();
                    let field = fields.iter().find(|p| **p <= i && i < **p + 8);
                    return Err(match field {
                        Some(p) if b.len() >= *p + 8 => format!(
                            "base {}: offset field at {} is {} instead of {}",
                            base,
                            p,
                            u64::from_be_bytes(b[*p..*p + 8].try_into().unwrap()),
                            u64::from_be_bytes(want[*p..*p + 8].try_into().unwrap())
                        ),
                        _ => format!("base {}: the files differ at {} outside of the offsets ({} and {} bytes)", base, i, want.len(), b.len()),
                    });
                }
                obs.nontrivial = !f.series.is_empty();
                obs.add("offsets", fields.len() as u64);
                obs.class(match *base {
                    0..=0x7fff_fdff => "base below 2 GiB",
                    0x7fff_fe00..=0x8000_0200 => "base around 2 GiB",
                    0x8000_0201..=0xffff_fdff => "base between 2 and 4 GiB",
                    0xffff_fe00..=0x1_0000_0200 => "base around 4 GiB",
                    _ => "base above 4 GiB",
                });
                Ok(())
            }
            Shift::Huge { millions } => huge(*millions, obs),
        }
    }
    #[cfg(not(feature = "sink"))]
    fn check(&self, c: &Shift, _obs: &mut Obs) -> Result<(), String> {
        match c {
            Shift::Base { h, .. } if h.auto.is_some() => Ok(()),
            Shift::Base { h, .. } => {
                let (flat, calls) = h.expand();
                let a = run_ok(&flat, &calls, h.how())?;
                reader::file(&a.bytes, 0, h.degree()).map(|_| ())
            }
            _ => Ok(()),
        }
    }
}

/// A file of more than 4 GiB: the chunks named by the index must be where it says.
#[cfg(feature = "sink")]
fn huge(millions: u32, obs: &mut Obs) -> Result<(), String> {
    use tsfile_writer::writer::tsfile_writer::TsFileWriter;
    use tsfile_writer::writer::IoTDBValue;
    let flat = SchemaSpec::Explicit(vec![DevSpec {
        name: "d".into(),
        meas: vec![MeasSpec { name: "s".into(), dt: DT::I64, enc: Enc::Plain, comp: Comp::Un }],
    }])
    .expand();
    let sink = Sink::new(Mode::Plain, 0);
    sink.0.borrow_mut().cap = 6 << 30;
    let n = millions as i64 * 1_000_000;
    {
        let mut w = TsFileWriter::verif_from_writer(flat.build(0), sink.clone(), config(None)).map_err(|e| format!("{:?}", kind(&e)))?;
        for i in 0..n {
            w.write("d", "s", i, IoTDBValue::LONG(i.wrapping_mul(0x9E3779B97F4A7C15u64 as i64)))
                .map_err(|e| format!("point {}: {:?}", i, kind(&e)))?;
        }
        w.close().res().map_err(|e| format!("close: {:?}", kind(&e)))?;
    }
    let bytes = sink.take();
    if bytes.len() < 1 << 32 {
        return Err(format!("only {} bytes", bytes.len()));
    }
    let f = reader::footer(&bytes)?;
    let m = reader::find(&bytes, 0, &f, "d", "s")?.ok_or("series not found")?;
    let mut next = 0i64;
    for (off, _, st) in &m.chunks {
        let mut cur = reader::Cur::new(&bytes, *off as usize, f.footer);
        let marker = cur.u8()?;
        if marker != 1 && marker != 5 {
            return Err(format!("offset {} leads to marker {}", off, marker));
        }
        let ch = reader::chunk(&mut cur, *off as usize, marker, "d", 0)?;
        let pts: Vec<(i64, u64)> = ch.points().copied().collect();
        for (t, v) in &pts {
            if *t != next || *v != (next.wrapping_mul(0x9E3779B97F4A7C15u64 as i64)) as u64 {
                return Err(format!("point {} is ({}, {:#x})", next, t, v));
            }
            next += 1;
        }
        if let Some(st) = st {
            check_stats(&format!("chunk at {}", off), DT::I64, &pts, st)?;
        }
    }
    if next != n {
        return Err(format!("{} points of {}", next, n));
    }
    obs.nontrivial = true;
    obs.add("bytes of the huge file", bytes.len() as u64);
    obs.add("chunks of the huge file", m.chunks.len() as u64);
    Ok(())
}
