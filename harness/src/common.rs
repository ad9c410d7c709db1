//! What several properties share: histories, accepted points, recomputed statistics.
use crate::exec::*;
use crate::model::*;
use crate::reader::{self, Stats};
use crate::run::Obs;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    pub schema: SchemaSpec,
    pub ops: Vec<Op>,
    /// maximum number of children of an index node, None: the default (256)
    pub degree: Option<u16>,
    pub perm: u64,
    /// instead of all that, a long run with automatic flushes
    #[serde(default)]
    pub auto: Option<crate::auto::Auto>,
}

impl Hist {
    pub fn none() -> Hist {
        Hist {
            schema: SchemaSpec::Explicit(vec![]),
            ops: vec![],
            degree: None,
            perm: 0,
            auto: None,
        }
    }
    pub fn degree(&self) -> usize {
        if cfg!(feature = "degree") {
            self.degree.map(|d| d.max(2) as usize).unwrap_or(256)
        } else {
            256
        }
    }
    pub fn how(&self) -> How {
        How {
            perm: self.perm,
            degree: self.degree.map(|d| d.max(2) as usize),
            ..DEFAULT
        }
    }
    /// flattened schema, calls ending with close
    pub fn expand(&self) -> (Flat, Vec<Call>) {
        let flat = self.schema.expand();
        let mut calls = resolve(&flat, &self.ops);
        calls.push(Call::Close);
        (flat, calls)
    }
}

pub fn degree_strat() -> BoxedStrategy<Option<u16>> {
    prop_oneof![
        3 => Just(None),
        2 => (2u16..6).prop_map(Some),
        1 => (2u16..40).prop_map(Some),
    ]
    .boxed()
}

pub fn hist(
    schema: BoxedStrategy<SchemaSpec>,
    ops: BoxedStrategy<Op>,
    len: std::ops::RangeInclusive<usize>,
) -> BoxedStrategy<Hist> {
    (
        schema,
        proptest::collection::vec(ops, len),
        degree_strat(),
        any::<u64>(),
    )
        .prop_map(|(schema, ops, degree, perm)| Hist {
            schema,
            ops,
            degree,
            perm,
            auto: None,
        })
        .boxed()
}

/// Large schemas where nearly every series gets a few points
pub fn wide(max_dev: u32, max_meas: u32) -> BoxedStrategy<Hist> {
    let touch = |lo: u8| {
        (lo..=255, any::<u8>(), any::<u64>()).prop_map(|(frac, n, seed)| Op::Touch { frac, n, seed })
    };
    (
        grid_strat(max_dev, max_meas),
        prop_oneof![
            3 => touch(250).prop_map(|t| vec![t]),
            3 => touch(10).prop_map(|t| vec![t]),
            1 => (touch(120), touch(10)).prop_map(|(a, b)| vec![a, Op::Flush, b]),
        ],
        degree_strat(),
        any::<u64>(),
    )
        .prop_map(|(schema, ops, degree, perm)| Hist {
            schema,
            ops,
            degree,
            perm,
            auto: None,
        })
        .boxed()
}

/// Several pages per chunk: a few series, long runs
pub fn pages() -> BoxedStrategy<Hist> {
    (
        schema_strat(1, 2, 0),
        proptest::collection::vec(
            prop_oneof![
                5 => bulk_strat(page_len()),
                3 => edge_strat(),
                2 => bulk_strat(block_len()),
                1 => Just(Op::Flush),
            ],
            1..=4,
        ),
        degree_strat(),
        any::<u64>(),
    )
        .prop_map(|(schema, ops, degree, perm)| Hist {
            schema,
            ops,
            degree,
            perm,
            auto: None,
        })
        .boxed()
}

/// Hundreds of chunks per series
pub fn flushes(n: std::ops::Range<u32>) -> BoxedStrategy<Hist> {
    let n = prop_oneof![2 => n.clone(), 1 => crate::dict::int_in(n.start as u64, n.end as u64).prop_map(|n| n as u32)];
    (schema_strat(2, 2, 0), n, any::<u64>(), degree_strat())
        .prop_map(|(schema, n, seed, degree)| Hist {
            schema,
            ops: vec![Op::Cycles { n, seed }],
            degree,
            perm: seed,
            auto: None,
        })
        .boxed()
}

fn many_len() -> BoxedStrategy<u32> {
    prop_oneof![
        3 => 400_000u32..1_600_000,
        2 => (16u32..=20, 0u32..3).prop_map(|(k, d)| (1 << k) + d - 1),
        1 => crate::dict::int_in(60_000, 2_000_000).prop_map(|n| n as u32),
    ]
    .boxed()
}

/// Hundreds of pages in a chunk
pub fn many_pages() -> BoxedStrategy<Hist> {
    (
        schema_strat(1, 2, 0),
        proptest::collection::vec(
            (any::<u16>(), many_len(), (8u8..62).prop_map(TP::Rand), vp_strat(), any::<u64>()),
            1..=2,
        ),
        any::<u64>(),
    )
        .prop_map(|(schema, ops, perm)| Hist {
            schema,
            ops: ops
                .into_iter()
                .map(|(s, n, tp, vp, seed)| Op::Bulk { s, n, tp, vp, seed })
                .collect(),
            degree: None,
            perm,
            auto: None,
        })
        .boxed()
}

/// More series than 16 bits can count
pub fn very_wide() -> BoxedStrategy<Hist> {
    (
        prop_oneof![
            (65_500u32..70_000, Just(1u32)),
            (Just(1u32), 65_500u32..70_000),
            (256u32..270, 256u32..270),
        ],
        any::<u8>(),
        any::<u64>(),
        degree_strat(),
    )
        .prop_map(|((nd, nm), style, seed, degree)| Hist {
            schema: SchemaSpec::Grid { nd, nm, style, seed },
            ops: vec![Op::Touch { frac: 255, n: 0, seed }],
            degree,
            perm: 0,
            auto: None,
        })
        .boxed()
}

/// Many calls that the model refuses become single writes, so that every result tells about one
/// point (or all points were accepted)
pub fn split_refused_many(flat: &Flat, calls: Vec<Call>) -> Vec<Call> {
    let mut model = Model::new(flat);
    let mut out = vec![];
    for c in calls {
        match &c {
            Call::Many(d, t, items) => {
                let before = model.last.clone();
                if model.write_many(d, *t, items).1.is_err() {
                    model.last = before;
                    for (m, v) in items {
                        let r = model.write(d, m, *t, *v);
                        out.push(Call::Write(d.clone(), m.clone(), *t, *v));
                        if r.is_err() {
                            break;
                        }
                    }
                    continue;
                }
            }
            Call::Write(d, m, t, v) => {
                let _ = model.write(d, m, *t, *v);
            }
            Call::Points(s, p) => {
                if let Some(x) = p.last() {
                    model.last[*s] = x.0;
                }
            }
            _ => {}
        }
        out.push(c);
    }
    out
}

/// The points per series whose write returned success
pub fn accepted(flat: &Flat, calls: &[Call], out: &Outcome) -> Result<Vec<Vec<(i64, u64)>>, String> {
    let index = flat.index();
    let mut pts = vec![vec![]; flat.series.len()];
    let get = |d: &str, m: &str| -> Result<usize, String> {
        index
            .get(&(d.to_string(), m.to_string()))
            .copied()
            .ok_or_else(|| format!("a write to unknown series {:?} {:?} succeeded", d, m))
    };
    for (c, r) in calls.iter().zip(&out.results) {
        match c {
            Call::Write(d, m, t, v) => {
                if r.is_ok() {
                    pts[get(d, m)?].push((*t, v.bits()));
                }
            }
            Call::Many(d, t, items) => {
                if r.is_ok() {
                    for (m, v) in items {
                        pts[get(d, m)?].push((*t, v.bits()));
                    }
                }
            }
            Call::Points(s, p) => match r {
                Ok(()) => pts[*s].extend_from_slice(p),
                Err(e) => return Err(format!("an admissible point was refused: {:?}", e)),
            },
            Call::Flush | Call::Close => {
                if let Err(e) = r {
                    return Err(format!("{:?} failed: {:?}", c, e));
                }
            }
        }
    }
    Ok(pts)
}

/// Runs on a healthy sink; the writer must be creatable and closable.
pub fn run_ok(flat: &Flat, calls: &[Call], how: How) -> Result<Outcome, String> {
    let out = execute(flat, calls, how);
    if let Err(e) = out.created {
        return Err(format!("the writer cannot be created: {:?}", e));
    }
    for (c, r) in calls.iter().zip(&out.results) {
        if let (Call::Close | Call::Flush, Err(e)) = (c, r) {
            return Err(format!("{:?} failed on a healthy sink: {:?}", c, e));
        }
    }
    Ok(out)
}

pub fn show(pts: &[(i64, u64)], i: usize) -> String {
    match pts.get(i) {
        Some((t, v)) => format!("({}, {:#x})", t, v),
        None => "nothing".into(),
    }
}

pub fn same_points(what: &str, got: &[(i64, u64)], want: &[(i64, u64)]) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let i = (0..got.len().max(want.len()))
        .find(|i| got.get(*i) != want.get(*i))
        .unwrap();
    Err(format!(
        "{}: {} points instead of {}, point {} is {} instead of {}",
        what,
        got.len(),
        want.len(),
        i,
        show(got, i),
        show(want, i)
    ))
}

pub fn same_bytes(what: &str, a: &[u8], b: &[u8]) -> Result<(), String> {
    if a == b {
        return Ok(());
    }
    let i = (0..a.len().max(b.len()))
        .find(|i| a.get(*i) != b.get(*i))
        .unwrap();
    Err(format!(
        "{}: {} and {} bytes, first difference at {}",
        what,
        a.len(),
        b.len(),
        i
    ))
}

/// Recomputes statistics and compares
pub fn check_stats(what: &str, dt: DT, pts: &[(i64, u64)], st: &Stats) -> Result<(), String> {
    macro_rules! bad {
        ($f:expr, $got:expr, $want:expr) => {
            return Err(format!(
                "{}: {} is {:?}, should be {:?} ({} points)",
                what,
                $f,
                $got,
                $want,
                pts.len()
            ))
        };
    }
    if st.count as usize != pts.len() {
        bad!("count", st.count, pts.len());
    }
    if pts.is_empty() {
        return Err(format!("{}: statistics of nothing", what));
    }
    let (f, l) = (pts[0], pts[pts.len() - 1]);
    if st.t0 != f.0 {
        bad!("first timestamp", st.t0, f.0);
    }
    if st.t1 != l.0 {
        bad!("last timestamp", st.t1, l.0);
    }
    match dt {
        DT::I32 | DT::I64 => {
            if st.first != f.1 {
                bad!("first value", st.first as i64, f.1 as i64);
            }
            if st.last != l.1 {
                bad!("last value", st.last as i64, l.1 as i64);
            }
            let min = pts.iter().map(|p| p.1 as i64).min().unwrap();
            let max = pts.iter().map(|p| p.1 as i64).max().unwrap();
            if st.min as i64 != min {
                bad!("minimum", st.min as i64, min);
            }
            if st.max as i64 != max {
                bad!("maximum", st.max as i64, max);
            }
            if dt == DT::I32 {
                let sum: i64 = pts.iter().map(|p| p.1 as i64).sum();
                if st.sum as i64 != sum {
                    bad!("sum", st.sum as i64, sum);
                }
            } else {
                let sum: i128 = pts.iter().map(|p| p.1 as i64 as i128).sum();
                let abs: f64 = pts.iter().map(|p| (p.1 as i64 as f64).abs()).sum();
                let got = f64::from_bits(st.sum);
                let tol = abs * (pts.len() as f64 + 2.0) * f64::EPSILON;
                if !((got - sum as f64).abs() <= tol) {
                    bad!("sum", got, sum);
                }
            }
        }
        DT::F32 => {
            if st.first != f.1 {
                bad!("bits of the first value", st.first, f.1);
            }
            if st.last != l.1 {
                bad!("bits of the last value", st.last, l.1);
            }
            let v: Vec<f32> = pts.iter().map(|p| f32::from_bits(p.1 as u32)).collect();
            let nan = v.iter().any(|x| x.is_nan());
            if !nan {
                let min = v.iter().copied().fold(v[0], |a, b| if b < a { b } else { a });
                let max = v.iter().copied().fold(v[0], |a, b| if b > a { b } else { a });
                let (gmin, gmax) = (f32::from_bits(st.min as u32), f32::from_bits(st.max as u32));
                if gmin != min {
                    bad!("minimum", gmin, min);
                }
                if gmax != max {
                    bad!("maximum", gmax, max);
                }
            }
            let got = f64::from_bits(st.sum);
            let (pi, ni) = (v.contains(&f32::INFINITY), v.contains(&f32::NEG_INFINITY));
            let sum: f64 = v.iter().map(|x| *x as f64).sum();
            if nan || (pi && ni) {
                if !got.is_nan() {
                    bad!("sum", got, "NaN");
                }
            } else if pi || ni {
                let w = if pi { f64::INFINITY } else { f64::NEG_INFINITY };
                if got != w {
                    bad!("sum", got, w);
                }
            } else {
                let abs: f64 = v.iter().map(|x| (*x as f64).abs()).sum();
                let tol = abs * (pts.len() as f64 + 2.0) * f64::EPSILON;
                if !((got - sum).abs() <= tol) {
                    bad!("sum", got, sum);
                }
            }
        }
    }
    Ok(())
}

/// Facts of a case for the evidence
pub fn classify(obs: &mut Obs, flat: &Flat, calls: &[Call], pts: &[Vec<(i64, u64)>]) {
    let with: usize = pts.iter().filter(|p| !p.is_empty()).count();
    obs.add("points", pts.iter().map(|p| p.len() as u64).sum());
    obs.add("series with data", with as u64);
    obs.class_if(with == 0, "no data");
    obs.class_if(with > 1, "several series");
    obs.class_if(with > 256, "more than 256 series");
    obs.class_if(flat.devs.len() > 256, "more than 256 devices");
    obs.class_if(pts.iter().any(|p| p.len() > 129), "more than one block");
    obs.class_if(pts.iter().any(|p| p.len() > 8500), "several pages likely");
    obs.class_if(
        calls.iter().filter(|c| matches!(c, Call::Flush)).count() > 0,
        "flush before close",
    );
    obs.class_if(
        flat.series.iter().any(|(d, m)| {
            flat.devs[*d].name.contains('.') || flat.devs[*d].meas[*m].name.contains('.')
        }),
        "dots in names",
    );
    obs.class_if(
        flat.devs
            .iter()
            .any(|d| !d.name.is_ascii() || d.meas.iter().any(|m| !m.name.is_ascii())),
        "non-ASCII names",
    );
    for s in 0..pts.len() {
        if !pts[s].is_empty() {
            let m = flat.ms(s);
            obs.class(match (m.dt, m.enc) {
                (DT::I32, Enc::Plain) => "INT32 PLAIN",
                (DT::I32, Enc::Diff) => "INT32 TS_2DIFF",
                (DT::I64, Enc::Plain) => "INT64 PLAIN",
                (DT::I64, Enc::Diff) => "INT64 TS_2DIFF",
                (DT::F32, _) => "FLOAT PLAIN",
            });
        }
    }
    obs.classes.sort();
    obs.classes.dedup();
}

/// The points of all series by scanning
pub fn by_scan(
    flat: &Flat,
    scan: &reader::Scan,
) -> Result<Vec<Vec<(i64, u64)>>, String> {
    let index = flat.index();
    let mut pts = vec![vec![]; flat.series.len()];
    for c in &scan.chunks {
        match index.get(&(c.dev.clone(), c.meas.clone())) {
            None => return Err(format!("chunk at {} of unknown series {:?} {:?}", c.pos, c.dev, c.meas)),
            Some(s) => pts[*s].extend(c.points().copied()),
        }
    }
    Ok(pts)
}
