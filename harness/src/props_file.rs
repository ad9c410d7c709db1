//! C01 - C05, C13, C14: what is in the file
use crate::common::*;
use crate::model::*;
use crate::reader::{self, Chunk};
use crate::run::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

fn small_schema() -> BoxedStrategy<SchemaSpec> {
    schema_strat(6, 6, 0)
}

/// the usual mixture of histories for properties of the file
fn file_phases(small: (u32, u32), page: (u32, u32), wide_: (u32, u32)) -> Vec<Phase<Hist>> {
    vec![
        phase(
            "histories",
            small.0,
            small.1,
            hist(small_schema(), op_strat(GOOD), 0..=24),
        ),
        phase(
            "histories with refused points",
            small.0 / 2,
            small.1 / 2,
            hist(small_schema(), op_strat(WITH_BAD), 0..=30),
        ),
        phase("several pages", page.0, page.1, pages()),
        phase("many series", wide_.0, wide_.1, wide(24, 24)),
        phase("many devices", wide_.0 / 4 + 1, wide_.1 / 4, wide(600, 3)),
        phase("many measurements", wide_.0 / 4 + 1, wide_.1 / 4, wide(3, 600)),
        heavy("hundreds of chunks", 48, 1000, flushes(100..1200)),
        heavy("tens of thousands of chunks", 2, 20, flushes(65_500..66_500)),
        heavy("hundreds of pages", 12, 200, many_pages()),
        heavy("tens of thousands of series", 4, 40, very_wide()),
    ]
}

// ------------------------------------------------------------------------------------------- C01

pub struct C01;
impl Prop for C01 {
    type Case = Hist;
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "random schema and history, then every series is read back through the index by an independent reader and compared with the points whose write returned Ok; non-trivial: at least two series with data or more than 129 points in a series or a flush before close"
    }
    fn quick_scale(&self) -> f64 {
        4.0
    }
    fn phases(&self, _t: Tier) -> Vec<Phase<Hist>> {
        let mut v = file_phases((7000, 150_000), (320, 8000), (480, 12_000));
        v.push(heavy("automatic flushes", 6, 100, crate::auto::auto_hist(140..230)));
        v
    }
    fn check(&self, h: &Hist, obs: &mut Obs) -> Result<(), String> {
        if let Some(a) = &h.auto {
            return crate::auto::check_stored(a, obs);
        }
        let (flat, calls) = h.expand();
        let calls = split_refused_many(&flat, calls);
        let out = run_ok(&flat, &calls, h.how())?;
        let pts = accepted(&flat, &calls, &out)?;
        classify(obs, &flat, &calls, &pts);
        obs.nontrivial = pts.iter().filter(|p| !p.is_empty()).count() > 1
            || pts.iter().any(|p| p.len() > 129)
            || calls.contains(&Call::Flush);
        let f = reader::footer(&out.bytes)?;
        for (s, want) in pts.iter().enumerate() {
            let what = format!("series {:?} {:?}", flat.dev(s), flat.meas(s));
            let got = reader::read_series(&out.bytes, 0, &f, flat.dev(s), flat.meas(s))
                .map_err(|e| format!("{}: {}", what, e))?;
            match got {
                None if want.is_empty() => {}
                None => return Err(format!("{} with {} points is not in the file", what, want.len())),
                Some(got) => same_points(&what, &got, want)?,
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------- C02

pub struct C02;

pub fn well_formed(
    flat: &Flat,
    bytes: &[u8],
    base: u64,
    degree: usize,
) -> Result<reader::File, String> {
    let f = reader::file(bytes, base, degree)?;
    let index = flat.index();
    let groups = &f.scan.groups;
    for (pos, d) in groups {
        if !flat.devs.iter().any(|x| &x.name == d) {
            return Err(format!("chunk group at {} of unknown device {:?}", pos, d));
        }
    }
    let mut in_group: BTreeSet<(usize, &str)> = BTreeSet::new();
    let mut by_pos: BTreeMap<u64, &Chunk> = BTreeMap::new();
    for c in &f.scan.chunks {
        let s = match index.get(&(c.dev.clone(), c.meas.clone())) {
            Some(s) => *s,
            None => {
                return Err(format!(
                    "chunk at {} of unknown series {:?} {:?}",
                    c.pos, c.dev, c.meas
                ))
            }
        };
        let ms = flat.ms(s);
        if (c.dt, c.enc, c.comp) != (ms.dt, ms.enc, ms.comp) {
            return Err(format!(
                "chunk at {} is {:?} {:?} {:?}, the schema says {:?} {:?} {:?}",
                c.pos, c.dt, c.enc, c.comp, ms.dt, ms.enc, ms.comp
            ));
        }
        if !in_group.insert((c.group, &c.meas)) {
            return Err(format!("two chunks of {:?} in one chunk group", c.meas));
        }
        by_pos.insert(base + c.pos as u64, c);
    }
    let mut seen: BTreeSet<(&str, &str)> = BTreeSet::new();
    for m in &f.series {
        if !seen.insert((&m.dev, &m.meas)) {
            return Err(format!("series {:?} {:?} twice in the index", m.dev, m.meas));
        }
        for (off, _, _) in &m.chunks {
            match by_pos.remove(off) {
                None => {
                    return Err(format!(
                        "series {:?} {:?}: no (other) chunk at offset {}",
                        m.dev, m.meas, off
                    ))
                }
                Some(c) => {
                    if c.dev != m.dev || c.meas != m.meas || c.dt != m.dt {
                        return Err(format!(
                            "series {:?} {:?} {:?} refers to a chunk of {:?} {:?} {:?}",
                            m.dev, m.meas, m.dt, c.dev, c.meas, c.dt
                        ));
                    }
                }
            }
        }
    }
    if let Some((off, c)) = by_pos.iter().next() {
        return Err(format!(
            "the chunk of {:?} {:?} at {} is not in the index",
            c.dev, c.meas, off
        ));
    }
    Ok(f)
}

impl Prop for C02 {
    type Case = Hist;
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "random schema and history, the closed file is parsed completely front to back and through the footer by a strict independent reader: all bytes accounted for, chunks of the scan and of the index in bijection, agreement with the schema; non-trivial: at least two chunks"
    }
    fn quick_scale(&self) -> f64 {
        5.0
    }
    fn phases(&self, _t: Tier) -> Vec<Phase<Hist>> {
        let mut v = file_phases((7000, 150_000), (320, 8000), (480, 12_000));
        v.push(heavy("automatic flushes", 6, 100, crate::auto::auto_hist(140..230)));
        v
    }
    fn check(&self, h: &Hist, obs: &mut Obs) -> Result<(), String> {
        if let Some(a) = &h.auto {
            return crate::auto::check_wellformed(a, obs);
        }
        let (flat, calls) = h.expand();
        let out = run_ok(&flat, &calls, h.how())?;
        let f = well_formed(&flat, &out.bytes, 0, h.degree())?;
        obs.nontrivial = f.scan.chunks.len() > 1;
        obs.class_if(f.scan.chunks.iter().any(|c| c.pages.len() == 2), "chunk of two pages");
        obs.class_if(f.scan.chunks.iter().any(|c| c.pages.len() > 2), "chunk of more pages");
        obs.class_if(f.series.iter().any(|c| c.chunks.len() > 1), "series of several chunks");
        obs.class_if(f.depth > 3, "index deeper than 3");
        obs.class_if(f.series.is_empty(), "no series");
        obs.add("chunks", f.scan.chunks.len() as u64);
        obs.add("bytes", out.bytes.len() as u64);
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------- C03

pub struct C03;
impl Prop for C03 {
    type Case = Hist;
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "random schema and history, every statistics block (page, chunk, series) is compared with statistics recomputed from the decoded points; non-trivial: at least one statistics block over two or more points"
    }
    fn quick_scale(&self) -> f64 {
        6.0
    }
    fn phases(&self, _t: Tier) -> Vec<Phase<Hist>> {
        let mut v = file_phases((6000, 150_000), (320, 8000), (240, 6000));
        // few points, many special values, several chunks
        v.push(phase(
            "special values",
            8000,
            200_000,
            hist(
                schema_strat(1, 2, 0),
                prop_oneof![
                    8 => (any::<u16>(), t_ext_strat(), any::<u8>().prop_map(V::Special)).prop_map(|(s, t, v)| Op::W { s, t, v }),
                    1 => Just(Op::Flush),
                ]
                .boxed(),
                1..=10,
            ),
        ));
        v
    }
    fn check(&self, h: &Hist, obs: &mut Obs) -> Result<(), String> {
        let (flat, calls) = h.expand();
        let out = run_ok(&flat, &calls, h.how())?;
        let f = reader::file(&out.bytes, 0, h.degree())?;
        let by_pos: BTreeMap<u64, &Chunk> =
            f.scan.chunks.iter().map(|c| (c.pos as u64, c)).collect();
        let (mut np, mut nc) = (0, 0);
        for c in &f.scan.chunks {
            for (i, p) in c.pages.iter().enumerate() {
                if let Some(st) = &p.stats {
                    np += 1;
                    check_stats(
                        &format!("page {} of the chunk of {:?} {:?} at {}", i, c.dev, c.meas, c.pos),
                        c.dt,
                        &p.points,
                        st,
                    )?;
                }
            }
        }
        for m in &f.series {
            let mut all = vec![];
            for (off, _, st) in &m.chunks {
                let c = by_pos
                    .get(off)
                    .ok_or_else(|| format!("no chunk at offset {}", off))?;
                let pts: Vec<(i64, u64)> = c.points().copied().collect();
                if let Some(st) = st {
                    nc += 1;
                    check_stats(&format!("chunk metadata of {:?} {:?} at {}", m.dev, m.meas, off), m.dt, &pts, st)?;
                }
                all.extend(pts);
            }
            check_stats(&format!("series metadata of {:?} {:?}", m.dev, m.meas), m.dt, &all, &m.stats)?;
            obs.nontrivial |= all.len() > 1;
            if m.dt == DT::F32 {
                obs.class_if(all.iter().any(|p| f32::from_bits(p.1 as u32).is_nan()), "series with NaN");
                obs.class_if(
                    all.iter().all(|p| f32::from_bits(p.1 as u32) == f32::INFINITY),
                    "series of positive infinities only",
                );
                obs.class_if(
                    all.iter().all(|p| f32::from_bits(p.1 as u32) == f32::NEG_INFINITY),
                    "series of negative infinities only",
                );
            }
            obs.class_if(all[all.len() - 1].0 == i64::MAX, "largest timestamp");
        }
        obs.add("page statistics", np);
        obs.add("chunk statistics", nc);
        obs.add("series statistics", f.series.len() as u64);
        obs.classes.sort();
        obs.classes.dedup();
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------- C04

pub struct C04;
impl Prop for C04 {
    type Case = Hist;
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "random schemas (up to 900 devices or measurements, any names) and index degrees from 2; each series is searched by descending the index with binary search as readers do, it must be found exactly if it has data; node order, degree, extents checked; non-trivial: index deeper than 3 levels or at least 8 series with data"
    }
    fn quick_scale(&self) -> f64 {
        1.5
    }
    fn phases(&self, _t: Tier) -> Vec<Phase<Hist>> {
        vec![
            phase(
                "any names",
                7000,
                120_000,
                hist(
                    schema_strat(14, 10, 0),
                    prop_oneof![
                        3 => (any::<u8>(), any::<u8>(), any::<u64>()).prop_map(|(frac, n, seed)| Op::Touch { frac, n, seed }),
                        3 => (any::<u16>(), t_ok_strat(), v_strat()).prop_map(|(s, t, v)| Op::W { s, t, v }),
                        1 => Just(Op::Flush),
                    ]
                    .boxed(),
                    1..=10,
                ),
            ),
            phase("many series", 2400, 50_000, wide(40, 40)),
            heavy("tens of thousands of series", 8, 80, very_wide()),
            heavy("hundreds of chunks", 16, 400, flushes(100..1200)),
            phase("many devices", 240, 4000, wide(900, 4)),
            phase("many measurements", 240, 4000, wide(4, 900)),
            phase(
                "around the degree",
                240,
                3000,
                (
                    prop_oneof![Just((256u32, 1u32)), Just((257, 1)), Just((255, 1)), Just((512, 1)), Just((513, 2)), Just((1, 256)), Just((1, 257)), Just((1, 512)), Just((2, 513)), Just((256, 2)), Just((258, 258)), Just((1,1)), Just((700, 2))],
                    any::<u8>(),
                    any::<u64>(),
                    200u8..=255,
                )
                    .prop_map(|((nd, nm), style, seed, frac)| Hist {
                        schema: SchemaSpec::Grid { nd, nm, style, seed },
                        ops: vec![Op::Touch { frac: if seed & 1 == 0 { 255 } else { frac }, n: 0, seed }],
                        degree: None,
                        perm: seed,
                        auto: None,
                    }),
            ),
            phase(
                "around powers of small degrees",
                2400,
                40_000,
                (2u32..8, 1u32..4, 0u32..3, any::<bool>(), any::<u8>(), any::<u64>(), any::<u8>()).prop_map(
                    |(deg, pow, off, dev, style, seed, frac)| {
                        let n = (deg.pow(pow) + off).saturating_sub(1).max(1);
                        Hist {
                            schema: if dev {
                                SchemaSpec::Grid { nd: n, nm: 1 + (seed % 3) as u32, style, seed }
                            } else {
                                SchemaSpec::Grid { nd: 1 + (seed % 3) as u32, nm: n, style, seed }
                            },
                            ops: vec![Op::Touch { frac: if seed & 3 != 0 { 255 } else { frac }, n: 0, seed }],
                            degree: Some(deg as u16),
                            perm: seed,
                            auto: None,
                        }
                    },
                ),
            ),
        ]
    }
    fn check(&self, h: &Hist, obs: &mut Obs) -> Result<(), String> {
        let (flat, calls) = h.expand();
        let out = run_ok(&flat, &calls, h.how())?;
        let pts = accepted(&flat, &calls, &out)?;
        let f = reader::footer(&out.bytes)?;
        // what has data is known from the accepted points and, independently, from the chunks
        let scan = reader::scan(&out.bytes, false)?;
        let has: BTreeSet<(&str, &str)> = scan
            .chunks
            .iter()
            .map(|c| (c.dev.as_str(), c.meas.as_str()))
            .collect();
        let at: BTreeMap<u64, (&str, &str)> = scan
            .chunks
            .iter()
            .map(|c| (c.pos as u64, (c.dev.as_str(), c.meas.as_str())))
            .collect();
        let full = reader::file(&out.bytes, 0, h.degree())?;
        let indexed: BTreeSet<(&str, &str)> = full
            .series
            .iter()
            .map(|m| (m.dev.as_str(), m.meas.as_str()))
            .collect();
        let mut n = 0;
        let mut searches = 0;
        let mut mix = Mix(h.perm);
        let all = flat.series.len();
        for s in 0..all {
            let (d, m) = (flat.dev(s), flat.meas(s));
            let want = !pts[s].is_empty() || has.contains(&(d, m));
            n += want as u32;
            if want != indexed.contains(&(d, m)) {
                return Err(format!(
                    "{:?} {:?} {} data but is {} in the index",
                    d,
                    m,
                    if want { "has" } else { "has no" },
                    if want { "not" } else { "found" },
                ));
            }
            // large schemas: a sample of the searches
            if all > 500 && s > 2 && s + 2 < all && mix.below(all as u64) > 400 {
                continue;
            }
            searches += 1;
            let got = reader::find(&out.bytes, 0, &f, d, m)
                .map_err(|e| format!("searching {:?} {:?}: {}", d, m, e))?;
            match got {
                Some(g) => {
                    if g.meas != m {
                        return Err(format!("searching {:?} {:?} finds {:?}", d, m, g.meas));
                    }
                    if !want {
                        return Err(format!("{:?} {:?} has no data but is found", d, m));
                    }
                    // it must be the metadata of this device's series
                    for (off, _, _) in &g.chunks {
                        if at.get(off) != Some(&(d, m)) {
                            return Err(format!("searching {:?} {:?} finds the metadata of another series", d, m));
                        }
                    }
                }
                None if want => return Err(format!("{:?} {:?} has data but is not found", d, m)),
                None => {}
            }
        }
        // names that are not in the file
        for (d, m) in [("", ""), ("zzzz", "s"), ("d1", "zzzz"), ("\u{10ffff}", "s1"), ("d", "s")] {
            let got = reader::find(&out.bytes, 0, &f, d, m).map_err(|e| format!("searching {:?} {:?}: {}", d, m, e))?;
            if got.is_some() && !has.contains(&(d, m)) {
                return Err(format!("{:?} {:?} does not exist but is found", d, m));
            }
        }
        obs.nontrivial = full.depth > 3 || n >= 8;
        obs.class(match full.depth {
            0..=2 => "depth 2",
            3 => "depth 3",
            4 => "depth 4",
            5..=6 => "depth 5 or 6",
            _ => "depth 7 or more",
        });
        obs.class_if(
            full.nodes.iter().chain([&full.root]).any(|n| n.kind == reader::NodeKind::InternalDevice),
            "inner device nodes",
        );
        obs.class_if(
            full.nodes.iter().any(|n| n.kind == reader::NodeKind::InternalMeasurement),
            "inner measurement nodes",
        );
        obs.class_if(h.degree.is_none(), "default degree");
        obs.add("searches", searches);
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------- C05

fn murmur128(key: &[u8], seed: u64, signed: bool) -> u64 {
    let c1 = 0x87c37b91114253d5u64;
    let c2 = 0x4cf5ad432745937fu64;
    let (mut h1, mut h2) = (seed, seed);
    let n = key.len() / 16;
    for i in 0..n {
        let g = |j: usize| u64::from_le_bytes(key[16 * i + j..16 * i + j + 8].try_into().unwrap());
        let k1 = g(0).wrapping_mul(c1).rotate_left(31).wrapping_mul(c2);
        h1 ^= k1;
        h1 = h1.rotate_left(27).wrapping_add(h2).wrapping_mul(5).wrapping_add(0x52dce729);
        let k2 = g(8).wrapping_mul(c2).rotate_left(33).wrapping_mul(c1);
        h2 ^= k2;
        h2 = h2.rotate_left(31).wrapping_add(h1).wrapping_mul(5).wrapping_add(0x38495ab5);
    }
    let tail = &key[n * 16..];
    let b = |i: usize| -> u64 {
        if signed {
            tail[i] as i8 as i64 as u64
        } else {
            tail[i] as u64
        }
    };
    let (mut k1, mut k2) = (0u64, 0u64);
    for i in (8..tail.len()).rev() {
        k2 ^= b(i) << (8 * (i - 8));
    }
    if tail.len() > 8 {
        h2 ^= k2.wrapping_mul(c2).rotate_left(33).wrapping_mul(c1);
    }
    for i in (0..tail.len().min(8)).rev() {
        k1 ^= b(i) << (8 * i);
    }
    if !tail.is_empty() {
        h1 ^= k1.wrapping_mul(c1).rotate_left(31).wrapping_mul(c2);
    }
    h1 ^= key.len() as u64;
    h2 ^= key.len() as u64;
    h1 = h1.wrapping_add(h2);
    h2 = h2.wrapping_add(h1);
    let fmix = |mut k: u64| {
        k ^= k >> 33;
        k = k.wrapping_mul(0xff51afd7ed558ccd);
        k ^= k >> 33;
        k = k.wrapping_mul(0xc4ceb9fe1a85ec53);
        k ^ (k >> 33)
    };
    h1 = fmix(h1);
    h2 = fmix(h2);
    h1 = h1.wrapping_add(h2);
    h2 = h2.wrapping_add(h1);
    h1.wrapping_add(h2)
}

const SEEDS: [u64; 8] = [5, 7, 11, 19, 31, 37, 43, 59];

fn bits_of(path: &str, size: u32, k: u32, signed: bool) -> Vec<u32> {
    (0..k as usize)
        .map(|i| (murmur128(path.as_bytes(), SEEDS[i], signed) as i32).unsigned_abs() % size)
        .collect()
}

pub struct C05;
/// Schemas with paths one of whose hash values is i32::MIN, found by exhaustive search
fn min_hash() -> BoxedStrategy<Hist> {
    const FOUND: [u64; 8] = [
        10249708395, 10285492771, 60262459681, 40369344808, 60329594700, 30117983247, 60347811655, 70458481765,
    ];
    (1u8..=255, 0u8..10, any::<u64>())
        .prop_map(|(which, others, seed)| {
            let ms = |name: String| MeasSpec { name, dt: DT::I32, enc: Enc::Plain, comp: Comp::Un };
            let mut meas: Vec<MeasSpec> = (0..8)
                .filter(|i| which >> i & 1 == 1)
                .map(|i| ms(format!("s{}", FOUND[i])))
                .collect();
            meas.extend((0..others).map(|i| ms(format!("s{}", i))));
            Hist {
                schema: SchemaSpec::Explicit(vec![DevSpec { name: "d".into(), meas }]),
                ops: vec![Op::Touch { frac: 255, n: 0, seed }],
                ..Hist::none()
            }
        })
        .boxed()
}

/// Numbers of series for which the computed size lies just above or below a whole number: any
/// inexactness in its computation shows there first
fn boundary_sizes() -> BoxedStrategy<Hist> {
    let ln2 = 2f64.ln();
    let near: Vec<u32> = (41u32..60_000)
        .filter(|n| {
            let x = -(*n as f64) * 0.05f64.ln() / ln2 / ln2;
            (x - x.round()).abs() < 0.004
        })
        .collect();
    (proptest::sample::select(near), any::<u64>())
        .prop_map(|(nm, seed)| Hist {
            schema: SchemaSpec::Grid { nd: 1, nm, style: (seed >> 32) as u8, seed },
            ops: vec![Op::Touch { frac: 255, n: 0, seed }],
            ..Hist::none()
        })
        .boxed()
}

impl Prop for C05 {
    type Case = Hist;
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "random schemas; the stored filter is compared bit by bit with the one computed by an independent implementation (hash, geometry, trimming); non-trivial: at least two paths"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["paths with non-ASCII bytes in the hash tail may be hashed with signed or unsigned bytes (Java implementations differ)"]
    }
    fn quick_scale(&self) -> f64 {
        8.0
    }
    fn phases(&self, _t: Tier) -> Vec<Phase<Hist>> {
        let touch = || {
            (any::<u8>(), any::<u64>())
                .prop_map(|(frac, seed)| Op::Touch { frac, n: 0, seed })
                .boxed()
        };
        vec![
            phase("any names", 12_000, 250_000, hist(schema_strat(8, 6, 0), touch(), 0..=3)),
            phase("many series", 3000, 60_000, wide(30, 30)),
            phase("around the minimal size", 1600, 20_000, wide(50, 2)),
            phase("many devices", 160, 3000, wide(900, 2)),
            phase(
                "every path length",
                12_000,
                250_000,
                (0usize..70, 0usize..70, any::<u64>()).prop_map(|(a, b, seed)| {
                    let mut m = Mix(seed);
                    let mut name = |n: usize| -> String {
                        (0..n).map(|_| (b'!' + m.below(94) as u8) as char).collect()
                    };
                    Hist {
                        schema: SchemaSpec::Explicit(vec![DevSpec {
                            name: name(a),
                            meas: vec![MeasSpec { name: name(b), dt: DT::I32, enc: Enc::Plain, comp: Comp::Un }],
                        }]),
                        ops: vec![Op::Touch { frac: 255, n: 0, seed }],
                        degree: None,
                        perm: 0,
                        auto: None,
                    }
                }),
            ),
            phase("hash i32::MIN", 64, 2000, min_hash()),
            heavy("number of series where the size is nearly a whole number", 160, 1600, boundary_sizes()),
        ]
    }
    fn check(&self, h: &Hist, obs: &mut Obs) -> Result<(), String> {
        let (flat, calls) = h.expand();
        let out = run_ok(&flat, &calls, h.how())?;
        let pts = accepted(&flat, &calls, &out)?;
        let f = reader::footer(&out.bytes)?;
        let series: Vec<usize> = (0..pts.len()).filter(|s| !pts[*s].is_empty()).collect();
        let paths: BTreeSet<String> = series
            .iter()
            .map(|s| format!("{}.{}", flat.dev(*s), flat.meas(*s)))
            .collect();
        let geometry = |n: usize| -> u32 {
            let ln2 = 2f64.ln();
            let size = (-(n as f64) * 0.05f64.ln() / ln2 / ln2) as u32 + 1;
            size.max(256)
        };
        let k = (-(0.05f64.ln()) / 2f64.ln() + 1.0) as u32;
        // two series may have the same path; the filter may be sized by series or by paths
        if f.bloom.size != geometry(series.len()) && f.bloom.size != geometry(paths.len()) {
            return Err(format!(
                "filter of {} bits for {} series, should be {}",
                f.bloom.size,
                series.len(),
                geometry(series.len())
            ));
        }
        if f.bloom.k != k {
            return Err(format!("{} hash functions instead of {}", f.bloom.k, k));
        }
        if f.bloom.bytes.last() == Some(&0) {
            return Err("trailing zero byte in the filter".into());
        }
        let mut may: BTreeSet<u32> = BTreeSet::new();
        let has = |b: u32| -> bool {
            f.bloom.bytes.get(b as usize / 8).is_some_and(|x| x >> (b % 8) & 1 == 1)
        };
        for p in &paths {
            let u = bits_of(p, f.bloom.size, k, false);
            let s = bits_of(p, f.bloom.size, k, true);
            if !u.iter().all(|b| has(*b)) && !s.iter().all(|b| has(*b)) {
                return Err(format!("the filter denies {:?} (bits {:?} of {})", p, u, f.bloom.size));
            }
            may.extend(u);
            may.extend(s);
        }
        for b in 0..f.bloom.bytes.len() as u32 * 8 {
            if has(b) && !may.contains(&b) {
                return Err(format!("bit {} of the filter belongs to no path", b));
            }
        }
        obs.nontrivial = paths.len() > 1;
        obs.add("paths", paths.len() as u64);
        obs.class_if(f.bloom.size > 256, "more than the minimal size");
        obs.class_if(f.bloom.size % 8 != 0, "size no multiple of 8");
        obs.class_if(paths.len() < series.len(), "equal paths of different series");
        obs.class_if(paths.is_empty(), "no paths");
        if paths.len() == 1 {
            let n = paths.iter().next().unwrap().len() % 16;
            obs.class(
                ["tail 0", "tail 1", "tail 2", "tail 3", "tail 4", "tail 5", "tail 6", "tail 7", "tail 8", "tail 9", "tail 10", "tail 11", "tail 12", "tail 13", "tail 14", "tail 15"][n],
            );
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------- C13

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Column {
    pub dt: DT,
    pub enc: Enc,
    pub comp: Comp,
    pub runs: Vec<Op>,
}

pub struct C13;
impl Prop for C13 {
    type Case = Column;
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "one series, a sequence made of runs of several kinds (constants, ramps, random walks of every bit width, extremes, specials) with lengths around the block size and the page size; the column is decoded by an independent decoder and the shape of every block is checked; non-trivial: two or more points"
    }
    fn quick_scale(&self) -> f64 {
        10.0
    }
    fn phases(&self, _t: Tier) -> Vec<Phase<Column>> {
        let col = |runs: BoxedStrategy<Vec<Op>>| {
            (dt_strat(), any::<bool>(), comp_strat(), runs).prop_map(|(dt, diff, comp, runs)| Column {
                dt,
                enc: if diff && dt != DT::F32 { Enc::Diff } else { Enc::Plain },
                comp,
                runs,
            })
        };
        vec![
            phase(
                "short sequences of arbitrary points",
                30_000,
                600_000,
                col(proptest::collection::vec(
                    (Just(0u16), t_ext_strat(), v_strat()).prop_map(|(s, t, v)| Op::W { s, t, v }),
                    1..=12,
                )
                .boxed()),
            ),
            phase(
                "runs around the block size",
                16_000,
                300_000,
                col(proptest::collection::vec(bulk_strat(block_len()), 1..=4).boxed()),
            ),
            phase(
                "mixed",
                6000,
                100_000,
                col(proptest::collection::vec(
                    prop_oneof![
                        4 => (Just(0u16), t_ok_strat(), v_strat()).prop_map(|(s, t, v)| Op::W { s, t, v }),
                        1 => bulk_strat(block_len()),
                        1 => Just(Op::Flush),
                    ],
                    1..=60,
                )
                .boxed()),
            ),
            phase("pages", 320, 8000, col(proptest::collection::vec(bulk_strat(page_len()), 1..=2).boxed())),
        ]
    }
    fn check(&self, c: &Column, obs: &mut Obs) -> Result<(), String> {
        let h = Hist {
            schema: SchemaSpec::Explicit(vec![DevSpec {
                name: "d".into(),
                meas: vec![MeasSpec { name: "s".into(), dt: c.dt, enc: c.enc, comp: c.comp }],
            }]),
            ops: c.runs.clone(),
            degree: None,
            perm: 0,
            auto: None,
        };
        let (flat, calls) = h.expand();
        let out = run_ok(&flat, &calls, h.how())?;
        let want = &accepted(&flat, &calls, &out)?[0];
        let scan = reader::scan(&out.bytes, false)?;
        let got: Vec<(i64, u64)> = scan.chunks.iter().flat_map(|c| c.points().copied()).collect();
        same_points("decoded column", &got, want)?;
        obs.nontrivial = want.len() > 1;
        obs.add("points", want.len() as u64);
        let mut max_w = 0;
        for ch in &scan.chunks {
            for p in &ch.pages {
                for (what, blocks, pts) in [("time", &p.time_blocks, true), ("value", &p.value_blocks, false)] {
                    for (i, b) in blocks.iter().enumerate() {
                        let at = || format!("{} column, page at {}, block {} of {}", what, p.pos, i, blocks.len());
                        if b.values > 129 || (i + 1 < blocks.len() && b.values != 129) {
                            return Err(format!("{}: {} values", at(), b.values));
                        }
                        if b.width != b.minimal_width {
                            return Err(format!("{}: width {} but {} would do", at(), b.width, b.minimal_width));
                        }
                        if !b.min_ok {
                            return Err(format!("{}: stored minimum is not the minimum delta", at()));
                        }
                        max_w = max_w.max(b.width);
                        if pts {
                            obs.class_if(b.width > 32, "time width above 32");
                        }
                    }
                    obs.class_if(blocks.len() > 1, "several blocks");
                }
            }
            obs.class_if(ch.pages.len() > 1, "several pages");
        }
        obs.class(match max_w {
            0 => "width 0",
            1..=8 => "width 1-8",
            9..=31 => "width 9-31",
            32 => "width 32",
            33..=63 => "width 33-63",
            _ => "width 64",
        });
        obs.class(match want.len() {
            1 => "1 point",
            2..=128 => "2-128 points",
            129 => "129 points",
            130 => "130 points",
            131..=257 => "131-257 points",
            258 => "258 points",
            259 => "259 points",
            _ => "more points",
        });
        obs.classes.sort();
        obs.classes.dedup();
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------- C14

pub struct C14;
impl Prop for C14 {
    type Case = Hist;
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "the same history is written with the generated compressions, with none and with SNAPPY everywhere; pages, decompressed bodies, statistics and points must be equal and headers must name the codec; non-trivial: a compressed page whose stored size differs from its uncompressed size"
    }
    fn quick_scale(&self) -> f64 {
        3.0
    }
    fn phases(&self, _t: Tier) -> Vec<Phase<Hist>> {
        file_phases((5000, 100_000), (320, 6000), (240, 6000))
    }
    fn check(&self, h: &Hist, obs: &mut Obs) -> Result<(), String> {
        let (flat, calls) = h.expand();
        let versions: Vec<Flat> = [None, Some(Comp::Un), Some(Comp::Snappy)]
            .iter()
            .map(|c| {
                let mut f = flat.clone();
                if let Some(c) = c {
                    for d in f.devs.iter_mut() {
                        for m in d.meas.iter_mut() {
                            m.comp = *c;
                        }
                    }
                }
                f
            })
            .collect();
        let mut files = vec![];
        for f in &versions {
            let o = run_ok(f, &calls, h.how())?;
            let r = reader::file(&o.bytes, 0, h.degree())?;
            let index = f.index();
            for c in &r.scan.chunks {
                let s = index
                    .get(&(c.dev.clone(), c.meas.clone()))
                    .ok_or("chunk of an unknown series")?;
                if c.comp != f.ms(*s).comp {
                    return Err(format!(
                        "chunk of {:?} {:?} at {} says {:?}, the schema {:?}",
                        c.dev, c.meas, c.pos, c.comp, f.ms(*s).comp
                    ));
                }
                for p in &c.pages {
                    obs.nontrivial |= c.comp == Comp::Snappy && p.compressed != p.uncompressed;
                    obs.class_if(c.comp == Comp::Snappy && p.compressed > p.uncompressed, "page that grows");
                    obs.class_if(c.comp == Comp::Snappy && p.uncompressed > 65536, "page above 64 KiB");
                }
                obs.class_if(c.comp == Comp::Snappy && c.pages.len() > 1, "several compressed pages");
            }
            files.push((o, r));
        }
        let (o0, a) = &files[0];
        for (o, b) in &files[1..] {
            if o.results != o0.results {
                return Err("results of the calls depend on the compression".into());
            }
            if a.scan.groups.len() != b.scan.groups.len() || a.scan.chunks.len() != b.scan.chunks.len() {
                return Err("the number of chunks depends on the compression".into());
            }
            for (x, y) in a.scan.chunks.iter().zip(&b.scan.chunks) {
                let what = format!("chunk of {:?} {:?} at {}", x.dev, x.meas, x.pos);
                if (&x.dev, &x.meas, x.dt, x.enc, x.marker, x.group) != (&y.dev, &y.meas, y.dt, y.enc, y.marker, y.group) {
                    return Err(format!("{}: header depends on the compression", what));
                }
                if x.pages.len() != y.pages.len() {
                    return Err(format!("{}: {} and {} pages", what, x.pages.len(), y.pages.len()));
                }
                for (i, (p, q)) in x.pages.iter().zip(&y.pages).enumerate() {
                    same_bytes(&format!("{}, body of page {}", what, i), &p.body, &q.body)?;
                    if p.stats != q.stats {
                        return Err(format!("{}, page {}: statistics differ", what, i));
                    }
                    same_points(&format!("{}, page {}", what, i), &p.points, &q.points)?;
                }
            }
            if a.series.len() != b.series.len() {
                return Err("the number of series depends on the compression".into());
            }
            for (x, y) in a.series.iter().zip(&b.series) {
                let st = |m: &reader::SeriesMeta| {
                    (
                        m.dev.clone(),
                        m.meas.clone(),
                        m.dt,
                        m.kind,
                        m.stats.clone(),
                        m.chunks.iter().map(|c| c.2.clone()).collect::<Vec<_>>(),
                    )
                };
                if st(x) != st(y) {
                    return Err(format!("metadata of {:?} {:?} depends on the compression", x.dev, x.meas));
                }
            }
        }
        obs.classes.sort();
        obs.classes.dedup();
        Ok(())
    }
}
