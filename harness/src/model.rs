//! Case model: schemas, operation histories, and the reference model of the writer's contract.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use tsfile_writer::writer::compression::CompressionType;
use tsfile_writer::writer::encoding::TSEncoding;
use tsfile_writer::writer::schema::{DeviceBuilder, TsFileSchemaBuilder};
use tsfile_writer::writer::{IoTDBValue, Schema, TSDataType};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum DT {
    I32,
    I64,
    F32,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum Enc {
    Plain,
    Diff,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum Comp {
    Un,
    Snappy,
}

impl DT {
    pub fn code(self) -> u8 {
        match self {
            DT::I32 => 1,
            DT::I64 => 2,
            DT::F32 => 3,
        }
    }
    pub fn real(self) -> TSDataType {
        match self {
            DT::I32 => TSDataType::INT32,
            DT::I64 => TSDataType::INT64,
            DT::F32 => TSDataType::FLOAT,
        }
    }
}
impl Enc {
    pub fn code(self) -> u8 {
        match self {
            Enc::Plain => 0,
            Enc::Diff => 4,
        }
    }
    pub fn real(self) -> TSEncoding {
        match self {
            Enc::Plain => TSEncoding::PLAIN,
            Enc::Diff => TSEncoding::TS2DIFF,
        }
    }
}
impl Comp {
    pub fn code(self) -> u8 {
        match self {
            Comp::Un => 0,
            Comp::Snappy => 1,
        }
    }
    pub fn real(self) -> CompressionType {
        match self {
            Comp::Un => CompressionType::UNCOMPRESSED,
            Comp::Snappy => CompressionType::SNAPPY,
        }
    }
}

/// A value, bit-exact.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum Val {
    I(i32),
    L(i64),
    F(u32),
    D(u64),
}
impl Val {
    pub fn real(self) -> IoTDBValue {
        match self {
            Val::I(v) => IoTDBValue::INT(v),
            Val::L(v) => IoTDBValue::LONG(v),
            Val::F(v) => IoTDBValue::FLOAT(f32::from_bits(v)),
            Val::D(v) => IoTDBValue::DOUBLE(f64::from_bits(v)),
        }
    }
    pub fn fits(self, dt: DT) -> bool {
        matches!(
            (self, dt),
            (Val::I(_), DT::I32) | (Val::L(_), DT::I64) | (Val::F(_), DT::F32)
        )
    }
    /// canonical 64 bit pattern used to compare columns
    pub fn bits(self) -> u64 {
        match self {
            Val::I(v) => v as i64 as u64,
            Val::L(v) => v as u64,
            Val::F(v) => v as u64,
            Val::D(v) => v,
        }
    }
    pub fn from_bits(dt: DT, b: u64) -> Val {
        match dt {
            DT::I32 => Val::I(b as u32 as i32),
            DT::I64 => Val::L(b as i64),
            DT::F32 => Val::F(b as u32),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub struct MeasSpec {
    pub name: String,
    pub dt: DT,
    pub enc: Enc,
    pub comp: Comp,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub struct DevSpec {
    pub name: String,
    pub meas: Vec<MeasSpec>,
}

/// How a schema is made. Grids keep replay files small.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum SchemaSpec {
    Explicit(Vec<DevSpec>),
    /// nd devices with nm measurements; names from a style; types from a seed
    Grid {
        nd: u32,
        nm: u32,
        style: u8,
        seed: u64,
    },
}

/// Expanded, with unique names (first wins).
#[derive(Clone, Debug)]
pub struct Flat {
    pub devs: Vec<DevSpec>,
    /// (device index, measurement index)
    pub series: Vec<(usize, usize)>,
    /// per device: index of its first series
    pub dev_first: Vec<usize>,
}

pub struct Mix(pub u64);
impl Mix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    /// uniform with at most `w` bits
    pub fn bits(&mut self, w: u32) -> u64 {
        if w == 0 {
            0
        } else {
            self.next() >> (64 - w.min(64))
        }
    }
}

fn style_name(style: u8, what: char, i: u64, seed: u64) -> String {
    match style % 6 {
        0 => format!("{}{}", what, i),
        1 => format!("{}{:04}", what, i),
        2 => {
            // various lengths, so that every tail length of the hash occurs
            let pad = (i.wrapping_mul(7).wrapping_add(seed)) % 40;
            format!("{}{}{}", what, "x".repeat(pad as usize), i)
        }
        3 => format!("root.sg{}.{}{}", i % 3, what, i),
        4 => {
            let mut m = Mix(seed ^ i);
            let l = 1 + m.below(12);
            let mut s = String::new();
            for _ in 0..l {
                s.push((b'a' + m.below(26) as u8) as char);
            }
            format!("{}{}", s, i)
        }
        _ => format!("{}-{}-äß{}", i % 10, what, i),
    }
}

impl SchemaSpec {
    pub fn expand(&self) -> Flat {
        let devs: Vec<DevSpec> = match self {
            SchemaSpec::Explicit(d) => {
                let mut out: Vec<DevSpec> = vec![];
                for dev in d {
                    if out.iter().any(|o| o.name == dev.name) {
                        continue;
                    }
                    let mut o = DevSpec {
                        name: dev.name.clone(),
                        meas: vec![],
                    };
                    for m in &dev.meas {
                        if !o.meas.iter().any(|x| x.name == m.name) {
                            o.meas.push(m.clone());
                        }
                    }
                    // the device builder refuses (asserts) devices without measurements
                    if !o.meas.is_empty() {
                        out.push(o);
                    }
                }
                out
            }
            SchemaSpec::Grid {
                nd,
                nm,
                style,
                seed,
            } => {
                let mut m = Mix(*seed);
                (0..*nd as u64)
                    .map(|i| DevSpec {
                        name: style_name(*style, 'd', i, *seed),
                        meas: (0..*nm as u64)
                            .map(|j| {
                                let r = m.next();
                                let dt = [DT::I32, DT::I64, DT::F32][(r % 3) as usize];
                                MeasSpec {
                                    name: style_name(style / 6, 's', j, *seed),
                                    dt,
                                    enc: if dt != DT::F32 && (r >> 8) & 1 == 1 {
                                        Enc::Diff
                                    } else {
                                        Enc::Plain
                                    },
                                    comp: if (r >> 9) & 1 == 1 {
                                        Comp::Snappy
                                    } else {
                                        Comp::Un
                                    },
                                }
                            })
                            .collect(),
                    })
                    .collect()
            }
        };
        let mut series = vec![];
        let mut dev_first = vec![];
        for (d, dev) in devs.iter().enumerate() {
            dev_first.push(series.len());
            for m in 0..dev.meas.len() {
                series.push((d, m));
            }
        }
        Flat {
            devs,
            series,
            dev_first,
        }
    }
}

impl Flat {
    pub fn ms(&self, s: usize) -> &MeasSpec {
        let (d, m) = self.series[s];
        &self.devs[d].meas[m]
    }
    pub fn dev(&self, s: usize) -> &str {
        &self.devs[self.series[s].0].name
    }
    pub fn meas(&self, s: usize) -> &str {
        &self.ms(s).name
    }
    pub fn key(&self, s: usize) -> (String, String) {
        (self.dev(s).to_string(), self.meas(s).to_string())
    }
    pub fn index(&self) -> BTreeMap<(String, String), usize> {
        (0..self.series.len()).map(|s| (self.key(s), s)).collect()
    }
    /// Build with the builders, adding devices and measurements in an order given by `perm`
    pub fn build(&self, perm: u64) -> Schema<'_> {
        let mut b = TsFileSchemaBuilder::new();
        for d in permutation(self.devs.len(), perm) {
            let dev = &self.devs[d];
            let mut db = DeviceBuilder::new();
            for m in permutation(dev.meas.len(), perm) {
                let ms = &dev.meas[m];
                db.add(&ms.name, ms.dt.real(), ms.enc.real(), ms.comp.real());
            }
            b.add(&dev.name, db.build());
        }
        b.build()
    }
}

pub fn permutation(n: usize, seed: u64) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    if seed == 0 {
        return v;
    }
    let mut m = Mix(seed);
    for i in (1..n).rev() {
        let j = m.below(i as u64 + 1) as usize;
        v.swap(i, j);
    }
    v
}

// ---------------------------------------------------------------- operations

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum V {
    Small(i8),
    Bits(u64),
    Special(u8),
    /// a random value of at most that many bits (sign from bit 63 of the seed)
    Width(u8, u64),
    /// a number, as near as the type has it
    Num(i64),
    /// a value of another type than the series'
    Wrong(u8, u64),
}

const F_SPECIAL: [u32; 14] = [
    0x0000_0000, // 0.0
    0x8000_0000, // -0.0
    0x7f80_0000, // inf
    0xff80_0000, // -inf
    0x7f7f_ffff, // MAX
    0xff7f_ffff, // MIN
    0x0000_0001, // smallest subnormal
    0x8000_0001,
    0x0080_0000, // MIN_POSITIVE
    0x3f80_0000, // 1
    0xbf80_0000, // -1
    0x7fc0_0000, // NaN
    0x7fa1_2345, // signalling NaN with payload
    0xffff_ffff, // negative NaN
];

impl V {
    pub fn to_val(self, dt: DT) -> Val {
        match self {
            V::Wrong(k, b) => {
                let all = [
                    Val::I(b as i32),
                    Val::L(b as i64),
                    Val::F(b as u32),
                    Val::D(b),
                ];
                let cand: Vec<Val> = all.into_iter().filter(|v| !v.fits(dt)).collect();
                cand[k as usize % cand.len()]
            }
            V::Small(v) => match dt {
                DT::I32 => Val::I(v as i32),
                DT::I64 => Val::L(v as i64),
                DT::F32 => Val::F((v as f32 / 4.0).to_bits()),
            },
            V::Bits(b) => Val::from_bits(dt, b),
            V::Num(n) => match dt {
                DT::I32 => Val::I(n.clamp(i32::MIN as i64, i32::MAX as i64) as i32),
                DT::I64 => Val::L(n),
                DT::F32 => Val::F((n as f32).to_bits()),
            },
            V::Width(w, seed) => {
                let mut m = Mix(seed);
                let b = m.bits(w as u32 % 65);
                match dt {
                    DT::F32 => Val::F(
                        (((b >> 40) as f32) * if seed >> 63 == 1 { -0.5 } else { 0.5 }).to_bits(),
                    ),
                    _ => Val::from_bits(
                        dt,
                        if seed >> 63 == 1 {
                            (b as i64).wrapping_neg() as u64
                        } else {
                            b
                        },
                    ),
                }
            }
            V::Special(k) => match dt {
                DT::I32 => {
                    let l = [0, 1, -1, i32::MAX, i32::MIN, i32::MAX - 1, i32::MIN + 1, 63, 64, -64, -65, 8191, 8192, -8193, 1 << 20, 1 << 27, -(1 << 27) - 1];
                    Val::I(l[k as usize % l.len()])
                }
                DT::I64 => {
                    let l = [0, 1, -1, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, i32::MAX as i64 + 1, i32::MIN as i64 - 1, 1 << 53, (1 << 53) + 1, 1 << 62, -(1 << 62)];
                    Val::L(l[k as usize % l.len()])
                }
                DT::F32 => Val::F(F_SPECIAL[k as usize % F_SPECIAL.len()]),
            },
        }
    }
}

/// Step from the last accepted timestamp
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum T {
    /// last + 1 + n (saturating)
    Inc(u64),
    /// last + 1 + about 2^w
    Wide(u8, u64),
    /// last - n (so Back(0) repeats the last timestamp)
    Back(u64),
    /// an absolute timestamp
    Abs(i64),
}

impl T {
    /// `last` is -1 before the first point
    pub fn resolve(self, last: i64) -> i64 {
        match self {
            T::Inc(n) => add_sat(last, n.saturating_add(1)),
            T::Wide(w, seed) => {
                let d = Mix(seed).bits(w as u32 % 64);
                add_sat(last, d.saturating_add(1))
            }
            T::Back(n) => {
                let r = last as i128 - n as i128;
                r.max(i64::MIN as i128) as i64
            }
            T::Abs(v) => v,
        }
    }
}
fn add_sat(a: i64, b: u64) -> i64 {
    let r = a as i128 + b as i128;
    r.min(i64::MAX as i128) as i64
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum TP {
    /// constant step 1 + n
    Const(u32),
    /// random steps of at most w bits
    Rand(u8),
    /// mostly constant with rare large jumps
    Jumpy(u8),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum VP {
    Const(V),
    Linear(i16),
    /// random of at most w bits
    Rand(u8),
    /// random walk with steps of at most w bits
    Walk(u8),
    /// alternating extremes
    Extremes,
    Specials,
    /// small numbers, compressible
    Cycle(u8),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum Op {
    /// one point to series s (modulo number of series)
    W { s: u16, t: T, v: V },
    /// several measurements of device d (modulo number of devices with measurements)
    Many {
        d: u16,
        t: T,
        items: Vec<(u16, V)>,
        /// position and kind of an injected unknown measurement
        unknown: Option<u8>,
    },
    Bulk {
        s: u16,
        n: u32,
        tp: TP,
        vp: VP,
        seed: u64,
    },
    /// one call with many measurements of a device, perhaps one refused
    Batch { d: u16, bad: u8, seed: u64 },
    /// in a new chunk, points that fill exactly `pages` pages and `extra` - 1 more
    Edge {
        s: u16,
        pages: u8,
        extra: u8,
        tp: TP,
        vp: VP,
        seed: u64,
    },
    /// n points to each of about frac/256 of all series
    Touch { frac: u8, n: u8, seed: u64 },
    /// n times a few points to one or two of the series and a flush
    Cycles { n: u32, seed: u64 },
    /// a write to a device or measurement that does not exist
    Unknown {
        s: u16,
        kind: u8,
        t: i64,
        v: V,
    },
    Flush,
}

/// A concrete call.
#[derive(Clone, Debug, PartialEq)]
pub enum Call {
    Write(String, String, i64, Val),
    Many(String, i64, Vec<(String, Val)>),
    /// many accepted points of one series
    Points(usize, Vec<(i64, u64)>),
    Flush,
    Close,
}

/// Why a point is inadmissible
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Why {
    UnknownSeries,
    WrongType,
    Encoding,
    OutOfOrder,
    Closed,
}

pub struct Model<'f> {
    pub flat: &'f Flat,
    index: BTreeMap<(&'f str, &'f str), usize>,
    pub last: Vec<i64>,
    pub points: Vec<Vec<(i64, u64)>>,
    pub closed: bool,
    /// accepted since the last flush
    pub pending: u64,
}

impl<'f> Model<'f> {
    pub fn new(flat: &'f Flat) -> Model<'f> {
        let mut index = BTreeMap::new();
        for s in 0..flat.series.len() {
            index.insert((flat.dev(s), flat.meas(s)), s);
        }
        Model {
            flat,
            index,
            last: vec![-1; flat.series.len()],
            points: vec![vec![]; flat.series.len()],
            closed: false,
            pending: 0,
        }
    }

    pub fn lookup(&self, d: &str, m: &str) -> Option<usize> {
        self.index.get(&(d, m)).copied()
    }

    /// All reasons why the point is inadmissible; empty: it is accepted
    pub fn reasons(&self, d: &str, m: &str, t: i64, v: Val) -> Vec<Why> {
        let mut why = vec![];
        if self.closed {
            why.push(Why::Closed);
        }
        match self.lookup(d, m) {
            None => {
                why.push(Why::UnknownSeries);
                if t < 0 {
                    why.push(Why::OutOfOrder);
                }
            }
            Some(s) => {
                let ms = self.flat.ms(s);
                if !v.fits(ms.dt) {
                    why.push(Why::WrongType);
                }
                if ms.dt == DT::F32 && ms.enc == Enc::Diff {
                    why.push(Why::Encoding);
                }
                if t <= self.last[s] {
                    why.push(Why::OutOfOrder);
                }
            }
        }
        why
    }

    /// Performs the point if admissible
    pub fn write(&mut self, d: &str, m: &str, t: i64, v: Val) -> Result<(), Vec<Why>> {
        let why = self.reasons(d, m, t, v);
        if !why.is_empty() {
            return Err(why);
        }
        let s = self.lookup(d, m).unwrap();
        self.last[s] = t;
        self.points[s].push((t, v.bits()));
        self.pending += 1;
        Ok(())
    }

    /// Number of points accepted and the reasons if one was refused
    pub fn write_many(
        &mut self,
        d: &str,
        t: i64,
        items: &[(String, Val)],
    ) -> (usize, Result<(), Vec<Why>>) {
        if self.closed {
            return (0, Err(vec![Why::Closed]));
        }
        if !self.flat.devs.iter().any(|x| x.name == d) {
            return (0, Err(vec![Why::UnknownSeries]));
        }
        for (i, (m, v)) in items.iter().enumerate() {
            if let Err(e) = self.write(d, m, t, *v) {
                return (i, Err(e));
            }
        }
        (items.len(), Ok(()))
    }

    pub fn total(&self) -> usize {
        self.points.iter().map(|p| p.len()).sum()
    }
}

pub fn bulk(dt: DT, last: i64, n: u32, tp: TP, vp: VP, seed: u64) -> Vec<(i64, u64)> {
    let mut m = Mix(seed);
    let mut t = last;
    let mut out = Vec::with_capacity(n as usize);
    let mut walk: i64 = m.bits(20) as i64;
    for i in 0..n as u64 {
        let step = match tp {
            TP::Const(k) => 1 + k as u64,
            TP::Rand(w) => 1u64.saturating_add(m.bits(w as u32 % 64)),
            TP::Jumpy(w) => {
                if m.below(50) == 0 {
                    1u64.saturating_add(m.bits(w as u32 % 64))
                } else {
                    1
                }
            }
        };
        if t as i128 + step as i128 > i64::MAX as i128 {
            break;
        }
        t = (t as i128 + step as i128) as i64;
        let v = match vp {
            VP::Const(v) => v.to_val(dt),
            VP::Linear(k) => {
                let x = (i as i64).wrapping_mul(k as i64);
                match dt {
                    DT::F32 => Val::F((x as f32).to_bits()),
                    _ => Val::from_bits(dt, x as u64),
                }
            }
            VP::Rand(w) => V::Width(w % 65, m.next()).to_val(dt),
            VP::Walk(w) => {
                let d = m.bits(w as u32 % 65) as i64;
                walk = if m.next() & 1 == 0 {
                    walk.wrapping_add(d)
                } else {
                    walk.wrapping_sub(d)
                };
                match dt {
                    DT::F32 => Val::F((walk as f32).to_bits()),
                    _ => Val::from_bits(dt, walk as u64),
                }
            }
            VP::Extremes => {
                let hi = m.next() & 1 == 0;
                match dt {
                    DT::I32 => Val::I(if hi { i32::MAX } else { i32::MIN }),
                    DT::I64 => Val::L(if hi { i64::MAX } else { i64::MIN }),
                    DT::F32 => Val::F(if hi { 0x7f7f_ffff } else { 0xff7f_ffff }),
                }
            }
            VP::Specials => V::Special(m.next() as u8).to_val(dt),
            VP::Cycle(k) => V::Small((i % (1 + k as u64 % 100)) as i8).to_val(dt),
        };
        out.push((t, v.bits()));
    }
    out
}

/// How many of the points fill the first pages of a chunk: a writer for them alone is asked
fn page_edge(ms: &MeasSpec, pts: &[(i64, u64)], pages: usize) -> usize {
    let flat = SchemaSpec::Explicit(vec![DevSpec {
        name: "d".into(),
        meas: vec![ms.clone()],
    }])
    .expand();
    let out = crate::exec::execute(
        &flat,
        &[Call::Points(0, pts.to_vec()), Call::Close],
        crate::exec::DEFAULT,
    );
    match crate::reader::scan(&out.bytes, true) {
        Ok(s) => s.chunks.first().map_or(0, |c| {
            c.pages.iter().take(pages).map(|p| p.points.len()).sum()
        }),
        Err(_) => pts.len(),
    }
}

/// Turns the abstract history into concrete calls. The model decides what is accepted, so a history
/// stays meaningful when it is shrunk.
pub fn resolve(flat: &Flat, ops: &[Op]) -> Vec<Call> {
    let mut model = Model::new(flat);
    let mut calls = vec![];
    let n = flat.series.len();
    // series with points since the last flush
    let mut begun = std::collections::BTreeSet::new();
    let mut seen = 0;
    let with_meas: Vec<usize> = (0..flat.devs.len())
        .filter(|d| !flat.devs[*d].meas.is_empty())
        .collect();
    for op in ops {
        for c in &calls[seen..] {
            match c {
                Call::Flush => begun.clear(),
                Call::Points(s, _) => {
                    begun.insert(*s);
                }
                Call::Write(d, m, ..) => begun.extend(model.lookup(d, m)),
                Call::Many(d, _, items) => begun.extend(items.iter().filter_map(|(m, _)| model.lookup(d, m))),
                Call::Close => {}
            }
        }
        seen = calls.len();
        match op {
            Op::Flush => {
                calls.push(Call::Flush);
                model.pending = 0;
            }
            Op::Unknown { s, kind, t, v } => {
                let (mut d, mut m, dt) = if n == 0 {
                    ("d".to_string(), "s".to_string(), DT::I32)
                } else {
                    let s = *s as usize % n;
                    (
                        flat.dev(s).to_string(),
                        flat.meas(s).to_string(),
                        flat.ms(s).dt,
                    )
                };
                match kind % 5 {
                    0 => d.push_str("?"),
                    1 => m.push_str("?"),
                    2 => m = format!("{}.{}", d, m),
                    3 => std::mem::swap(&mut d, &mut m),
                    _ => {
                        d.pop();
                    }
                }
                // may exist after all, the model knows
                let v = v.to_val(dt);
                let _ = model.write(&d, &m, *t, v);
                calls.push(Call::Write(d, m, *t, v));
            }
            _ if n == 0 => {}
            Op::W { s, t, v } => {
                let s = *s as usize % n;
                let t = t.resolve(model.last[s]);
                let v = v.to_val(flat.ms(s).dt);
                let (d, m) = flat.key(s);
                let _ = model.write(&d, &m, t, v);
                calls.push(Call::Write(d, m, t, v));
            }
            Op::Many {
                d,
                t,
                items,
                unknown,
            } => {
                let di = with_meas[*d as usize % with_meas.len()];
                let dev = &flat.devs[di];
                let first = flat.dev_first[di];
                let sel: Vec<usize> = items
                    .iter()
                    .map(|(m, _)| first + *m as usize % dev.meas.len())
                    .collect();
                let last = sel.iter().map(|s| model.last[*s]).max().unwrap_or(-1);
                let t = t.resolve(last);
                let mut its: Vec<(String, Val)> = items
                    .iter()
                    .zip(&sel)
                    .map(|((_, v), s)| (flat.meas(*s).to_string(), v.to_val(flat.ms(*s).dt)))
                    .collect();
                let mut name = dev.name.clone();
                if let Some(u) = unknown {
                    if *u >= 200 {
                        name.push_str(" no such device");
                    } else {
                        let at = *u as usize % (its.len() + 1);
                        its.insert(at, ("no such measurement".to_string(), Val::I(1)));
                    }
                }
                let _ = model.write_many(&name, t, &its);
                calls.push(Call::Many(name, t, its));
            }
            Op::Batch { d, bad, seed } => {
                let di = with_meas[*d as usize % with_meas.len()];
                let dev = &flat.devs[di];
                let first = flat.dev_first[di];
                let mut mx = Mix(*seed);
                let len = dev.meas.len() as u64;
                let k = match mx.below(4) {
                    0 => 1 + mx.below(len),
                    1 => len.min(1 << mx.below(17)),
                    _ => len,
                };
                let at = mx.below(len);
                let sel: Vec<usize> = (0..k).map(|i| first + ((at + i) % len) as usize).collect();
                let last = sel.iter().map(|s| model.last[*s]).max().unwrap_or(-1);
                let t = last.saturating_add(1 + mx.bits(30) as i64);
                let mut its: Vec<(String, Val)> = sel
                    .iter()
                    .map(|s| (flat.meas(*s).to_string(), V::Bits(mx.next()).to_val(flat.ms(*s).dt)))
                    .collect();
                let p = mx.below(its.len() as u64) as usize;
                match bad % 6 {
                    0 => its.insert(p, ("no such measurement".to_string(), Val::I(1))),
                    1 => its[p].1 = Val::D(1),
                    2 => {
                        let x = its[p].clone();
                        its.push(x);
                    }
                    _ => {}
                }
                let _ = model.write_many(&dev.name, t, &its);
                calls.push(Call::Many(dev.name.clone(), t, its));
            }
            Op::Bulk {
                s,
                n: k,
                tp,
                vp,
                seed,
            } => {
                let s = *s as usize % n;
                let ms = flat.ms(s);
                if ms.dt == DT::F32 && ms.enc == Enc::Diff {
                    continue;
                }
                let pts = bulk(ms.dt, model.last[s], *k, *tp, *vp, *seed);
                if let Some(p) = pts.last() {
                    model.last[s] = p.0;
                    model.pending += pts.len() as u64;
                    calls.push(Call::Points(s, pts));
                }
            }
            Op::Edge {
                s,
                pages,
                extra,
                tp,
                vp,
                seed,
            } => {
                let s = *s as usize % n;
                let ms = flat.ms(s);
                if ms.dt == DT::F32 && ms.enc == Enc::Diff {
                    continue;
                }
                let mut pts = bulk(ms.dt, model.last[s], 12_000 * (1 + *pages as u32 % 5), *tp, *vp, *seed);
                let k = page_edge(ms, &pts, 1 + *pages as usize % 5);
                pts.truncate((k + *extra as usize % 4).saturating_sub(1));
                if let Some(p) = pts.last() {
                    if begun.contains(&s) {
                        calls.push(Call::Flush);
                        model.pending = 0;
                    }
                    model.last[s] = p.0;
                    model.pending += pts.len() as u64;
                    calls.push(Call::Points(s, pts));
                }
            }
            Op::Cycles { n: k, seed } => {
                let mut mx = Mix(*seed);
                for _ in 0..*k {
                    for _ in 0..1 + mx.below(2) {
                        let s = mx.below(n as u64) as usize;
                        let ms = flat.ms(s);
                        if ms.dt == DT::F32 && ms.enc == Enc::Diff {
                            continue;
                        }
                        let pts = bulk(
                            ms.dt,
                            model.last[s],
                            1 + mx.below(3) as u32,
                            TP::Rand(mx.below(12) as u8),
                            VP::Rand(mx.below(64) as u8),
                            mx.next(),
                        );
                        if let Some(p) = pts.last() {
                            model.last[s] = p.0;
                            calls.push(Call::Points(s, pts));
                        }
                    }
                    calls.push(Call::Flush);
                    model.pending = 0;
                }
            }
            Op::Touch { frac, n: k, seed } => {
                let mut mx = Mix(*seed);
                for s in 0..n {
                    let ms = flat.ms(s);
                    if ms.dt == DT::F32 && ms.enc == Enc::Diff {
                        continue;
                    }
                    if (mx.next() & 0xff) as u8 <= *frac {
                        let pts = bulk(
                            ms.dt,
                            model.last[s],
                            1 + *k as u32 % 8,
                            TP::Rand((mx.next() % 20) as u8),
                            VP::Rand((mx.next() % 64) as u8),
                            mx.next(),
                        );
                        if let Some(p) = pts.last() {
                            model.last[s] = p.0;
                            model.pending += pts.len() as u64;
                            calls.push(Call::Points(s, pts));
                        }
                    }
                }
            }
        }
    }
    calls
}

// ---------------------------------------------------------------- strategies

pub fn name_strat() -> BoxedStrategy<String> {
    prop_oneof![
        6 => (0u8..12).prop_map(|i| format!("s{}", i)),
        3 => "[a-z]{1,3}",
        3 => "[a-zA-Z0-9_]{1,34}",
        2 => "[a-c]{0,2}(\\.[a-c]{0,2}){0,3}",
        1 => "[ -~]{0,20}",
        2 => "[a-zäöüßéλЖ中文]{1,12}",
        1 => (60usize..70).prop_map(|n| "n".repeat(n)),
        1 => (120usize..140).prop_map(|n| "m".repeat(n)),
        1 => Just(String::new()),
        1 => crate::dict::name(300),
        1 => "(root\\.sg[0-3]\\.d[0-9])",
    ]
    .boxed()
}

pub fn long_name_strat() -> BoxedStrategy<String> {
    prop_oneof![
        20 => name_strat(),
        1 => prop_oneof![Just(8190usize), Just(8191), Just(8192), Just(8193), Just(16383), Just(16384), Just(20000)].prop_map(|n| "L".repeat(n)),
        1 => crate::dict::name(70_000),
    ]
    .boxed()
}

pub fn dt_strat() -> BoxedStrategy<DT> {
    prop_oneof![Just(DT::I32), Just(DT::I64), Just(DT::F32)].boxed()
}
pub fn comp_strat() -> BoxedStrategy<Comp> {
    prop_oneof![Just(Comp::Un), Just(Comp::Snappy)].boxed()
}

/// bad: weight (of 100) of FLOAT series with TS_2DIFF
pub fn meas_strat(names: BoxedStrategy<String>, bad: u32) -> BoxedStrategy<MeasSpec> {
    (names, dt_strat(), any::<bool>(), 0u32..100, comp_strat())
        .prop_map(move |(name, dt, diff, b, comp)| MeasSpec {
            name,
            dt,
            enc: if diff && (dt != DT::F32 || b < bad) {
                Enc::Diff
            } else {
                Enc::Plain
            },
            comp,
        })
        .boxed()
}

pub fn dev_strat(names: BoxedStrategy<String>, max_meas: usize, bad: u32) -> BoxedStrategy<DevSpec> {
    (
        names.clone(),
        prop_oneof![
            8 => proptest::collection::vec(meas_strat(names.clone(), bad), 1..=3),
            3 => proptest::collection::vec(meas_strat(names.clone(), bad), 1..=max_meas),
            1 => proptest::collection::vec(meas_strat(names, bad), 0..=1),
        ],
    )
        .prop_map(|(name, meas)| DevSpec { name, meas })
        .boxed()
}

pub fn schema_strat(max_dev: usize, max_meas: usize, bad: u32) -> BoxedStrategy<SchemaSpec> {
    let e = |n: BoxedStrategy<String>, d: usize, m: usize| {
        proptest::collection::vec(dev_strat(n, m, bad), 1..=d).prop_map(SchemaSpec::Explicit)
    };
    prop_oneof![
        6 => e(name_strat(), 3, max_meas.min(4)),
        3 => e(name_strat(), max_dev, max_meas),
        1 => e(long_name_strat(), max_dev.min(3), max_meas.min(3)),
    ]
    .boxed()
}

pub fn grid_strat(max_dev: u32, max_meas: u32) -> BoxedStrategy<SchemaSpec> {
    let dim = |max: u32| {
        prop_oneof![9 => 1..=max, 1 => crate::dict::int_in(1, max as u64).prop_map(|n| n as u32)]
    };
    (dim(max_dev), dim(max_meas), 0u8..36, any::<u64>())
        .prop_map(|(nd, nm, style, seed)| SchemaSpec::Grid {
            nd,
            nm,
            style,
            seed,
        })
        .boxed()
}

pub fn v_strat() -> BoxedStrategy<V> {
    prop_oneof![
        4 => any::<i8>().prop_map(V::Small),
        2 => any::<u64>().prop_map(V::Bits),
        3 => (0u8..=64, any::<u64>()).prop_map(|(w, s)| V::Width(w, s)),
        3 => any::<u8>().prop_map(V::Special),
        1 => crate::dict::signed().prop_map(V::Num),
    ]
    .boxed()
}
pub fn t_ok_strat() -> BoxedStrategy<T> {
    prop_oneof![
        8 => (0u64..3).prop_map(T::Inc),
        4 => (0u64..100_000).prop_map(T::Inc),
        3 => (0u8..50, any::<u64>()).prop_map(|(w, s)| T::Wide(w, s)),
        1 => (50u8..63, any::<u64>()).prop_map(|(w, s)| T::Wide(w, s)),
        1 => crate::dict::int_in(0, 1 << 40).prop_map(T::Inc),
    ]
    .boxed()
}
/// including the largest timestamps
pub fn t_ext_strat() -> BoxedStrategy<T> {
    prop_oneof![
        20 => t_ok_strat(),
        1 => (0i64..4).prop_map(|k| T::Abs(i64::MAX - k)),
        1 => Just(T::Wide(63, 0x1234)),
        1 => crate::dict::int_in(0, i64::MAX as u64).prop_map(|t| T::Abs(t as i64)),
    ]
    .boxed()
}
pub fn t_any_strat() -> BoxedStrategy<T> {
    prop_oneof![
        12 => t_ext_strat(),
        3 => (0u64..4).prop_map(T::Back),
        1 => any::<u64>().prop_map(T::Back),
        1 => any::<i64>().prop_map(T::Abs),
        1 => crate::dict::signed().prop_map(T::Abs),
        1 => prop_oneof![Just(0i64), Just(-1), Just(1), Just(i64::MIN), Just(i64::MAX)].prop_map(T::Abs),
    ]
    .boxed()
}
pub fn v_any_strat() -> BoxedStrategy<V> {
    prop_oneof![
        10 => v_strat(),
        2 => (any::<u8>(), any::<u64>()).prop_map(|(k, b)| V::Wrong(k, b)),
    ]
    .boxed()
}
pub fn tp_strat() -> BoxedStrategy<TP> {
    prop_oneof![
        4 => (0u32..2000).prop_map(TP::Const),
        1 => crate::dict::int_in(0, u32::MAX as u64).prop_map(|n| TP::Const(n as u32)),
        4 => (0u8..40).prop_map(TP::Rand),
        1 => (40u8..63).prop_map(TP::Rand),
        2 => (10u8..48).prop_map(TP::Jumpy),
    ]
    .boxed()
}
pub fn vp_strat() -> BoxedStrategy<VP> {
    prop_oneof![
        2 => v_strat().prop_map(VP::Const),
        2 => any::<i16>().prop_map(VP::Linear),
        3 => (0u8..=64).prop_map(VP::Rand),
        3 => (0u8..=64).prop_map(VP::Walk),
        1 => Just(VP::Extremes),
        1 => Just(VP::Specials),
        2 => any::<u8>().prop_map(VP::Cycle),
    ]
    .boxed()
}

/// lengths around the block size of TS_2DIFF
pub fn block_len() -> BoxedStrategy<u32> {
    prop_oneof![
        3 => 1u32..10,
        4 => prop_oneof![Just(1u32), Just(2), Just(127), Just(128), Just(129), Just(130), Just(131), Just(257), Just(258), Just(259), Just(387), Just(388)],
        3 => 1u32..600,
        1 => crate::dict::int_in(1, 2000).prop_map(|n| n as u32),
    ]
    .boxed()
}
/// lengths that make several pages
pub fn page_len() -> BoxedStrategy<u32> {
    prop_oneof![
        3 => 7985u32..7995,
        3 => 8000u32..30_000,
        2 => 7989u32..12_000,
        1 => 30_000u32..70_000,
        1 => crate::dict::int_in(2000, 100_000).prop_map(|n| n as u32),
    ]
    .boxed()
}

#[derive(Clone, Copy)]
pub struct OpMix {
    pub bad: u32,
    pub flush: u32,
    pub bulk: u32,
    pub pages: u32,
    pub touch: u32,
    pub extreme_ts: bool,
}
pub const GOOD: OpMix = OpMix {
    bad: 0,
    flush: 2,
    bulk: 4,
    pages: 1,
    touch: 1,
    extreme_ts: true,
};
pub const WITH_BAD: OpMix = OpMix { bad: 6, ..GOOD };

pub fn op_strat(m: OpMix) -> BoxedStrategy<Op> {
    let t = if m.bad > 0 {
        t_any_strat()
    } else if m.extreme_ts {
        t_ext_strat()
    } else {
        t_ok_strat()
    };
    let v = if m.bad > 0 { v_any_strat() } else { v_strat() };
    let unk = if m.bad > 0 {
        prop_oneof![9 => Just(None), 1 => any::<u8>().prop_map(Some)].boxed()
    } else {
        Just(None).boxed()
    };
    let arms: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (
            30,
            (any::<u16>(), t.clone(), v.clone())
                .prop_map(|(s, t, v)| Op::W { s, t, v })
                .boxed(),
        ),
        (
            12,
            (
                any::<u16>(),
                t,
                proptest::collection::vec((any::<u16>(), v.clone()), 0..6),
                unk,
            )
                .prop_map(|(d, t, items, unknown)| Op::Many {
                    d,
                    t,
                    items,
                    unknown,
                })
                .boxed(),
        ),
        (m.bulk, bulk_strat(block_len())),
        (m.pages, bulk_strat(page_len())),
        (
            m.touch,
            (any::<u8>(), any::<u8>(), any::<u64>())
                .prop_map(|(frac, n, seed)| Op::Touch { frac, n, seed })
                .boxed(),
        ),
        (
            m.bad,
            (any::<u16>(), any::<u8>(), any::<i64>(), v)
                .prop_map(|(s, kind, t, v)| Op::Unknown { s, kind, t, v })
                .boxed(),
        ),
        (m.flush, Just(Op::Flush).boxed()),
    ];
    proptest::strategy::Union::new_weighted(arms.into_iter().filter(|a| a.0 > 0).collect())
    .boxed()
}

pub fn edge_strat() -> BoxedStrategy<Op> {
    (any::<u16>(), any::<u8>(), any::<u8>(), (0u8..62).prop_map(TP::Rand), vp_strat(), any::<u64>())
        .prop_map(|(s, pages, extra, tp, vp, seed)| Op::Edge { s, pages, extra, tp, vp, seed })
        .boxed()
}

pub fn bulk_strat(len: BoxedStrategy<u32>) -> BoxedStrategy<Op> {
    (any::<u16>(), len, tp_strat(), vp_strat(), any::<u64>())
        .prop_map(|(s, n, tp, vp, seed)| Op::Bulk { s, n, tp, vp, seed })
        .boxed()
}
