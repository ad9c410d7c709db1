//! An independent, strict reader of TsFile version 3, written from the format and not from the
//! writer: a sequential scanner, a descent of the metadata index, and page decoders.
use crate::model::{Comp, Enc, DT};

pub type R<X> = Result<X, String>;

macro_rules! bail {
    ($($a:tt)*) => { return Err(format!($($a)*)) };
}

#[derive(Clone)]
pub struct Cur<'a> {
    pub b: &'a [u8],
    pub p: usize,
    pub end: usize,
}

impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8], p: usize, end: usize) -> Cur<'a> {
        Cur { b, p, end }
    }
    pub fn left(&self) -> usize {
        self.end - self.p
    }
    pub fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.left() < n {
            bail!("truncated: {} bytes wanted at {}, {} left", n, self.p, self.left());
        }
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(r)
    }
    pub fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    pub fn u32(&mut self) -> R<u32> {
        Ok(u32::from_be_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn u64(&mut self) -> R<u64> {
        Ok(u64::from_be_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn i64(&mut self) -> R<i64> {
        Ok(self.u64()? as i64)
    }
    /// unsigned LEB128 of at most 32 bits, minimal length required
    pub fn uvar(&mut self) -> R<u32> {
        let mut v: u64 = 0;
        for i in 0..5 {
            let b = self.u8()?;
            v |= ((b & 0x7f) as u64) << (7 * i);
            if b & 0x80 == 0 {
                if i > 0 && b == 0 {
                    bail!("varint at {} is not minimal", self.p);
                }
                if v > u32::MAX as u64 {
                    bail!("varint before {} exceeds 32 bits", self.p);
                }
                return Ok(v as u32);
            }
        }
        bail!("varint before {} is too long", self.p)
    }
    /// zig-zag
    pub fn ivar(&mut self) -> R<i32> {
        let u = self.uvar()?;
        Ok(((u >> 1) as i32) ^ -((u & 1) as i32))
    }
    pub fn string(&mut self) -> R<String> {
        let at = self.p;
        let n = self.ivar()?;
        if n < 0 {
            bail!("negative string length at {}", at);
        }
        let b = self.take(n as usize)?;
        match std::str::from_utf8(b) {
            Ok(s) => Ok(s.to_string()),
            Err(_) => bail!("string at {} is not UTF-8", at),
        }
    }
}

pub fn dt_of(c: u8) -> R<DT> {
    Ok(match c {
        1 => DT::I32,
        2 => DT::I64,
        3 => DT::F32,
        _ => bail!("data type code {}", c),
    })
}
pub fn enc_of(c: u8) -> R<Enc> {
    Ok(match c {
        0 => Enc::Plain,
        4 => Enc::Diff,
        _ => bail!("encoding code {}", c),
    })
}
pub fn comp_of(c: u8) -> R<Comp> {
    Ok(match c {
        0 => Comp::Un,
        1 => Comp::Snappy,
        _ => bail!("compression code {}", c),
    })
}

#[derive(Clone, Debug, PartialEq)]
pub struct Stats {
    pub count: u32,
    pub t0: i64,
    pub t1: i64,
    /// canonical bit patterns (see Val::bits)
    pub min: u64,
    pub max: u64,
    pub first: u64,
    pub last: u64,
    /// raw 8 bytes
    pub sum: u64,
}

pub fn stats(c: &mut Cur, dt: DT) -> R<Stats> {
    let count = c.uvar()?;
    let t0 = c.i64()?;
    let t1 = c.i64()?;
    let mut v = || -> R<u64> {
        Ok(match dt {
            DT::I32 => c.u32()? as i32 as i64 as u64,
            DT::I64 => c.u64()?,
            DT::F32 => c.u32()? as u64,
        })
    };
    let (min, max, first, last) = (v()?, v()?, v()?, v()?);
    let sum = c.u64()?;
    Ok(Stats {
        count,
        t0,
        t1,
        min,
        max,
        first,
        last,
        sum,
    })
}

#[derive(Clone, Debug)]
pub struct Page {
    pub pos: usize,
    pub uncompressed: u32,
    pub compressed: u32,
    pub stats: Option<Stats>,
    pub body: Vec<u8>,
    /// length of the time column in the body
    pub time_len: usize,
    pub time_start: usize,
    pub points: Vec<(i64, u64)>,
    pub time_blocks: Vec<Block>,
    pub value_blocks: Vec<Block>,
}

#[derive(Clone, Debug)]
pub struct Block {
    pub values: usize,
    pub width: u32,
    pub minimal_width: u32,
    pub min_ok: bool,
    pub padding_zero: bool,
}

#[derive(Clone, Debug)]
pub struct Chunk {
    pub pos: usize,
    pub end: usize,
    pub group: usize,
    pub dev: String,
    pub marker: u8,
    pub meas: String,
    pub data_size: u32,
    pub dt: DT,
    pub comp: Comp,
    pub enc: Enc,
    pub pages: Vec<Page>,
}

impl Chunk {
    pub fn points(&self) -> impl Iterator<Item = &(i64, u64)> {
        self.pages.iter().flat_map(|p| p.points.iter())
    }
}

/// A TS_2DIFF column: blocks of (n deltas, width, min delta, first value, packed deltas)
pub fn decode_diff(b: &[u8], bits: u32, blocks: &mut Vec<Block>) -> R<Vec<u64>> {
    let mut c = Cur::new(b, 0, b.len());
    let mut out = vec![];
    let mask: u64 = if bits == 64 { u64::MAX } else { u32::MAX as u64 };
    while c.left() > 0 {
        let n = c.u32()? as usize;
        let width = c.u32()?;
        if width > bits {
            bail!("delta width {} exceeds {} bits", width, bits);
        }
        let (min, first) = if bits == 64 {
            (c.u64()?, c.u64()?)
        } else {
            (c.u32()? as u64, c.u32()? as u64)
        };
        let bytes = (n as u128 * width as u128 + 7) / 8;
        if bytes > c.left() as u128 {
            bail!("{} deltas of width {} exceed the column", n, width);
        }
        let packed = c.take(bytes as usize)?;
        let mut acc = first;
        out.push(acc);
        let mut or = 0u64;
        // of the deltas as signed numbers
        let mut smallest = i64::MAX;
        let signed = |d: u64| if bits == 64 { d as i64 } else { d as u32 as i32 as i64 };
        let mut bit = 0usize;
        for _ in 0..n {
            let mut v = 0u64;
            if width <= 56 && (bit >> 3) + 8 <= packed.len() {
                if width > 0 {
                    let w = u64::from_be_bytes(packed[bit >> 3..(bit >> 3) + 8].try_into().unwrap());
                    v = (w << (bit & 7)) >> (64 - width);
                }
                bit += width as usize;
            } else {
                for _ in 0..width {
                    v = v << 1 | ((packed[bit >> 3] >> (7 - (bit & 7))) & 1) as u64;
                    bit += 1;
                }
            }
            or |= v;
            smallest = smallest.min(signed(min.wrapping_add(v) & mask));
            acc = acc.wrapping_add(min).wrapping_add(v) & mask;
            out.push(acc);
        }
        let mut padding_zero = true;
        while bit < packed.len() * 8 {
            padding_zero &= (packed[bit >> 3] >> (7 - (bit & 7))) & 1 == 0;
            bit += 1;
        }
        blocks.push(Block {
            values: n + 1,
            width,
            minimal_width: 64 - or.leading_zeros(),
            min_ok: n == 0 || smallest == signed(min),
            padding_zero,
        });
    }
    Ok(out)
}

pub fn decode_plain(b: &[u8], dt: DT) -> R<Vec<u64>> {
    let mut c = Cur::new(b, 0, b.len());
    let mut out = vec![];
    while c.left() > 0 {
        out.push(match dt {
            DT::I32 => c.ivar()? as i64 as u64,
            DT::I64 => c.u64()?,
            DT::F32 => c.u32()? as u64,
        });
    }
    Ok(out)
}

fn decode_page(p: &mut Page, dt: DT, enc: Enc) -> R<()> {
    let mut c = Cur::new(&p.body, 0, p.body.len());
    let tl = c.uvar()? as usize;
    p.time_len = tl;
    p.time_start = c.p;
    let tb = c.take(tl)?;
    let times = decode_diff(tb, 64, &mut p.time_blocks)?;
    let vb = c.take(c.left())?;
    let values = match enc {
        Enc::Plain => decode_plain(vb, dt)?,
        Enc::Diff => match dt {
            DT::I64 => decode_diff(vb, 64, &mut p.value_blocks)?,
            DT::I32 => decode_diff(vb, 32, &mut p.value_blocks)?
                .into_iter()
                .map(|v| v as u32 as i32 as i64 as u64)
                .collect(),
            DT::F32 => bail!("FLOAT with TS_2DIFF"),
        },
    };
    if times.len() != values.len() {
        bail!("{} timestamps but {} values in a page", times.len(), values.len());
    }
    p.points = times.into_iter().map(|t| t as i64).zip(values).collect();
    Ok(())
}

/// a chunk from its marker (already read) on
pub fn chunk(c: &mut Cur, pos: usize, marker: u8, dev: &str, group: usize) -> R<Chunk> {
    let meas = c.string()?;
    let data_size = c.uvar()?;
    let dt = dt_of(c.u8()?)?;
    let comp = comp_of(c.u8()?)?;
    let enc = enc_of(c.u8()?)?;
    let data = c.p;
    c.take(data_size as usize)?;
    let mut d = Cur::new(c.b, data, c.p);
    let mut pages = vec![];
    while d.left() > 0 {
        let pos = d.p;
        let uncompressed = d.uvar()?;
        let compressed = d.uvar()?;
        let st = if marker == 1 {
            Some(stats(&mut d, dt)?)
        } else {
            None
        };
        let raw = d
            .take(compressed as usize)
            .map_err(|e| format!("page at {} exceeds its chunk: {}", pos, e))?;
        let body = match comp {
            Comp::Un => {
                if compressed != uncompressed {
                    bail!("uncompressed page at {} with sizes {} and {}", pos, uncompressed, compressed);
                }
                raw.to_vec()
            }
            Comp::Snappy => match snap::raw::Decoder::new().decompress_vec(raw) {
                Ok(b) => {
                    if b.len() != uncompressed as usize {
                        bail!("page at {} decompresses to {} bytes, declared {}", pos, b.len(), uncompressed);
                    }
                    b
                }
                Err(e) => bail!("page at {} does not decompress: {}", pos, e),
            },
        };
        let mut p = Page {
            pos,
            uncompressed,
            compressed,
            stats: st,
            body,
            time_len: 0,
            time_start: 0,
            points: vec![],
            time_blocks: vec![],
            value_blocks: vec![],
        };
        decode_page(&mut p, dt, enc).map_err(|e| format!("page at {}: {}", pos, e))?;
        if p.points.is_empty() {
            bail!("empty page at {}", pos);
        }
        pages.push(p);
    }
    match (marker, pages.len()) {
        (_, 0) => bail!("chunk at {} has no page", pos),
        (5, 1) => {}
        (1, n) if n > 1 => {}
        (m, n) => bail!("chunk at {} has marker {} but {} pages", pos, m, n),
    }
    Ok(Chunk {
        pos,
        end: c.p,
        group,
        dev: dev.to_string(),
        marker,
        meas,
        data_size,
        dt,
        comp,
        enc,
        pages,
    })
}

pub struct Scan {
    /// positions of the chunk group headers with the device
    pub groups: Vec<(usize, String)>,
    pub chunks: Vec<Chunk>,
    /// position of the separator, if reached
    pub sep: Option<usize>,
    /// everything before this was understood
    pub upto: usize,
}

/// Front to back. With `prefix`, the data may end anywhere (an incomplete item ends the scan);
/// without, the separator must be reached.
pub fn scan(b: &[u8], prefix: bool) -> R<Scan> {
    let mut s = Scan {
        groups: vec![],
        chunks: vec![],
        sep: None,
        upto: 0,
    };
    let magic = b"TsFile\x03";
    if b.len() < magic.len() {
        if prefix && magic.starts_with(b) {
            return Ok(s);
        }
        bail!("no head magic");
    }
    if &b[..7] != magic {
        bail!("wrong head magic or version {:?}", &b[..7]);
    }
    let mut c = Cur::new(b, 7, b.len());
    s.upto = 7;
    let mut dev: Option<String> = None;
    while c.left() > 0 {
        let pos = c.p;
        let m = c.u8()?;
        match m {
            0 => match c.string() {
                Ok(d) => {
                    s.groups.push((pos, d.clone()));
                    dev = Some(d);
                }
                Err(e) => {
                    if prefix && e.starts_with("truncated") {
                        return Ok(s);
                    }
                    return Err(e);
                }
            },
            1 | 5 => {
                let d = match &dev {
                    Some(d) => d.clone(),
                    None => bail!("chunk at {} outside of a chunk group", pos),
                };
                // is the chunk complete?
                let mut look = c.clone();
                let complete = (|| -> R<bool> {
                    look.string()?;
                    let n = look.uvar()?;
                    look.take(3)?;
                    Ok(look.left() >= n as usize)
                })();
                match complete {
                    Ok(true) => {}
                    Ok(false) if prefix => return Ok(s),
                    Ok(false) => bail!("chunk at {} exceeds the data", pos),
                    Err(e) if prefix && e.starts_with("truncated") => return Ok(s),
                    Err(e) => return Err(e),
                }
                let ch = chunk(&mut c, pos, m, &d, s.groups.len() - 1)?;
                s.chunks.push(ch);
            }
            2 => {
                s.sep = Some(pos);
                s.upto = c.p;
                return Ok(s);
            }
            _ => bail!("unknown marker {} at {}", m, pos),
        }
        s.upto = c.p;
    }
    if prefix {
        return Ok(s);
    }
    bail!("no separator")
}

#[derive(Clone, Debug)]
pub struct SeriesMeta {
    pub pos: usize,
    pub end: usize,
    pub dev: String,
    pub meas: String,
    pub kind: u8,
    pub dt: DT,
    pub stats: Stats,
    /// offset of the chunk, position of the offset field, statistics
    pub chunks: Vec<(u64, usize, Option<Stats>)>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum NodeKind {
    InternalDevice,
    LeafDevice,
    InternalMeasurement,
    LeafMeasurement,
}

#[derive(Clone, Debug)]
pub struct Node {
    pub pos: usize,
    pub end: usize,
    pub kind: NodeKind,
    /// name, offset, position of the offset field
    pub children: Vec<(String, u64, usize)>,
    pub end_offset: u64,
    pub end_field: usize,
}

pub fn node(c: &mut Cur) -> R<Node> {
    let pos = c.p;
    let n = c.uvar()?;
    let mut children = vec![];
    for _ in 0..n {
        let name = c.string()?;
        let f = c.p;
        children.push((name, c.u64()?, f));
    }
    let end_field = c.p;
    let end_offset = c.u64()?;
    let kind = match c.u8()? {
        0 => NodeKind::InternalDevice,
        1 => NodeKind::LeafDevice,
        2 => NodeKind::InternalMeasurement,
        3 => NodeKind::LeafMeasurement,
        k => bail!("index node type {} at {}", k, pos),
    };
    Ok(Node {
        pos,
        end: c.p,
        kind,
        children,
        end_offset,
        end_field,
    })
}

fn series_meta(c: &mut Cur, dev: &str) -> R<SeriesMeta> {
    let pos = c.p;
    let kind = c.u8()?;
    if kind > 1 {
        bail!("series metadata type {} at {}", kind, pos);
    }
    let meas = c.string()?;
    let dt = dt_of(c.u8()?)?;
    let size = c.uvar()? as usize;
    let st = stats(c, dt)?;
    let start = c.p;
    c.take(size)?;
    let mut d = Cur::new(c.b, start, c.p);
    let mut chunks = vec![];
    while d.left() > 0 {
        let f = d.p;
        let off = d.u64()?;
        let s = if kind == 1 {
            Some(stats(&mut d, dt)?)
        } else {
            None
        };
        chunks.push((off, f, s));
    }
    match (kind, chunks.len()) {
        (0, 1) => {}
        (1, n) if n > 1 => {}
        (k, n) => bail!("series metadata at {} of type {} has {} chunks", pos, k, n),
    }
    Ok(SeriesMeta {
        pos,
        end: c.p,
        dev: dev.to_string(),
        meas,
        kind,
        dt,
        stats: st,
        chunks,
    })
}

pub struct Bloom {
    pub bytes: Vec<u8>,
    pub size: u32,
    pub k: u32,
}

pub struct File {
    pub scan: Scan,
    pub series: Vec<SeriesMeta>,
    pub nodes: Vec<Node>,
    pub root: Node,
    pub meta_offset: u64,
    pub meta_field: usize,
    pub bloom: Bloom,
    pub footer: usize,
    pub depth: usize,
}

impl File {
    /// positions of all 8 byte offsets in the file
    pub fn offset_fields(&self) -> Vec<usize> {
        let mut v = vec![self.meta_field];
        for n in self.nodes.iter().chain([&self.root]) {
            v.push(n.end_field);
            v.extend(n.children.iter().map(|c| c.2));
        }
        for s in &self.series {
            v.extend(s.chunks.iter().map(|c| c.1));
        }
        v.sort();
        v
    }
}

pub struct Footer {
    pub footer: usize,
    pub root: Node,
    pub meta_offset: u64,
    pub meta_field: usize,
    pub bloom: Bloom,
}

pub fn footer(b: &[u8]) -> R<Footer> {
    if b.len() < 7 + 1 + 4 + 6 {
        bail!("file of {} bytes", b.len());
    }
    if &b[b.len() - 6..] != b"TsFile" {
        bail!("no tail magic");
    }
    let sz = u32::from_be_bytes(b[b.len() - 10..b.len() - 6].try_into().unwrap()) as usize;
    let meta_end = b.len() - 10;
    if sz > meta_end - 7 {
        bail!("metadata size {} exceeds the file", sz);
    }
    let footer = meta_end - sz;
    let mut c = Cur::new(b, footer, meta_end);
    let root = node(&mut c)?;
    let meta_field = c.p;
    let meta_offset = c.u64()?;
    let n = c.uvar()? as usize;
    let bytes = c.take(n)?.to_vec();
    let size = c.uvar()?;
    let k = c.uvar()?;
    if c.left() != 0 {
        bail!("{} stray bytes after the bloom filter", c.left());
    }
    Ok(Footer {
        footer,
        root,
        meta_offset,
        meta_field,
        bloom: Bloom { bytes, size, k },
    })
}

/// Reads the whole file and checks that it is well formed; `base` is the sink position of the
/// first byte, `degree` the maximum number of children.
pub fn file(b: &[u8], base: u64, degree: usize) -> R<File> {
    let f = footer(b)?;
    let scan = scan(b, false)?;
    let sep = scan.sep.unwrap();
    let rel = |off: u64| -> R<usize> {
        match off.checked_sub(base) {
            Some(o) if (o as usize) < b.len() && o < usize::MAX as u64 => Ok(o as usize),
            _ => bail!("offset {} outside of the file", off),
        }
    };
    if rel(f.meta_offset)? != sep {
        bail!("metadata offset {} but the separator is at {}", f.meta_offset, sep);
    }
    let mut out = File {
        scan,
        series: vec![],
        nodes: vec![],
        root: f.root.clone(),
        meta_offset: f.meta_offset,
        meta_field: f.meta_field,
        bloom: f.bloom,
        footer: f.footer,
        depth: 0,
    };
    if !matches!(f.root.kind, NodeKind::LeafDevice | NodeKind::InternalDevice) {
        bail!("root node is {:?}", f.root.kind);
    }
    let mut intervals: Vec<(usize, usize)> = vec![];
    walk(b, base, degree, &f.root, None, 1, &mut out, &mut intervals)?;
    // every byte between separator and footer exactly once
    intervals.sort();
    let mut at = sep + 1;
    for (s, e) in intervals {
        if s != at {
            bail!(
                "{} in the metadata section at {}..{}",
                if s > at { "gap" } else { "overlap" },
                at.min(s),
                at.max(s)
            );
        }
        at = e;
    }
    if at != f.footer {
        bail!("metadata section ends at {}, file metadata starts at {}", at, f.footer);
    }
    Ok(out)
}

#[allow(clippy::too_many_arguments)]
fn walk(
    b: &[u8],
    base: u64,
    degree: usize,
    n: &Node,
    dev: Option<&str>,
    depth: usize,
    out: &mut File,
    iv: &mut Vec<(usize, usize)>,
) -> R<()> {
    out.depth = out.depth.max(depth);
    if depth > 64 {
        bail!("index too deep");
    }
    if n.children.len() > degree {
        bail!("index node at {} has {} children", n.pos, n.children.len());
    }
    if n.children.is_empty() && depth > 1 {
        bail!("index node at {} has no children", n.pos);
    }
    for w in n.children.windows(2) {
        if w[0].0.as_bytes() >= w[1].0.as_bytes() {
            bail!("index node at {}: {:?} before {:?}", n.pos, w[0].0, w[1].0);
        }
        if w[0].1 >= w[1].1 {
            bail!("index node at {}: offsets not ascending", n.pos);
        }
    }
    for (i, (name, off, _)) in n.children.iter().enumerate() {
        let hi = if i + 1 < n.children.len() {
            n.children[i + 1].1
        } else {
            n.end_offset
        };
        let lo = match off.checked_sub(base) {
            Some(o) if o <= b.len() as u64 => o as usize,
            _ => bail!("index node at {}: child offset {}", n.pos, off),
        };
        let hi = match hi.checked_sub(base) {
            Some(o) if o <= b.len() as u64 => o as usize,
            _ => bail!("index node at {}: end offset {}", n.pos, hi),
        };
        if lo >= hi || lo < 8 {
            bail!("index node at {}: child extent {}..{}", n.pos, lo, hi);
        }
        let mut c = Cur::new(b, lo, hi);
        if n.kind == NodeKind::LeafMeasurement {
            let dev = match dev {
                Some(d) => d,
                None => bail!("measurement node at {} outside of a device", n.pos),
            };
            let mut k = 0;
            while c.left() > 0 {
                let m = series_meta(&mut c, dev)
                    .map_err(|e| format!("index node at {}, child {:?}: {}", n.pos, name, e))?;
                if k == 0 && &m.meas != name {
                    bail!("index node at {}: entry {:?} leads to {:?}", n.pos, name, m.meas);
                }
                iv.push((m.pos, m.end));
                out.series.push(m);
                k += 1;
            }
            if k > degree {
                bail!("index node at {}: {} series below {:?}", n.pos, k, name);
            }
        } else {
            let ch = node(&mut c)
                .map_err(|e| format!("index node at {}, child {:?}: {}", n.pos, name, e))?;
            if c.left() != 0 {
                bail!("index node at {}: extent of child {:?} has {} more bytes", n.pos, name, c.left());
            }
            let ok = match n.kind {
                NodeKind::InternalDevice => {
                    matches!(ch.kind, NodeKind::InternalDevice | NodeKind::LeafDevice)
                }
                _ => matches!(
                    ch.kind,
                    NodeKind::InternalMeasurement | NodeKind::LeafMeasurement
                ),
            };
            if !ok {
                bail!("index node at {} ({:?}): child {:?} is {:?}", n.pos, n.kind, name, ch.kind);
            }
            let first = ch.children.first().map(|c| c.0.clone());
            if n.kind != NodeKind::LeafDevice && first.as_deref() != Some(name.as_str()) {
                bail!("index node at {}: entry {:?} leads to node starting with {:?}", n.pos, name, first);
            }
            iv.push((ch.pos, ch.end));
            out.nodes.push(ch.clone());
            let d = if n.kind == NodeKind::LeafDevice {
                Some(name.as_str())
            } else {
                dev
            };
            walk(b, base, degree, &ch, d, depth + 1, out, iv)?;
        }
    }
    Ok(())
}

/// What a reader does: descends the index by binary search. None: not in the file.
pub fn find(b: &[u8], base: u64, f: &Footer, dev: &str, meas: &str) -> R<Option<SeriesMeta>> {
    let rel = |off: u64| -> R<usize> {
        match off.checked_sub(base) {
            Some(o) if o <= b.len() as u64 => Ok(o as usize),
            _ => bail!("offset {} outside of the file", off),
        }
    };
    let mut n = f.root.clone();
    for _ in 0..64 {
        let (key, exact) = match n.kind {
            NodeKind::InternalDevice => (dev, false),
            NodeKind::LeafDevice => (dev, true),
            _ => (meas, false),
        };
        let i = match n
            .children
            .binary_search_by(|c| c.0.as_bytes().cmp(key.as_bytes()))
        {
            Ok(i) => i,
            Err(_) if exact => return Ok(None),
            Err(0) => return Ok(None),
            Err(i) => i - 1,
        };
        let lo = rel(n.children[i].1)?;
        let hi = rel(if i + 1 < n.children.len() {
            n.children[i + 1].1
        } else {
            n.end_offset
        })?;
        if lo > hi {
            bail!("extent {}..{}", lo, hi);
        }
        let mut c = Cur::new(b, lo, hi);
        if n.kind == NodeKind::LeafMeasurement {
            let mut l = vec![];
            while c.left() > 0 {
                l.push(series_meta(&mut c, dev)?);
            }
            return Ok(
                match l.binary_search_by(|m| m.meas.as_bytes().cmp(meas.as_bytes())) {
                    Ok(i) => Some(l.swap_remove(i)),
                    Err(_) => None,
                },
            );
        }
        n = node(&mut c)?;
    }
    bail!("index too deep")
}

/// The points of a series as a reader gets them: by index search, then chunk by chunk.
pub fn read_series(
    b: &[u8],
    base: u64,
    f: &Footer,
    dev: &str,
    meas: &str,
) -> R<Option<Vec<(i64, u64)>>> {
    let m = match find(b, base, f, dev, meas)? {
        None => return Ok(None),
        Some(m) => m,
    };
    let mut out = vec![];
    for (off, _, _) in &m.chunks {
        let o = match off.checked_sub(base) {
            Some(o) if o < f.footer as u64 => o as usize,
            _ => bail!("chunk offset {} outside of the file", off),
        };
        let mut c = Cur::new(b, o, f.footer);
        let marker = c.u8()?;
        if marker != 1 && marker != 5 {
            bail!("chunk offset {} leads to marker {}", off, marker);
        }
        let ch = chunk(&mut c, o, marker, dev, 0)?;
        if ch.meas != meas {
            bail!("chunk offset of {:?} leads to a chunk of {:?}", meas, ch.meas);
        }
        if ch.dt != m.dt {
            bail!("chunk at {} has data type {:?}, the index says {:?}", o, ch.dt, m.dt);
        }
        out.extend(ch.points().copied());
    }
    Ok(Some(out))
}
