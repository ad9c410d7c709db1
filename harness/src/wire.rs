//! An independent codec of Thrift's binary protocol: what goes over the wire is judged without the
//! generated code.

#[derive(Clone, Debug, PartialEq)]
pub enum W {
    Bool(bool),
    Byte(i8),
    Double(u64),
    I16(i16),
    I32(i32),
    I64(i64),
    Str(Vec<u8>),
    Struct(Vec<(i16, W)>),
    Map(u8, u8, Vec<(W, W)>),
    Set(u8, Vec<W>),
    List(u8, Vec<W>),
}

impl W {
    pub fn s(x: &str) -> W {
        W::Str(x.as_bytes().to_vec())
    }
    pub fn code(&self) -> u8 {
        match self {
            W::Bool(_) => 2,
            W::Byte(_) => 3,
            W::Double(_) => 4,
            W::I16(_) => 6,
            W::I32(_) => 8,
            W::I64(_) => 10,
            W::Str(_) => 11,
            W::Struct(_) => 12,
            W::Map(..) => 13,
            W::Set(..) => 14,
            W::List(..) => 15,
        }
    }
    fn put(&self, o: &mut Vec<u8>) {
        match self {
            W::Bool(b) => o.push(*b as u8),
            W::Byte(b) => o.push(*b as u8),
            W::Double(d) => o.extend(d.to_be_bytes()),
            W::I16(x) => o.extend(x.to_be_bytes()),
            W::I32(x) => o.extend(x.to_be_bytes()),
            W::I64(x) => o.extend(x.to_be_bytes()),
            W::Str(s) => {
                o.extend((s.len() as i32).to_be_bytes());
                o.extend(s);
            }
            W::Struct(f) => {
                for (id, v) in f {
                    o.push(v.code());
                    o.extend(id.to_be_bytes());
                    v.put(o);
                }
                o.push(0);
            }
            W::Map(k, v, l) => {
                o.push(*k);
                o.push(*v);
                o.extend((l.len() as i32).to_be_bytes());
                for (a, b) in l {
                    a.put(o);
                    b.put(o);
                }
            }
            W::Set(t, l) | W::List(t, l) => {
                o.push(*t);
                o.extend((l.len() as i32).to_be_bytes());
                l.iter().for_each(|x| x.put(o));
            }
        }
    }
    pub fn field(&self, id: i16) -> Option<&W> {
        match self {
            W::Struct(f) => f.iter().find(|x| x.0 == id).map(|x| &x.1),
            _ => None,
        }
    }
}

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.0.len() < n {
            return Err(format!("{} bytes missing", n - self.0.len()));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn u8(&mut self) -> Result<u8, String> {
        Ok(self.take(1)?[0])
    }
    fn i16(&mut self) -> Result<i16, String> {
        Ok(i16::from_be_bytes(self.take(2)?.try_into().unwrap()))
    }
    fn i32(&mut self) -> Result<i32, String> {
        Ok(i32::from_be_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn i64(&mut self) -> Result<i64, String> {
        Ok(i64::from_be_bytes(self.take(8)?.try_into().unwrap()))
    }
    fn len(&mut self) -> Result<usize, String> {
        let n = self.i32()?;
        if n < 0 || n as usize > self.0.len() {
            return Err(format!("length {}", n));
        }
        Ok(n as usize)
    }
    fn val(&mut self, t: u8) -> Result<W, String> {
        Ok(match t {
            2 => W::Bool(self.u8()? != 0),
            3 => W::Byte(self.u8()? as i8),
            4 => W::Double(self.i64()? as u64),
            6 => W::I16(self.i16()?),
            8 => W::I32(self.i32()?),
            10 => W::I64(self.i64()?),
            11 => {
                let n = self.len()?;
                W::Str(self.take(n)?.to_vec())
            }
            12 => {
                let mut f = vec![];
                loop {
                    let t = self.u8()?;
                    if t == 0 {
                        return Ok(W::Struct(f));
                    }
                    let id = self.i16()?;
                    f.push((id, self.val(t)?));
                }
            }
            13 => {
                let (k, v) = (self.u8()?, self.u8()?);
                let n = self.len()?;
                let mut l = vec![];
                for _ in 0..n {
                    l.push((self.val(k)?, self.val(v)?));
                }
                W::Map(k, v, l)
            }
            14 | 15 => {
                let e = self.u8()?;
                let n = self.len()?;
                let mut l = vec![];
                for _ in 0..n {
                    l.push(self.val(e)?);
                }
                if t == 14 {
                    W::Set(e, l)
                } else {
                    W::List(e, l)
                }
            }
            _ => return Err(format!("type {}", t)),
        })
    }
}

pub const CALL: u8 = 1;
pub const REPLY: u8 = 2;
pub const EXCEPTION: u8 = 3;

#[derive(Clone, Debug, PartialEq)]
pub struct Msg {
    pub name: String,
    pub ty: u8,
    pub seq: i32,
    pub body: W,
    pub strict: bool,
}

impl Msg {
    pub fn parse(b: &[u8]) -> Result<Msg, String> {
        let mut r = Rd(b);
        let first = r.i32()?;
        let (name, ty, seq, strict);
        if first < 0 {
            if (first as u32) & 0xffff_0000 != 0x8001_0000 {
                return Err(format!("version {:#x}", first));
            }
            ty = first as u8;
            let n = r.len()?;
            name = r.take(n)?.to_vec();
            strict = true;
        } else {
            name = r.take(first as usize)?.to_vec();
            ty = r.u8()?;
            strict = false;
        }
        seq = r.i32()?;
        let body = r.val(12)?;
        if !r.0.is_empty() {
            return Err(format!("{} bytes after the message", r.0.len()));
        }
        Ok(Msg {
            name: String::from_utf8(name).map_err(|e| e.to_string())?,
            ty,
            seq,
            body,
            strict,
        })
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut o = vec![];
        if self.strict {
            o.extend((0x8001_0000u32 | self.ty as u32).to_be_bytes());
            W::s(&self.name).put(&mut o);
        } else {
            W::s(&self.name).put(&mut o);
            o.push(self.ty);
        }
        o.extend(self.seq.to_be_bytes());
        self.body.put(&mut o);
        o
    }
}

/// Values of fields nobody knows
pub fn unknown(k: u8, seed: u64) -> W {
    let b = format!("{:x}ä", seed).into_bytes();
    match k % 13 {
        0 => W::Bool(seed & 1 == 1),
        1 => W::Byte(seed as i8),
        2 => W::Double(seed),
        3 => W::I16(seed as i16),
        4 => W::I32(seed as i32),
        5 => W::I64(seed as i64),
        6 => W::Str(b.clone()),
        7 => W::Struct(vec![(1, W::I32(seed as i32)), (9, W::Struct(vec![])), (-3, W::Str(b.clone()))]),
        8 => W::Map(11, 8, vec![(W::Str(b.clone()), W::I32(7)), (W::Str(vec![]), W::I32(-1))]),
        9 => W::Set(10, vec![W::I64(seed as i64), W::I64(-1)]),
        10 => W::List(12, vec![W::Struct(vec![(1, W::Bool(true))]), W::Struct(vec![])]),
        11 => W::List(3, vec![]),
        _ => W::Str(vec![]),
    }
}
