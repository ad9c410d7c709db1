//! Independent decoder of the metadata log
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Plan {
    StorageGroup(String),
    Series { path: String, dt: u8, enc: u8, comp: u8 },
}

/// CRC-32 (IEEE), bit by bit
pub fn crc32(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xedb8_8320 } else { c >> 1 };
        }
    }
    !c
}

fn take<'a>(b: &mut &'a [u8], n: usize) -> Result<&'a [u8], String> {
    if b.len() < n {
        return Err(format!("truncated: {} of {} bytes", b.len(), n));
    }
    let (x, y) = b.split_at(n);
    *b = y;
    Ok(x)
}
fn int(b: &mut &[u8]) -> Result<i32, String> {
    Ok(i32::from_be_bytes(take(b, 4)?.try_into().unwrap()))
}
fn long(b: &mut &[u8]) -> Result<i64, String> {
    Ok(i64::from_be_bytes(take(b, 8)?.try_into().unwrap()))
}
fn text(b: &mut &[u8]) -> Result<String, String> {
    let n = int(b)?;
    if n < 0 {
        return Err(format!("text of length {}", n));
    }
    String::from_utf8(take(b, n as usize)?.to_vec()).map_err(|e| e.to_string())
}

/// the records with their plans
pub fn decode(mut b: &[u8]) -> Result<Vec<Vec<Plan>>, String> {
    let mut out = vec![];
    while !b.is_empty() {
        let n = int(&mut b)?;
        if n < 0 {
            return Err(format!("record of length {}", n));
        }
        let body = take(&mut b, n as usize)?;
        let sum = long(&mut b)?;
        if sum != crc32(body) as i64 {
            return Err(format!(
                "record {}: checksum {:#x} instead of {:#x}",
                out.len(),
                sum,
                crc32(body)
            ));
        }
        out.push(plans(body).map_err(|e| format!("record {}: {}", out.len(), e))?);
    }
    Ok(out)
}

fn plans(mut b: &[u8]) -> Result<Vec<Plan>, String> {
    let mut out = vec![];
    while !b.is_empty() {
        match take(&mut b, 1)?[0] {
            3 => {
                let p = text(&mut b)?;
                let index = long(&mut b)?;
                if index != 0 {
                    return Err(format!("index {}", index));
                }
                out.push(Plan::StorageGroup(p));
            }
            4 => {
                let path = text(&mut b)?;
                let c = take(&mut b, 3)?;
                let tags = long(&mut b)?;
                if tags != -1 {
                    return Err(format!("tag offset {}", tags));
                }
                let absent = take(&mut b, 4)?;
                if absent != [0; 4] {
                    return Err(format!("alias, properties, tags, attributes: {:?}", absent));
                }
                let index = long(&mut b)?;
                if index != 0 {
                    return Err(format!("index {}", index));
                }
                out.push(Plan::Series { path, dt: c[0], enc: c[1], comp: c[2] });
            }
            t => return Err(format!("plan of type {}", t)),
        }
    }
    Ok(out)
}

/// A log of a schema: the storage group first, then every series once
pub fn describes(log: &[u8], group: &str, flat: &crate::model::Flat) -> Result<(), String> {
    let recs = decode(log)?;
    let mut all: Vec<Plan> = recs.into_iter().flatten().collect();
    if all.is_empty() || all[0] != Plan::StorageGroup(group.to_string()) {
        return Err(format!("the log starts with {:?} instead of the storage group {:?}", all.first(), group));
    }
    let mut got = all.split_off(1);
    got.sort();
    let mut want: Vec<Plan> = (0..flat.series.len())
        .map(|s| {
            let m = flat.ms(s);
            Plan::Series {
                path: format!("{}.{}.{}", group, flat.dev(s), m.name),
                dt: m.dt.code(),
                enc: m.enc.code(),
                comp: m.comp.code(),
            }
        })
        .collect();
    want.sort();
    if got != want {
        let i = (0..got.len().max(want.len())).find(|i| got.get(*i) != want.get(*i)).unwrap();
        return Err(format!(
            "{} series registered instead of {}, number {} in order is {:?} instead of {:?}",
            got.len(),
            want.len(),
            i,
            got.get(i),
            want.get(i)
        ));
    }
    Ok(())
}
