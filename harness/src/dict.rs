//! A dictionary of constants for the generators, read from the sources of the code under test:
//! numbers and texts that the code compares with are boundaries worth trying. Constants that are
//! not in `dict_base.txt` (those of the tree the harness was written for) are preferred. They only
//! bias what is generated, never what is expected.
use proptest::prelude::*;
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

pub struct Dict {
    pub ints: Vec<u64>,
    pub strs: Vec<String>,
    pub fresh_ints: Vec<u64>,
    pub fresh_strs: Vec<String>,
}

fn tokens(src: &str, ints: &mut BTreeSet<u64>, strs: &mut BTreeSet<String>) {
    let src = src.split("#[cfg(test)]\nmod ").next().unwrap_or("");
    let b: Vec<char> = src.chars().collect();
    let mut i = 0;
    let mut prev: Option<u64> = None;
    while i < b.len() {
        let c = b[i];
        if c == '/' && b.get(i + 1) == Some(&'/') {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if c == '"' {
            let mut s = String::new();
            i += 1;
            while i < b.len() && b[i] != '"' {
                if b[i] == '\\' {
                    i += 1;
                }
                if let Some(x) = b.get(i) {
                    s.push(*x);
                }
                i += 1;
            }
            i += 1;
            if s.chars().count() <= 40 && !s.contains('\n') {
                strs.insert(s);
            }
        } else if c == '\'' && b.get(i + 2) == Some(&'\'') && b[i + 1] != '\\' {
            strs.insert(b[i + 1].to_string());
            ints.insert(b[i + 1] as u64);
            i += 3;
        } else if c == '_' || c.is_alphabetic() {
            while i < b.len() && (b[i] == '_' || b[i].is_alphanumeric()) {
                i += 1;
            }
            prev = None;
        } else if c.is_ascii_digit() {
            let mut s = String::new();
            while i < b.len() && (b[i] == '_' || b[i].is_alphanumeric()) {
                if b[i] != '_' {
                    s.push(b[i]);
                }
                i += 1;
            }
            let v = number(&s);
            if let Some(v) = v {
                ints.insert(v);
                // simple products and shifts on one line
                if let Some(p) = prev {
                    let op: String = b[..i].iter().rev().take(24).collect::<String>().chars().rev().collect();
                    if op.contains("<<") && v < 64 {
                        ints.insert(p << v);
                    } else if op.contains('*') {
                        ints.insert(p.saturating_mul(v));
                        prev = Some(p.saturating_mul(v));
                        continue;
                    }
                }
            }
            prev = v;
        } else {
            if !matches!(c, ' ' | '*' | '<' | '(' | ')') {
                prev = None;
            }
            i += 1;
        }
    }
}

fn number(s: &str) -> Option<u64> {
    let mut t = s;
    for suf in ["usize", "isize", "u64", "i64", "u32", "i32", "u16", "i16", "u128", "i128"] {
        t = t.strip_suffix(suf).unwrap_or(t);
    }
    if let Some(h) = t.strip_prefix("0x") {
        return u64::from_str_radix(h, 16).ok();
    }
    if let Some(h) = t.strip_prefix("0b") {
        return u64::from_str_radix(h, 2).ok();
    }
    for suf in ["u8", "i8", "f32", "f64"] {
        t = t.strip_suffix(suf).unwrap_or(t);
    }
    t.parse().ok()
}

fn walk(dir: &Path, ints: &mut BTreeSet<u64>, strs: &mut BTreeSet<String>, depth: u32) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    es.sort();
    for p in es {
        let name = p.file_name().unwrap_or_default().to_string_lossy().to_string();
        if p.is_dir() && depth < 6 {
            if !matches!(name.as_str(), "target" | "tests") && !name.starts_with('.') {
                walk(&p, ints, strs, depth + 1);
            }
        } else if (name.ends_with(".rs") && !name.contains("test")) || name.ends_with(".py") {
            if let Ok(s) = std::fs::read_to_string(&p) {
                tokens(&s, ints, strs);
            }
        }
    }
}

fn scan() -> (BTreeSet<u64>, BTreeSet<String>) {
    let repo = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
    let (mut ints, mut strs) = (BTreeSet::new(), BTreeSet::new());
    for d in ["tsfile-writer/src", "tsfile-writer-c"] {
        walk(&Path::new(&repo).join(d), &mut ints, &mut strs, 0);
    }
    (ints, strs)
}

/// The contents of dict_base.txt
pub fn dump() {
    let (i, s) = scan();
    for x in i {
        println!("i {}", x);
    }
    for x in s {
        println!("s {}", x);
    }
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let base: BTreeSet<&str> = include_str!("dict_base.txt").lines().collect();
        let (ints, strs) = scan();
        let near = |set: &mut BTreeSet<u64>, x: u64| {
            set.insert(x.wrapping_sub(1));
            set.insert(x);
            set.insert(x.wrapping_add(1));
        };
        let (mut all, mut fresh) = (BTreeSet::new(), BTreeSet::new());
        for k in 0..64 {
            near(&mut all, 1 << k);
        }
        for x in &ints {
            near(&mut all, *x);
            if !base.contains(format!("i {}", x).as_str()) {
                near(&mut fresh, *x);
            }
        }
        Dict {
            ints: all.into_iter().collect(),
            fresh_ints: fresh.into_iter().collect(),
            fresh_strs: strs.iter().filter(|s| !base.contains(format!("s {}", s).as_str())).cloned().collect(),
            strs: strs.into_iter().collect(),
        }
    })
}

/// A number of the dictionary in the range, if there is one
pub fn int_in(lo: u64, hi: u64) -> BoxedStrategy<u64> {
    let d = dict();
    let pick = |v: &Vec<u64>| -> Vec<u64> { v.iter().copied().filter(|x| *x >= lo && *x <= hi).collect() };
    let (a, f) = (pick(&d.ints), pick(&d.fresh_ints));
    match (a.is_empty(), f.is_empty()) {
        (true, _) => (lo..=hi).boxed(),
        (_, true) => proptest::sample::select(a).boxed(),
        _ => prop_oneof![proptest::sample::select(a), proptest::sample::select(f)].boxed(),
    }
}

/// A number of the dictionary, either sign
pub fn signed() -> BoxedStrategy<i64> {
    (int_in(0, u64::MAX), any::<bool>())
        .prop_map(|(x, neg)| if neg { (x as i64).wrapping_neg() } else { x as i64 })
        .boxed()
}

pub fn text() -> BoxedStrategy<String> {
    let d = dict();
    if d.strs.is_empty() {
        return Just("root".to_string()).boxed();
    }
    let a = proptest::sample::select(d.strs.clone());
    if d.fresh_strs.is_empty() {
        a.boxed()
    } else {
        prop_oneof![a, proptest::sample::select(d.fresh_strs.clone())].boxed()
    }
}

/// Names with a length, a character or a part of the dictionary
pub fn name(max: u64) -> BoxedStrategy<String> {
    prop_oneof![
        (int_in(1, max), any::<char>(), any::<bool>()).prop_map(|(n, c, ascii)| {
            let c = if ascii { (b'a' + (c as u32 % 26) as u8) as char } else { c };
            c.to_string().repeat((n as usize / c.len_utf8()).max(1))
        }),
        text(),
        (text(), "[a-z0-9]{0,4}").prop_map(|(a, b)| format!("{}{}", a, b)),
        ("[a-z0-9]{0,4}", text()).prop_map(|(a, b)| format!("{}{}", a, b)),
        ("[a-z]{0,3}", text(), "[a-z]{0,3}").prop_map(|(a, b, c)| format!("{}{}{}", a, b, c)),
        (int_in(0, 1 << 20)).prop_map(|n| format!("s{}", n)),
    ]
    .boxed()
}
