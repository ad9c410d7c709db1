//! C16, C17, C21, C22, C26: file creation, buffering bounds, schemas, metadata log, codes
use crate::auto::*;
use crate::common::*;
use crate::exec::*;
use crate::model::*;
use crate::props_file::well_formed;
use crate::reader;
use crate::run::*;
use crate::scratch;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use tsfile_writer::writer::compression::CompressionType;
use tsfile_writer::writer::encoding::TSEncoding;
use tsfile_writer::writer::schema::{DeviceBuilder, TsFileSchemaBuilder};
use tsfile_writer::writer::tsfile_writer::TsFileWriter;
use tsfile_writer::writer::{MeasurementGroup, Schema, TSDataType};

// ------------------------------------------------------------------------------------------- C16

pub struct C16;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Bad {
    /// an existing directory, with so many entries
    Directory(u8),
    /// so many levels below a regular file
    BelowFile(u8),
    Empty,
    Root,
    DotDot(u8),
    /// NUL byte at that share of the name
    Nul(u8),
    TooLong,
    /// a symbolic link to itself
    Loop,
    TrailingSlash(bool),
    /// as an unprivileged user: 0: new file in a directory that is not writable, 1: existing file
    /// that is not writable, 2: new directories in a directory that is not writable, 3: below a
    /// directory that cannot be entered, 4: permitted
    Unprivileged(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PathCase {
    pub bad: Option<Bad>,
    /// missing directories
    pub missing: Vec<String>,
    /// existing directories above them
    pub existing: u8,
    pub name: String,
    /// previous content of the file
    pub old: Option<u32>,
    /// the file is a symbolic link to another file
    pub link: bool,
    /// 0 absolute, 1 relative, 2 relative without directory, 3 with "." and "//" inside,
    /// 4 through a link to the directory, 5 with ".." after a link, 6 with ".." after a directory
    pub style: u8,
    /// other files around
    pub others: u8,
    pub hist: Hist,
    /// the writer is only dropped
    pub no_close: bool,
}

fn component() -> BoxedStrategy<String> {
    prop_oneof![
        5 => "[a-zA-Z0-9_.-]{1,12}",
        1 => "[ -~]{1,20}",
        1 => "\\PC{1,8}",
        1 => "[a-z]{60,180}",
        1 => Just("...".to_string()),
    ]
    .prop_map(|s| {
        let s: String = s.chars().filter(|c| *c != '/' && *c != '\0').collect();
        let mut s = if s.is_empty() || s == "." || s == ".." { "x".to_string() } else { s };
        while s.len() > 200 {
            s.pop();
        }
        s
    })
    .boxed()
}

/// directories and contents of files below, links as their targets
fn snapshot(root: &Path) -> BTreeMap<PathBuf, Option<Vec<u8>>> {
    let mut out = BTreeMap::new();
    let mut todo = vec![root.to_path_buf()];
    while let Some(d) = todo.pop() {
        let rd = match std::fs::read_dir(&d) {
            Ok(r) => r,
            Err(_) => continue,
        };
        for e in rd.flatten() {
            let p = e.path();
            let ft = e.file_type().expect("file type");
            if ft.is_symlink() {
                let t = std::fs::read_link(&p).unwrap();
                out.insert(p, Some(t.to_string_lossy().into_owned().into_bytes()));
            } else if ft.is_dir() {
                out.insert(p.clone(), None);
                todo.push(p);
            } else {
                out.insert(p.clone(), Some(std::fs::read(&p).unwrap_or_default()));
            }
        }
    }
    out
}

fn patterned(n: usize, k: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add(k)).collect()
}

/// `harness worker create <path>`: tries to create a writer and to write
pub fn worker_create(path: &str) -> i32 {
    install_panic_hook();
    let path = path.to_string();
    let r = guarded(move || {
        let schema = Schema::simple("d", "s", TSDataType::INT32, TSEncoding::PLAIN, CompressionType::UNCOMPRESSED);
        match TsFileWriter::new(&path, schema, Default::default()) {
            Ok(mut w) => {
                let a = w.write("d", "s", 1, Val::I(1).real()).is_ok();
                let b = w.close().res().is_ok();
                a && b
            }
            Err(_) => false,
        }
    });
    match r {
        Ok(true) => println!("ok"),
        Ok(false) => println!("error"),
        Err(m) => println!("{}", m.replace('\n', " ")),
    }
    0
}

/// The harness where an unprivileged user can execute it
fn shared_exe() -> Option<PathBuf> {
    use std::os::unix::fs::PermissionsExt;
    static EXE: std::sync::OnceLock<Option<PathBuf>> = std::sync::OnceLock::new();
    EXE.get_or_init(|| {
        let d = scratch::root().join("exe");
        std::fs::create_dir_all(&d).ok()?;
        std::fs::set_permissions(scratch::root(), std::fs::Permissions::from_mode(0o755)).ok()?;
        std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0o755)).ok()?;
        let p = d.join("harness");
        std::fs::copy(std::env::current_exe().ok()?, &p).ok()?;
        std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).ok()?;
        Some(p)
    })
    .clone()
}

fn unprivileged(path: &Path, cwd: &Path) -> Option<String> {
    use std::os::unix::process::CommandExt;
    let exe = shared_exe()?;
    let out = std::process::Command::new(exe)
        .arg("worker")
        .arg("create")
        .arg(path)
        .current_dir(cwd)
        .env_clear()
        .uid(65534)
        .gid(65534)
        .output()
        .ok()?;
    let s = String::from_utf8_lossy(&out.stdout).trim().to_string();
    if s.is_empty() {
        Some(format!("no answer: {:?} {}", out.status, String::from_utf8_lossy(&out.stderr)))
    } else {
        Some(s)
    }
}

impl Prop for C16 {
    type Case = PathCase;
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "random path situations inside a scratch directory: missing and existing parents, previous content shorter and longer than the file, links, absolute and relative spellings, and paths that cannot be created; file system compared before and after, written file compared with the in-memory output; non-trivial: the path cannot be created, or parents are missing, or the file had content"
    }
    fn quick_scale(&self) -> f64 {
        4.0
    }
    fn phases(&self, _t: Tier) -> Vec<Phase<PathCase>> {
        let case = |bad: BoxedStrategy<Option<Bad>>, old: BoxedStrategy<Option<u32>>| {
            (
                bad,
                proptest::collection::vec(component(), 0..4),
                (0u8..3, component(), old, prop_oneof![5 => Just(false), 1 => Just(true)], 0u8..7, 0u8..4),
                hist(schema_strat(2, 3, 0), op_strat(OpMix { pages: 0, ..GOOD }), 0..=6),
                prop_oneof![9 => Just(false), 1 => Just(true)],
            )
                .prop_map(|(bad, missing, (existing, name, old, link, style, others), hist, no_close)| PathCase {
                    bad,
                    missing,
                    existing,
                    name,
                    old,
                    link,
                    style,
                    others,
                    hist,
                    no_close,
                })
        };
        let bad = prop_oneof![
            (0u8..3).prop_map(Bad::Directory),
            (1u8..4).prop_map(Bad::BelowFile),
            Just(Bad::Empty),
            Just(Bad::Root),
            (0u8..4).prop_map(Bad::DotDot),
            any::<u8>().prop_map(Bad::Nul),
            Just(Bad::TooLong),
            Just(Bad::Loop),
            any::<bool>().prop_map(Bad::TrailingSlash),
        ]
        .prop_map(Some);
        let old = || prop_oneof![16 => Just(None), 16 => (0u32..100).prop_map(Some), 16 => (0u32..5000).prop_map(Some), 4 => crate::dict::int_in(0, 300_000).prop_map(|n| Some(n as u32)), 1 => (300_000u32..9_000_000).prop_map(Some)].boxed();
        vec![
            phase("creatable", 12_000, 200_000, case(Just(None).boxed(), old())),
            phase("not creatable", 8000, 120_000, case(bad.boxed(), old())),
            phase(
                "unprivileged user",
                200,
                3000,
                case((0u8..5).prop_map(|k| Some(Bad::Unprivileged(k))).boxed(), old()),
            ),
        ]
    }
    fn check(&self, c: &PathCase, obs: &mut Obs) -> Result<(), String> {
        use std::os::unix::fs::PermissionsExt;
        // bare names are relative to this directory
        let _ = std::fs::create_dir_all(scratch::root());
        std::env::set_current_dir(scratch::root()).map_err(|e| format!("chdir: {}", e))?;
        let fresh = scratch::fresh();
        let root = fresh.path().to_path_buf();
        let mut dir = root.clone();
        for i in 0..c.existing {
            dir = dir.join(format!("e{}", i));
        }
        std::fs::create_dir_all(&dir).unwrap();
        for i in 0..c.others {
            std::fs::write(dir.join(format!("other-{}-file", i)), patterned(10 * i as usize, i)).unwrap();
        }
        if let Some(b) = &c.bad {
            return self.not_creatable(c, b, &root, &dir, obs);
        }
        let bare = c.style == 2;
        let target_dir = if bare {
            scratch::root()
        } else {
            c.missing.iter().fold(dir.clone(), |d, m| d.join(m))
        };
        let name = if bare {
            // unique in the common directory
            format!("{}-{}", root.file_name().unwrap().to_str().unwrap(), c.name.chars().take(60).collect::<String>())
        } else {
            c.name.clone()
        };
        let path = target_dir.join(&name);
        let had = c.old.is_some();
        if let Some(n) = c.old {
            std::fs::create_dir_all(&target_dir).unwrap();
            let content = patterned(n as usize, 7);
            if c.link {
                let real = root.join("link-target");
                std::fs::write(&real, content).unwrap();
                std::os::unix::fs::symlink(&real, &path).unwrap();
            } else {
                std::fs::write(&path, content).unwrap();
            }
        }
        struct Gone(PathBuf);
        impl Drop for Gone {
            fn drop(&mut self) {
                let _ = std::fs::remove_file(&self.0);
            }
        }
        let _gone = Gone(path.clone());
        let mut real_dir = None;
        if matches!(c.style, 4 | 5 | 6) {
            let inner = target_dir.join("inner.d");
            std::fs::create_dir_all(&inner).unwrap();
            if c.style != 6 {
                let to = if c.style == 4 { &target_dir } else { &inner };
                std::os::unix::fs::symlink(to, root.join("way")).unwrap();
            }
            real_dir = Some(inner);
        }
        let spelled = match c.style {
            4 => format!("{}/way/{}", root.to_str().unwrap(), name),
            5 => format!("{}/way/../{}", root.to_str().unwrap(), name),
            6 => format!("{}/../{}", real_dir.as_ref().unwrap().to_str().unwrap(), name),
            0 => path.to_str().unwrap().to_string(),
            1 => path.strip_prefix(scratch::root()).unwrap().to_str().unwrap().to_string(),
            2 => name.clone(),
            _ => format!("{}//./{}", target_dir.to_str().unwrap(), name),
        };
        let before = snapshot(&root);
        let (flat, mut calls) = c.hist.expand();
        if c.no_close {
            calls.pop();
        }
        let reference = execute(&flat, &calls, How { degree: None, ..c.hist.how() });
        let written = {
            let mut w = match TsFileWriter::new(&spelled, flat.build(c.hist.perm), config(None)) {
                Ok(w) => w,
                Err(e) => return Err(format!("the writer for {:?} cannot be created: {:?}", spelled, kind(&e))),
            };
            let now = std::fs::read(&path).map_err(|e| format!("no file at {:?} after creation: {}", path, e))?;
            if now.len() > 7 || !b"TsFile\x03".starts_with(&now) {
                return Err(format!("the new file has {} bytes after creation", now.len()));
            }
            for (i, call) in calls.iter().enumerate() {
                let r = apply(&mut w, &flat, call, false);
                if r != reference.results[i] {
                    return Err(format!("call {} {:?}: {:?}, in memory {:?}", i, call, r, reference.results[i]));
                }
            }
            let read = || std::fs::read(&path).map_err(|e| format!("no file at {:?} after close: {}", path, e));
            if !c.no_close {
                // complete as soon as it is closed, whatever becomes of the writer
                same_bytes("file after close and in-memory output", &read()?, &reference.bytes)?;
            }
            drop(w);
            read()?
        };
        same_bytes("file and in-memory output", &written, &reference.bytes)?;
        // nothing else has changed
        let after = snapshot(&root);
        let real = if c.link && had { root.join("link-target") } else { path.clone() };
        for (p, content) in &after {
            if *p == real {
                continue;
            }
            match before.get(p) {
                Some(x) if x == content => {}
                Some(_) => return Err(format!("{:?} was changed", p)),
                None if content.is_none() && path.starts_with(p) => {}
                None => return Err(format!("{:?} appeared", p)),
            }
        }
        for p in before.keys() {
            if !after.contains_key(p) {
                return Err(format!("{:?} disappeared", p));
            }
        }
        obs.nontrivial = had || (!c.missing.is_empty() && !bare);
        obs.class_if(had, "previous content");
        obs.class_if(had && c.old.unwrap() as usize > written.len(), "previous content longer");
        obs.class_if(had && c.link, "symbolic link");
        obs.class_if(!had && !c.missing.is_empty() && !bare, "missing parents");
        obs.class_if(bare, "name without directory");
        obs.class_if(c.style == 1, "relative");
        obs.class_if(c.style == 4, "through a link to a directory");
        obs.class_if(c.style == 5, "parent of a linked directory");
        Ok(())
    }
    fn extra(&self) -> Vec<(String, serde_json::Value)> {
        vec![("unprivileged_possible".into(), serde_json::json!(shared_exe().is_some()))]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the file system of the scratch directory behaves like Linux's; paths are valid UTF-8 (the interface takes text)"]
    }
}

impl C16 {
    fn not_creatable(&self, c: &PathCase, b: &Bad, root: &Path, dir: &Path, obs: &mut Obs) -> Result<(), String> {
        use std::os::unix::fs::PermissionsExt;
        let mode = |p: &Path, m: u32| std::fs::set_permissions(p, std::fs::Permissions::from_mode(m)).unwrap();
        obs.nontrivial = true;
        let base = dir.to_str().unwrap();
        let missing: String = c.missing.iter().map(|m| format!("{}/", m)).collect();
        let mut user = false;
        let mut permitted = false;
        let spelled: String = match b {
            Bad::Directory(n) => {
                obs.class("a directory");
                let d = dir.join(&c.name);
                std::fs::create_dir_all(&d).unwrap();
                for i in 0..*n {
                    std::fs::write(d.join(format!("f{}", i)), patterned(20, i)).unwrap();
                }
                d.to_str().unwrap().into()
            }
            Bad::BelowFile(n) => {
                obs.class("below a regular file");
                let f = dir.join("regular");
                std::fs::write(&f, patterned(50, *n)).unwrap();
                let mut s = f.to_str().unwrap().to_string();
                for i in 0..*n {
                    s.push_str(&format!("/l{}", i));
                }
                s
            }
            Bad::Empty => {
                obs.class("empty");
                String::new()
            }
            Bad::Root => {
                obs.class("the root");
                "/".into()
            }
            Bad::DotDot(k) => {
                obs.class("no file name");
                match k {
                    0 => ".".into(),
                    1 => "..".into(),
                    2 => format!("{}/..", base),
                    _ => format!("{}/.", base),
                }
            }
            Bad::Nul(at) => {
                obs.class("NUL byte");
                let full = format!("{}/{}{}", base, missing, c.name);
                let mut i = base.len() + 1 + (*at as usize * (full.len() - base.len())) / 256;
                while !full.is_char_boundary(i) {
                    i -= 1;
                }
                format!("{}\0{}", &full[..i], &full[i..])
            }
            Bad::TooLong => {
                obs.class("name too long");
                format!("{}/{}", base, "n".repeat(300))
            }
            Bad::Loop => {
                obs.class("link to itself");
                let p = dir.join("loop");
                std::os::unix::fs::symlink(&p, &p).unwrap();
                p.to_str().unwrap().into()
            }
            Bad::TrailingSlash(exists) => {
                obs.class("trailing slash");
                let p = dir.join("trailing");
                if *exists {
                    std::fs::write(&p, patterned(33, 1)).unwrap();
                }
                format!("{}/trailing/", base)
            }
            Bad::Unprivileged(k) => {
                obs.class("as an unprivileged user");
                user = true;
                permitted = *k == 4;
                // every directory up to the scratch root can be entered
                let mut d = dir.to_path_buf();
                while d.starts_with(scratch::root()) {
                    mode(&d, 0o755);
                    if !d.pop() {
                        break;
                    }
                }
                let own = dir.join("zone");
                std::fs::create_dir(&own).unwrap();
                let f = own.join("f.tsfile");
                match k {
                    0 => {
                        mode(&own, 0o555);
                        f
                    }
                    1 => {
                        std::fs::write(&f, patterned(40, 9)).unwrap();
                        mode(&f, 0o444);
                        mode(&own, 0o777);
                        f
                    }
                    2 => {
                        mode(&own, 0o555);
                        own.join("new/dir/f.tsfile")
                    }
                    3 => {
                        std::fs::create_dir(own.join("in")).unwrap();
                        mode(&own, 0o700);
                        own.join("in/f.tsfile")
                    }
                    _ => {
                        mode(&own, 0o777);
                        f
                    }
                }
                .to_str()
                .unwrap()
                .into()
            }
        };
        let before = snapshot(root);
        if user {
            match unprivileged(Path::new(&spelled), dir) {
                None => obs.class("cannot run as an unprivileged user"),
                Some(s) => {
                    let want = if permitted { "ok" } else { "error" };
                    if s != want {
                        return Err(format!("creating {:?} as an unprivileged user: {} instead of {}", spelled, s, want));
                    }
                }
            }
            if permitted {
                return Ok(());
            }
        } else {
            let schema = Schema::simple("d", "s", TSDataType::INT32, TSEncoding::PLAIN, CompressionType::UNCOMPRESSED);
            if TsFileWriter::new(&spelled, schema, Default::default()).is_ok() {
                return Err(format!("creating a writer for {:?} succeeded", spelled));
            }
        }
        let after = snapshot(root);
        for (p, content) in &before {
            if after.get(p) != Some(content) {
                return Err(format!("{:?} was changed by creating {:?}", p, spelled));
            }
        }
        for (p, content) in &after {
            if !before.contains_key(p) && content.is_some() {
                return Err(format!("{:?} appeared by creating {:?}", p, spelled));
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------- C17

pub struct C17;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Buffer {
    Pages(Hist),
    Auto(Auto),
}

impl Prop for C17 {
    type Case = Buffer;
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "runs of several pages with all kinds of data, checked for the size of every page; and runs of 130 to 400 MiB that make the writer flush on its own, checked for the amount of data delivered at each flush, for completeness of what is delivered then, and for the whole file; non-trivial: a page was cut or an automatic flush happened"
    }
    fn phases(&self, _t: Tier) -> Vec<Phase<Buffer>> {
        let one = |tp: BoxedStrategy<TP>, n: std::ops::Range<u32>| {
            (schema_strat(1, 1, 0), n, tp, vp_strat(), any::<u64>()).prop_map(|(schema, n, tp, vp, seed)| {
                Buffer::Pages(Hist {
                    schema,
                    ops: vec![Op::Bulk { s: 0, n, tp, vp, seed }],
                    ..Hist::none()
                })
            })
        };
        vec![
            phase("pages", 300, 6000, pages().prop_map(Buffer::Pages)),
            phase("long runs", 300, 6000, one(tp_strat(), 10_000..60_000)),
            phase("very long runs", 24, 400, one((0u32..3).prop_map(TP::Const).boxed(), 200_000..1_500_000)),
            phase(
                "plain fixed-width",
                200,
                4000,
                (prop_oneof![Just(DT::I64), Just(DT::F32)], comp_strat(), 20_000u32..200_000, 0u32..2000, vp_strat(), any::<u64>(), any::<bool>())
                    .prop_map(|(dt, comp, n, k, vp, seed, even)| {
                        Buffer::Pages(Hist {
                            schema: SchemaSpec::Explicit(vec![DevSpec {
                                name: "d".into(),
                                meas: vec![MeasSpec { name: "s".into(), dt, enc: Enc::Plain, comp }],
                            }]),
                            ops: vec![Op::Bulk { s: 0, n, tp: if even { TP::Const(k) } else { TP::Rand((k % 40) as u8) }, vp, seed }],
                            ..Hist::none()
                        })
                    }),
            ),
            phase(
                "changing step sizes",
                120,
                2400,
                (
                    prop_oneof![Just(DT::I64), Just(DT::F32)],
                    comp_strat(),
                    proptest::collection::vec((20_000u32..90_000, 0u32..2000, vp_strat(), any::<u64>(), any::<bool>()), 2..5),
                )
                    .prop_map(|(dt, comp, runs)| {
                        Buffer::Pages(Hist {
                            schema: SchemaSpec::Explicit(vec![DevSpec {
                                name: "d".into(),
                                meas: vec![MeasSpec { name: "s".into(), dt, enc: Enc::Plain, comp }],
                            }]),
                            ops: runs
                                .into_iter()
                                .map(|(n, k, vp, seed, even)| Op::Bulk {
                                    s: 0,
                                    n,
                                    tp: if even { TP::Const(k) } else { TP::Rand((k % 40) as u8) },
                                    vp,
                                    seed,
                                })
                                .collect(),
                            ..Hist::none()
                        })
                    }),
            ),
            heavy("automatic flushes", 12, 300, auto_strat(140..400, false).prop_map(|a| Buffer::Auto(Auto { pauses: None, ..a }))),
        ]
    }
    fn shards(&self) -> usize {
        6
    }
    fn max_shrink(&self) -> usize {
        200
    }
    fn check(&self, c: &Buffer, obs: &mut Obs) -> Result<(), String> {
        match c {
            Buffer::Auto(a) => {
                let out = healthy(a, obs)?;
                for j in &out.jumps {
                    let n = j.after - j.before;
                    // the last one contains the index
                    if n > THRESHOLD * 11 / 10 {
                        return Err(format!("{} bytes were buffered when they were handed to the sink (round {} of {})", n, j.rounds, out.rounds));
                    }
                }
                let f = well_formed(&out.flat, &out.bytes, 0, 256)?;
                lossless(a, &out, &f.scan)?;
                page_sizes(&f.scan.chunks, &[])?;
                Ok(())
            }
            Buffer::Pages(h) => {
                let (flat, calls) = h.expand();
                let out = run_ok(&flat, &calls, h.how())?;
                let scan = reader::scan(&out.bytes, false)?;
                // plain fixed-width values with evenly spaced timestamps, or uniformly random steps:
                // the pages inside one run of them are close to 64 KiB
                let fixed = flat.series.len() == 1 && flat.ms(0).enc == Enc::Plain && flat.ms(0).dt != DT::I32;
                let mut runs = vec![];
                let mut at = 0;
                for o in &h.ops {
                    match o {
                        Op::Bulk { n, tp: TP::Const(_), .. } if fixed => runs.push((at, at + *n as u64, 60_000..=72_000)),
                        Op::Bulk { n, tp: TP::Rand(_), .. } if fixed => runs.push((at, at + *n as u64, 30_000..=131_072)),
                        Op::Flush | Op::Bulk { .. } => {}
                        _ => runs.push((0, 0, 0..=0)),
                    }
                    if let Op::Bulk { n, .. } = o {
                        at += *n as u64;
                    }
                }
                if runs.len() != h.ops.len() || runs.iter().any(|r| r.1 == 0) {
                    runs.clear();
                }
                let cut = page_sizes(&scan.chunks, &runs)?;
                obs.nontrivial = cut > 0;
                obs.add("pages cut", cut);
                obs.class_if(!runs.is_empty(), "plain fixed-width");
                obs.class_if(runs.len() > 1, "changing step sizes");
                obs.class_if(cut > 10, "more than 10 pages");
                Ok(())
            }
        }
    }
}

/// `runs`: point numbers from, to, and sizes of the pages of plain runs of the only series
fn page_sizes(chunks: &[reader::Chunk], runs: &[(u64, u64, std::ops::RangeInclusive<u32>)]) -> Result<u64, String> {
    let mut cut = 0;
    for c in chunks {
        let mut at = 0;
        for (i, p) in c.pages.iter().enumerate() {
            let last = i + 1 == c.pages.len();
            let n = p.points.len();
            let what = format!("page {} of {} of the chunk at {} ({} points, {} bytes)", i, c.pages.len(), c.pos, n, p.uncompressed);
            if n > 1_048_577 {
                return Err(format!("{}: too many points", what));
            }
            if !last {
                cut += 1;
                if n < 1500 {
                    return Err(format!("{}: cut too early", what));
                }
            }
            let to = at + n as u64;
            for (from, end, r) in runs {
                if at >= *from && to <= *end && (p.uncompressed > *r.end() || (!last && p.uncompressed < *r.start())) {
                    return Err(format!("{}: not close to 64 KiB", what));
                }
            }
            at = to;
        }
    }
    Ok(cut)
}

// ------------------------------------------------------------------------------------------- C21

pub struct C21;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    /// adds to a device builder
    Add { b: u8, name: u8, ty: u8 },
    /// builds a device builder into a group
    BuildGroup { b: u8 },
    /// adds a group to a schema builder
    AddGroup { s: u8, dev: u8, group: u8 },
    BuildSchema { s: u8 },
    Clone { k: u8 },
    Simple { dev: u8, meas: u8, ty: u8 },
    /// writes a file with a copy of a schema
    Write { k: u8, seed: u64 },
    Drop { k: u8 },
    /// adds many names to a device builder, or to a schema builder with one group
    Many { b: u8, device: bool, n: u16, ty: u8 },
    /// a fresh builder replaces one
    Renew { b: u8, device: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Program {
    pub names: Vec<String>,
    pub steps: Vec<Step>,
}

type Types = (DT, Enc, Comp);
type GroupModel = BTreeMap<String, Types>;
type SchemaModel = BTreeMap<String, GroupModel>;

fn types(ty: u8) -> Types {
    (
        [DT::I32, DT::I64, DT::F32][ty as usize % 3],
        if (ty / 3) % 2 == 0 { Enc::Plain } else { Enc::Diff },
        if (ty / 6) % 2 == 0 { Comp::Un } else { Comp::Snappy },
    )
}

fn group_is(what: &str, g: &MeasurementGroup, want: &GroupModel) -> Result<(), String> {
    let mut got: Vec<(String, u8, u8, u8)> = g
        .get_timeseries()
        .map(|(n, m)| (n.to_string(), m.data_type.serialize(), m.encoding.serialize(), m.compression.serialize()))
        .collect();
    got.sort();
    let want: Vec<(String, u8, u8, u8)> = want
        .iter()
        .map(|(n, t)| (n.clone(), t.0.code(), t.1.code(), t.2.code()))
        .collect();
    if got != want {
        return Err(format!("{}: measurements {:?} instead of {:?}", what, got, want));
    }
    Ok(())
}

fn schema_is(what: &str, s: &Schema, want: &SchemaModel) -> Result<(), String> {
    let mut devs: Vec<String> = s.get_devices().map(|(d, _)| d.to_string()).collect();
    devs.sort();
    let w: Vec<String> = want.keys().cloned().collect();
    if devs != w {
        return Err(format!("{}: devices {:?} instead of {:?}", what, devs, w));
    }
    for (d, g) in s.get_devices() {
        group_is(&format!("{}, device {:?}", what, d), &g, &want[d])?;
    }
    Ok(())
}

impl Prop for C21 {
    type Case = Program;
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "random programs over several device and schema builders: adding, overwriting, building, extending after building, cloning, one-series shortcut, writing with copies, dropping; after every step all schemas and groups are compared with the model; non-trivial: a name was overwritten or a builder used after building"
    }
    fn quick_scale(&self) -> f64 {
        6.0
    }
    fn phases(&self, _t: Tier) -> Vec<Phase<Program>> {
        let step = prop_oneof![
            10 => (0u8..3, any::<u8>(), any::<u8>()).prop_map(|(b, name, ty)| Step::Add { b, name, ty }),
            4 => (0u8..3).prop_map(|b| Step::BuildGroup { b }),
            6 => (0u8..2, any::<u8>(), any::<u8>()).prop_map(|(s, dev, group)| Step::AddGroup { s, dev, group }),
            4 => (0u8..2).prop_map(|s| Step::BuildSchema { s }),
            2 => any::<u8>().prop_map(|k| Step::Clone { k }),
            1 => (any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(dev, meas, ty)| Step::Simple { dev, meas, ty }),
            2 => (any::<u8>(), any::<u64>()).prop_map(|(k, seed)| Step::Write { k, seed }),
            1 => any::<u8>().prop_map(|k| Step::Drop { k }),
            1 => (0u8..3, any::<bool>()).prop_map(|(b, device)| Step::Renew { b, device }),
        ];
        let many = (
            0u8..3,
            any::<bool>(),
            prop_oneof![Just(16u16), Just(32), Just(64), Just(65), Just(100), Just(128), Just(129), Just(256), Just(257), 1u16..300],
            any::<u8>(),
        )
            .prop_map(|(b, device, n, ty)| Step::Many { b, device, n, ty });
        let large = (
            proptest::collection::vec(name_strat(), 2..6),
            proptest::collection::vec(prop_oneof![5 => step.clone(), 2 => many], 6..24),
        )
            .prop_map(|(names, steps)| Program { names, steps });
        let prog = |names: std::ops::Range<usize>, steps: std::ops::Range<usize>| {
            (
                proptest::collection::vec(name_strat(), names),
                proptest::collection::vec(step.clone(), steps),
            )
                .prop_map(|(names, steps)| Program { names, steps })
        };
        vec![
            phase("few names", 40_000, 600_000, prog(1..4, 1..40)),
            phase("many names", 10_000, 150_000, prog(4..20, 20..80)),
            phase("large schemas", 600, 20_000, large),
        ]
    }
    fn check(&self, p: &Program, obs: &mut Obs) -> Result<(), String> {
        let name = |i: u8| p.names[i as usize % p.names.len()].as_str();
        let most = p.steps.iter().map(|s| if let Step::Many { n, .. } = s { *n } else { 0 }).max().unwrap_or(0);
        let extra: Vec<String> = (0..most).map(|i| format!("x{:03}", i)).collect();
        let mut dbs: Vec<(DeviceBuilder, GroupModel, bool)> =
            (0..3).map(|_| (DeviceBuilder::new(), BTreeMap::new(), false)).collect();
        let mut sbs: Vec<(TsFileSchemaBuilder, SchemaModel, bool)> =
            (0..2).map(|_| (TsFileSchemaBuilder::new(), BTreeMap::new(), false)).collect();
        let mut groups: Vec<(MeasurementGroup, GroupModel)> = vec![];
        let mut schemas: Vec<(Schema, SchemaModel)> = vec![];
        for (i, st) in p.steps.iter().enumerate() {
            match st {
                Step::Add { b, name: n, ty } => {
                    let (db, m, built) = &mut dbs[*b as usize % 3];
                    let t = types(*ty);
                    db.add(name(*n), t.0.real(), t.1.real(), t.2.real());
                    if m.insert(name(*n).to_string(), t).is_some() {
                        obs.nontrivial = true;
                        obs.class("measurement overwritten");
                    }
                    if *built {
                        obs.nontrivial = true;
                        obs.class("device builder extended after building");
                    }
                }
                Step::Many { b, device: true, n, ty } => {
                    let (db, m, built) = &mut dbs[*b as usize % 3];
                    for (i, x) in extra.iter().take(*n as usize).enumerate() {
                        let t = types(ty.wrapping_add(i as u8));
                        db.add(x, t.0.real(), t.1.real(), t.2.real());
                        m.insert(x.clone(), t);
                    }
                    if *built {
                        obs.nontrivial = true;
                        obs.class("device builder extended after building");
                    }
                    obs.class_if(m.len() > 64, "more than 64 measurements");
                }
                Step::Many { b, device: false, n, ty } => {
                    if !groups.is_empty() {
                        let (g, gm) = &groups[*ty as usize % groups.len()];
                        // not both many
                        let n = if gm.len() > 20 { 3 } else { *n as usize };
                        let (sb, m, built) = &mut sbs[*b as usize % 2];
                        for x in extra.iter().take(n) {
                            sb.add(x, g.clone());
                            m.insert(x.clone(), gm.clone());
                        }
                        if *built {
                            obs.nontrivial = true;
                            obs.class("schema builder extended after building");
                        }
                        obs.class_if(m.len() > 64, "more than 64 devices");
                    }
                }
                Step::BuildGroup { b } => {
                    let (db, m, built) = &mut dbs[*b as usize % 3];
                    // refused by an assertion
                    if !m.is_empty() {
                        groups.push((db.build(), m.clone()));
                        *built = true;
                    }
                }
                Step::AddGroup { s, dev, group } => {
                    if !groups.is_empty() {
                        let (g, gm) = &groups[*group as usize % groups.len()];
                        let (sb, m, built) = &mut sbs[*s as usize % 2];
                        sb.add(name(*dev), g.clone());
                        if m.insert(name(*dev).to_string(), gm.clone()).is_some() {
                            obs.nontrivial = true;
                            obs.class("device overwritten");
                        }
                        if *built {
                            obs.nontrivial = true;
                            obs.class("schema builder extended after building");
                        }
                    }
                }
                Step::BuildSchema { s } => {
                    let (sb, m, built) = &mut sbs[*s as usize % 2];
                    schemas.push((sb.build(), m.clone()));
                    *built = true;
                }
                Step::Clone { k } => {
                    if !schemas.is_empty() {
                        let (s, m) = &schemas[*k as usize % schemas.len()];
                        schemas.push((s.clone(), m.clone()));
                        obs.class("clone");
                    }
                }
                Step::Simple { dev, meas, ty } => {
                    let t = types(*ty);
                    let s = Schema::simple(name(*dev), name(*meas), t.0.real(), t.1.real(), t.2.real());
                    let m: SchemaModel = [(name(*dev).to_string(), [(name(*meas).to_string(), t)].into_iter().collect())]
                        .into_iter()
                        .collect();
                    schemas.push((s, m));
                    obs.class("one-series shortcut");
                }
                Step::Write { k, seed } => {
                    if !schemas.is_empty() {
                        let (s, m) = &schemas[*k as usize % schemas.len()];
                        write_with(s, m, *seed).map_err(|e| format!("step {}: {}", i, e))?;
                        obs.class("file written");
                    }
                }
                Step::Drop { k } => {
                    if !schemas.is_empty() {
                        let n = schemas.len();
                        schemas.swap_remove(*k as usize % n);
                    }
                }
                Step::Renew { b, device } => {
                    if *device {
                        dbs[*b as usize % 3] = (DeviceBuilder::default(), BTreeMap::new(), false);
                    } else {
                        sbs[*b as usize % 2] = (TsFileSchemaBuilder::default(), BTreeMap::new(), false);
                    }
                }
            }
            let what = || format!("after step {} {:?}", i, st);
            for (g, m) in &groups {
                group_is(&what(), g, m)?;
            }
            for (s, m) in &schemas {
                schema_is(&what(), s, m)?;
            }
        }
        Ok(())
    }
}

/// one point to every series: the file tells the types
fn write_with(s: &Schema, m: &SchemaModel, seed: u64) -> Result<(), String> {
    let flat = SchemaSpec::Explicit(
        m.iter()
            .map(|(d, g)| DevSpec {
                name: d.clone(),
                meas: g
                    .iter()
                    .map(|(n, t)| MeasSpec { name: n.clone(), dt: t.0, enc: t.1, comp: t.2 })
                    .collect(),
            })
            .collect(),
    )
    .expand();
    let ops = [Op::Touch { frac: 200, n: 3, seed }];
    let mut calls = resolve(&flat, &ops);
    calls.push(Call::Close);
    #[cfg(feature = "sink")]
    let bytes = {
        let sink = Sink::new(Mode::Plain, 0);
        let mut w = TsFileWriter::verif_from_writer(s.clone(), sink.clone(), config(None))
            .map_err(|e| format!("the writer cannot be created: {:?}", kind(&e)))?;
        for c in &calls {
            apply(&mut w, &flat, c, false).map_err(|e| format!("{:?} failed: {:?}", c, e))?;
        }
        drop(w);
        sink.take()
    };
    #[cfg(not(feature = "sink"))]
    let bytes = {
        let path = scratch::dir().join("schema.tsfile");
        let name = path.to_str().unwrap().to_string();
        let mut w = TsFileWriter::new(&name, s.clone(), config(None))
            .map_err(|e| format!("the writer cannot be created: {:?}", kind(&e)))?;
        for c in &calls {
            apply(&mut w, &flat, c, false).map_err(|e| format!("{:?} failed: {:?}", c, e))?;
        }
        drop(w);
        std::fs::read(&path).unwrap()
    };
    well_formed(&flat, &bytes, 0, 256)?;
    let reference = execute(&flat, &calls, DEFAULT);
    same_bytes("file of this schema and of one built from the same content", &bytes, &reference.bytes)
}

// ------------------------------------------------------------------------------------------- C26

pub struct C26;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Code {
    /// all 256 bytes
    AllCodes,
    /// numbers from start on
    Range { start: u32, n: u32 },
    Numbers(Vec<u32>),
    /// all 2^32
    All,
    /// several numbers after each other in one buffer
    Stream(Vec<u32>),
}

fn codes() -> Result<(), String> {
    for b in 0..=255u8 {
        let dt: Result<TSDataType, ()> = b.try_into();
        let want = match b {
            1 => Some(TSDataType::INT32),
            2 => Some(TSDataType::INT64),
            3 => Some(TSDataType::FLOAT),
            _ => None,
        };
        if dt.ok() != want {
            return Err(format!("data type of code {} is {:?} instead of {:?}", b, dt, want));
        }
        if let Some(d) = want {
            if d.serialize() != b {
                return Err(format!("code of {:?} is {}", d, d.serialize()));
            }
        }
        let e = TSEncoding::try_from(b).ok();
        let want = match b {
            0 => Some(TSEncoding::PLAIN),
            4 => Some(TSEncoding::TS2DIFF),
            _ => None,
        };
        if e != want {
            return Err(format!("encoding of code {} is {:?} instead of {:?}", b, e, want));
        }
        if let Some(d) = want {
            if d.serialize() != b {
                return Err(format!("code of {:?} is {}", d, d.serialize()));
            }
        }
        let c = CompressionType::try_from(b).ok();
        let want = match b {
            0 => Some(CompressionType::UNCOMPRESSED),
            1 => Some(CompressionType::SNAPPY),
            _ => None,
        };
        if c != want {
            return Err(format!("compression of code {} is {:?} instead of {:?}", b, c, want));
        }
        if let Some(d) = want {
            if d.serialize() != b {
                return Err(format!("code of {:?} is {}", d, d.serialize()));
            }
        }
    }
    Ok(())
}

#[cfg(feature = "codec")]
fn number(x: u32, buf: &mut Vec<u8>) -> Result<(), String> {
    use tsfile_writer::writer::verif::*;
    // reference: groups of 7 bits, lowest first
    let mut want = [0u8; 5];
    let mut n = 0;
    let mut v = x as u64;
    loop {
        let g = (v & 0x7f) as u8;
        v >>= 7;
        want[n] = if v > 0 { g | 0x80 } else { g };
        n += 1;
        if v == 0 {
            break;
        }
    }
    let want = &want[..n];
    buf.clear();
    let size = write_var_u32(x, buf).map_err(|e| format!("writing {}: {:?}", x, kind(&e)))?;
    if buf[..] != *want {
        return Err(format!("{} is written as {:?} instead of {:?}", x, buf, want));
    }
    if size as usize != n || size_var_u32(x) as usize != n {
        return Err(format!("{}: {} bytes written, {} and {} announced", x, n, size, size_var_u32(x)));
    }
    let mut r: &[u8] = &buf[..];
    match read_var_u32(&mut r) {
        Ok(y) if y == x && r.is_empty() => {}
        Ok(y) => return Err(format!("{} is read back as {}, {} bytes left", x, y, r.len())),
        Err(e) => return Err(format!("{} cannot be read back: {:?}", x, kind(&e))),
    }
    // the signed number with this zig-zag form
    let s = ((x >> 1) as i32) ^ -((x & 1) as i32);
    buf.clear();
    let size = write_var_i32(s, buf).map_err(|e| format!("writing {}: {:?}", s, kind(&e)))?;
    if buf[..] != *want {
        return Err(format!("{} is written as {:?} instead of {:?}", s, buf, want));
    }
    if size as usize != n || size_var_i32(s) as usize != n {
        return Err(format!("{}: {} bytes written, {} and {} announced", s, n, size, size_var_i32(s)));
    }
    // cut short
    if n > 1 {
        let mut r: &[u8] = &buf[..n - 1];
        if read_var_u32(&mut r).is_ok() {
            return Err(format!("{} without its last byte can be read", x));
        }
    }
    Ok(())
}
#[cfg(not(feature = "codec"))]
fn number(_: u32, _: &mut Vec<u8>) -> Result<(), String> {
    Ok(())
}

impl Prop for C26 {
    type Case = Code;
    fn id(&self) -> &'static str {
        "C26"
    }
    fn rule(&self) -> &'static str {
        "all 256 bytes as codes; numbers in ranges around the powers of two, in random ranges, and in sequences in one buffer (all 2^32 numbers in the thorough tier), compared with an independent coder; non-trivial: numbers of more than one byte, or the codes"
    }
    fn quick_scale(&self) -> f64 {
        2.0
    }
    fn phases(&self, t: Tier) -> Vec<Phase<Code>> {
        let edge = (0u32..33, 0u32..2048).prop_map(|(b, d)| ((1u64 << b) as u32).wrapping_sub(1024).wrapping_add(d));
        let any_bits = (0u32..33, any::<u64>()).prop_map(|(w, s)| Mix(s).bits(w) as u32);
        let num = prop_oneof![edge, any_bits].boxed();
        let mut v = vec![
            phase("codes", 8, 8, Just(Code::AllCodes)),
            phase(
                "around powers of two",
                200,
                2000,
                (0u32..33).prop_map(|b| Code::Range {
                    start: ((1u64 << b) as u32).wrapping_sub(5000),
                    n: 10_000,
                }),
            ),
            phase("ranges", 800, 8000, (any::<u32>(), Just(100_000u32)).prop_map(|(start, n)| Code::Range { start, n })),
            phase("small", 8, 8, Just(Code::Range { start: 0, n: 1 << 22 })),
            phase("numbers", 4000, 100_000, proptest::collection::vec(num.clone(), 1..100).prop_map(Code::Numbers)),
            phase("sequences", 4000, 100_000, proptest::collection::vec(num, 1..50).prop_map(Code::Stream)),
        ];
        if t == Tier::Thorough {
            v.push(phase("all numbers", 1, 1, Just(Code::All)));
        }
        v
    }
    fn check(&self, c: &Code, obs: &mut Obs) -> Result<(), String> {
        let mut buf = Vec::with_capacity(16);
        match c {
            Code::AllCodes => {
                obs.nontrivial = true;
                codes()
            }
            Code::Range { start, n } => {
                obs.nontrivial = true;
                obs.add("numbers", *n as u64);
                for i in 0..*n {
                    number(start.wrapping_add(i), &mut buf)?;
                }
                Ok(())
            }
            Code::Numbers(l) => {
                obs.nontrivial = l.iter().any(|x| *x > 127);
                obs.add("numbers", l.len() as u64);
                l.iter().try_for_each(|x| number(*x, &mut buf))
            }
            Code::All => {
                obs.nontrivial = true;
                obs.add("numbers", 1 << 32);
                std::thread::scope(|sc| {
                    let hs: Vec<_> = (0..8u64)
                        .map(|k| {
                            sc.spawn(move || {
                                let mut buf = Vec::with_capacity(16);
                                for x in (k << 29)..((k + 1) << 29) {
                                    number(x as u32, &mut buf)?;
                                }
                                Ok(())
                            })
                        })
                        .collect();
                    hs.into_iter().try_for_each(|h| h.join().map_err(|_| "panic".to_string())?)
                })
            }
            Code::Stream(l) => {
                obs.nontrivial = l.len() > 1;
                #[cfg(feature = "codec")]
                {
                    use tsfile_writer::writer::verif::*;
                    for x in l {
                        write_var_u32(*x, &mut buf).map_err(|e| format!("writing {}: {:?}", x, kind(&e)))?;
                    }
                    let mut r: &[u8] = &buf[..];
                    for (i, x) in l.iter().enumerate() {
                        match read_var_u32(&mut r) {
                            Ok(y) if y == *x => {}
                            Ok(y) => return Err(format!("number {} of the sequence: {} instead of {}", i, y, x)),
                            Err(e) => return Err(format!("number {} of the sequence: {:?}", i, kind(&e))),
                        }
                    }
                    if !r.is_empty() {
                        return Err(format!("{} bytes after the sequence", r.len()));
                    }
                }
                Ok(())
            }
        }
    }
}
