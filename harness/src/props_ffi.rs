//! C19, C20: the C functions and the Python classes, driven in child processes
use crate::common::same_bytes;
use crate::exec::*;
use crate::model::*;
use crate::run::*;
use crate::scratch;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ffi::{c_char, c_void, CString};
use std::io::{BufRead, BufReader, Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

// ------------------------------------------------------------------ child processes

struct Worker {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

impl Worker {
    fn start(mut c: Command) -> Worker {
        let mut child = c
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            // freed memory is overwritten
            .env("MALLOC_PERTURB_", "165")
            .spawn()
            .unwrap_or_else(|e| {
                eprintln!("the worker process cannot be started: {}", e);
                std::process::exit(3)
            });
        Worker {
            to: child.stdin.take().unwrap(),
            from: BufReader::new(child.stdout.take().unwrap()),
            child,
        }
    }
    /// Err: the process died
    fn ask(&mut self, program: &Value) -> Result<String, String> {
        let line = serde_json::to_string(program).unwrap();
        let _ = writeln!(self.to, "{}", line);
        let _ = self.to.flush();
        loop {
            let mut s = String::new();
            match self.from.read_line(&mut s) {
                Ok(n) if n > 0 => {
                    if let Some(x) = s.strip_prefix("ANSWER ") {
                        return Ok(x.trim_end().to_string());
                    }
                }
                _ => break,
            }
        }
        let status = self.child.wait().map(|s| s.to_string()).unwrap_or_default();
        let mut err = String::new();
        if let Some(e) = &mut self.child.stderr {
            let _ = e.take(4000).read_to_string(&mut err);
        }
        Err(format!("the process dies ({}): {}", status, err.trim().replace('\n', " ")))
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static WORKER: RefCell<Option<Worker>> = const { RefCell::new(None) };
}

/// Runs a program in the worker of this thread
fn in_worker(start: impl FnOnce() -> Command, program: &Value) -> Result<(), String> {
    WORKER.with(|w| {
        let mut w = w.borrow_mut();
        if w.is_none() {
            *w = Some(Worker::start(start()));
        }
        match w.as_mut().unwrap().ask(program) {
            Ok(s) if s == "ok" => Ok(()),
            Ok(s) => Err(s),
            Err(e) => {
                *w = None;
                Err(e)
            }
        }
    })
}

fn library() -> PathBuf {
    let exe = std::env::current_exe().expect("own path");
    exe.parent().unwrap().join("deps").join("libtsfile_writer_c.so")
}

// ------------------------------------------------------------------ programs

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct One {
    pub dev: String,
    pub meas: String,
    pub diff: bool,
    pub snappy: bool,
}
impl One {
    fn flat(&self) -> Flat {
        SchemaSpec::Explicit(vec![DevSpec {
            name: self.dev.clone(),
            meas: vec![MeasSpec {
                name: self.meas.clone(),
                dt: DT::I32,
                enc: if self.diff { Enc::Diff } else { Enc::Plain },
                comp: if self.snappy { Comp::Snappy } else { Comp::Un },
            }],
        }])
        .expand()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Points {
    One(T, V),
    Bulk { n: u32, tp: TP, vp: VP, seed: u64 },
}

/// Selectors are taken modulo the number of live things
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    Schema(u8),
    Writer(u8),
    Write(u8, Points),
    Close(u8),
    Free(u8),
    /// C: null is freed or closed. Python: the schema is freed or the writer closed again
    Nothing(bool, u8),
    /// Python: the variable of the schema goes away
    Forget(u8),
    /// Python: a block with context managers: exception at the end, nested, points of the writers
    With(u8, bool, bool, Vec<Vec<Points>>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Program {
    pub schemas: Vec<One>,
    pub acts: Vec<Act>,
    /// what is still open at the end: schemas first, other order
    pub end: (bool, bool),
    /// C: the handle returned by a write is used. Python: enumerations instead of numbers
    pub variant: bool,
    /// C: every write gets copies of the texts
    pub copies: bool,
    pub names: String,
}

fn points_of(last: &mut i64, p: &Points, out: &mut Vec<(i64, i32)>) {
    match p {
        Points::One(t, v) => {
            let t = t.resolve(*last);
            if t > *last && t >= 0 {
                if let Val::I(x) = v.to_val(DT::I32) {
                    out.push((t, x));
                    *last = t;
                }
            }
        }
        Points::Bulk { n, tp, vp, seed } => {
            for (t, b) in bulk(DT::I32, *last, *n, *tp, *vp, *seed) {
                out.push((t, b as i64 as i32));
                *last = t;
            }
        }
    }
}

/// The concrete acts and the expected content of every file
struct Plan {
    acts: Vec<Value>,
    files: Vec<(PathBuf, usize, Vec<(i64, i32)>)>,
}

#[derive(Clone, Copy, PartialEq)]
enum Lang {
    C,
    Python,
}

fn plan(p: &Program, dir: &Path, lang: Lang, obs: &mut Obs) -> Plan {
    let mut acts = vec![];
    let mut files: Vec<(PathBuf, usize, Vec<(i64, i32)>)> = vec![];
    // per schema: alive; freed and still reachable
    let n = p.schemas.len();
    let mut alive: Vec<usize> = vec![];
    let mut freed: Vec<usize> = vec![];
    let mut kind: BTreeMap<usize, usize> = BTreeMap::new();
    let mut next = 0;
    let mut open: Vec<usize> = vec![];
    let mut closed: Vec<usize> = vec![];
    let mut last: Vec<i64> = vec![];
    let file = |k: usize| dir.join(format!("{}{}", p.names, k));
    let pick = |v: &Vec<usize>, s: u8| v.get(s as usize % v.len().max(1)).copied();
    for a in &p.acts {
        match a {
            Act::Schema(s) => {
                kind.insert(next, *s as usize % n);
                acts.push(json!(["schema", next, *s as usize % n]));
                alive.push(next);
                next += 1;
            }
            Act::Writer(s) => {
                if alive.is_empty() {
                    kind.insert(next, *s as usize % n);
                    acts.push(json!(["schema", next, *s as usize % n]));
                    alive.push(next);
                    next += 1;
                }
                let h = pick(&alive, *s).unwrap();
                let k = files.len();
                obs.class_if(
                    files.iter().any(|f| f.1 == kind[&h]) && !open.is_empty(),
                    "several writers of one schema",
                );
                files.push((file(k), kind[&h], vec![]));
                last.push(-1);
                acts.push(json!(["writer", k, h, file(k).to_str().unwrap()]));
                open.push(k);
            }
            Act::Write(s, pts) => {
                if let Some(k) = pick(&open, *s) {
                    let mut x = vec![];
                    points_of(&mut last[k], pts, &mut x);
                    acts.push(json!(["write", k, files[k].1, x]));
                    files[k].2.extend(x);
                }
            }
            Act::Close(s) => {
                if let Some(k) = pick(&open, *s) {
                    acts.push(json!(["close", k]));
                    open.retain(|x| *x != k);
                    closed.push(k);
                }
            }
            Act::Free(s) => {
                if let Some(h) = pick(&alive, *s) {
                    acts.push(json!(["free", h]));
                    alive.retain(|x| *x != h);
                    freed.push(h);
                    obs.class_if(!open.is_empty(), "schema freed while a writer is open");
                }
            }
            Act::Nothing(which, s) => match lang {
                Lang::C => acts.push(json!([if *which { "free null" } else { "close null" }])),
                Lang::Python if *which => {
                    if let Some(h) = pick(&freed, *s) {
                        acts.push(json!(["free again", h]));
                        obs.class("freed again");
                    }
                }
                Lang::Python => {
                    if let Some(k) = pick(&closed, *s) {
                        if s & 128 == 0 {
                            acts.push(json!(["close again", k]));
                        } else {
                            acts.push(json!(["write closed", k, files[k].1, last[k].max(0), 1]));
                        }
                        obs.class("closed writer used");
                    }
                }
            },
            Act::Forget(s) if lang == Lang::Python => {
                // only schemas that are freed, or for good: an object that nobody frees is a leak
                if let Some(h) = pick(&freed, *s) {
                    acts.push(json!(["forget", h]));
                    freed.retain(|x| *x != h);
                }
            }
            Act::With(s, boom, nested, jobs) if lang == Lang::Python => {
                let i = *s as usize % n;
                let mut list = vec![];
                for job in jobs {
                    let k = files.len();
                    let mut l = -1;
                    let mut x = vec![];
                    job.iter().for_each(|q| points_of(&mut l, q, &mut x));
                    list.push(json!([file(k).to_str().unwrap(), x]));
                    files.push((file(k), i, x));
                    last.push(l);
                }
                obs.class("context managers");
                obs.class_if(*boom, "block left by an exception");
                // without a writer nothing can raise inside
                let boom = *boom && !jobs.is_empty();
                acts.push(json!(["with", i, boom, nested, list]));
            }
            _ => {}
        }
    }
    let mut fin = (open, alive);
    if p.end.1 {
        fin.0.reverse();
        fin.1.reverse();
    }
    let close: Vec<Value> = fin.0.iter().map(|k| json!(["close", k])).collect();
    let free: Vec<Value> = fin.1.iter().map(|h| json!(["free", h])).collect();
    if p.end.0 {
        acts.extend(free.into_iter().chain(close));
    } else {
        acts.extend(close.into_iter().chain(free));
    }
    Plan { acts, files }
}

fn judge(p: &Program, lang: Lang, obs: &mut Obs) -> Result<(), String> {
    let dir = scratch::fresh();
    let plan = plan(p, dir.path(), lang, obs);
    let schemas: Vec<Value> = p
        .schemas
        .iter()
        .map(|s| {
            json!({"dev": s.dev, "meas": s.meas, "enc": if s.diff {4} else {0},
            "comp": u8::from(s.snappy), "enums": p.variant})
        })
        .collect();
    let program = json!({
        "schemas": schemas, "acts": plan.acts, "returned": p.variant, "copies": p.copies,
    });
    match lang {
        Lang::C => in_worker(
            || {
                let mut c = Command::new(std::env::current_exe().expect("own path"));
                c.args(["worker", "capi"]).arg(library());
                c
            },
            &program,
        )?,
        Lang::Python => in_worker(python, &program)?,
    }
    let total: usize = plan.files.iter().map(|f| f.2.len()).sum();
    obs.nontrivial = total > 0;
    obs.add("files", plan.files.len() as u64);
    obs.add("points", total as u64);
    obs.class_if(plan.files.len() > 1, "several files");
    for (i, (path, s, pts)) in plan.files.iter().enumerate() {
        let flat = p.schemas[*s].flat();
        let calls = vec![
            Call::Points(0, pts.iter().map(|x| (x.0, Val::I(x.1).bits())).collect()),
            Call::Close,
        ];
        let want = execute(&flat, &calls, DEFAULT);
        if want.created.is_err() || want.results.iter().any(|r| r.is_err()) {
            return Err(format!("the Rust writer refuses the program: {:?}", want.results));
        }
        let got = std::fs::read(path).map_err(|e| format!("file {}: {}", i, e))?;
        same_bytes(&format!("file {} and that of the Rust writer", i), &got, &want.bytes)?;
        obs.class_if(pts.len() > 8500, "several pages likely");
        obs.class_if(pts.iter().any(|x| x.0 > u32::MAX as i64), "timestamps beyond 32 bits");
    }
    Ok(())
}

// ------------------------------------------------------------------ generators

fn ffi_name() -> BoxedStrategy<String> {
    name_strat().prop_map(|s| s.replace('\0', "")).boxed()
}

fn points_strat() -> BoxedStrategy<Points> {
    let t = prop_oneof![3 => t_ok_strat(), 1 => t_ext_strat()];
    prop_oneof![
        6 => (t, v_strat()).prop_map(|(t, v)| Points::One(t, v)),
        2 => (block_len(), tp_strat(), vp_strat(), any::<u64>())
            .prop_map(|(n, tp, vp, seed)| Points::Bulk { n, tp, vp, seed }),
    ]
    .boxed()
}

fn page_points() -> BoxedStrategy<Points> {
    (page_len(), tp_strat(), vp_strat(), any::<u64>())
        .prop_map(|(n, tp, vp, seed)| Points::Bulk { n, tp, vp, seed })
        .boxed()
}

fn program(lang: Lang, points: BoxedStrategy<Points>, len: usize) -> BoxedStrategy<Program> {
    let s = any::<u8>;
    let py = u32::from(lang == Lang::Python);
    let one = (ffi_name(), ffi_name(), any::<bool>(), any::<bool>())
        .prop_map(|(dev, meas, diff, snappy)| One { dev, meas, diff, snappy });
    let acts: Vec<(u32, BoxedStrategy<Act>)> = vec![
        (2, s().prop_map(Act::Schema).boxed()),
        (3, s().prop_map(Act::Writer).boxed()),
        (12, (s(), points.clone()).prop_map(|(a, b)| Act::Write(a, b)).boxed()),
        (2, s().prop_map(Act::Close).boxed()),
        (2, s().prop_map(Act::Free).boxed()),
        (1 + py, (any::<bool>(), s()).prop_map(|(a, b)| Act::Nothing(a, b)).boxed()),
        (py, s().prop_map(Act::Forget).boxed()),
        (
            2 * py,
            (
                s(),
                any::<bool>(),
                any::<bool>(),
                proptest::collection::vec(proptest::collection::vec(points, 0..4), 0..3),
            )
                .prop_map(|(a, b, c, d)| Act::With(a, b, c, d))
                .boxed(),
        ),
    ];
    let act = proptest::strategy::Union::new_weighted(acts.into_iter().filter(|a| a.0 > 0).collect());
    (
        proptest::collection::vec(one, 1..4),
        proptest::collection::vec(act, 1..len),
        (any::<bool>(), any::<bool>()),
        any::<bool>(),
        any::<bool>(),
        prop_oneof![3 => Just("f".to_string()), 1 => "[a-z]{1,5} ?[äöü]{0,2}"],
    )
        .prop_map(|(schemas, acts, end, variant, copies, names)| Program {
            schemas,
            acts: std::iter::once(Act::Writer(0)).chain(acts).collect(),
            end,
            variant,
            copies,
            names,
        })
        .boxed()
}

// ------------------------------------------------------------------------------------------- C19

pub struct C19;

impl Prop for C19 {
    type Case = Program;
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "generated programs over several schema and writer handles, driven through the exported functions of the built C library (dlopen) in a child process with overwritten freed memory; every file compared with that of the Rust writer; non-trivial: at least one point is written"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["texts given to the functions outlive the handles", "only admissible points are written"]
    }
    fn phases(&self, _t: Tier) -> Vec<Phase<Program>> {
        vec![
            phase("programs", 24_000, 600_000, program(Lang::C, points_strat(), 25)),
            phase("pages", 1000, 30_000, program(Lang::C, page_points(), 8)),
        ]
    }
    fn check(&self, p: &Program, obs: &mut Obs) -> Result<(), String> {
        judge(p, Lang::C, obs)
    }
}

type New = unsafe extern "C" fn(*const c_char, *const c_char, u8, u8, u8) -> *mut c_void;
type Open = unsafe extern "C" fn(*const c_char, *mut c_void) -> *mut c_void;
type Put = unsafe extern "C" fn(*mut c_void, *const c_char, *const c_char, i64, i32) -> *mut c_void;
type End = unsafe extern "C" fn(*mut c_void);

struct Lib {
    new: New,
    free: End,
    open: Open,
    put: Put,
    close: End,
}

unsafe fn load(path: &str) -> Result<Lib, String> {
    let p = CString::new(path).unwrap();
    let h = libc::dlopen(p.as_ptr(), libc::RTLD_NOW);
    if h.is_null() {
        return Err(std::ffi::CStr::from_ptr(libc::dlerror()).to_string_lossy().into_owned());
    }
    let sym = |n: &str| -> Result<*mut c_void, String> {
        let c = CString::new(n).unwrap();
        let s = libc::dlsym(h, c.as_ptr());
        if s.is_null() {
            return Err(format!("no function {}", n));
        }
        Ok(s)
    };
    Ok(Lib {
        new: std::mem::transmute::<*mut c_void, New>(sym("schema_simple")?),
        free: std::mem::transmute::<*mut c_void, End>(sym("schema_free")?),
        open: std::mem::transmute::<*mut c_void, Open>(sym("file_writer_new")?),
        put: std::mem::transmute::<*mut c_void, Put>(sym("file_writer_write_int32")?),
        close: std::mem::transmute::<*mut c_void, End>(sym("file_writer_close")?),
    })
}

/// `harness worker capi <library>`: programs on the standard input
pub fn worker_capi(path: &str) -> i32 {
    let lib = match unsafe { load(path) } {
        Ok(l) => l,
        Err(e) => {
            eprintln!("{}", e);
            return 3;
        }
    };
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { return 0 };
        let v: Value = serde_json::from_str(&line).expect("a program");
        match unsafe { run_c(&lib, &v) } {
            Ok(()) => println!("ANSWER ok"),
            Err(e) => println!("ANSWER {}", e),
        }
    }
    0
}

unsafe fn run_c(lib: &Lib, v: &Value) -> Result<(), String> {
    let text = |s: &Value| CString::new(s.as_str().unwrap()).unwrap();
    let names: Vec<(CString, CString, u8, u8)> = v["schemas"]
        .as_array()
        .unwrap()
        .iter()
        .map(|s| {
            (
                text(&s["dev"]),
                text(&s["meas"]),
                s["enc"].as_u64().unwrap() as u8,
                s["comp"].as_u64().unwrap() as u8,
            )
        })
        .collect();
    let returned = v["returned"].as_bool().unwrap();
    let copies = v["copies"].as_bool().unwrap();
    // the texts stay until the end: the handles may refer to them
    let mut texts: Vec<Box<(CString, CString)>> = vec![];
    let mut schemas: BTreeMap<u64, *mut c_void> = BTreeMap::new();
    let mut writers: BTreeMap<u64, *mut c_void> = BTreeMap::new();
    for a in v["acts"].as_array().unwrap() {
        let n = |i: usize| a[i].as_u64().unwrap();
        match a[0].as_str().unwrap() {
            "schema" => {
                let s = &names[n(2) as usize];
                let h = (lib.new)(s.0.as_ptr(), s.1.as_ptr(), 1, s.2, s.3);
                if h.is_null() {
                    return Err("schema_simple returns null".into());
                }
                schemas.insert(n(1), h);
            }
            "writer" => {
                // the text of the file name is not needed afterwards
                let f = text(&a[3]);
                let h = (lib.open)(f.as_ptr(), schemas[&n(2)]);
                if h.is_null() {
                    return Err("file_writer_new returns null".into());
                }
                writers.insert(n(1), h);
            }
            "write" => {
                let s = &names[n(2) as usize];
                for (i, p) in a[3].as_array().unwrap().iter().enumerate() {
                    let w = writers[&n(1)];
                    let (d, m) = if copies && i < 3 {
                        texts.push(Box::new((s.0.clone(), s.1.clone())));
                        let own = texts.last().unwrap();
                        (&own.0, &own.1)
                    } else {
                        (&s.0, &s.1)
                    };
                    let (t, x) = (p[0].as_i64().unwrap(), p[1].as_i64().unwrap() as i32);
                    let r = (lib.put)(w, d.as_ptr(), m.as_ptr(), t, x);
                    if r.is_null() {
                        return Err("file_writer_write_int32 returns null".into());
                    }
                    if returned {
                        writers.insert(n(1), r);
                    }
                }
            }
            "close" => (lib.close)(writers.remove(&n(1)).unwrap()),
            "free" => (lib.free)(schemas.remove(&n(1)).unwrap()),
            "free null" => (lib.free)(std::ptr::null_mut()),
            "close null" => (lib.close)(std::ptr::null_mut()),
            x => return Err(format!("act {}", x)),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------- C20

pub struct C20;

/// A directory where rust.py finds the library it asks for
fn python() -> Command {
    let base = scratch::root().join("py");
    let here = base.join("tsfile-writer-c");
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let rel = base.join("target").join("release");
        std::fs::create_dir_all(&here).expect("scratch directory");
        std::fs::create_dir_all(&rel).expect("scratch directory");
        let bad = |e: std::io::Error| -> u64 {
            eprintln!("the wrapper cannot be prepared: {}", e);
            std::process::exit(3)
        };
        let repo = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
        std::fs::copy(Path::new(&repo).join("tsfile-writer-c/rust.py"), here.join("rust.py")).unwrap_or_else(bad);
        for n in ["libtsfile_writer_c.dylib", "libtsfile_writer_c.so"] {
            std::fs::copy(library(), rel.join(n)).unwrap_or_else(bad);
        }
        std::fs::write(here.join("worker.py"), include_str!("../py/worker.py")).expect("worker");
    });
    let mut c = Command::new("python3-vt");
    c.arg("-B").arg("worker.py").current_dir(&here);
    c
}

impl Prop for C20 {
    type Case = Program;
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "generated programs over several schemas and writers, explicit or with context managers (also left by exceptions), executed by a Python process with the classes of rust.py; every file compared with that of the Rust writer, misuse must raise; non-trivial: at least one point is written"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the library is given the name that rust.py asks for", "only admissible points are written"]
    }
    fn phases(&self, _t: Tier) -> Vec<Phase<Program>> {
        vec![
            phase("programs", 12_000, 300_000, program(Lang::Python, points_strat(), 25)),
            phase("pages", 240, 8000, program(Lang::Python, page_points(), 6)),
        ]
    }
    fn check(&self, p: &Program, obs: &mut Obs) -> Result<(), String> {
        judge(p, Lang::Python, obs)
    }
}
