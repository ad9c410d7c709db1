//! C22 to C24: metadata log, handshake, sync sessions
use crate::model::*;
use crate::net::*;
use crate::run::*;
use crate::scratch;
use crate::wire::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::Path;
use tsfile_writer::sync::sync_sender::SyncSender;

// ------------------------------------------------------------------------------------------- C22

#[cfg(any(feature = "mlog", feature = "sync"))]
mod parts {
    use super::*;
    use thrift::protocol::{TBinaryInputProtocol, TBinaryOutputProtocol};
    use thrift::transport::{
        ReadHalf, TFramedReadTransport, TFramedWriteTransport, TTcpChannel, WriteHalf,
    };

    pub type Sender = SyncSender<
        TBinaryInputProtocol<TFramedReadTransport<ReadHalf<TTcpChannel>>>,
        TBinaryOutputProtocol<TFramedWriteTransport<WriteHalf<TTcpChannel>>>,
    >;

    pub fn group_strat() -> BoxedStrategy<String> {
        prop_oneof![
            4 => "root\\.[a-z0-9]{1,8}(\\.[a-z0-9]{1,4}){0,2}",
            2 => name_strat(),
            1 => "\\PC{0,10}",
            1 => (1usize..3000).prop_map(|n| "g".repeat(n)),
        ]
        .boxed()
    }
}

#[cfg(feature = "mlog")]
mod log {
    use super::*;
    use crate::mlog::{self, Plan};
    use std::io::Write;
    use super::parts::{group_strat, Sender};
    use tsfile_writer::sync::verif::VerifMLog;

    pub struct C22;

    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub enum Reg {
        Group(String),
        Series { path: String, dt: DT, enc: Enc, comp: Comp },
        Flush,
        /// n series whose paths have len characters or more
        Many { n: u32, len: u32 },
        /// the sink fails after so many bytes
        FailingFlush(u16),
    }

    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub enum LogCase {
        Schema { group: String, schema: SchemaSpec, perm: u64 },
        Program { ops: Vec<Reg>, short: Option<u64> },
    }

    /// takes only parts, or fails at some byte
    struct Part {
        data: Vec<u8>,
        short: Option<Mix>,
        limit: usize,
    }
    impl Write for Part {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            if b.is_empty() {
                return Ok(0);
            }
            let mut n = b.len();
            if let Some(m) = &mut self.short {
                if m.below(6) == 0 {
                    return Err(std::io::ErrorKind::Interrupted.into());
                }
                n = 1 + m.below(n as u64) as usize;
            }
            n = n.min(self.limit - self.data.len());
            if n == 0 {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
            }
            self.data.extend_from_slice(&b[..n]);
            Ok(n)
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }

    impl Prop for C22 {
        type Case = LogCase;
        fn id(&self) -> &'static str {
            "C22"
        }
        fn quick_scale(&self) -> f64 {
            10.0
        }
        fn rule(&self) -> &'static str {
            "logs of generated storage groups and schemas (up to thousands of series) and generated sequences of registrations and flushes into sinks that take parts or fail; decoded by an independent decoder with its own CRC-32 and compared with what was registered; non-trivial: at least two series, or at least two flushes"
        }
        fn phases(&self, _t: Tier) -> Vec<Phase<LogCase>> {
            let schema = |s: BoxedStrategy<SchemaSpec>| {
                (group_strat(), s, any::<u64>())
                    .prop_map(|(group, schema, perm)| LogCase::Schema { group, schema, perm })
            };
            let op = prop_oneof![
                2 => group_strat().prop_map(Reg::Group),
                6 => (
                    prop_oneof![
                        3 => (group_strat(), name_strat(), name_strat()).prop_map(|(a, b, c)| format!("{}.{}.{}", a, b, c)),
                        1 => long_name_strat(),
                    ],
                    dt_strat(),
                    any::<bool>(),
                    comp_strat(),
                )
                    .prop_map(|(path, dt, diff, comp)| Reg::Series {
                        path,
                        dt,
                        enc: if diff { Enc::Diff } else { Enc::Plain },
                        comp,
                    }),
                3 => Just(Reg::Flush),
                1 => (0u16..400).prop_map(Reg::FailingFlush),
            ];
            // near multiples of powers of two, or of numbers of the code
            let total = prop_oneof![
                2 => (10u32..22, 1u32..4, -40i32..40).prop_map(|(k, m, d)| ((m << k) as i32 + d) as u32),
                1 => 1u32..3_000_000,
                1 => crate::dict::int_in(1, 6_000_000).prop_map(|n| n as u32),
            ];
            let large = (
                proptest::collection::vec(
                    prop_oneof![
                        4 => (total, prop_oneof![1u32..100, 100u32..5000, 30_000u32..70_000])
                            .prop_map(|(total, len)| Reg::Many { n: 1 + total / (len + 40), len }),
                        1 => group_strat().prop_map(Reg::Group),
                        3 => Just(Reg::Flush),
                    ],
                    2..8,
                ),
                prop_oneof![3 => Just(None), 1 => any::<u64>().prop_map(Some)],
            )
                .prop_map(|(mut ops, short)| {
                    ops.push(Reg::Flush);
                    LogCase::Program { ops, short }
                });
            vec![
                phase("schemas", 6000, 200_000, schema(schema_strat(6, 8, 0))),
                phase("large schemas", 160, 4000, schema(grid_strat(60, 60))),
                phase("large programs", 60, 1500, large),
                phase(
                    "programs",
                    8000,
                    300_000,
                    (proptest::collection::vec(op, 1..14), prop_oneof![2 => Just(None), 1 => any::<u64>().prop_map(Some)])
                        .prop_map(|(ops, short)| LogCase::Program { ops, short }),
                ),
            ]
        }
        fn check(&self, c: &LogCase, obs: &mut Obs) -> Result<(), String> {
            match c {
                LogCase::Schema { group, schema, perm } => {
                    let flat = schema.expand();
                    let log = Sender::verif_write_mlog(group, flat.build(*perm))
                        .map_err(|e| format!("the log is not written: {:?}", e))?;
                    obs.nontrivial = flat.series.len() > 1;
                    obs.add("series", flat.series.len() as u64);
                    obs.class_if(flat.series.len() > 500, "more than 500 series");
                    obs.class_if(group.contains(|c: char| !c.is_ascii()), "non-ASCII storage group");
                    mlog::describes(&log, group, &flat)
                }
                LogCase::Program { ops, short } => {
                    let mut log = VerifMLog::new();
                    let mut sink = Part {
                        data: vec![],
                        short: short.map(Mix),
                        limit: usize::MAX,
                    };
                    let mut want: Vec<Vec<Plan>> = vec![];
                    let mut open: Vec<Plan> = vec![];
                    for (i, o) in ops.iter().enumerate() {
                        match o {
                            Reg::Group(g) => {
                                log.set_storage_group_plan(g)
                                    .map_err(|e| format!("operation {}: {:?}", i, e))?;
                                open.push(Plan::StorageGroup(g.clone()));
                            }
                            Reg::Series { path, dt, enc, comp } => {
                                log.create_plan(path, dt.real(), enc.real(), comp.real())
                                    .map_err(|e| format!("operation {}: {:?}", i, e))?;
                                open.push(Plan::Series {
                                    path: path.clone(),
                                    dt: dt.code(),
                                    enc: enc.code(),
                                    comp: comp.code(),
                                });
                            }
                            Reg::Many { n, len } => {
                                for j in 0..*n {
                                    let mut path = j.to_string();
                                    path.push_str(&"p".repeat((*len as usize).saturating_sub(path.len())));
                                    log.create_plan(&path, DT::I64.real(), Enc::Plain.real(), Comp::Snappy.real())
                                        .map_err(|e| format!("operation {}: {:?}", i, e))?;
                                    open.push(Plan::Series {
                                        path,
                                        dt: DT::I64.code(),
                                        enc: Enc::Plain.code(),
                                        comp: Comp::Snappy.code(),
                                    });
                                }
                                obs.class_if(*n as u64 * *len as u64 > 1 << 20, "more than 1 MiB of registrations");
                            }
                            Reg::Flush => {
                                log.flush(&mut sink).map_err(|e| format!("operation {}: {:?}", i, e))?;
                                want.push(std::mem::take(&mut open));
                            }
                            Reg::FailingFlush(at) => {
                                let mut s = Part {
                                    data: vec![],
                                    short: short.map(|s| Mix(s ^ 1)),
                                    limit: *at as usize,
                                };
                                let r = log.flush(&mut s);
                                if r.is_ok() {
                                    // all of it was taken
                                    want.push(std::mem::take(&mut open));
                                    sink.data.extend_from_slice(&s.data);
                                    // the comparison at the end sees if something is missing
                                } else {
                                    obs.class("failed flush");
                                    // what happens to the plans is not said
                                    break;
                                }
                            }
                        }
                    }
                    obs.nontrivial = want.len() > 1;
                    let got = mlog::decode(&sink.data)?;
                    let some = |v: &Vec<Vec<Plan>>| -> Vec<Vec<Plan>> {
                        v.iter().filter(|r| !r.is_empty()).cloned().collect()
                    };
                    if some(&got) != some(&want) {
                        let (g, w) = (some(&got), some(&want));
                        let i = (0..g.len().max(w.len())).find(|i| g.get(*i) != w.get(*i)).unwrap();
                        let short = |r: Option<&Vec<Plan>>| {
                            let n = r.map(|r| r.len());
                            format!("{:.600?} ({:?} plans)", format!("{:?}", r), n)
                        };
                        return Err(format!("flush {} is {} instead of {}", i, short(g.get(i)), short(w.get(i))));
                    }
                    Ok(())
                }
            }
        }
    }
}
#[cfg(feature = "mlog")]
pub use log::C22;

// ------------------------------------------------------------------------------------------- C23

pub struct C23;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Old {
    None,
    Content(String),
    Directory,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Identities {
    pub old: Old,
    /// explicit identity, receiver's answer, None: no receiver there
    pub senders: Vec<(Option<String>, Option<Reply>)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Connect {
    /// in this process with a given identity
    Explicit { local: Option<String>, uuid: String, reply: Reply },
    /// in processes of their own in one directory
    Identity(Identities),
    /// no receiver
    Nobody(String),
}

fn describe_check(m: &Msg) -> Result<(Vec<u8>, Vec<u8>), String> {
    if m.name != "check" || m.ty != CALL {
        return Err(format!("the first request is {:?} of type {}", m.name, m.ty));
    }
    let f = match &m.body {
        W::Struct(f) if f.len() == 1 && f[0].0 == -1 => &f[0].1,
        b => return Err(format!("arguments of the handshake: {:?}", b)),
    };
    if let W::Struct(x) = f {
        if x.len() != 4 {
            return Err(format!("handshake of {} fields: {:?}", x.len(), x));
        }
    }
    if f.field(3) != Some(&W::I64(604800)) {
        return Err(format!("partition interval {:?}", f.field(3)));
    }
    if f.field(4) != Some(&W::s("0.13")) {
        return Err(format!("version {:?}", f.field(4)));
    }
    match (f.field(1), f.field(2)) {
        (Some(W::Str(a)), Some(W::Str(u))) => Ok((a.clone(), u.clone())),
        x => Err(format!("address and identity {:?}", x)),
    }
}

fn own_address(a: &[u8]) -> bool {
    let ip: std::net::IpAddr = match std::str::from_utf8(a).ok().and_then(|s| s.parse().ok()) {
        Some(x) => x,
        None => return false,
    };
    match ip {
        std::net::IpAddr::V6(v) if v.segments()[0] & 0xffc0 == 0xfe80 => true,
        _ => match std::net::TcpListener::bind((ip, 0)) {
            Ok(_) => true,
            Err(e) => ip.is_loopback() || e.kind() != std::io::ErrorKind::AddrNotAvailable,
        },
    }
}

/// One connection with one handshake and nothing else
fn handshake(seen: &Seen) -> Result<(Vec<u8>, Vec<u8>), String> {
    if let Some(b) = &seen.broken {
        return Err(b.clone());
    }
    let all: Vec<&Msg> = seen.requests.iter().flatten().collect();
    if all.len() != 1 {
        return Err(format!("{} requests instead of one handshake", all.len()));
    }
    describe_check(all[0])
}

fn verdict(reply: &Reply, ok: bool) -> Result<(), String> {
    if reply.accepts() != ok {
        return Err(format!(
            "the sender is {} although the receiver's answer is {:?}",
            if ok { "created" } else { "not created" },
            reply
        ));
    }
    Ok(())
}

/// `harness worker connect <addr> <local or -> <uuid or ->`
pub fn worker_connect(args: &[String]) -> i32 {
    install_panic_hook();
    let opt = |s: &String| if s == "-" { None } else { Some(s[1..].to_string()) };
    let (local, uuid) = (opt(&args[1]), opt(&args[2]));
    let r = guarded(|| SyncSender::new(&args[0], local.as_deref(), uuid.as_deref()).is_ok());
    println!();
    match r {
        Ok(true) => println!("RESULT ok"),
        Ok(false) => println!("RESULT error"),
        Err(m) => println!("RESULT {}", m.replace('\n', " ")),
    }
    0
}

fn connect_child(cwd: &Path, addr: &str, uuid: Option<&str>) -> Result<bool, String> {
    let out = std::process::Command::new(std::env::current_exe().map_err(|e| e.to_string())?)
        .args(["worker", "connect", addr, "+10.1.2.3"])
        .arg(uuid.map(|u| format!("+{}", u)).unwrap_or_else(|| "-".into()))
        .current_dir(cwd)
        .output()
        .map_err(|e| e.to_string())?;
    let s = String::from_utf8_lossy(&out.stdout).into_owned();
    match s.lines().rev().find_map(|l| l.strip_prefix("RESULT ")) {
        Some("ok") => Ok(true),
        Some("error") => Ok(false),
        Some(x) => Err(x.to_string()),
        None => Err(format!("the process ended with {}: {}", out.status, String::from_utf8_lossy(&out.stderr))),
    }
}

fn no_nul(s: String) -> String {
    s.replace('\0', "")
}

impl Prop for C23 {
    type Case = Connect;
    fn id(&self) -> &'static str {
        "C23"
    }
    fn quick_scale(&self) -> f64 {
        10.0
    }
    fn quiet(&self) -> bool {
        true
    }
    fn rule(&self) -> &'static str {
        "senders created against a loopback receiver that accepts, rejects, raises exceptions, answers with wrong, incomplete or garbled messages or closes the connection; identities explicit or stored in a scratch directory over several processes; recorded requests decoded by an independent codec; non-trivial: the receiver does anything but accept, or an identity is generated or read"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "answers with negative lengths are left to the probe of the known finding",
            "positive status codes are successes, negative ones errors, 0 is not generated",
        ]
    }
    fn phases(&self, _t: Tier) -> Vec<Phase<Connect>> {
        let uuid = prop_oneof![3 => "[0-9a-f]{32}", 1 => text_strat()];
        let explicit = |r: BoxedStrategy<Reply>| {
            (
                prop_oneof![1 => Just(None), 4 => "[0-9]{1,3}(\\.[0-9]{1,3}){3}".prop_map(Some), 2 => text_strat().prop_map(Some)],
                uuid.clone(),
                r,
            )
                .prop_map(|(local, uuid, reply)| Connect::Explicit { local, uuid, reply })
        };
        let content = "[0-9a-f]{32}|[!-~]([ -~]{0,20}[!-~])?|[äöüλЖ中]{1,8}".prop_map(Old::Content);
        let id = (
            prop_oneof![3 => Just(Old::None), 3 => content, 1 => Just(Old::Directory)],
            proptest::collection::vec(
                (
                    prop_oneof![4 => Just(None), 1 => "[0-9a-f]{32}".prop_map(Some)],
                    prop_oneof![
                        5 => success_strat().prop_map(Some),
                        2 => refusal_strat().prop_map(Some),
                        1 => Just(Some(Reply::CloseAfter)),
                        1 => Just(None),
                    ],
                ),
                1..5,
            ),
        )
            .prop_map(|(old, senders)| Connect::Identity(Identities { old, senders }));
        vec![
            phase("accepting", 600, 20_000, explicit(success_strat())),
            phase("failing", 2400, 80_000, explicit(fault_strat())),
            phase("identities", 500, 15_000, id),
            phase(
                "nobody",
                200,
                2000,
                prop_oneof![
                    Just("127.0.0.1:1".to_string()),
                    Just("".to_string()),
                    Just("127.0.0.1".to_string()),
                    Just("127.0.0.1:99999".to_string()),
                    Just(":".to_string()),
                    Just("[::1".to_string()),
                    "127\\.0\\.0\\.1:[a-z]{1,3}",
                ]
                .prop_map(Connect::Nobody),
            ),
        ]
    }
    fn check(&self, c: &Connect, obs: &mut Obs) -> Result<(), String> {
        match c {
            Connect::Nobody(addr) => {
                obs.nontrivial = true;
                obs.class("no receiver");
                if SyncSender::new(addr, Some("10.0.0.1"), Some("id")).is_ok() {
                    return Err(format!("a sender to {:?} is created", addr));
                }
                Ok(())
            }
            Connect::Explicit { local, uuid, reply } => {
                obs.nontrivial = !reply.accepts() || local.is_none();
                obs.class(reply.class());
                obs.class_if(local.is_none(), "address detected");
                let r = Receiver::new(|_, _| reply.clone());
                let (res, seen) = r.with(|addr| SyncSender::new(addr, local.as_deref(), Some(uuid)).is_ok());
                let ok = res?;
                verdict(reply, ok)?;
                if *reply == Reply::CloseBefore {
                    return Ok(());
                }
                let (a, u) = handshake(&seen)?;
                if u != uuid.as_bytes() {
                    return Err(format!("identity {:?} instead of {:?}", String::from_utf8_lossy(&u), uuid));
                }
                match local {
                    Some(l) if a != l.as_bytes() => {
                        Err(format!("address {:?} instead of {:?}", String::from_utf8_lossy(&a), l))
                    }
                    None if !own_address(&a) => {
                        Err(format!("detected address {:?} is none of this machine", String::from_utf8_lossy(&a)))
                    }
                    _ => Ok(()),
                }
            }
            Connect::Identity(ids) => {
                obs.nontrivial = true;
                let dir = scratch::fresh();
                let lock = dir.path().join("uuid.lock");
                let mut known: Option<Vec<u8>> = None;
                match &ids.old {
                    Old::None => {}
                    Old::Content(s) => {
                        std::fs::write(&lock, s).unwrap();
                        known = Some(s.clone().into_bytes());
                    }
                    Old::Directory => std::fs::create_dir(&lock).unwrap(),
                }
                let blocked = matches!(ids.old, Old::Directory);
                for (i, (uuid, reply)) in ids.senders.iter().enumerate() {
                    let what = |e: String| format!("sender {}: {}", i, e);
                    let uuid = uuid.clone().map(no_nul);
                    let seen = match reply {
                        None => {
                            obs.class("no receiver");
                            if connect_child(dir.path(), "127.0.0.1:1", uuid.as_deref()).map_err(what)? {
                                return Err(format!("sender {} is created without receiver", i));
                            }
                            None
                        }
                        Some(reply) => {
                            let r = Receiver::new(|_, _| reply.clone());
                            let (res, seen) = r.with(|a| connect_child(dir.path(), a, uuid.as_deref()));
                            let ok = res.and_then(|x| x).map_err(what)?;
                            if blocked && uuid.is_none() {
                                obs.class("identity cannot be stored");
                                if ok {
                                    return Err(format!("sender {} is created although its identity cannot be stored", i));
                                }
                                continue;
                            }
                            verdict(reply, ok).map_err(what)?;
                            Some(handshake(&seen).map_err(what)?.1)
                        }
                    };
                    match (&uuid, seen) {
                        (Some(u), Some(s)) => {
                            if s != u.as_bytes() {
                                return Err(format!("sender {}: identity {:?} instead of {:?}", i, String::from_utf8_lossy(&s), u));
                            }
                        }
                        (None, Some(s)) => {
                            obs.class_if(known.is_some(), "identity reused");
                            obs.class_if(known.is_none(), "identity generated");
                            match &known {
                                Some(k) if *k != s => {
                                    return Err(format!(
                                        "sender {}: identity {:?} instead of {:?} as before",
                                        i,
                                        String::from_utf8_lossy(&s),
                                        String::from_utf8_lossy(k)
                                    ))
                                }
                                Some(_) => {}
                                None => fresh_identity(&s).map_err(what)?,
                            }
                            if std::fs::read(&lock).ok().as_ref() != Some(&s) {
                                return Err(format!("sender {}: its identity is not stored", i));
                            }
                            known = Some(s);
                        }
                        _ => {}
                    }
                }
                Ok(())
            }
        }
    }
    fn known(&self) -> Vec<Known> {
        let probe = |raw: Vec<u8>| {
            move || -> Result<(), String> {
                let mut r = Receiver::new(|_, _| Reply::good());
                r.raw = Some(raw.clone());
                let (res, _) = r.with(|a| SyncSender::new(a, Some("10.0.0.1"), Some("id")).is_ok());
                match res {
                    Ok(false) => Ok(()),
                    Ok(true) => Err("the sender is created".into()),
                    Err(p) => Err(p),
                }
            }
        };
        let neg = W::Struct(vec![]);
        let msg = |name: &str| Msg {
            name: name.into(),
            ty: REPLY,
            seq: 1,
            body: neg.clone(),
            strict: true,
        };
        // version, then a name of length -1
        let mut name = msg("").encode();
        name[4..8].copy_from_slice(&(-1i32).to_be_bytes());
        // a status whose message has length -1
        let mut text = Msg {
            body: W::Struct(vec![(0, W::Struct(vec![(1, W::I32(1)), (2, W::s(""))]))]),
            ..msg("check")
        }
        .encode();
        let n = text.len();
        text[n - 6..n - 2].copy_from_slice(&(-1i32).to_be_bytes());
        vec![
            Known {
                key: "negative frame length in the answer",
                probe: Box::new(probe(vec![0xff, 0xff, 0xff, 0xff, 0, 0])),
            },
            Known {
                key: "negative length of the method name in the answer",
                probe: Box::new(probe(frame(&name))),
            },
            Known {
                key: "negative length of the status message in the answer",
                probe: Box::new(probe(frame(&text))),
            },
        ]
    }
}

/// not empty and not generated before
fn fresh_identity(s: &[u8]) -> Result<(), String> {
    static SEEN: std::sync::Mutex<BTreeMap<Vec<u8>, ()>> = std::sync::Mutex::new(BTreeMap::new());
    if s.len() < 16 {
        return Err(format!("generated identity {:?}", String::from_utf8_lossy(s)));
    }
    if SEEN.lock().unwrap().insert(s.to_vec(), ()).is_some() {
        return Err(format!("identity {:?} generated twice", String::from_utf8_lossy(s)));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------- C24

#[cfg(feature = "sync")]
mod session {
    use super::parts::{group_strat, Sender};
    use super::*;
    use crate::mlog;
    use sha2::Digest;

    pub struct C24;

    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub enum Content {
        Seeded(u32, u64),
        /// short, with a digest of so many leading zeros
        Zeros(u8, u64),
        /// so many bytes, almost all of them 0, with some others around these positions
        Sparse(u64, Vec<u64>),
        Text(String),
    }
    impl Content {
        fn bytes(&self) -> Vec<u8> {
            match self {
                Content::Seeded(n, s) => {
                    let mut m = Mix(*s);
                    let mut o = Vec::with_capacity(*n as usize + 8);
                    while o.len() < *n as usize {
                        o.extend(m.next().to_le_bytes());
                    }
                    o.truncate(*n as usize);
                    o
                }
                Content::Zeros(z, s) => {
                    let mut i = *s;
                    loop {
                        let b = i.to_le_bytes().to_vec();
                        let h = hex(&sha2::Sha256::digest(&b));
                        if h.bytes().take_while(|c| *c == b'0').count() == *z as usize {
                            return b;
                        }
                        i = i.wrapping_add(1);
                    }
                }
                Content::Text(s) => s.clone().into_bytes(),
                Content::Sparse(n, at) => {
                    let mut b = vec![0; *n as usize];
                    for a in at {
                        for k in 0..37u64 {
                            if let Some(x) = b.get_mut((a + k) as usize) {
                                *x = (a.wrapping_mul(31) + k * 7 + 1) as u8;
                            }
                        }
                    }
                    b
                }
            }
        }
    }
    fn hex(b: &[u8]) -> String {
        b.iter().map(|x| format!("{:02x}", x)).collect()
    }

    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub enum Place {
        Plain,
        /// in so many directories
        Below(u8),
        Missing,
        Directory,
        TrailingSlash,
        DotDot,
    }

    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct Session {
        pub group: String,
        pub schema: SchemaSpec,
        pub perm: u64,
        pub name: String,
        pub content: Content,
        pub place: Place,
        /// relative to the first request of the session
        pub fault: Option<(u8, Reply)>,
        pub good: Reply,
    }

    fn file_name() -> BoxedStrategy<String> {
        prop_oneof![
            3 => (1_600_000_000_000u64..1_700_000_000_000, 1u8..9).prop_map(|(t, n)| format!("{}-{}-0-0.tsfile", t, n)),
            2 => "[a-zA-Z0-9_.-]{1,20}",
            1 => "[ -~]{1,20}",
            1 => "\\PC{1,8}",
            1 => "0_0_[a-z]{1,4}",
            1 => "[a-z]{80,150}",
        ]
        .prop_map(|s| {
            let s: String = s.chars().filter(|c| *c != '/' && *c != '\0').collect();
            if s.is_empty() || s == "." || s == ".." {
                "x".into()
            } else {
                s
            }
        })
        .boxed()
    }

    fn session(fault: BoxedStrategy<Option<(u8, Reply)>>, large: bool) -> BoxedStrategy<Session> {
        // around multiples of powers of two, where a division into pieces has its edges
        let edge = |max: u32| {
            (6u32..23, 1u64..70, -20i64..21, any::<u64>()).prop_map(move |(e, k, d, s)| {
                let mut n = (k << e) as i64;
                while n > max as i64 {
                    n /= 2;
                }
                Content::Seeded((n + d).max(0) as u32, s)
            })
        };
        let content = if large {
            prop_oneof![
                (200_000u32..6_000_000, any::<u64>()).prop_map(|(n, s)| Content::Seeded(n, s)),
                edge(8_000_000),
                (crate::dict::int_in(10_000, 8_000_000), any::<u64>()).prop_map(|(n, s)| Content::Seeded(n as u32, s)),
            ]
            .boxed()
        } else {
            prop_oneof![
                1 => edge(100_000),
                1 => (crate::dict::int_in(0, 100_000), any::<u64>()).prop_map(|(n, s)| Content::Seeded(n as u32, s)),
                4 => (0u32..3000, any::<u64>()).prop_map(|(n, s)| Content::Seeded(n, s)),
                1 => (0u32..70_000, any::<u64>()).prop_map(|(n, s)| Content::Seeded(n, s)),
                2 => (1u8..4, any::<u64>()).prop_map(|(z, s)| Content::Zeros(z, s)),
                1 => Just(Content::Seeded(0, 0)),
                1 => text_strat().prop_map(Content::Text),
            ]
            .boxed()
        };
        (
            group_strat(),
            prop_oneof![4 => schema_strat(3, 4, 0), 1 => grid_strat(20, 20)],
            any::<u64>(),
            file_name(),
            content,
            prop_oneof![
                12 => Just(Place::Plain),
                4 => (1u8..4).prop_map(Place::Below),
                1 => Just(Place::Missing),
                1 => Just(Place::Directory),
                1 => Just(Place::TrailingSlash),
                1 => Just(Place::DotDot),
            ],
            fault,
            success_strat(),
        )
            .prop_map(|(group, schema, perm, name, content, place, fault, good)| Session {
                group,
                schema,
                perm,
                name,
                content,
                place,
                fault,
                good,
            })
            .boxed()
    }

    /// One session with a file that is too large to be kept in memory several times
    fn sparse(n: std::ops::Range<u64>) -> BoxedStrategy<Session> {
        (session(Just(None).boxed(), false), n, any::<u64>())
            .prop_map(|(s, n, seed)| {
                let mut m = Mix(seed);
                let mut at: Vec<u64> = (0..m.below(8)).map(|_| m.below(n)).collect();
                at.extend([0, 64 << 10, 1 << 20, 16 << 20, 64 << 20, 128 << 20, 256 << 20, 512 << 20, 1 << 30, 1 << 31, n].map(|x: u64| x.saturating_sub(5)));
                at.retain(|a| *a < n);
                Session {
                    content: Content::Sparse(n, at),
                    place: Place::Plain,
                    ..s
                }
            })
            .boxed()
    }

    fn large_session(s: &Session, n: u64, at: &[u64], obs: &mut Obs) -> Result<(), String> {
        use std::io::{Read, Seek, SeekFrom, Write};
        // one at a time
        static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
        let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
        let dir = scratch::fresh();
        let p = dir.path().join(&s.name);
        let mut f = std::fs::File::options().create_new(true).read(true).write(true).open(&p).map_err(|e| e.to_string())?;
        f.set_len(n).map_err(|e| e.to_string())?;
        for a in at {
            let b: Vec<u8> = (0..37u64.min(n - a)).map(|k| (a.wrapping_mul(31) + k * 7 + 1) as u8).collect();
            f.seek(SeekFrom::Start(*a)).and_then(|_| f.write_all(&b)).map_err(|e| e.to_string())?;
        }
        f.seek(SeekFrom::Start(0)).map_err(|e| e.to_string())?;
        let mut want = sha2::Sha256::new();
        let mut buf = vec![0; 1 << 20];
        loop {
            let k = f.read(&mut buf).map_err(|e| e.to_string())?;
            if k == 0 {
                break;
            }
            want.update(&buf[..k]);
        }
        drop(f);
        let want = hex(&want.finalize());
        let got = std::sync::Mutex::new((sha2::Sha256::new(), 0u64));
        let mut receiver = Receiver::new(|_, k| if k == 0 { Reply::good() } else { s.good.clone() });
        receiver.large = Some(Box::new(|b| {
            let mut g = got.lock().unwrap();
            g.0.update(b);
            g.1 += b.len() as u64;
        }));
        let flat = s.schema.expand();
        let (res, seen) = receiver.with(|addr| -> Result<(), String> {
            let mut sender = SyncSender::new(addr, Some("10.0.0.1"), Some("id")).map_err(|e| format!("no sender: {:?}", e))?;
            let r = sender.verif_sync(p.to_str().unwrap(), &s.group, flat.build(s.perm));
            r.map_err(|e| format!("the session for a file of {} bytes fails: {:?}", n, e))
        });
        res.and_then(|r| r).map_err(|e| format!("{}; receiver: {:?}", e, seen.broken))?;
        if let Some(b) = &seen.broken {
            return Err(b.clone());
        }
        drop(receiver);
        let (sha, len) = got.into_inner().unwrap();
        let msgs = &seen.requests[0];
        let at = msgs.iter().rposition(|m| m.name == "initSyncData").unwrap_or(0);
        let small: u64 = msgs[at..].iter().map(|m| match &m.body {
            W::Struct(b) if m.name == "syncData" => b.iter().map(|x| if let W::Str(s) = &x.1 { s.len() as u64 } else { 0 }).sum(),
            _ => 0,
        }).sum();
        if len + small != n {
            return Err(format!("{} bytes of a file of {} bytes were transferred", len + small, n));
        }
        if small == 0 && hex(&sha.finalize()) != want {
            return Err(format!("the {} bytes transferred differ from the file", n));
        }
        let digest = msgs.iter().rfind(|m| m.name == "checkDataDigest").map(|m| &m.body);
        if digest != Some(&W::Struct(vec![(1, W::s(want.trim_start_matches('0')))])) {
            return Err(format!("digest {:?} instead of {:?}", digest, want));
        }
        if msgs.last().map(|m| m.name.as_str()) != Some("endSync") {
            return Err(format!("the session does not end with endSync: {:?}", names(msgs)));
        }
        obs.nontrivial = true;
        obs.class("complete session");
        obs.class_if(n >= 1 << 31, "file of at least 2 GiB");
        Ok(())
    }

    /// name and bytes of one transferred file
    fn transfer(rest: &mut &[Msg]) -> Result<(String, Vec<u8>), String> {
        let text = |m: &Msg| -> Result<Vec<u8>, String> {
            match &m.body {
                W::Struct(f) if f.len() == 1 && f[0].0 == 1 => match &f[0].1 {
                    W::Str(s) => Ok(s.clone()),
                    x => Err(format!("argument of {}: {:?}", m.name, x)),
                },
                x => Err(format!("arguments of {}: {:?}", m.name, x)),
            }
        };
        let mut next = |name: &str| -> Result<Option<Vec<u8>>, String> {
            match rest.first() {
                Some(m) if m.name == name && m.ty == CALL => {
                    *rest = &rest[1..];
                    text(m).map(Some)
                }
                _ => Ok(None),
            }
        };
        let name = next("initSyncData")?.ok_or("no initSyncData")?;
        let name = String::from_utf8(name).map_err(|e| e.to_string())?;
        let mut data = vec![];
        while let Some(b) = next("syncData")? {
            data.extend(b);
        }
        let got = next("checkDataDigest")?.ok_or_else(|| format!("no checkDataDigest after the data of {:?}", name))?;
        let want = hex(&sha2::Sha256::digest(&data));
        let want = want.trim_start_matches('0');
        if got != want.as_bytes() {
            return Err(format!(
                "digest {:?} of {:?} instead of {:?}",
                String::from_utf8_lossy(&got),
                name,
                want
            ));
        }
        Ok((name, data))
    }

    fn names(m: &[Msg]) -> Vec<&str> {
        m.iter().map(|m| m.name.as_str()).collect()
    }

    /// What a complete session looks like
    fn complete(s: &Session, flat: &Flat, content: &[u8], msgs: &[Msg]) -> Result<(), String> {
        let mut rest = msgs;
        let shape = |e: String| format!("{} (requests: {:?})", e, names(msgs));
        match rest.first() {
            Some(m) if m.name == "startSync" && m.ty == CALL && m.body == W::Struct(vec![]) => {}
            m => return Err(shape(format!("the session starts with {:?}", m.map(|m| &m.name)))),
        }
        rest = &rest[1..];
        match rest.first() {
            Some(m) if m.name == "init" && m.ty == CALL => {
                if m.body != W::Struct(vec![(1, W::s(&s.group))]) {
                    return Err(format!("storage group {:?} instead of {:?}", m.body, s.group));
                }
            }
            _ => return Err(shape("the storage group is not announced".into())),
        }
        rest = &rest[1..];
        let (_, log) = transfer(&mut rest).map_err(shape)?;
        mlog::describes(&log, &s.group, flat).map_err(|e| format!("metadata log: {}", e))?;
        let (name, data) = transfer(&mut rest).map_err(shape)?;
        if name != format!("0_0_{}", s.name) {
            return Err(format!("file name {:?} for {:?}", name, s.name));
        }
        crate::common::same_bytes("transferred and original file", &data, content)?;
        match rest {
            [m] if m.name == "endSync" && m.ty == CALL && m.body == W::Struct(vec![]) => Ok(()),
            _ => Err(shape("the session does not end with one endSync".into())),
        }
    }

    impl Prop for C24 {
        type Case = Vec<Session>;
        fn id(&self) -> &'static str {
            "C24"
        }
        fn quick_scale(&self) -> f64 {
            6.0
        }
        fn quiet(&self) -> bool {
            true
        }
        fn rule(&self) -> &'static str {
            "one to three sessions of one sender with generated schemas, file names and contents (empty to 6 MB, digests with leading zeros) against a loopback receiver that fails at a generated request in a generated way; recorded requests compared with a model of the protocol; non-trivial: a complete session was compared or a fault was delivered inside a session"
        }
        fn assumptions(&self) -> Vec<&'static str> {
            vec![
                "the name of the log file is not asserted",
                "the data may come in any number of pieces",
                "answers with negative lengths are left to the probe of C23",
            ]
        }
        fn phases(&self, _t: Tier) -> Vec<Phase<Vec<Session>>> {
            let none = || Just(None).boxed();
            let some = || {
                prop_oneof![
                    1 => Just(None),
                    3 => (0u8..11, fault_strat()).prop_map(Some),
                ]
                .boxed()
            };
            vec![
                phase("complete", 700, 30_000, proptest::collection::vec(session(none(), false), 1..4)),
                phase("faults", 2400, 80_000, proptest::collection::vec(session(some(), false), 1..4)),
                heavy("large", 80, 800, proptest::collection::vec(session(prop_oneof![3 => none(), 1 => some()].boxed(), true), 1..2)),
                heavy("very large", 4, 40, sparse(20 << 20..300 << 20).prop_map(|s| vec![s])),
                heavy("more than 2 GiB", 1, 4, sparse((2 << 30) - 50..(2 << 30) + (100 << 20)).prop_map(|s| vec![s])),
            ]
        }
        fn check(&self, c: &Vec<Session>, obs: &mut Obs) -> Result<(), String> {
            if let [Session { content: Content::Sparse(n, at), .. }] = &c[..] {
                return large_session(&c[0], *n, at, obs);
            }
            let dir = scratch::fresh();
            // number of requests before each session, and the number of the session
            let begin = std::sync::Mutex::new((1usize, 0usize));
            let receiver = Receiver::new(|_, k| {
                let g = begin.lock().unwrap();
                if k == 0 {
                    return Reply::good();
                }
                let s = &c[g.1];
                match &s.fault {
                    Some((at, r)) if k == g.0 + *at as usize => r.clone(),
                    _ => s.good.clone(),
                }
            });
            let step = |sender: &mut Sender, i: usize, s: &Session, obs: &mut Obs| -> Result<bool, String> {
                let flat = s.schema.expand();
                let content = s.content.bytes();
                let d = dir.path().join(format!("{}", i));
                let d = match s.place {
                    Place::Below(n) => (0..n).fold(d, |d, k| d.join(format!("a {}", k))),
                    _ => d,
                };
                std::fs::create_dir_all(&d).unwrap();
                let p = d.join(&s.name);
                let mut path = p.to_str().unwrap().to_string();
                match s.place {
                    Place::Missing => {}
                    Place::Directory => std::fs::create_dir(&p).unwrap(),
                    _ => std::fs::write(&p, &content).unwrap(),
                }
                match s.place {
                    Place::TrailingSlash => path.push('/'),
                    Place::DotDot => path.push_str("/.."),
                    _ => {}
                }
                let unreadable = !matches!(s.place, Place::Plain | Place::Below(_));
                let from = receiver.count();
                *begin.lock().unwrap() = (from, i);
                let r = sender.verif_sync(&path, &s.group, flat.build(s.perm));
                let seen = receiver.seen();
                if let Some(b) = &seen.broken {
                    return Err(b.clone());
                }
                let msgs = &seen.requests[0][from..];
                let fired = seen.fired.iter().any(|f| f.1 >= from);
                obs.class_if(unreadable, "file cannot be read");
                if fired {
                    obs.nontrivial = true;
                    obs.class(s.fault.as_ref().unwrap().1.class());
                }
                if unreadable || fired {
                    if r.is_ok() {
                        return Err(format!(
                            "session {} reports success {} (requests: {:?})",
                            i,
                            if fired { "although the receiver failed" } else { "although there is no such file" },
                            names(msgs)
                        ));
                    }
                    let orderly = !fired || s.fault.as_ref().unwrap().1.orderly();
                    return Ok(orderly);
                }
                if let Err(e) = r {
                    return Err(format!("session {} fails: {:?} (requests: {:?})", i, e, names(msgs)));
                }
                complete(s, &flat, &content, msgs).map_err(|e| format!("session {}: {}", i, e))?;
                obs.nontrivial = true;
                obs.class("complete session");
                obs.class_if(content.is_empty(), "empty file");
                obs.class_if(hex(&sha2::Sha256::digest(&content)).starts_with('0'), "digest with leading zeros");
                obs.class_if(i > 0, "further session");
                if std::fs::read(&p).ok() != Some(content) {
                    return Err(format!("session {} changed the file", i));
                }
                Ok(true)
            };
            let (res, _) = receiver.with(|addr| -> Result<(), String> {
                let mut sender = SyncSender::new(addr, Some("10.0.0.1"), Some("id"))
                    .map_err(|e| format!("no sender: {:?}", e))?;
                for (i, s) in c.iter().enumerate() {
                    if !step(&mut sender, i, s, obs)? {
                        break;
                    }
                }
                Ok(())
            });
            res?
        }
    }
}
#[cfg(feature = "sync")]
pub use session::C24;
