//! C25: remote calls over in-memory transports
#![cfg(feature = "sync")]
use crate::net::*;
use crate::run::*;
use crate::wire::*;
use crate::model::Mix;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::convert::TryFrom;
use std::io::{Read, Write};
use std::rc::Rc;
use thrift::protocol::*;
use thrift::server::TProcessor;
use thrift::transport::{TFramedReadTransport, TFramedWriteTransport};
use thrift::{ApplicationError, ApplicationErrorKind};
use tsfile_writer::sync::verif::*;

pub struct C25;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Rpc {
    Check {
        address: Option<String>,
        uuid: Option<String>,
        interval: Option<i64>,
        version: Option<String>,
    },
    StartSync,
    Init(String),
    DeletedFile(String),
    InitSyncData(String),
    SyncData(Vec<u8>),
    Digest(String),
    EndSync,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ret {
    Status(i32, String),
    App(i32, String),
    Other(u8),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Link {
    pub compact: bool,
    pub framed: bool,
    /// version header written and demanded, per direction
    pub strict: [(bool, bool); 2],
    /// transports take and give only parts
    pub short: Option<u64>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Lack {
    /// nothing
    None,
    /// the argument
    Argument,
    /// the method does not exist
    Method(String),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Request {
    pub rpc: Rpc,
    pub seq: i32,
    pub strict: bool,
    /// unknown fields in the arguments, and in the structure given as argument
    pub extra: Vec<(u8, u64)>,
    pub inner: Vec<(u8, u64)>,
    pub reversed: bool,
    pub lack: Lack,
    pub ret: Ret,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum RpcCase {
    Conversation {
        link: Link,
        steps: Vec<(Rpc, Ret)>,
        /// so many calls, with the steps again and again
        #[serde(default)]
        calls: Option<u32>,
    },
    /// answers written by hand
    Replies { framed: bool, short: Option<u64>, steps: Vec<(Rpc, Reply)> },
    /// requests written by hand
    Requests { framed: bool, short: Option<u64>, list: Vec<Request> },
}

impl Rpc {
    fn method(&self) -> &'static str {
        METHODS[match self {
            Rpc::Check { .. } => 0,
            Rpc::StartSync => 1,
            Rpc::Init(_) => 2,
            Rpc::DeletedFile(_) => 3,
            Rpc::InitSyncData(_) => 4,
            Rpc::SyncData(_) => 5,
            Rpc::Digest(_) => 6,
            Rpc::EndSync => 7,
        }]
    }
    /// what the handler gets: fields that were left out have their defaults
    fn arrived(&self) -> Rpc {
        match self.clone() {
            Rpc::Check {
                address,
                uuid,
                interval,
                version,
            } => Rpc::Check {
                address: address.or(Some(String::new())),
                uuid: uuid.or(Some(String::new())),
                interval: interval.or(Some(0)),
                version: version.or(Some(String::new())),
            },
            x => x,
        }
    }
    fn fields(&self) -> Vec<(i16, W)> {
        match self {
            Rpc::Check {
                address,
                uuid,
                interval,
                version,
            } => {
                let mut f = vec![];
                if let Some(x) = address {
                    f.push((1, W::s(x)));
                }
                if let Some(x) = uuid {
                    f.push((2, W::s(x)));
                }
                if let Some(x) = interval {
                    f.push((3, W::I64(*x)));
                }
                if let Some(x) = version {
                    f.push((4, W::s(x)));
                }
                vec![(-1, W::Struct(f))]
            }
            Rpc::StartSync | Rpc::EndSync => vec![],
            Rpc::Init(s) | Rpc::DeletedFile(s) | Rpc::InitSyncData(s) | Rpc::Digest(s) => vec![(1, W::s(s))],
            Rpc::SyncData(b) => vec![(1, W::Str(b.clone()))],
        }
    }
    fn call<C: TSyncServiceSyncClient>(&self, c: &mut C) -> thrift::Result<SyncStatus> {
        match self.clone() {
            Rpc::Check {
                address,
                uuid,
                interval,
                version,
            } => c.check(ConfirmInfo::new(address, uuid, interval, version)),
            Rpc::StartSync => c.start_sync(),
            Rpc::Init(s) => c.init(s),
            Rpc::DeletedFile(s) => c.sync_deleted_file_name(s),
            Rpc::InitSyncData(s) => c.init_sync_data(s),
            Rpc::SyncData(b) => c.sync_data(b),
            Rpc::Digest(s) => c.check_data_digest(s),
            Rpc::EndSync => c.end_sync(),
        }
    }
}

fn sorted(w: &W) -> W {
    match w {
        W::Struct(f) => {
            let mut f: Vec<(i16, W)> = f.iter().map(|x| (x.0, sorted(&x.1))).collect();
            f.sort_by_key(|x| x.0);
            W::Struct(f)
        }
        x => x.clone(),
    }
}

#[derive(Default)]
struct Handler {
    seen: RefCell<Vec<Rpc>>,
    next: RefCell<Option<Ret>>,
}
impl Handler {
    fn on(&self, r: Rpc) -> thrift::Result<SyncStatus> {
        self.seen.borrow_mut().push(r);
        match self.next.borrow().clone().unwrap_or(Ret::Status(1, String::new())) {
            Ret::Status(c, m) => Ok(SyncStatus::new(c, m)),
            Ret::App(k, m) => Err(thrift::Error::Application(ApplicationError::new(
                ApplicationErrorKind::try_from(k).unwrap_or(ApplicationErrorKind::Unknown),
                m,
            ))),
            Ret::Other(k) => Err(match k % 3 {
                0 => thrift::Error::User("user".into()),
                1 => thrift::Error::Protocol(thrift::ProtocolError::new(
                    thrift::ProtocolErrorKind::SizeLimit,
                    "protocol",
                )),
                _ => thrift::Error::Transport(thrift::TransportError::new(
                    thrift::TransportErrorKind::TimedOut,
                    "transport",
                )),
            }),
        }
    }
}
struct Handle(Rc<Handler>);
impl SyncServiceSyncHandler for Handle {
    fn handle_check(&self, i: ConfirmInfo) -> thrift::Result<SyncStatus> {
        self.0.on(Rpc::Check {
            address: i.address,
            uuid: i.uuid,
            interval: i.partition_interval,
            version: i.version,
        })
    }
    fn handle_start_sync(&self) -> thrift::Result<SyncStatus> {
        self.0.on(Rpc::StartSync)
    }
    fn handle_init(&self, s: String) -> thrift::Result<SyncStatus> {
        self.0.on(Rpc::Init(s))
    }
    fn handle_sync_deleted_file_name(&self, s: String) -> thrift::Result<SyncStatus> {
        self.0.on(Rpc::DeletedFile(s))
    }
    fn handle_init_sync_data(&self, s: String) -> thrift::Result<SyncStatus> {
        self.0.on(Rpc::InitSyncData(s))
    }
    fn handle_sync_data(&self, b: Vec<u8>) -> thrift::Result<SyncStatus> {
        self.0.on(Rpc::SyncData(b))
    }
    fn handle_check_data_digest(&self, s: String) -> thrift::Result<SyncStatus> {
        self.0.on(Rpc::Digest(s))
    }
    fn handle_end_sync(&self) -> thrift::Result<SyncStatus> {
        self.0.on(Rpc::EndSync)
    }
}

// ------------------------------------------------------------------ transports

#[derive(Clone)]
struct Pipe {
    data: Rc<RefCell<VecDeque<u8>>>,
    /// everything that went through
    log: Rc<RefCell<Vec<u8>>>,
    short: Option<Rc<RefCell<Mix>>>,
}
impl Pipe {
    fn new(short: Option<u64>) -> Pipe {
        Pipe {
            data: Rc::default(),
            log: Rc::default(),
            short: short.map(|s| Rc::new(RefCell::new(Mix(s)))),
        }
    }
    fn part(&self, n: usize) -> usize {
        match &self.short {
            Some(m) if n > 1 => 1 + m.borrow_mut().below(n as u64) as usize,
            _ => n,
        }
    }
}
impl Read for Pipe {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.part(b.len().min(self.data.borrow().len()));
        let mut d = self.data.borrow_mut();
        for x in b.iter_mut().take(n) {
            *x = d.pop_front().unwrap();
        }
        Ok(n)
    }
}
impl Write for Pipe {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = self.part(b.len());
        self.data.borrow_mut().extend(&b[..n]);
        self.log.borrow_mut().extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// The client's side: when there is nothing to read, the server gets its turn
struct Answers {
    pipe: Pipe,
    #[allow(clippy::type_complexity)]
    serve: Rc<RefCell<Box<dyn FnMut()>>>,
}
impl Read for Answers {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.pipe.data.borrow().is_empty() {
            (self.serve.borrow_mut())();
        }
        self.pipe.read(b)
    }
}

fn input(r: impl Read + 'static, compact: bool, framed: bool, strict: bool) -> Box<dyn TInputProtocol> {
    let r: Box<dyn Read> = if framed {
        Box::new(TFramedReadTransport::new(r))
    } else {
        Box::new(r)
    };
    if compact {
        Box::new(TCompactInputProtocol::new(r))
    } else {
        Box::new(TBinaryInputProtocol::new(r, strict))
    }
}
fn output(w: impl Write + 'static, compact: bool, framed: bool, strict: bool) -> Box<dyn TOutputProtocol> {
    let w: Box<dyn Write> = if framed {
        Box::new(TFramedWriteTransport::new(w))
    } else {
        Box::new(w)
    };
    if compact {
        Box::new(TCompactOutputProtocol::new(w))
    } else {
        Box::new(TBinaryOutputProtocol::new(w, strict))
    }
}

fn unframe(b: &[u8], framed: bool) -> Result<&[u8], String> {
    if !framed {
        return Ok(b);
    }
    if b.len() < 4 || b.len() - 4 != i32::from_be_bytes(b[..4].try_into().unwrap()) as usize {
        return Err(format!("{} bytes are not one frame", b.len()));
    }
    Ok(&b[4..])
}

/// The raw request of a call
fn check_request(rpc: &Rpc, raw: &[u8], framed: bool, strict: Option<bool>) -> Result<Msg, String> {
    let m = Msg::parse(unframe(raw, framed)?).map_err(|e| format!("request of {}: {}", rpc.method(), e))?;
    if m.name != rpc.method() || m.ty != CALL {
        return Err(format!("request {:?} of type {} for {}", m.name, m.ty, rpc.method()));
    }
    if strict.is_some_and(|s| s != m.strict) {
        return Err("version header".into());
    }
    let want = sorted(&W::Struct(rpc.fields()));
    if sorted(&m.body) != want {
        return Err(format!("arguments of {} on the wire: {:?} instead of {:?}", rpc.method(), m.body, want));
    }
    Ok(m)
}

fn check_result(rpc: &Rpc, got: &thrift::Result<SyncStatus>, ret: &Ret) -> Result<(), String> {
    let ok = match (got, ret) {
        (Ok(s), Ret::Status(c, m)) => s.code == *c && s.msg == *m,
        (Err(thrift::Error::Application(e)), Ret::App(k, m)) => {
            let k = ApplicationErrorKind::try_from(*k).unwrap_or(ApplicationErrorKind::Unknown);
            e.kind == k && e.message == *m
        }
        (Err(thrift::Error::Application(e)), Ret::Other(_)) => e.kind == ApplicationErrorKind::Unknown,
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("{} returns {:?}, the handler said {:?}", rpc.method(), got, ret))
    }
}

// ------------------------------------------------------------------ generators

fn bytes_strat() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        1 => Just(vec![]),
        6 => proptest::collection::vec(any::<u8>(), 0..40),
        1 => (0usize..20000, any::<u8>()).prop_map(|(n, k)| (0..n).map(|i| (i as u8).wrapping_mul(k)).collect()),
    ]
    .boxed()
}

fn rpc_strat() -> BoxedStrategy<Rpc> {
    let t = || proptest::option::weighted(0.75, text_strat());
    prop_oneof![
        3 => (t(), t(), proptest::option::weighted(0.75, prop_oneof![any::<i64>(), Just(604800)]), t())
            .prop_map(|(address, uuid, interval, version)| Rpc::Check { address, uuid, interval, version }),
        1 => Just(Rpc::StartSync),
        1 => text_strat().prop_map(Rpc::Init),
        1 => text_strat().prop_map(Rpc::DeletedFile),
        1 => text_strat().prop_map(Rpc::InitSyncData),
        2 => bytes_strat().prop_map(Rpc::SyncData),
        1 => text_strat().prop_map(Rpc::Digest),
        1 => Just(Rpc::EndSync),
    ]
    .boxed()
}

fn code_strat() -> BoxedStrategy<i32> {
    prop_oneof![2 => Just(1), 1 => Just(-1), 1 => Just(0), 2 => any::<i32>(), 1 => Just(i32::MIN)].boxed()
}

fn ret_strat() -> BoxedStrategy<Ret> {
    prop_oneof![
        4 => (code_strat(), text_strat()).prop_map(|(c, m)| Ret::Status(c, m)),
        2 => (prop_oneof![8 => 0i32..11], text_strat()).prop_map(|(k, m)| Ret::App(k, m)),
        1 => any::<u8>().prop_map(Ret::Other),
    ]
    .boxed()
}

fn short_strat() -> BoxedStrategy<Option<u64>> {
    prop_oneof![2 => Just(None), 1 => any::<u64>().prop_map(Some)].boxed()
}

fn link_strat() -> BoxedStrategy<Link> {
    let s = || prop_oneof![Just((false, false)), Just((true, false)), Just((true, true))];
    (
        prop_oneof![3 => Just(false), 1 => Just(true)],
        any::<bool>(),
        (s(), s()),
        short_strat(),
    )
        .prop_map(|(compact, framed, (a, b), short)| Link {
            compact,
            framed,
            strict: [a, b],
            short,
        })
        .boxed()
}

fn any_reply() -> BoxedStrategy<Reply> {
    prop_oneof![
        5 => success_strat(),
        6 => fault_strat(),
        1 => (code_strat(), text_strat(), any::<bool>(), extra_strat(), any::<bool>())
            .prop_map(|(code, msg, strict, extra, swapped)| Reply::Status { code, msg, strict, extra, swapped }),
    ]
    .boxed()
}

fn request_strat() -> BoxedStrategy<Request> {
    (
        rpc_strat(),
        any::<i32>(),
        any::<bool>(),
        (extra_strat(), extra_strat(), any::<bool>()),
        prop_oneof![
            8 => Just(Lack::None),
            1 => Just(Lack::Argument),
            1 => prop_oneof![
                Just(String::new()),
                "[a-zA-Z]{1,12}",
                (0usize..8).prop_map(|i| METHODS[i].to_uppercase()),
                (0usize..8, 1usize..4).prop_map(|(i, n)| METHODS[i][..METHODS[i].len() - n].to_string()),
            ].prop_filter("known", |s| !METHODS.contains(&s.as_str())).prop_map(Lack::Method),
        ],
        ret_strat(),
    )
        .prop_map(|(rpc, seq, strict, (extra, inner, reversed), lack, ret)| Request {
            rpc,
            seq,
            strict,
            extra,
            inner,
            reversed,
            lack,
            ret,
        })
        .boxed()
}

impl Prop for C25 {
    type Case = RpcCase;
    fn id(&self) -> &'static str {
        "C25"
    }
    fn quick_scale(&self) -> f64 {
        10.0
    }
    fn rule(&self) -> &'static str {
        "generated sequences of remote calls between the generated client and processor over in-memory transports (binary and compact protocol, framed or not, giving and taking parts), clients against hand-written answers (also wrong ones), processors against hand-written requests (unknown fields, absent fields, missing arguments, unknown methods); bytes judged by an independent codec; non-trivial: several calls, or a call with an argument, error, wrong answer or unknown field"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["lengths on the wire are not negative; fields of known numbers have their types"]
    }
    fn phases(&self, _t: Tier) -> Vec<Phase<RpcCase>> {
        vec![
            phase(
                "conversations",
                12_000,
                400_000,
                (link_strat(), proptest::collection::vec((rpc_strat(), ret_strat()), 1..8))
                    .prop_map(|(link, steps)| RpcCase::Conversation { link, steps, calls: None }),
            ),
            phase(
                "long conversations",
                48,
                2000,
                (
                    link_strat(),
                    proptest::collection::vec((rpc_strat(), ret_strat()), 1..4),
                    prop_oneof![
                        6 => 100u32..3000,
                        1 => 32_700u32..33_000,
                        1 => 65_500u32..66_000,
                        1 => crate::dict::int_in(100, 100_000).prop_map(|n| n as u32),
                    ],
                )
                    .prop_map(|(link, steps, n)| RpcCase::Conversation { link, steps, calls: Some(n) }),
            ),
            phase(
                "answers",
                20_000,
                600_000,
                (any::<bool>(), short_strat(), proptest::collection::vec((rpc_strat(), any_reply()), 1..6))
                    .prop_map(|(framed, short, steps)| RpcCase::Replies { framed, short, steps }),
            ),
            phase(
                "requests",
                16_000,
                500_000,
                (any::<bool>(), short_strat(), proptest::collection::vec(request_strat(), 1..5))
                    .prop_map(|(framed, short, list)| RpcCase::Requests { framed, short, list }),
            ),
        ]
    }
    fn check(&self, c: &RpcCase, obs: &mut Obs) -> Result<(), String> {
        match c {
            RpcCase::Conversation { link, steps, calls } => conversation(link, steps, *calls, obs),
            RpcCase::Replies { framed, short, steps } => replies(*framed, *short, steps, obs),
            RpcCase::Requests { framed, short, list } => requests(*framed, *short, list, obs),
        }
    }
}

fn conversation(link: &Link, steps: &[(Rpc, Ret)], calls: Option<u32>, obs: &mut Obs) -> Result<(), String> {
    obs.nontrivial = steps.len() > 1 || !steps[0].0.fields().is_empty();
    obs.class(if link.compact { "compact" } else { "binary" });
    let (up, down) = (Pipe::new(link.short), Pipe::new(link.short.map(|s| s ^ 7)));
    let handler = Rc::new(Handler::default());
    let errors: Rc<RefCell<Option<String>>> = Rc::default();
    let serve = {
        let p = SyncServiceSyncProcessor::new(Handle(handler.clone()));
        let mut i = input(up.clone(), link.compact, link.framed, link.strict[0].1);
        let mut o = output(down.clone(), link.compact, link.framed, link.strict[1].0);
        let (errors, up) = (errors.clone(), up.clone());
        move || {
            if up.data.borrow().is_empty() {
                return;
            }
            if let Err(e) = p.process(&mut i, &mut o) {
                *errors.borrow_mut() = Some(format!("the processor fails: {:?}", e));
            }
        }
    };
    let answers = Answers {
        pipe: down.clone(),
        serve: Rc::new(RefCell::new(Box::new(serve))),
    };
    let mut client = SyncServiceSyncClient::new(
        input(answers, link.compact, link.framed, link.strict[1].1),
        output(up.clone(), link.compact, link.framed, link.strict[0].0),
    );
    let mut seqs = std::collections::HashSet::new();
    let total = calls.map_or(steps.len(), |n| n as usize);
    obs.add("calls", total as u64);
    for (n, (rpc, ret)) in steps.iter().cycle().take(total).enumerate() {
        *handler.next.borrow_mut() = Some(ret.clone());
        up.log.borrow_mut().clear();
        down.log.borrow_mut().clear();
        let got = rpc.call(&mut client);
        let what = |e: String| format!("call {}: {}", n, e);
        if let Some(e) = errors.borrow_mut().take() {
            return Err(what(e));
        }
        let seen = std::mem::take(&mut *handler.seen.borrow_mut());
        if seen != [rpc.arrived()] {
            return Err(what(format!("the handler got {:?} instead of {:?}", seen, rpc.arrived())));
        }
        check_result(rpc, &got, ret).map_err(what)?;
        if !link.compact {
            let m = check_request(rpc, &up.log.borrow(), link.framed, Some(link.strict[0].0)).map_err(what)?;
            if !seqs.insert(m.seq) {
                return Err(what(format!("sequence number {} again", m.seq)));
            }
            let a = Msg::parse(unframe(&down.log.borrow(), link.framed)?).map_err(what)?;
            check_answer(&a, rpc.method(), m.seq, ret).map_err(what)?;
        }
        if !up.data.borrow().is_empty() || !down.data.borrow().is_empty() {
            return Err(what("bytes are left over".into()));
        }
        if n < steps.len() {
            obs.class(match ret {
                Ret::Status(..) => "status",
                Ret::App(..) => "application error",
                Ret::Other(_) => "other error",
            });
        }
    }
    Ok(())
}

/// The raw answer of the processor
fn check_answer(a: &Msg, method: &str, seq: i32, ret: &Ret) -> Result<(), String> {
    if a.name != method || a.seq != seq {
        return Err(format!("answer {:?} number {} to {:?} number {}", a.name, a.seq, method, seq));
    }
    let ok = match ret {
        Ret::Status(c, m) => {
            a.ty == REPLY && sorted(&a.body) == W::Struct(vec![(0, W::Struct(vec![(1, W::I32(*c)), (2, W::s(m))]))])
        }
        Ret::App(k, m) => {
            a.ty == EXCEPTION && a.body.field(1) == Some(&W::s(m)) && a.body.field(2) == Some(&W::I32(*k))
        }
        Ret::Other(_) => a.ty == EXCEPTION && a.body.field(2) == Some(&W::I32(0)),
    };
    if ok {
        Ok(())
    } else {
        Err(format!("answer {:?} of type {}, the handler said {:?}", a.body, a.ty, ret))
    }
}

fn replies(framed: bool, short: Option<u64>, steps: &[(Rpc, Reply)], obs: &mut Obs) -> Result<(), String> {
    obs.nontrivial = true;
    let (up, down) = (Pipe::new(short), Pipe::new(short.map(|s| s ^ 7)));
    let next: Rc<RefCell<Option<(Rpc, Reply)>>> = Rc::default();
    let errors: Rc<RefCell<Option<String>>> = Rc::default();
    let serve = {
        let (next, errors, up, down) = (next.clone(), errors.clone(), up.clone(), down.clone());
        move || {
            let Some((rpc, reply)) = next.borrow_mut().take() else {
                return;
            };
            let raw: Vec<u8> = up.data.borrow_mut().drain(..).collect();
            match check_request(&rpc, &raw, framed, None) {
                Err(e) => *errors.borrow_mut() = Some(e),
                Ok(m) => {
                    let (b, _) = reply.answer(&m);
                    let b = if framed { frame(&b) } else { b };
                    let n = match &reply {
                        Reply::Cut(share) => b.len() * *share as usize / 65536,
                        Reply::CloseBefore | Reply::CloseAfter => 0,
                        _ => b.len(),
                    };
                    down.data.borrow_mut().extend(&b[..n]);
                }
            }
        }
    };
    let answers = Answers {
        pipe: down.clone(),
        serve: Rc::new(RefCell::new(Box::new(serve))),
    };
    let mut client = SyncServiceSyncClient::new(input(answers, false, framed, false), output(up, false, framed, false));
    for (n, (rpc, reply)) in steps.iter().enumerate() {
        *next.borrow_mut() = Some((rpc.clone(), reply.clone()));
        let got = rpc.call(&mut client);
        let what = |e: String| format!("call {}: {}", n, e);
        if let Some(e) = errors.borrow_mut().take() {
            return Err(what(e));
        }
        obs.class(reply.class());
        match reply {
            Reply::Status { code, msg, extra, .. } => {
                obs.class_if(!extra.is_empty(), "unknown fields in the answer");
                check_result(rpc, &got, &Ret::Status(*code, msg.clone())).map_err(what)?
            }
            Reply::Exception { kind, msg } => check_result(rpc, &got, &Ret::App(*kind, msg.clone())).map_err(what)?,
            _ => {
                if got.is_ok() {
                    return Err(what(format!("{} returns {:?} for {:?}", rpc.method(), got, reply)));
                }
                break;
            }
        }
        if !down.data.borrow().is_empty() {
            return Err(what("a part of the answer is left over".into()));
        }
    }
    Ok(())
}

fn requests(framed: bool, short: Option<u64>, list: &[Request], obs: &mut Obs) -> Result<(), String> {
    obs.nontrivial = true;
    let (up, down) = (Pipe::new(short), Pipe::new(short.map(|s| s ^ 7)));
    let handler = Rc::new(Handler::default());
    let p = SyncServiceSyncProcessor::new(Handle(handler.clone()));
    let mut i = input(up.clone(), false, framed, false);
    let mut o = output(down.clone(), false, framed, false);
    for (n, r) in list.iter().enumerate() {
        let what = |e: String| format!("request {}: {}", n, e);
        let mut f = r.rpc.fields();
        for (id, x) in &mut f {
            if let (-1, W::Struct(g)) = (*id, x) {
                if r.reversed {
                    g.reverse();
                }
                add_unknown(g, &r.inner, 5);
            }
        }
        let has_arg = !f.is_empty();
        if r.lack == Lack::Argument {
            f.clear();
        }
        add_unknown(&mut f, &r.extra, 2);
        let name = match &r.lack {
            Lack::Method(m) => m.clone(),
            _ => r.rpc.method().to_string(),
        };
        let m = Msg {
            name: name.clone(),
            ty: CALL,
            seq: r.seq,
            body: W::Struct(f),
            strict: r.strict,
        };
        let b = m.encode();
        up.data.borrow_mut().extend(if framed { frame(&b) } else { b });
        down.log.borrow_mut().clear();
        *handler.next.borrow_mut() = Some(r.ret.clone());
        let res = p.process(&mut i, &mut o);
        let seen = std::mem::take(&mut *handler.seen.borrow_mut());
        let answer = down.log.borrow().clone();
        obs.class_if(!r.extra.is_empty() || !r.inner.is_empty(), "unknown fields in the request");
        let refused = match &r.lack {
            Lack::Argument if has_arg => true,
            Lack::Method(_) => true,
            _ => false,
        };
        if refused {
            obs.class(if r.lack == Lack::Argument { "argument missing" } else { "unknown method" });
            if !seen.is_empty() {
                return Err(what(format!("{:?} reaches the handler as {:?}", m, seen)));
            }
            if !answer.is_empty() {
                let a = Msg::parse(unframe(&answer, framed)?).map_err(what)?;
                if a.ty != EXCEPTION || a.name != name || a.seq != r.seq {
                    return Err(what(format!("{:?} is answered by {:?}", m, a)));
                }
                if let (Lack::Method(_), k) = (&r.lack, a.body.field(2)) {
                    if k != Some(&W::I32(1)) {
                        return Err(what(format!("an unknown method is answered by {:?}", a)));
                    }
                }
            } else if res.is_ok() {
                return Err(what(format!("{:?} is not answered", m)));
            }
            break;
        }
        res.map_err(|e| what(format!("the processor fails: {:?}", e)))?;
        if seen != [r.rpc.arrived()] {
            return Err(what(format!("the handler got {:?} instead of {:?}", seen, r.rpc.arrived())));
        }
        let a = Msg::parse(unframe(&answer, framed)?).map_err(what)?;
        check_answer(&a, r.rpc.method(), r.seq, &r.ret).map_err(what)?;
        if !up.data.borrow().is_empty() {
            return Err(what("a part of the request is left over".into()));
        }
    }
    Ok(())
}
