//! A receiver on the loopback network that answers as told
use crate::wire::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::Duration;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Reply {
    Status {
        code: i32,
        msg: String,
        strict: bool,
        /// unknown fields (kind, seed) in the status and beside it
        extra: Vec<(u8, u64)>,
        /// the message before the code
        swapped: bool,
    },
    Exception { kind: i32, msg: String },
    WrongName(String),
    /// difference, not 0
    WrongSeq(i32),
    /// not REPLY, not EXCEPTION
    WrongType(u8),
    NoResult(Vec<(u8, u64)>),
    MissingCode,
    MissingMsg,
    /// only that share (of 65536) of a good answer, then the connection ends
    Cut(u16),
    /// the connection ends before the request is read
    CloseBefore,
    /// the request is read and the connection ends
    CloseAfter,
    /// a message of these bytes
    Garbage(Vec<u8>),
}

impl Reply {
    pub fn good() -> Reply {
        Reply::Status {
            code: 1,
            msg: "ok".into(),
            strict: false,
            extra: vec![],
            swapped: false,
        }
    }
    pub fn accepts(&self) -> bool {
        matches!(self, Reply::Status { code, .. } if *code > 0)
    }
    /// the caller can go on with the connection afterwards
    pub fn orderly(&self) -> bool {
        matches!(self, Reply::Status { .. } | Reply::Exception { .. })
    }
    pub fn class(&self) -> &'static str {
        match self {
            Reply::Status { code, .. } if *code > 0 => "reply: success",
            Reply::Status { .. } => "reply: error status",
            Reply::Exception { .. } => "reply: exception",
            Reply::WrongName(_) => "reply: wrong name",
            Reply::WrongSeq(_) => "reply: wrong sequence number",
            Reply::WrongType(_) => "reply: wrong type",
            Reply::NoResult(_) => "reply: no result",
            Reply::MissingCode => "reply: no code",
            Reply::MissingMsg => "reply: no message",
            Reply::Cut(_) => "reply: cut",
            Reply::CloseBefore => "reply: closed before the request",
            Reply::CloseAfter => "reply: closed after the request",
            Reply::Garbage(_) => "reply: garbage",
        }
    }
    /// Answer to a request (without frame), None: no answer; and whether the connection stays
    pub fn answer(&self, req: &Msg) -> (Vec<u8>, bool) {
        let status = |code: i32, msg: &str, extra: &[(u8, u64)], swapped: bool| {
            let mut f = vec![(1, W::I32(code)), (2, W::s(msg))];
            if swapped {
                f.reverse();
            }
            add_unknown(&mut f, extra, 3);
            let mut r = vec![(0, W::Struct(f))];
            add_unknown(&mut r, extra, 1);
            W::Struct(r)
        };
        let mut m = Msg {
            name: req.name.clone(),
            ty: REPLY,
            seq: req.seq,
            body: status(1, "fine", &[], false),
            strict: false,
        };
        match self {
            Reply::Status {
                code,
                msg,
                strict,
                extra,
                swapped,
            } => {
                m.strict = *strict;
                m.body = status(*code, msg, extra, *swapped);
            }
            Reply::Exception { kind, msg } => {
                m.ty = EXCEPTION;
                m.body = W::Struct(vec![(1, W::s(msg)), (2, W::I32(*kind))]);
            }
            Reply::WrongName(n) => {
                m.name = if *n == req.name { format!("{}x", n) } else { n.clone() };
            }
            Reply::WrongSeq(d) => m.seq = m.seq.wrapping_add(if *d == 0 { 1 } else { *d }),
            Reply::WrongType(t) => m.ty = *t,
            Reply::NoResult(extra) => {
                let mut f = vec![];
                add_unknown(&mut f, extra, 1);
                m.body = W::Struct(f);
            }
            Reply::MissingCode => m.body = W::Struct(vec![(0, W::Struct(vec![(2, W::s("m"))]))]),
            Reply::MissingMsg => m.body = W::Struct(vec![(0, W::Struct(vec![(1, W::I32(1))]))]),
            Reply::Cut(_) | Reply::CloseBefore | Reply::CloseAfter => return (m.encode(), false),
            // the caller may wait for more: the connection ends
            Reply::Garbage(b) => return (b.clone(), false),
        }
        (m.encode(), true)
    }
}

/// Unknown fields around the known ones
pub fn add_unknown(f: &mut Vec<(i16, W)>, extra: &[(u8, u64)], from: i16) {
    for (i, (k, seed)) in extra.iter().enumerate() {
        let id = match seed % 4 {
            0 => -5 - i as i16,
            1 => from + 200 + i as i16,
            2 => i16::MAX - i as i16,
            _ => from + 10 + i as i16,
        };
        let at = (seed >> 8) as usize % (f.len() + 1);
        f.insert(at, (id, unknown(*k, *seed)));
    }
}

pub fn text_strat() -> BoxedStrategy<String> {
    prop_oneof![
        3 => Just(String::new()),
        6 => "[ -~]{1,20}",
        2 => "\\PC{1,12}",
        1 => (100usize..10000).prop_map(|n| "t".repeat(n)),
    ]
    .boxed()
}

pub fn extra_strat() -> BoxedStrategy<Vec<(u8, u64)>> {
    prop_oneof![
        3 => Just(vec![]),
        1 => proptest::collection::vec((any::<u8>(), any::<u64>()), 1..4),
    ]
    .boxed()
}

pub fn success_strat() -> BoxedStrategy<Reply> {
    (
        prop_oneof![4 => Just(1i32), 2 => 1i32..300, 1 => Just(i32::MAX)],
        text_strat(),
        any::<bool>(),
        extra_strat(),
        any::<bool>(),
    )
        .prop_map(|(code, msg, strict, extra, swapped)| Reply::Status {
            code,
            msg,
            strict,
            extra,
            swapped,
        })
        .boxed()
}

pub const METHODS: [&str; 8] = [
    "check",
    "startSync",
    "init",
    "syncDeletedFileName",
    "initSyncData",
    "syncData",
    "checkDataDigest",
    "endSync",
];

pub fn wrong_name() -> BoxedStrategy<String> {
    prop_oneof![
        4 => (0usize..8).prop_map(|i| METHODS[i].to_string()),
        1 => Just(String::new()),
        1 => "[a-zA-Z]{1,12}",
        1 => (0usize..8).prop_map(|i| METHODS[i].to_uppercase()),
        1 => (0usize..8, 1usize..5).prop_map(|(i, n)| METHODS[i][..METHODS[i].len() - n].to_string()),
    ]
    .boxed()
}

pub fn refusal_strat() -> BoxedStrategy<Reply> {
    prop_oneof![
        4 => (
            prop_oneof![3 => Just(-1i32), 2 => Just(-2), 1 => -300i32..0, 1 => Just(i32::MIN)],
            text_strat(),
            any::<bool>(),
            extra_strat(),
            any::<bool>(),
        )
            .prop_map(|(code, msg, strict, extra, swapped)| Reply::Status { code, msg, strict, extra, swapped }),
        3 => (prop_oneof![4 => 0i32..11, 1 => any::<i32>()], text_strat())
            .prop_map(|(kind, msg)| Reply::Exception { kind, msg }),
    ]
    .boxed()
}

pub fn fault_strat() -> BoxedStrategy<Reply> {
    prop_oneof![
        5 => refusal_strat(),
        1 => wrong_name().prop_map(Reply::WrongName),
        1 => prop_oneof![Just(1i32), Just(-1), Just(i32::MIN), any::<i32>(), (1u32..31).prop_map(|b| 1 << b), (1u32..31).prop_map(|b| -(1 << b))].prop_map(Reply::WrongSeq),
        1 => prop_oneof![Just(1u8), Just(4), Just(0), 5u8..=255].prop_map(Reply::WrongType),
        1 => extra_strat().prop_map(Reply::NoResult),
        1 => Just(Reply::MissingCode),
        1 => Just(Reply::MissingMsg),
        3 => any::<u16>().prop_map(Reply::Cut),
        2 => Just(Reply::CloseBefore),
        2 => Just(Reply::CloseAfter),
        1 => garbage().prop_map(Reply::Garbage),
    ]
    .boxed()
}

/// Messages that are none; every four bytes are a length that is not negative (see
/// KNOWN_FINDINGS.txt for those)
pub fn garbage() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        1 => Just(vec![]),
        // a name that does not fit, or is none of ours
        3 => proptest::collection::vec(0u8..128, 1..40).prop_map(|mut b| {
            // not too long either
            b[0] = 0;
            if b.len() > 1 {
                b[1] %= 4;
            }
            b
        }),
        // a version that is none
        1 => proptest::collection::vec(0u8..128, 4..40).prop_map(|mut b| {
            b[0] |= 8;
            b
        }),
    ]
    .boxed()
}

#[derive(Clone, Debug, Default)]
pub struct Seen {
    /// requests per connection
    pub requests: Vec<Vec<Msg>>,
    pub broken: Option<String>,
    /// answers that were not good ones, by connection and number
    pub fired: Vec<(usize, usize)>,
}

thread_local! {
    /// one listener per thread for all its cases: ports are scarce
    static LISTENER: std::rc::Rc<TcpListener> = std::rc::Rc::new(listener());
}

fn listener() -> TcpListener {
    for _ in 0..600 {
        if let Ok(l) = TcpListener::bind("127.0.0.1:0") {
            l.set_nonblocking(true).expect("listener");
            return l;
        }
        std::thread::sleep(Duration::from_millis(100));
    }
    eprintln!("no port of the loopback network is free");
    std::process::exit(3)
}

pub struct Receiver<'a> {
    pub addr: String,
    listener: TcpListener,
    /// written to end the receiver
    bell: (std::os::unix::net::UnixStream, std::os::unix::net::UnixStream),
    stop: AtomicBool,
    seen: Mutex<Seen>,
    /// by connection and request
    #[allow(clippy::type_complexity)]
    plan: Box<dyn Fn(usize, usize) -> Reply + Sync + 'a>,
    /// sends whole prepared bytes instead (for the probes of known findings)
    pub raw: Option<Vec<u8>>,
    /// large data is not recorded but only handed to this
    #[allow(clippy::type_complexity)]
    pub large: Option<Box<dyn Fn(&[u8]) + Sync + 'a>>,
}

const PATIENCE: Duration = Duration::from_secs(30);

/// Acknowledge now: the caller waits for that before it sends the rest (Nagle)
fn quick(s: &TcpStream) {
    use std::os::fd::AsRawFd;
    let one: libc::c_int = 1;
    unsafe {
        libc::setsockopt(
            s.as_raw_fd(),
            libc::IPPROTO_TCP,
            libc::TCP_QUICKACK,
            &one as *const libc::c_int as *const libc::c_void,
            std::mem::size_of::<libc::c_int>() as libc::socklen_t,
        );
    }
}

fn read_frame(s: &mut TcpStream) -> Result<Option<Vec<u8>>, String> {
    let mut h = [0u8; 4];
    let mut n = 0;
    while n < 4 {
        match s.read(&mut h[n..]) {
            Ok(0) if n == 0 => return Ok(None),
            Ok(0) => return Err("the connection ends inside a frame".into()),
            Ok(k) => n += k,
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
            Err(e) if n == 0 && e.kind() == std::io::ErrorKind::ConnectionReset => return Ok(None),
            Err(e) => return Err(format!("reading: {}", e)),
        }
    }
    quick(s);
    let len = i32::from_be_bytes(h);
    if !(0..=1 << 28).contains(&len) {
        return Err(format!("a frame of {} bytes", len));
    }
    let mut b = vec![0; len as usize];
    s.read_exact(&mut b).map_err(|e| format!("a frame of {} bytes: {}", len, e))?;
    Ok(Some(b))
}

pub fn frame(b: &[u8]) -> Vec<u8> {
    let mut o = (b.len() as i32).to_be_bytes().to_vec();
    o.extend(b);
    o
}

impl<'a> Receiver<'a> {
    pub fn new(plan: impl Fn(usize, usize) -> Reply + Sync + 'a) -> Receiver<'a> {
        let listener = LISTENER.with(|l| l.try_clone()).expect("listener");
        // what is left of earlier cases
        while listener.accept().is_ok() {}
        Receiver {
            addr: listener.local_addr().unwrap().to_string(),
            listener,
            bell: std::os::unix::net::UnixStream::pair().expect("a pair of sockets"),
            stop: AtomicBool::new(false),
            seen: Mutex::default(),
            plan: Box::new(plan),
            raw: None,
            large: None,
        }
    }

    fn serve(&self) {
        let mut conn = 0;
        loop {
            let s = match self.listener.accept() {
                Ok((s, _)) => s,
                Err(_) if self.stop.load(Ordering::SeqCst) => return,
                Err(_) => {
                    use std::os::fd::AsRawFd;
                    let mut p = [self.listener.as_raw_fd(), self.bell.0.as_raw_fd()].map(|fd| libc::pollfd {
                        fd,
                        events: libc::POLLIN,
                        revents: 0,
                    });
                    unsafe { libc::poll(p.as_mut_ptr(), 2, -1) };
                    continue;
                }
            };
            let _ = s.set_nonblocking(false);
            self.seen.lock().unwrap().requests.push(vec![]);
            if let Err(e) = self.connection(conn, s) {
                self.seen.lock().unwrap().broken = Some(e);
            }
            conn += 1;
        }
    }

    fn connection(&self, conn: usize, mut s: TcpStream) -> Result<(), String> {
        let _ = s.set_read_timeout(Some(PATIENCE));
        let _ = s.set_write_timeout(Some(PATIENCE));
        let _ = s.set_nodelay(true);
        for k in 0.. {
            // wait for the first byte: the plan may depend on what the caller does by now
            let mut b = [0u8; 1];
            loop {
                match s.peek(&mut b) {
                    Ok(1) => break,
                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                    _ => return Ok(()),
                }
            }
            quick(&s);
            let plan = (self.plan)(conn, k);
            if plan == Reply::CloseBefore {
                self.seen.lock().unwrap().fired.push((conn, k));
                return Ok(());
            }
            let req = match read_frame(&mut s)? {
                None => return Ok(()),
                Some(b) => b,
            };
            let mut req = Msg::parse(&req).map_err(|e| format!("request {} is not readable: {}", k, e))?;
            let announced = |r: &Vec<Msg>| r.iter().filter(|m| m.name == "initSyncData").count();
            let of_file = self.large.is_some() && announced(&self.seen.lock().unwrap().requests[conn]) >= 2;
            if let (true, Some(f), "syncData", W::Struct(b)) = (of_file, &self.large, req.name.as_str(), &mut req.body) {
                for (_, v) in b.iter_mut() {
                    match v {
                        W::Str(d) if d.len() > 4096 => f(&std::mem::take(d)),
                        _ => {}
                    }
                }
            }
            let req = req;
            self.seen.lock().unwrap().requests[conn].push(req.clone());
            if !plan.accepts() {
                self.seen.lock().unwrap().fired.push((conn, k));
            }
            if let Some(raw) = &self.raw {
                let _ = s.write_all(raw);
                continue;
            }
            let (b, stay) = plan.answer(&req);
            let b = frame(&b);
            match &plan {
                Reply::CloseAfter => return Ok(()),
                Reply::Cut(share) => {
                    let n = b.len() * *share as usize / 65536;
                    let _ = s.write_all(&b[..n]);
                    return Ok(());
                }
                _ => {
                    // the caller may be gone
                    if s.write_all(&b).is_err() || !stay {
                        return Ok(());
                    }
                }
            }
        }
        Ok(())
    }

    /// requests of the first connection so far
    pub fn count(&self) -> usize {
        self.seen.lock().unwrap().requests.first().map_or(0, |r| r.len())
    }
    pub fn seen(&self) -> Seen {
        self.seen.lock().unwrap().clone()
    }

    /// Runs the caller against the receiver
    pub fn with<X>(&self, f: impl FnOnce(&str) -> X) -> (Result<X, String>, Seen) {
        let x = std::thread::scope(|sc| {
            sc.spawn(|| self.serve());
            let x = crate::run::guarded(|| f(&self.addr));
            self.stop.store(true, Ordering::SeqCst);
            let _ = (&self.bell.1).write_all(&[1]);
            x
        });
        let seen = self.seen.lock().unwrap().clone();
        (x, seen)
    }
}
