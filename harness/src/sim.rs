//! A session under full control of the harness: the event loop is polled by hand on one thread,
//! tokio's clock is paused and only moves when told to, the broker is the harness itself at the
//! other end of a real loopback TCP connection.
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::io::{ErrorKind, Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

use futures::channel::mpsc::Receiver;
use ruq::{Client, Notification, PublishBuilder, QoS};

use crate::dbg;
use crate::wire::*;

#[derive(Clone, Debug)]
pub enum Fail {
    /// the property is broken
    Violation(String),
    /// the harness could not do its work
    Harness(String),
}
pub type Res<T = ()> = Result<T, Fail>;

#[macro_export]
macro_rules! violation {
    ($($a:tt)*) => { return Err($crate::sim::Fail::Violation(format!($($a)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::sim::Fail::Violation(format!($($a)*))) } };
}

pub fn harness<T, E: std::fmt::Display>(what: &str, r: Result<T, E>) -> Res<T> {
    r.map_err(|e| Fail::Harness(format!("{}: {}", what, e)))
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Ok,
    Err(String),
    Panic(String),
}

#[derive(Clone, Debug)]
pub struct Notif {
    pub kind: &'static str,
    pub text: String,
    /// what `Connack::reason` says
    pub reason: Option<String>,
}

struct Absent;
impl std::fmt::Debug for Absent {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
/// In case there is no such method.
trait NoReason {
    fn reason(&self) -> Absent {
        Absent
    }
}
impl<T> NoReason for T {}

fn conv(n: Notification) -> Notif {
    let (kind, text, reason) = match n {
        Notification::ConnAck(c) => ("ConnAck", format!("{:?}", c), Some(format!("{:?}", c.reason())).filter(|r| !r.is_empty())),
        Notification::SubAck(s) => ("SubAck", s, None),
        Notification::Message(s) => ("Message", s, None),
        Notification::UnsubAck(s) => ("UnsubAck", s, None),
    };
    Notif { kind, text, reason }
}

#[derive(Default)]
pub struct WakeFlag {
    pub flag: AtomicBool,
    pub count: AtomicU64,
}
impl Wake for WakeFlag {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.flag.store(true, Ordering::SeqCst);
        self.count.fetch_add(1, Ordering::SeqCst);
    }
}

// ---- panics of the code under test

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static IN_POLL: std::cell::Cell<bool> = std::cell::Cell::new(false);
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_POLL.with(|p| p.get()) {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|l| *l.borrow_mut() = format!("{} at {}", msg, loc));
        } else {
            old(info)
        }
    }));
}

/// Runs code under test, turning a panic into Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_POLL.with(|p| p.set(true));
    let slot = crate::engine::watch_begin();
    let r = std::panic::catch_unwind(AssertUnwindSafe(f));
    crate::engine::watch_end(slot);
    IN_POLL.with(|p| p.set(false));
    r.map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
}

// ---- runtime

pub fn runtime(seed: u64) -> tokio::runtime::Runtime {
    let mut b = tokio::runtime::Builder::new_current_thread();
    b.enable_all().start_paused(true).event_interval(1);
    #[cfg(tokio_unstable)]
    b.rng_seed(tokio::runtime::RngSeed::from_bytes(&seed.to_le_bytes()));
    let _ = seed;
    b.build().expect("tokio runtime")
}

/// Runs one case in a fresh runtime. `seed` decides the order in which select! looks at its arms.
pub fn run<T>(seed: u64, f: impl Future<Output = Res<T>>) -> Res<T> {
    let reset = || {
        SKEW.with(|s| s.set(0));
        WALL.with(|s| s.set(0));
    };
    reset();
    let r = runtime(seed).block_on(f);
    reset();
    r
}

// The operating system's clocks as this thread sees them go along with tokio's: code that asks
// std::time instead of tokio::time finds that time has passed, too.
thread_local! {
    static SKEW: Cell<u64> = const { Cell::new(0) };
    /// how much the time of day has been set forward, in seconds
    static WALL: Cell<i64> = const { Cell::new(0) };
}

/// The time of day is set forward or back by seconds; no time passes.
pub fn set_clock(by: i64) {
    WALL.with(|s| s.set(s.get() + by));
}

/// Time passes.
pub async fn pass(ms: u64) {
    SKEW.with(|s| s.set(s.get() + ms));
    tokio::time::advance(Duration::from_millis(ms)).await;
}

/// Takes the place of libc's for the whole program.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    type F = unsafe extern "C" fn(libc::clockid_t, *mut libc::timespec) -> libc::c_int;
    static NEXT: AtomicU64 = AtomicU64::new(0);
    let mut f = NEXT.load(Ordering::Relaxed);
    if f == 0 {
        f = libc::dlsym(libc::RTLD_NEXT, c"clock_gettime".as_ptr()) as u64;
        NEXT.store(f, Ordering::Relaxed);
    }
    let r = if f == 0 {
        libc::syscall(libc::SYS_clock_gettime, clock, ts) as libc::c_int
    } else {
        std::mem::transmute::<usize, F>(f as usize)(clock, ts)
    };
    let told = [libc::CLOCK_REALTIME, libc::CLOCK_MONOTONIC, libc::CLOCK_BOOTTIME, libc::CLOCK_MONOTONIC_RAW, libc::CLOCK_MONOTONIC_COARSE, libc::CLOCK_REALTIME_COARSE];
    let ms = SKEW.with(|s| s.get());
    if r == 0 && ms > 0 && told.contains(&clock) {
        let n = (*ts).tv_nsec + (ms % 1000) as i64 * 1_000_000;
        (*ts).tv_sec += (ms / 1000) as i64 + n / 1_000_000_000;
        (*ts).tv_nsec = n % 1_000_000_000;
    }
    if r == 0 && (clock == libc::CLOCK_REALTIME || clock == libc::CLOCK_REALTIME_COARSE) {
        (*ts).tv_sec = ((*ts).tv_sec + WALL.with(|s| s.get())).max(0);
    }
    r
}

// ---- session

static STALL_MS: AtomicU64 = AtomicU64::new(6000);
/// After a failure has been found once, shrinking need not wait as long.
pub fn set_stall_ms(ms: u64) {
    STALL_MS.store(ms, Ordering::SeqCst)
}
pub fn stall_ms() -> u64 {
    STALL_MS.load(Ordering::SeqCst)
}

type Ev = Pin<Box<dyn Future<Output = anyhow::Result<()>> + Send>>;

pub struct Sess {
    pub clients: Vec<Option<Client>>,
    ev: Option<Ev>,
    pub rx: Option<Receiver<Notification>>,
    /// the application takes notifications as they come
    pub drain: bool,
    pub rx_ended: bool,
    pub notifs: Vec<Notif>,
    pub wake: Arc<WakeFlag>,
    pub end: Option<End>,
    pub polls: u64,
    /// the broker reads what the client sends; otherwise the client is soon unable to write (if
    /// the session is a narrow one), until something is waited for
    pub reading: bool,
    narrow: bool,
    /// the client's end of the connection
    peer_fd: Option<i32>,
    /// the kernel keeps something from the client for long; the number of polls then
    kept: u64,
    /// go on listening, so that another connection would succeed
    pub keep_listener: bool,
    /// hand a new waker to every poll, as an executor that moves tasks about may
    pub fresh_wakers: bool,
    wakes_before: u64,
    /// polls of the event loop since anything was last seen to come of it
    unseen: u64,

    listener: Option<TcpListener>,
    /// keep ports where connections are refused
    held: Vec<TcpListener>,
    pub addr: SocketAddr,
    pub sock: Option<TcpStream>,
    raw: Vec<u8>,
    raw_pos: usize,
    /// packets from the client with the virtual time (ms since start) they were seen at
    pub pkts: Vec<(u64, CPkt)>,
    /// the client's bytes stopped being well-formed
    pub wire_err: Option<String>,
    pub eof: bool,
    pub reset: bool,
    t0: tokio::time::Instant,
    fence: u32,
    fences_out: usize,
    clock: u64,
}

pub const FENCE: &str = "harness/fence/";

/// Another loopback address each time: closed connections keep their ports for a minute, and there
/// are only so many ports per address.
fn loopback() -> std::net::Ipv4Addr {
    static NEXT: AtomicU64 = AtomicU64::new(0);
    static WHOLE_NET: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    let base = std::process::id() as u64;
    if !*WHOLE_NET.get_or_init(|| TcpListener::bind("127.100.100.100:0").is_ok()) {
        return std::net::Ipv4Addr::LOCALHOST;
    }
    let n = (base.wrapping_mul(0x9E37_79B9) >> 8).wrapping_add(NEXT.fetch_add(1, Ordering::Relaxed));
    std::net::Ipv4Addr::new(127, 1 + (n / 40_000 % 250) as u8, 1 + (n / 200 % 200) as u8, 1 + (n % 200) as u8)
}

pub fn bind_listener() -> Res<TcpListener> {
    let mut last = None;
    for _ in 0..20 {
        match TcpListener::bind((loopback(), 0)) {
            Ok(l) => return Ok(l),
            Err(e) => last = Some(e),
        }
        std::thread::sleep(std::time::Duration::from_millis(50));
    }
    Err(Fail::Harness(format!("bind: {}", last.unwrap())))
}

/// A port that is bound, so that nobody else can listen there, but not listened on.
fn hold() -> Res<TcpListener> {
    unsafe {
        use std::os::fd::FromRawFd;
        let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        if fd < 0 {
            return Err(Fail::Harness(format!("socket: {}", std::io::Error::last_os_error())));
        }
        let s = TcpListener::from_raw_fd(fd);
        let mut a: libc::sockaddr_in = std::mem::zeroed();
        a.sin_family = libc::AF_INET as libc::sa_family_t;
        a.sin_addr.s_addr = u32::from_ne_bytes(loopback().octets());
        let n = std::mem::size_of::<libc::sockaddr_in>() as libc::socklen_t;
        if libc::bind(fd, &a as *const _ as *const libc::sockaddr, n) != 0 {
            return Err(Fail::Harness(format!("bind: {}", std::io::Error::last_os_error())));
        }
        Ok(s)
    }
}

fn boxed<E: Future<Output = anyhow::Result<()>> + Send + 'static>((c, ev, rx): (Client, E, Receiver<Notification>)) -> (Client, Ev, Receiver<Notification>) {
    (c, Box::pin(ev), rx)
}

/// How the application writes the broker's address.
#[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize)]
pub enum To {
    #[default]
    Addr,
    V4,
    Ip,
    Ip4,
    Str,
    String,
    StrPort,
    StringPort,
    /// several addresses; all but the right one refuse connections
    Several { before: u8, after: u8 },
}

impl To {
    fn create(&self, addr: SocketAddr, held: &mut Vec<TcpListener>) -> Res<(Client, Ev, Receiver<Notification>)> {
        let SocketAddr::V4(v4) = addr else { return Err(Fail::Harness("not IPv4".into())) };
        let (ip, port) = (*v4.ip(), v4.port());
        let leak = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
        Ok(match self {
            To::Addr => boxed(Client::new(addr)),
            To::V4 => boxed(Client::new(v4)),
            To::Ip => boxed(Client::new((std::net::IpAddr::V4(ip), port))),
            To::Ip4 => boxed(Client::new((ip, port))),
            To::Str => boxed(Client::new(leak(addr.to_string()))),
            To::String => boxed(Client::new(addr.to_string())),
            To::StrPort => boxed(Client::new((leak(ip.to_string()), port))),
            To::StringPort => boxed(Client::new((ip.to_string(), port))),
            To::Several { before, after } => {
                let mut all = vec![];
                for i in 0..before + after + 1 {
                    if i == *before {
                        all.push(addr);
                    } else {
                        let h = hold()?;
                        all.push(harness("local_addr", h.local_addr())?);
                        held.push(h);
                    }
                }
                let all: &'static [SocketAddr] = Box::leak(all.into_boxed_slice());
                boxed(Client::new(all))
            }
        })
    }
}

impl Sess {
    pub fn new() -> Res<Sess> {
        let listener = bind_listener()?;
        harness("nonblocking", listener.set_nonblocking(true))?;
        let addr = harness("local_addr", listener.local_addr())?;
        Ok(Self::with_listener(addr, Some(listener)))
    }

    /// A session with buffers of a few kilobytes on the way to the broker.
    pub fn narrow() -> Res<Sess> {
        let mut s = Self::new()?;
        s.narrow = true;
        if let Some(l) = &s.listener {
            opt(l.as_raw_fd(), libc::SOL_SOCKET, libc::SO_RCVBUF, 8192i32);
            opt(l.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_MAXSEG, 1000i32);
        }
        Ok(s)
    }

    /// A session whose broker address refuses connections.
    pub fn refused() -> Res<Sess> {
        Self::refused_at(&To::Addr)
    }

    /// As `new`, with the address given in some form.
    pub fn new_at(to: &To) -> Res<Sess> {
        let listener = bind_listener()?;
        harness("nonblocking", listener.set_nonblocking(true))?;
        let addr = harness("local_addr", listener.local_addr())?;
        let mut held = vec![];
        let made = to.create(addr, &mut held)?;
        let mut s = Self::with(addr, Some(listener), made);
        s.held = held;
        Ok(s)
    }

    pub fn refused_at(to: &To) -> Res<Sess> {
        let first = hold()?;
        let addr = harness("local_addr", first.local_addr())?;
        let mut held = vec![first];
        let made = to.create(addr, &mut held)?;
        let mut s = Self::with(addr, None, made);
        s.held = held;
        Ok(s)
    }

    fn with_listener(addr: SocketAddr, listener: Option<TcpListener>) -> Sess {
        Self::with(addr, listener, boxed(Client::new(addr)))
    }

    fn with(addr: SocketAddr, listener: Option<TcpListener>, (client, ev, rx): (Client, Ev, Receiver<Notification>)) -> Sess {
        let wake = Arc::new(WakeFlag::default());
        wake.flag.store(true, Ordering::SeqCst);
        Sess {
            clients: vec![Some(client)],
            ev: Some(ev),
            rx: Some(rx),
            drain: true,
            rx_ended: false,
            notifs: vec![],
            wake,
            end: None,
            polls: 0,
            reading: true,
            narrow: false,
            peer_fd: None,
            kept: 0,
            keep_listener: true,
            fresh_wakers: false,
            wakes_before: 0,
            unseen: 0,
            listener,
            held: vec![],
            addr,
            sock: None,
            raw: vec![],
            raw_pos: 0,
            pkts: vec![],
            wire_err: None,
            eof: false,
            reset: false,
            t0: tokio::time::Instant::now(),
            fence: 0,
            fences_out: 0,
            clock: 0,
        }
    }

    /// A session after a successful handshake.
    pub async fn connected() -> Res<Sess> {
        let mut s = Self::new()?;
        s.handshake().await?;
        Ok(s)
    }

    pub async fn handshake(&mut self) -> Res {
        self.await_connect().await?;
        self.send(&SPkt::Connack { sp: false, reason: 0, props: vec![] }.encode()).await?;
        self.wait("the CONNACK notification", |s| s.notifs.iter().any(|n| n.kind == "ConnAck")).await?;
        self.pkts.remove(0);
        self.notifs.retain(|n| n.kind != "ConnAck");
        Ok(())
    }

    pub async fn await_connect(&mut self) -> Res {
        self.wait("the CONNECT packet", |s| !s.pkts.is_empty()).await?;
        ensure!(
            matches!(self.pkts[0].1, CPkt::Connect { .. }),
            "first packet from the client is {:?}",
            self.pkts[0].1
        );
        Ok(())
    }

    pub fn now_ms(&self) -> u64 {
        self.t0.elapsed().as_millis() as u64
    }

    /// How often the event loop has asked to be run.
    pub fn wakes(&self) -> u64 {
        self.wakes_before + self.wake.count.load(Ordering::SeqCst)
    }

    pub fn alive(&self) -> bool {
        self.ev.is_some()
    }

    pub fn client(&mut self) -> &mut Client {
        self.clients.iter_mut().flatten().next().expect("a client handle")
    }

    fn poll_ev(&mut self) {
        if let Some(ev) = self.ev.as_mut() {
            if self.fresh_wakers {
                // only the last one counts
                self.wakes_before += self.wake.count.load(Ordering::SeqCst);
                self.wake = Arc::new(WakeFlag::default());
            }
            let waker = Waker::from(self.wake.clone());
            let mut cx = Context::from_waker(&waker);
            self.polls += 1;
            match guarded(|| ev.as_mut().poll(&mut cx)) {
                Ok(Poll::Pending) => return,
                Ok(Poll::Ready(Ok(()))) => self.end = Some(End::Ok),
                Ok(Poll::Ready(Err(e))) => self.end = Some(End::Err(format!("{:#}", e))),
                Err(p) => self.end = Some(End::Panic(p)),
            }
            // the application awaits the future to completion and drops it
            let ev = self.ev.take();
            let _ = guarded(move || drop(ev));
        }
    }

    /// Drop the event loop unfinished, as an application cancelling it would.
    pub fn cancel(&mut self) {
        let ev = self.ev.take();
        let _ = guarded(move || drop(ev));
    }

    /// One poll of the event loop if it asked for one, one turn of the I/O driver, then the broker
    /// and the application look at what arrived. True if anything happened.
    pub async fn step(&mut self) -> bool {
        let mut progress = false;
        if self.alive() && self.wake.flag.swap(false, Ordering::SeqCst) {
            self.poll_ev();
            progress = true;
        }
        let ended = self.end.is_some();
        tokio::task::yield_now().await;
        let seen = self.pump_sock() | self.pump_notifs(usize::MAX);
        if seen || ended {
            self.unseen = 0;
        } else if progress {
            self.unseen += 1;
        }
        progress | seen
    }

    /// Take up to `max` notifications, if the application is taking any.
    fn pump_notifs(&mut self, max: usize) -> bool {
        if !self.drain {
            return false;
        }
        self.take_notifs(max)
    }

    pub fn take_notifs(&mut self, max: usize) -> bool {
        let mut got = false;
        if let Some(rx) = self.rx.as_mut() {
            for _ in 0..max {
                match rx.try_next_compat() {
                    Some(Some(n)) => {
                        self.notifs.push(conv(n));
                        got = true;
                    }
                    Some(None) => {
                        got |= !self.rx_ended;
                        self.rx_ended = true;
                        break;
                    }
                    None => break,
                }
            }
        }
        got
    }

    fn pump_sock(&mut self) -> bool {
        let mut progress = false;
        if self.sock.is_none() && !self.reset {
            if let Some(l) = &self.listener {
                if let Ok((s, _)) = l.accept() {
                    let _ = s.set_nonblocking(true);
                    let _ = s.set_nodelay(true);
                    set_opt(&s, libc::SOL_SOCKET, libc::SO_LINGER, libc::linger { l_onoff: 1, l_linger: 0 });
                    self.peer_fd = find_peer(&s);
                    if let (true, Some(fd)) = (self.narrow, self.peer_fd) {
                        opt(fd, libc::SOL_SOCKET, libc::SO_SNDBUF, 4608i32);
                    }
                    self.sock = Some(s);
                    if !self.keep_listener {
                        self.listener = None;
                    }
                    progress = true;
                }
            }
        }
        if let Some(s) = self.sock.as_mut() {
            if self.eof || self.reset || !self.reading {
                return progress;
            }
            let mut buf = [0u8; 65536];
            loop {
                match s.read(&mut buf) {
                    Ok(0) => {
                        self.eof = true;
                        progress = true;
                        break;
                    }
                    Ok(n) => {
                        progress = true;
                        self.raw.extend_from_slice(&buf[..n]);
                        set_opt(s, libc::IPPROTO_TCP, libc::TCP_QUICKACK, 1i32);
                    }
                    Err(e) if e.kind() == ErrorKind::WouldBlock => break,
                    Err(e) if e.kind() == ErrorKind::Interrupted => {}
                    Err(_) => {
                        self.reset = true;
                        progress = true;
                        break;
                    }
                }
            }
        }
        if progress {
            self.parse_raw();
        }
        progress
    }

    fn parse_raw(&mut self) {
        let now = self.now_ms();
        while self.wire_err.is_none() {
            match frame_len(&self.raw[self.raw_pos..]) {
                Ok(None) => break,
                Ok(Some(n)) => {
                    let f = &self.raw[self.raw_pos..self.raw_pos + n];
                    match decode_client(f) {
                        Ok(p) => self.pkts.push((now, p)),
                        Err(e) => {
                            self.wire_err = Some(format!("{}: {}", e, hex(f, 48)));
                        }
                    }
                    self.raw_pos += n;
                }
                Err(e) => self.wire_err = Some(format!("{:?}: {}", e, hex(&self.raw[self.raw_pos..], 48))),
            }
        }
        if self.raw_pos > 1 << 20 {
            self.raw.drain(..self.raw_pos);
            self.raw_pos = 0;
        }
    }

    /// Drops the bytes of packets that have been looked at.
    pub fn forget_raw(&mut self) {
        self.raw = self.raw[self.raw_pos..].to_vec();
        self.raw_pos = 0;
    }

    /// Bytes of an incomplete packet at the end of what the client sent.
    pub fn partial(&self) -> usize {
        self.raw.len() - self.raw_pos
    }

    pub fn describe(&self) -> String {
        format!(
            "event loop {}, {} packets from client (last {}), {} notifications (last {}){}",
            match &self.end {
                Some(e) => format!("ended with {:?}", e),
                None if self.ev.is_none() => "cancelled".into(),
                None => "running".into(),
            },
            self.pkts.len(),
            self.pkts.last().map(|p| clip(&format!("{:?}", p.1))).unwrap_or_default(),
            self.notifs.len(),
            self.notifs.last().map(|n| clip(&n.text)).unwrap_or_default(),
            self.wire_err.as_ref().map(|e| format!(", wire error {}", e)).unwrap_or_default(),
        )
    }

    /// Runs until `cond` holds. A violation if the event loop ends, the client's bytes turn
    /// malformed, or everything comes to rest first.
    pub async fn wait(&mut self, what: &str, cond: impl Fn(&Sess) -> bool) -> Res {
        self.wait_(what, cond, false).await
    }

    /// As `wait`, but the event loop is expected to end sooner or later.
    pub async fn wait_end(&mut self, what: &str) -> Res<End> {
        self.wait_(what, |s| s.end.is_some(), true).await?;
        // everything it wrote before
        for _ in 0..3 {
            self.step().await;
        }
        Ok(self.end.clone().unwrap())
    }

    pub async fn wait_(&mut self, what: &str, cond: impl Fn(&Sess) -> bool, may_end: bool) -> Res {
        let mut idle = 0u64;
        let mut since = Instant::now();
        self.reading = true;
        loop {
            if cond(self) {
                return Ok(());
            }
            if let Some(e) = &self.wire_err {
                violation!("waiting for {}: client sent a malformed packet: {}", what, e);
            }
            if let Some(End::Panic(p)) = &self.end {
                violation!("waiting for {}: event loop panicked: {}", what, p);
            }
            if self.end.is_some() && !may_end && idle > 40 {
                violation!("waiting for {}: {}", what, self.describe());
            }
            if self.step().await {
                idle = 0;
                if self.unseen < 1000 {
                    since = Instant::now();
                } else if since.elapsed() > Duration::from_millis(10 * STALL_MS.load(Ordering::Relaxed)) {
                    violation!("no progress waiting for {} although the event loop is busy: {}", what, self.describe());
                }
            } else {
                idle += 1;
                if idle > 300 {
                    std::thread::sleep(Duration::from_micros(if idle > 2000 { 1000 } else { 50 }));
                    if idle > 600 && since.elapsed() > Duration::from_millis(STALL_MS.load(Ordering::Relaxed)) {
                        violation!("no progress waiting for {}: {}", what, self.describe());
                    }
                }
            }
        }
    }

    /// Run until nothing has happened for a few turns. Says nothing about packets the kernel
    /// may still hold back; use fences to be sure.
    pub async fn settle(&mut self) {
        let mut idle = 0;
        let mut n = 0u64;
        self.unseen = 0;
        let mut since = None;
        while idle < 4 && n < 100_000 && self.unseen < 1000 {
            if self.step().await {
                idle = 0
            } else if idle == 3 && self.held_back(&mut since) {
                idle = 0;
                std::thread::sleep(Duration::from_micros(50));
            } else {
                idle += 1
            }
            n += 1;
        }
    }

    /// Something written has yet to reach the other end, although there is room for it (a busy
    /// machine delivers late, and small windows are offered late).
    fn held_back(&mut self, since: &mut Option<Instant>) -> bool {
        let (Some(fd), Some(sock), true) = (self.peer_fd, &self.sock, self.alive() && !self.eof && !self.reset) else { return false };
        let (Some(c), Some(b)) = (tcp_info(fd), tcp_info(sock.as_raw_fd())) else { return false };
        let to_broker = self.reading && (c.unsent > 0 || c.sent > b.received);
        let to_client = b.sent > c.received && self.kept != self.polls;
        if !to_broker && !to_client {
            return false;
        }
        let waited = since.get_or_insert_with(Instant::now).elapsed();
        if to_client && waited > Duration::from_millis(60) {
            // it does not read, so there may be no room after all
            self.kept = self.polls;
        }
        waited < Duration::from_secs(3)
    }

    pub async fn advance(&mut self, ms: u64) {
        self.clock += ms;
        pass(ms).await;
    }

    /// Broker writes these bytes.
    pub async fn send(&mut self, bytes: &[u8]) -> Res {
        self.reading = true;
        let mut off = 0;
        let mut idle = 0u64;
        let since = Instant::now();
        while off < bytes.len() {
            let r = match self.sock.as_mut() {
                None => return Err(Fail::Harness("broker socket not open".into())),
                Some(s) => s.write(&bytes[off..]),
            };
            match r {
                Ok(n) => {
                    off += n;
                    idle = 0;
                }
                Err(e) if e.kind() == ErrorKind::WouldBlock => {
                    let limit = Duration::from_millis(STALL_MS.load(Ordering::Relaxed));
                    if !self.step().await {
                        idle += 1;
                        if idle > 300 {
                            std::thread::sleep(Duration::from_micros(200));
                        }
                        if idle > 600 && since.elapsed() > limit {
                            violation!("client stopped reading: {}", self.describe());
                        }
                    } else if self.unseen > 1000 && since.elapsed() > 10 * limit {
                        violation!("client stopped reading although the event loop is busy: {}", self.describe());
                    }
                }
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                // the client closed the connection: whoever waits will see that
                Err(_) => return Ok(()),
            }
        }
        Ok(())
    }

    /// As `send`, giving up quietly when the client does not read.
    pub fn try_send(&mut self, bytes: &[u8]) -> usize {
        let mut off = 0;
        if let Some(s) = self.sock.as_mut() {
            while off < bytes.len() {
                match s.write(&bytes[off..]) {
                    Ok(n) => off += n,
                    Err(e) if e.kind() == ErrorKind::Interrupted => {}
                    Err(_) => break,
                }
            }
        }
        off
    }

    /// Broker closes its sending direction (orderly: FIN).
    pub fn shutdown_write(&mut self) {
        if let Some(s) = &self.sock {
            let _ = s.shutdown(std::net::Shutdown::Write);
        }
    }

    /// The client connects once.
    pub fn connected_once(&self) -> Res {
        if let (Some(l), true) = (&self.listener, self.keep_listener) {
            ensure!(l.accept().is_err(), "the client connected a second time");
        }
        Ok(())
    }

    /// Broker closes abortively (RST).
    pub fn abort(&mut self) {
        self.sock = None;
        self.reset = true;
    }

    /// How many fence publishes have been asked for.
    pub fn fences_out(&self) -> usize {
        self.fences_out
    }

    fn next_fence(&mut self) -> String {
        self.fence += 1;
        format!("{}{}", FENCE, self.fence)
    }

    /// All commands accepted so far have been sent, and seen by the broker.
    pub async fn fence_out(&mut self) -> Res {
        let t = self.next_fence();
        self.command_patiently("a fence publish", |c| c.publish(PublishBuilder::from_bytes(&t, &[]))).await?;
        self.fences_out += 1;
        self.wait("an accepted publish to reach the broker", move |s| {
            s.pkts.iter().rev().any(|(_, p)| matches!(p, CPkt::Publish { topic, .. } if *topic == t))
        })
        .await
    }

    /// Issue a command, running the session while the queue is full.
    pub async fn command_patiently(
        &mut self,
        what: &str,
        f: impl Fn(&mut Client) -> Result<(), anyhow::Error>,
    ) -> Res {
        let mut idle = 0u64;
        let mut since = Instant::now();
        self.reading = true;
        loop {
            let c = self.client();
            let r = match guarded(|| f(c)) {
                Ok(r) => r,
                Err(p) => violation!("client call panicked: {}", p),
            };
            match r {
                Ok(()) => return Ok(()),
                Err(_) => {
                    if self.end.is_some() {
                        violation!("session ended before {} was accepted: {}", what, self.describe());
                    }
                    if let Some(e) = &self.wire_err {
                        violation!("client sent a malformed packet: {}", e);
                    }
                    if self.step().await {
                        idle = 0;
                        if self.unseen < 1000 {
                            since = Instant::now();
                        } else if since.elapsed() > Duration::from_millis(10 * STALL_MS.load(Ordering::Relaxed)) {
                            violation!("{} is still refused although the event loop is busy: {}", what, self.describe());
                        }
                    } else {
                        idle += 1;
                        if idle > 300 {
                            std::thread::sleep(Duration::from_micros(200));
                        }
                        if idle > 600 && since.elapsed() > Duration::from_millis(STALL_MS.load(Ordering::Relaxed)) {
                            violation!("{} is still refused after the session came to rest: {}", what, self.describe());
                        }
                    }
                }
            }
        }
    }

    /// Everything the broker sent so far has been received, acted on and notified.
    /// Needs the application to take notifications.
    pub async fn fence_in(&mut self) -> Res {
        let t = self.next_fence();
        let bytes = SPkt::Publish {
            dup: false,
            qos: 0,
            retain: false,
            topic: t.clone(),
            id: 0,
            props: vec![],
            payload: vec![],
        }
        .encode();
        self.send(&bytes).await?;
        let pat = format!("\"{}\"", t);
        self.wait("a broker message to be delivered", move |s| s.notifs.iter().rev().any(|n| n.text.contains(&pat))).await
    }

    /// Notifications less those of fences.
    pub fn app_notifs(&self) -> Vec<&Notif> {
        self.notifs.iter().filter(|n| !is_fence_text(&n.text)).collect()
    }

    /// Client packets less those of fences.
    pub fn app_pkts(&self) -> Vec<&CPkt> {
        self.pkts
            .iter()
            .map(|(_, p)| p)
            .filter(|p| !matches!(p, CPkt::Publish { topic, .. } if topic.starts_with(FENCE)))
            .collect()
    }

    pub fn no_panic(&self) -> Res {
        if let Some(End::Panic(p)) = &self.end {
            violation!("event loop panicked: {}", p);
        }
        if let Some(e) = &self.wire_err {
            violation!("client sent a malformed packet: {}", e);
        }
        Ok(())
    }
}

pub fn is_fence_text(t: &str) -> bool {
    t.contains("\"harness/fence/")
}

pub fn clip(s: &str) -> String {
    if s.len() <= 200 {
        return s.into();
    }
    let mut e = 200;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}... ({} bytes)", &s[..e], s.len())
}

pub fn hex(b: &[u8], max: usize) -> String {
    let mut s: String = b.iter().take(max).map(|x| format!("{:02x} ", x)).collect();
    if b.len() > max {
        s.push_str(&format!("... ({} bytes)", b.len()));
    }
    s
}

struct TcpInfo {
    sent: u64,
    received: u64,
    unsent: u32,
}

/// What the kernel says about a connection. None if it does not say enough, or there is none.
fn tcp_info(fd: i32) -> Option<TcpInfo> {
    let mut buf = [0u8; 256];
    let mut n = buf.len() as libc::socklen_t;
    let r = unsafe { libc::getsockopt(fd, libc::IPPROTO_TCP, libc::TCP_INFO, buf.as_mut_ptr() as *mut libc::c_void, &mut n) };
    // offsets of struct tcp_info in linux/tcp.h
    let u64_at = |i: usize| u64::from_ne_bytes(buf[i..i + 8].try_into().unwrap());
    let u32_at = |i: usize| u32::from_ne_bytes(buf[i..i + 4].try_into().unwrap());
    if r != 0 || n < 216 {
        return None;
    }
    Some(TcpInfo { sent: u64_at(200).saturating_sub(u64_at(208)), received: u64_at(128), unsent: u32_at(144) })
}

/// The other end, a socket of this process.
fn find_peer(s: &TcpStream) -> Option<i32> {
    let (me, peer) = match (s.local_addr(), s.peer_addr()) {
        (Ok(a), Ok(b)) => (a, b),
        _ => return None,
    };
    let port = |a: &libc::sockaddr_in| (u32::from_be(a.sin_addr.s_addr), u16::from_be(a.sin_port));
    let key = |a: &SocketAddr| match a {
        SocketAddr::V4(a) => (u32::from(*a.ip()), a.port()),
        _ => (0, 0),
    };
    let is_it = |fd: i32| unsafe {
        let mut a: libc::sockaddr_in = std::mem::zeroed();
        let mut b: libc::sockaddr_in = std::mem::zeroed();
        let mut n = std::mem::size_of::<libc::sockaddr_in>() as libc::socklen_t;
        let mut m = n;
        libc::getsockname(fd, &mut a as *mut _ as *mut libc::sockaddr, &mut n) == 0
            && port(&a) == key(&peer)
            && libc::getpeername(fd, &mut b as *mut _ as *mut libc::sockaddr, &mut m) == 0
            && port(&b) == key(&me)
    };
    // most often it was made just before
    let at = s.as_raw_fd();
    if let Some(fd) = (1..12).flat_map(|d| [at - d, at + d]).find(|fd| *fd > 2 && is_it(*fd)) {
        return Some(fd);
    }
    let dir = std::fs::read_dir("/proc/self/fd").ok()?;
    dir.flatten().filter_map(|e| e.file_name().to_str().and_then(|n| n.parse::<i32>().ok())).find(|fd| is_it(*fd))
}

fn set_opt<T>(s: &TcpStream, level: i32, name: i32, v: T) {
    opt(s.as_raw_fd(), level, name, v)
}

fn opt<T>(fd: i32, level: i32, name: i32, v: T) {
    unsafe {
        libc::setsockopt(
            fd,
            level,
            name,
            &v as *const T as *const libc::c_void,
            std::mem::size_of::<T>() as libc::socklen_t,
        );
    }
}

/// What the notifications should show, one packet each, in order.
pub fn check_notifs(got: &[&Notif], want: &[&SPkt]) -> Res {
    let want: Vec<&&SPkt> = want.iter().filter(|p| dbg::expected(p).is_some()).collect();
    for (i, w) in want.iter().enumerate() {
        match got.get(i) {
            None => violation!(
                "{} of {} notifications delivered, missing the one for {}",
                got.len(),
                want.len(),
                clip(&format!("{:?}", w))
            ),
            Some(n) => {
                if let Err(e) = dbg::shows(n.kind, &n.text, w) {
                    violation!("notification {} of {}: {}", i + 1, want.len(), e);
                }
                if let (Some(r), SPkt::Connack { reason, .. }) = (&n.reason, w) {
                    let name = CONNACK_REASONS.iter().find(|c| c.0 == *reason).map(|c| c.1);
                    ensure!(name == Some(r.as_str()), "the CONNACK notification's reason() is {}, expected {:?}", r, name);
                }
            }
        }
    }
    if got.len() > want.len() {
        violation!("unexpected notification {} {}", got[want.len()].kind, clip(&got[want.len()].text));
    }
    Ok(())
}

pub trait TryNextCompat {
    /// None: nothing there now; Some(None): ended
    fn try_next_compat(&mut self) -> Option<Option<Notification>>;
}
impl TryNextCompat for Receiver<Notification> {
    fn try_next_compat(&mut self) -> Option<Option<Notification>> {
        use futures::StreamExt;
        let w = futures::task::noop_waker();
        match self.poll_next_unpin(&mut Context::from_waker(&w)) {
            Poll::Ready(x) => Some(x),
            Poll::Pending => None,
        }
    }
}

pub fn qos(n: u8) -> QoS {
    match n {
        0 => QoS::AtMostOnce,
        1 => QoS::AtLeastOnce,
        _ => QoS::ExactlyOnce,
    }
}
