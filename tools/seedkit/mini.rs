// A tiny broker for demonstrations: plain bytes over loopback.
#![allow(dead_code)]
use std::time::Duration;
pub use futures::StreamExt;
pub use ruq::{Client, Notification, Property, PublishBuilder, QoS};
pub use tokio::io::{AsyncReadExt, AsyncWriteExt};
pub use tokio::net::{TcpListener, TcpStream};
pub use tokio::time::{sleep, timeout};

pub type Rx = futures::channel::mpsc::Receiver<Notification>;
pub type Ev = tokio::task::JoinHandle<anyhow::Result<()>>;

pub struct B {
    pub s: TcpStream,
    pub buf: Vec<u8>,
    /// show pings instead of answering them
    pub pings: bool,
}

pub const SHORT: Duration = Duration::from_millis(700);

pub fn vbi(mut n: usize) -> Vec<u8> {
    let mut v = vec![];
    loop {
        let b = (n % 128) as u8;
        n /= 128;
        if n > 0 {
            v.push(b | 128);
        } else {
            v.push(b);
            return v;
        }
    }
}
pub fn frame(first: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![first];
    v.extend(vbi(body.len()));
    v.extend_from_slice(body);
    v
}
pub fn st(s: &str) -> Vec<u8> {
    let mut v = (s.len() as u16).to_be_bytes().to_vec();
    v.extend_from_slice(s.as_bytes());
    v
}
/// PUBLISH from the broker; `id` 0 means QoS 0, `flags` are the low bits besides
pub fn publish(topic: &str, id: u16, qos: u8, flags: u8, props: &[u8], payload: &[u8]) -> Vec<u8> {
    let mut b = st(topic);
    if qos > 0 {
        b.extend(id.to_be_bytes());
    }
    b.extend(vbi(props.len()));
    b.extend_from_slice(props);
    b.extend_from_slice(payload);
    frame(0x30 | qos << 1 | flags, &b)
}

impl B {
    /// The next packet from the client: first byte and body. None: closed, or nothing for a while.
    pub async fn packet_within(&mut self, d: Duration) -> Option<(u8, Vec<u8>)> {
        timeout(d, self.packet_()).await.ok().flatten()
    }
    pub async fn packet(&mut self) -> Option<(u8, Vec<u8>)> {
        self.packet_within(Duration::from_secs(5)).await
    }
    async fn packet_(&mut self) -> Option<(u8, Vec<u8>)> {
        loop {
            if self.buf.len() >= 2 {
                let (mut n, mut sh, mut i) = (0usize, 0, 1);
                let mut whole = false;
                while i < self.buf.len() && i < 5 {
                    n |= ((self.buf[i] & 127) as usize) << sh;
                    sh += 7;
                    i += 1;
                    if self.buf[i - 1] & 128 == 0 {
                        whole = true;
                        break;
                    }
                }
                if whole && self.buf.len() >= i + n {
                    let p = (self.buf[0], self.buf[i..i + n].to_vec());
                    self.buf.drain(..i + n);
                    if p.0 == 0xC0 && !self.pings {
                        let _ = self.s.write_all(&[0xD0, 0]).await;
                        continue;
                    }
                    return Some(p);
                }
            }
            let mut b = vec![0; 65536];
            match self.s.read(&mut b).await {
                Ok(0) | Err(_) => return None,
                Ok(k) => self.buf.extend_from_slice(&b[..k]),
            }
        }
    }
    pub async fn send(&mut self, b: &[u8]) {
        let _ = self.s.write_all(b).await;
        let _ = self.s.flush().await;
    }
    pub async fn connack(&mut self) {
        self.send(&[0x20, 3, 0, 0, 0]).await
    }
}

/// Everything but the CONNECT/CONNACK exchange.
pub async fn start() -> (Client, Ev, Rx, B) {
    let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
    let (client, ev, rx) = Client::new(l.local_addr().unwrap());
    let ev = tokio::spawn(ev);
    let (s, _) = l.accept().await.unwrap();
    s.set_nodelay(true).unwrap();
    (client, ev, rx, B { s, buf: vec![], pings: false })
}

/// A session past CONNACK.
pub async fn session() -> (Client, Ev, Rx, B) {
    let (c, ev, mut rx, mut b) = start().await;
    assert_eq!(b.packet().await.expect("CONNECT").0, 0x10);
    b.connack().await;
    note(&mut rx).await.expect("CONNACK notification");
    (c, ev, rx, b)
}

/// The next notification as text, if one comes soon.
pub async fn note(rx: &mut Rx) -> Option<String> {
    match timeout(Duration::from_secs(3), rx.next()).await {
        Ok(Some(n)) => Some(match n {
            Notification::ConnAck(c) => format!("{:?}", c),
            Notification::SubAck(s) | Notification::Message(s) | Notification::UnsubAck(s) => s,
        }),
        _ => None,
    }
}

/// How the event loop ends, if it does soon.
pub async fn end(ev: Ev, d: Duration) -> Option<Result<(), String>> {
    match timeout(d, ev).await {
        Ok(Ok(r)) => Some(r.map_err(|e| format!("{:?}", e))),
        Ok(Err(e)) => Some(Err(format!("panic: {:?}", e))),
        Err(_) => None,
    }
}

/// Waits until the event loop had time to do everything there is to do.
pub async fn rest() {
    sleep(Duration::from_millis(150)).await
}

/// Counts the bytes in use.
struct Counting;
static LIVE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        LIVE.fetch_sub(l.size() as i64, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;
pub fn live() -> i64 {
    LIVE.load(std::sync::atomic::Ordering::Relaxed)
}

// ---------------------------------------------------------------- an application that has logging enabled

struct Log;
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let _ = format!("{}", r.args());
    }
    fn flush(&self) {}
}
pub fn logging() {
    let _ = log::set_logger(&Log);
    log::set_max_level(log::LevelFilter::Trace);
}
