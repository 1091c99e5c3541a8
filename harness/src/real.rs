//! Sessions under real executors, threads and time. Blocking broker side.
use std::io::{ErrorKind, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::time::{Duration, Instant};

use crate::sim::*;
use crate::violation;
use crate::wire::*;

/// Nothing happening for this long means nothing ever will.
pub fn stall() -> Duration {
    Duration::from_millis(stall_ms() * 4)
}

pub struct Broker {
    pub sock: TcpStream,
    raw: Vec<u8>,
    pos: usize,
    pub eof: bool,
}

pub fn listen() -> Res<(TcpListener, std::net::SocketAddr)> {
    let l = bind_listener()?;
    let a = harness("local_addr", l.local_addr())?;
    Ok((l, a))
}

impl Broker {
    pub fn accept(l: TcpListener) -> Res<Broker> {
        harness("nonblocking", l.set_nonblocking(true))?;
        let t = Instant::now();
        loop {
            match l.accept() {
                Ok((sock, _)) => {
                    harness("blocking", sock.set_nonblocking(false))?;
                    harness("nodelay", sock.set_nodelay(true))?;
                    harness("timeout", sock.set_read_timeout(Some(Duration::from_millis(20))))?;
                    return Ok(Broker { sock, raw: vec![], pos: 0, eof: false });
                }
                Err(e) if e.kind() == ErrorKind::WouldBlock => {
                    if t.elapsed() > stall() {
                        violation!("client never connected");
                    }
                    std::thread::sleep(Duration::from_millis(1));
                }
                Err(e) => return harness("accept", Err(e)),
            }
        }
    }

    pub fn send(&mut self, b: &[u8]) -> Res {
        let _ = self.sock.write_all(b);
        Ok(())
    }

    /// Packets that arrived; empty if none did for a while.
    pub fn read(&mut self) -> Res<Vec<CPkt>> {
        let mut buf = [0u8; 65536];
        match self.sock.read(&mut buf) {
            Ok(0) => self.eof = true,
            Ok(n) => self.raw.extend_from_slice(&buf[..n]),
            Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut | ErrorKind::Interrupted) => {}
            Err(_) => self.eof = true,
        }
        let mut out = vec![];
        loop {
            match frame_len(&self.raw[self.pos..]) {
                Ok(None) => break,
                Ok(Some(n)) => {
                    match decode_client(&self.raw[self.pos..self.pos + n]) {
                        Ok(p) => out.push(p),
                        Err(e) => violation!("client sent a malformed packet: {}", e),
                    }
                    self.pos += n;
                }
                Err(e) => violation!("client sent a malformed packet: {:?}", e),
            }
        }
        if self.pos > 1 << 16 {
            self.raw.drain(..self.pos);
            self.pos = 0;
        }
        Ok(out)
    }

    pub fn handshake(&mut self) -> Res {
        let t = Instant::now();
        loop {
            let v = self.read()?;
            if let Some(p) = v.first() {
                if !matches!(p, CPkt::Connect { .. }) || v.len() > 1 {
                    violation!("client opened with {:?}", v);
                }
                return self.send(&SPkt::Connack { sp: false, reason: 0, props: vec![] }.encode());
            }
            if self.eof || t.elapsed() > stall() {
                violation!("client never sent CONNECT");
            }
        }
    }
}
