//! The simulated network: DNS, TCP with seeded segmentation and delay, and an
//! HTTPS release server (real OpenSSL over memory buffers) with injected faults.
use crate::rng::Rng;
use crate::spec::*;
use crate::world::World;
use openssl::ssl::{HandshakeError, MidHandshakeSslStream, Ssl, SslAcceptor, SslFiletype, SslMethod, SslOptions, SslStream, SslVersion};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap, VecDeque};
use std::io::{self, Read, Write};
use std::sync::{Arc, Mutex};

pub const HOSTS: [&str; 2] = ["github.com", "objects.githubusercontent.com"];

#[derive(Default)]
pub struct PipeBuf {
    rx: VecDeque<u8>,
    tx: Vec<u8>,
}
#[derive(Clone)]
pub struct Pipe(Arc<Mutex<PipeBuf>>);
impl Read for Pipe {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let mut p = self.0.lock().unwrap();
        if p.rx.is_empty() {
            return Err(io::ErrorKind::WouldBlock.into());
        }
        let n = b.len().min(p.rx.len());
        for x in b[..n].iter_mut() {
            *x = p.rx.pop_front().unwrap();
        }
        Ok(n)
    }
}
impl Write for Pipe {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.lock().unwrap().tx.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

enum Tls {
    Start(Pipe),
    Mid(MidHandshakeSslStream<Pipe>),
    Up(SslStream<Pipe>),
    Dead,
}

pub struct Conn {
    pub host: usize,
    tls: Tls,
    pipe: Pipe,
    req: Vec<u8>,
    last: u64,
    conn_no: u64,
    cut: Option<u8>,
    closed: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum SockSt {
    New,
    Connecting,
    Up,
    Failed,
}
pub struct Sock {
    pub st: SockSt,
    pub err: i32,
    pub rx: VecDeque<u8>,
    pub fin: bool,
    pub rst: bool,
    pub conn: Option<usize>,
    pub closed: bool,
    pub host: usize,
}

#[derive(PartialEq, Eq, PartialOrd, Ord)]
pub enum Ev {
    Connected(usize, i32),
    ToServer(usize, Vec<u8>),
    ToClient(usize, Vec<u8>),
    Fin(usize),
    Rst(usize),
    Respond(usize, String),
}

pub struct Net {
    pub socks: Vec<Sock>,
    pub conns: Vec<Conn>,
    q: BinaryHeap<Reverse<(u64, u64, Ev)>>,
    seq: u64,
    pub rng: Rng,
    pub registry: Registry,
    pub dns_n: BTreeMap<String, u64>,
    pub conn_n: BTreeMap<String, u64>,
    pub req_n: BTreeMap<String, u64>,
    pub reqs: u64,
}

static mut ACC: Option<(SslAcceptor, SslAcceptor)> = None;

/// Before any fork.
pub fn init() {
    let mk = |name: &str| {
        let d = concat!(env!("CARGO_MANIFEST_DIR"), "/assets/");
        let mut b = SslAcceptor::mozilla_intermediate_v5(SslMethod::tls_server()).expect("acceptor");
        b.set_certificate_chain_file(format!("{}{}.pem", d, name)).expect("cert");
        b.set_private_key_file(format!("{}{}.key", d, name), SslFiletype::PEM).expect("key");
        b.set_min_proto_version(Some(SslVersion::TLS1_3)).unwrap();
        b.set_num_tickets(0).unwrap();
        b.set_options(SslOptions::NO_TICKET);
        b.build()
    };
    unsafe { ACC = Some((mk("good"), mk("bad"))) }
}

impl Net {
    pub fn new(seed: u64, registry: Registry) -> Net {
        Net {
            socks: vec![],
            conns: vec![],
            q: BinaryHeap::new(),
            seq: 0,
            rng: Rng::new(seed ^ 0x6e6574),
            registry,
            dns_n: BTreeMap::new(),
            conn_n: BTreeMap::new(),
            req_n: BTreeMap::new(),
            reqs: 0,
        }
    }
    pub fn next_time(&self) -> Option<u64> {
        self.q.peek().map(|Reverse((t, _, _))| *t)
    }
    fn at(&mut self, t: u64, ev: Ev) {
        self.seq += 1;
        let s = self.seq;
        self.q.push(Reverse((t, s, ev)));
    }
    pub fn ready(&self, s: usize) -> u32 {
        let k = &self.socks[s];
        let mut r = 0;
        match k.st {
            SockSt::New => r |= (libc::EPOLLOUT | libc::EPOLLHUP) as u32,
            SockSt::Connecting => {}
            SockSt::Failed => r |= (libc::EPOLLOUT | libc::EPOLLIN | libc::EPOLLERR | libc::EPOLLHUP) as u32,
            SockSt::Up => {
                r |= libc::EPOLLOUT as u32;
                if !k.rx.is_empty() || k.fin || k.rst {
                    r |= libc::EPOLLIN as u32;
                }
                if k.fin {
                    r |= libc::EPOLLRDHUP as u32;
                }
                if k.rst {
                    r |= (libc::EPOLLERR | libc::EPOLLHUP | libc::EPOLLRDHUP) as u32;
                }
            }
        }
        r
    }
    fn lat(&mut self) -> u64 {
        // 10us .. 20ms, occasionally long
        let base = if self.rng.chance(0.1) { 200_000_000 } else { 20_000_000 };
        10_000 + self.rng.below(base) as u64
    }
}

fn nth(map: &mut BTreeMap<String, u64>, key: &str) -> u64 {
    let e = map.entry(key.to_string()).or_insert(0);
    let v = *e;
    *e += 1;
    v
}

impl World {
    fn rule(&self, key: &str, n: u64, pick: fn(&NetAct) -> bool) -> Option<NetAct> {
        self.run.net.iter().find(|r| pick(&r.act) && key.contains(&r.url) && r.nth.map_or(true, |k| k == n)).map(|r| r.act.clone())
    }
    /// Ok(host index) or an EAI code; the caller sleeps for the returned delay.
    pub fn net_dns(&mut self, host: &str) -> (Result<usize, i32>, u64) {
        let n = nth(&mut self.net.dns_n, host);
        let d = self.net.lat();
        if self.rule(host, n, |a| matches!(a, NetAct::DnsFail)).is_some() {
            self.fired("dns-fail");
            return (Err(if n % 2 == 0 { libc::EAI_AGAIN } else { libc::EAI_NONAME }), d);
        }
        match HOSTS.iter().position(|h| *h == host) {
            Some(i) => (Ok(i), d),
            None => (Err(libc::EAI_NONAME), d),
        }
    }
    pub fn net_socket(&mut self) -> usize {
        self.net.socks.push(Sock { st: SockSt::New, err: 0, rx: VecDeque::new(), fin: false, rst: false, conn: None, closed: false, host: 0 });
        self.net.socks.len() - 1
    }
    pub fn net_connect(&mut self, s: usize, host: usize) {
        let name = HOSTS[host];
        let n = nth(&mut self.net.conn_n, name);
        let refuse = self.rule(name, n, |a| matches!(a, NetAct::Refuse)).is_some();
        self.net.socks[s].st = SockSt::Connecting;
        self.net.socks[s].host = host;
        let t = self.now + self.net.lat();
        if refuse {
            self.fired("connect-refused");
            self.net.at(t, Ev::Connected(s, libc::ECONNREFUSED));
            return;
        }
        if self.rule(name, n, |a| matches!(a, NetAct::Silent(0))).is_some() {
            self.fired("connect-unanswered");
            // the kernel gives up at last
            self.net.at(t + 130_000_000_000, Ev::Connected(s, libc::ETIMEDOUT));
            return;
        }
        let pipe = Pipe(Arc::new(Mutex::new(PipeBuf::default())));
        self.net.conns.push(Conn { host, tls: Tls::Start(pipe.clone()), pipe, req: vec![], last: t, conn_no: n, cut: None, closed: false });
        self.net.socks[s].conn = Some(self.net.conns.len() - 1);
        self.net.at(t, Ev::Connected(s, 0));
    }
    pub fn net_send(&mut self, s: usize, b: &[u8]) -> Result<usize, i32> {
        let k = &mut self.net.socks[s];
        if k.st != SockSt::Up || k.rst {
            return Err(if k.st == SockSt::Connecting { libc::EAGAIN } else { libc::EPIPE });
        }
        let t = self.now + self.net.lat();
        // keep the order of one connection's bytes
        self.net.at(t.max(self.net_order(s)), Ev::ToServer(s, b.to_vec()));
        Ok(b.len())
    }
    fn net_order(&self, s: usize) -> u64 {
        self.net.q.iter().filter(|Reverse((_, _, e))| matches!(e, Ev::ToServer(x, _) if *x == s)).map(|Reverse((t, _, _))| *t).max().unwrap_or(0)
    }
    pub fn net_recv(&mut self, s: usize, b: &mut [u8]) -> Result<usize, i32> {
        let k = &mut self.net.socks[s];
        if k.rst {
            k.rx.clear();
            return Err(libc::ECONNRESET);
        }
        if k.rx.is_empty() {
            return if k.fin { Ok(0) } else { Err(libc::EAGAIN) };
        }
        let n = b.len().min(k.rx.len());
        for x in b[..n].iter_mut() {
            *x = k.rx.pop_front().unwrap();
        }
        Ok(n)
    }
    pub fn net_close(&mut self, s: usize) {
        self.net.socks[s].closed = true;
    }
    pub fn net_event(&mut self) {
        let Reverse((_, _, ev)) = match self.net.q.pop() {
            Some(x) => x,
            None => return,
        };
        match ev {
            Ev::Connected(s, e) => {
                let k = &mut self.net.socks[s];
                if e != 0 {
                    k.st = SockSt::Failed;
                    k.err = e;
                } else {
                    k.st = SockSt::Up;
                }
                self.notify_sock(s);
            }
            Ev::ToClient(s, b) => {
                self.net.socks[s].rx.extend(b);
                self.notify_sock(s);
            }
            Ev::Fin(s) => {
                self.net.socks[s].fin = true;
                self.notify_sock(s);
            }
            Ev::Rst(s) => {
                self.net.socks[s].rst = true;
                self.notify_sock(s);
            }
            Ev::ToServer(s, b) => {
                if let Some(c) = self.net.socks[s].conn {
                    if !self.net.socks[s].closed && !self.net.conns[c].closed {
                        self.server_input(s, c, &b);
                    }
                }
            }
            Ev::Respond(s, path) => {
                if let Some(c) = self.net.socks[s].conn {
                    if !self.net.socks[s].closed && !self.net.conns[c].closed {
                        self.respond(s, c, &path, true);
                    }
                }
            }
        }
    }
    fn server_input(&mut self, s: usize, c: usize, b: &[u8]) {
        let host = HOSTS[self.net.conns[c].host];
        let n = self.net.conns[c].conn_no;
        if matches!(self.net.conns[c].tls, Tls::Start(_)) {
            if self.rule(host, n, |a| matches!(a, NetAct::ResetHandshake)).is_some() {
                self.fired("reset-in-handshake");
                self.net.conns[c].closed = true;
                let t = self.now + self.net.lat();
                self.net.at(t, Ev::Rst(s));
                return;
            }
            if self.rule(host, n, |a| matches!(a, NetAct::Silent(1))).is_some() {
                self.fired("handshake-unanswered");
                self.net.conns[c].closed = true;
                return;
            }
            if self.rule(host, n, |a| matches!(a, NetAct::BadTls)).is_some() {
                self.fired("garbage-handshake");
                self.net.conns[c].closed = true;
                let t = self.now + self.net.lat();
                self.net.at(t, Ev::ToClient(s, b"HTTP/1.1 400 Bad Request\r\n\r\n".to_vec()));
                self.net.at(t + 1000, Ev::Fin(s));
                return;
            }
        }
        let bad = matches!(self.net.conns[c].tls, Tls::Start(_)) && self.rule(host, n, |a| matches!(a, NetAct::BadCert)).is_some();
        if bad {
            self.fired("untrusted-certificate");
        }
        let conn = &mut self.net.conns[c];
        conn.pipe.0.lock().unwrap().rx.extend(b.iter().copied());
        let tls = std::mem::replace(&mut conn.tls, Tls::Dead);
        #[allow(static_mut_refs)]
        let acc = unsafe { ACC.as_ref().unwrap() };
        conn.tls = match tls {
            Tls::Start(p) => {
                let ssl = Ssl::new(if bad { acc.1.context() } else { acc.0.context() }).unwrap();
                match ssl.accept(p) {
                    Ok(st) => Tls::Up(st),
                    Err(HandshakeError::WouldBlock(m)) => Tls::Mid(m),
                    Err(_) => Tls::Dead,
                }
            }
            Tls::Mid(m) => match m.handshake() {
                Ok(st) => Tls::Up(st),
                Err(HandshakeError::WouldBlock(m)) => Tls::Mid(m),
                Err(_) => Tls::Dead,
            },
            x => x,
        };
        let mut got = vec![];
        if let Tls::Up(st) = &mut conn.tls {
            let mut buf = [0u8; 4096];
            while let Ok(n) = st.ssl_read(&mut buf) {
                if n == 0 {
                    break;
                }
                got.extend_from_slice(&buf[..n]);
            }
        }
        conn.req.extend(got);
        let dead = matches!(conn.tls, Tls::Dead);
        self.flush(s, c);
        if dead {
            self.net.conns[c].closed = true;
            let t = self.net.conns[c].last.max(self.now) + 1000;
            self.net.at(t, Ev::Fin(s));
            return;
        }
        loop {
            let conn = &mut self.net.conns[c];
            let p = match conn.req.windows(4).position(|w| w == b"\r\n\r\n") {
                Some(p) => p,
                None => return,
            };
            let head = String::from_utf8_lossy(&conn.req[..p]).to_string();
            conn.req.drain(..p + 4);
            let path = head.split(' ').nth(1).unwrap_or("/").to_string();
            self.respond(s, c, &path, false);
        }
    }
    /// Ship what the TLS layer produced, in seeded segments.
    fn flush(&mut self, s: usize, c: usize) {
        let out = std::mem::take(&mut self.net.conns[c].pipe.0.lock().unwrap().tx);
        let mut i = 0;
        while i < out.len() {
            let n = match self.net.rng.below(3) {
                0 => out.len() - i,
                1 => self.net.rng.range(1, 1460.min(out.len() - i)),
                _ => 1460.min(out.len() - i),
            };
            let l = self.net.lat();
            let t = (self.now + l).max(self.net.conns[c].last + 1);
            self.net.conns[c].last = t;
            self.net.at(t, Ev::ToClient(s, out[i..i + n].to_vec()));
            i += n;
        }
    }
    fn respond(&mut self, s: usize, c: usize, path: &str, delayed: bool) {
        let host = self.net.conns[c].host;
        let url = format!("{}{}", HOSTS[host], path);
        if !delayed {
            let n = nth(&mut self.net.req_n, &url);
            self.net.req_n.insert(format!("cur {}", url), n);
        }
        let n = self.net.req_n.get(&format!("cur {}", url)).copied().unwrap_or(0);
        if self.rule(&url, n, |a| matches!(a, NetAct::Silent(2))).is_some() {
            self.fired("request-unanswered");
            return;
        }
        if !delayed {
            if let Some(NetAct::Delay(us)) = self.rule(&url, n, |a| matches!(a, NetAct::Delay(_))) {
                self.fired("slow-response");
                let t = self.now + us * 1000;
                self.net.at(t, Ev::Respond(s, path.to_string()));
                return;
            }
        }
        // a redirect target keeps the original path under the object host
        let key = path.trim_start_matches("/redirected").to_string();
        let mut status = 404u16;
        let mut body: Vec<u8> = b"Not Found".to_vec();
        let mut extra = String::new();
        if let Some(b) = self.net.registry.get(&format!("{}{}", HOSTS[0], key)) {
            status = 200;
            body = b.clone();
        }
        if let Some(NetAct::Status(x)) = self.rule(&url, n, |a| matches!(a, NetAct::Status(_))) {
            self.fired("http-error-status");
            status = x;
            // an error page that would be usable if stored
            if status == 204 || status == 304 {
                body.clear();
            }
        }
        if let Some(NetAct::Redirect(k)) = self.rule(&url, n, |a| matches!(a, NetAct::Redirect(_))) {
            if host == 0 && status == 200 {
                self.fired("redirect");
                status = [302, 301, 307, 308][k as usize % 4];
                body.clear();
                extra = format!("Location: https://{}/redirected{}\r\n", HOSTS[1], key);
            }
        }
        let full = body.len() as u64;
        let mut upto = full;
        let mut end = None;
        if status == 200 {
            if let Some(a) = self.rule(&url, n, |a| matches!(a, NetAct::Cut(..) | NetAct::Stall(_))) {
                match a {
                    NetAct::Cut(k, how) => {
                        self.fired(["body-cut-close", "body-cut-fin", "body-cut-reset"][how as usize % 3]);
                        upto = if full == 0 { 0 } else { k % full };
                        end = Some(how % 3);
                    }
                    NetAct::Stall(k) => {
                        self.fired("stall");
                        upto = if full == 0 { 0 } else { k % full };
                        end = Some(9);
                    }
                    _ => {}
                }
            }
        }
        let chunked = self.rule(&url, n, |a| matches!(a, NetAct::Chunked)).is_some() && status == 200;
        if chunked {
            self.fired("chunked-body");
        }
        let mut msg = format!("HTTP/1.1 {} X\r\n{}", status, extra).into_bytes();
        let no_body = status == 204 || status == 304 || (100..200).contains(&status);
        if chunked {
            msg.extend(b"Transfer-Encoding: chunked\r\n\r\n");
            let mut i = 0usize;
            while i < upto as usize {
                let n = self.net.rng.range(1, (upto as usize - i).min(700));
                msg.extend(format!("{:x}\r\n", n).bytes());
                msg.extend(&body[i..i + n]);
                msg.extend(b"\r\n");
                i += n;
            }
            if end.is_none() {
                msg.extend(b"0\r\n\r\n");
            }
        } else {
            if !no_body {
                msg.extend(format!("Content-Length: {}\r\n", full).bytes());
            }
            msg.extend(b"\r\n");
            msg.extend(&body[..upto as usize]);
        }
        self.net.reqs += 1;
        let rn = self.net.reqs;
        self.log(&Rec::Req { n: rn, url: url.clone(), status, complete: end.is_none() });
        let mut pauses = vec![];
        let mut pause = 0;
        if let Some(NetAct::Slow(k, us)) = self.rule(&url, n, |a| matches!(a, NetAct::Slow(..))) {
            if status == 200 && upto > k {
                self.fired("slow-body");
                let head = msg.len() - upto as usize;
                pauses = (0..k as usize).rev().map(|j| head + upto as usize * j / k as usize).collect();
                pause = us * 1000;
            }
        }
        // several TLS records
        let mut i = 0;
        while i < msg.len() {
            let mut end = msg.len();
            if pauses.last().map_or(false, |p| *p <= i) {
                pauses.pop();
                self.flush(s, c);
                self.net.conns[c].last = self.net.conns[c].last.max(self.now) + pause;
            }
            if let Some(p) = pauses.last() {
                end = *p;
            }
            let n = if self.net.rng.chance(0.5) { end - i } else { self.net.rng.range(1, end - i) };
            // one record holds 16384 bytes
            let mut done = n;
            if let Tls::Up(st) = &mut self.net.conns[c].tls {
                done = st.ssl_write(&msg[i..i + n]).unwrap_or(n);
            }
            i += done.max(1);
        }
        match end {
            Some(0) => {
                if let Tls::Up(st) = &mut self.net.conns[c].tls {
                    let _ = st.shutdown();
                }
            }
            _ => {}
        }
        self.flush(s, c);
        let t = self.net.conns[c].last + 1000;
        match end {
            Some(0) | Some(1) => {
                self.net.conns[c].closed = true;
                self.net.at(t, Ev::Fin(s));
            }
            Some(2) => {
                self.net.conns[c].closed = true;
                self.net.at(t, Ev::Rst(s));
            }
            Some(9) => self.net.conns[c].closed = true,
            _ => {}
        }
        let _ = self.net.conns[c].cut;
    }
}
