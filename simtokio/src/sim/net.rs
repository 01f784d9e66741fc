//! In-memory simulated TCP. Every endpoint belongs to a simulated node.
//! In-order, loss-free byte streams (as TCP gives), with seeded delays, short
//! reads and writes, back-pressure, partitions (data is held, as by
//! retransmission), resets (in-flight data lost), half-open connections and
//! failing connects / accepts.
use super::{current_node, mix, now_nanos, NodeNo};
use crate::io::{AsyncRead, AsyncWrite, ReadBuf};
use crate::net::ToSocketAddrs;
use crate::time::{Duration, Instant, Sleep};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::future::Future;
use std::io;
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

#[derive(Clone, Debug)]
pub struct NetConfig {
    pub seed: u64,
    pub min_delay_ms: u64,
    pub max_delay_ms: u64,
    /// 1/1000 chance that a segment is delayed by up to `spike_ms`
    pub spike_permille: u64,
    pub spike_ms: u64,
    /// 1/1000 chance of a short read / short write
    pub short_permille: u64,
    pub send_buffer: usize,
    pub connect_timeout_ms: u64,
    /// 1/1000 chance that connect fails / accept fails
    pub connect_fail_permille: u64,
    pub accept_fail_permille: u64,
    /// how long a sender needs to notice that the other end is gone
    pub dead_peer_ms: u64,
    /// 1/1000 chance that a new connection breaks after its client has
    /// written some number of bytes up to `break_bytes`
    pub break_permille: u64,
    pub break_bytes: u64,
}

impl Default for NetConfig {
    fn default() -> Self {
        NetConfig {
            seed: 0,
            min_delay_ms: 0,
            max_delay_ms: 5,
            spike_permille: 0,
            spike_ms: 0,
            short_permille: 0,
            send_buffer: 256 * 1024,
            connect_timeout_ms: 3000,
            connect_fail_permille: 0,
            accept_fail_permille: 0,
            dead_peer_ms: 4000,
            break_permille: 0,
            break_bytes: 0,
        }
    }
}

#[derive(Default, Clone, Debug)]
pub struct NetStats {
    pub connects: u64,
    pub connect_refused: u64,
    pub connect_timeouts: u64,
    pub connect_injected: u64,
    pub accepts: u64,
    pub accept_injected: u64,
    pub segments: u64,
    pub bytes: u64,
    pub delay_spikes: u64,
    pub short_reads: u64,
    pub short_writes: u64,
    pub resets_seen: u64,
    pub bytes_lost: u64,
    pub partition_blocks: u64,
    pub backpressure: u64,
    pub half_open: u64,
    pub broken_midway: u64,
}

struct Seg {
    at: u64,
    data: Vec<u8>,
    off: usize,
    fin: bool,
}

#[derive(Default)]
struct End {
    node: NodeNo,
    addr: Option<SocketAddr>,
    /// endpoint object dropped (or its process is gone)
    gone: bool,
    /// the endpoint observes a reset from this instant
    rst_at: Option<u64>,
    /// this end believes in a connection the other end no longer knows
    half_open: bool,
    rd: Option<Waker>,
    wr: Option<Waker>,
    // outgoing direction
    q: VecDeque<Seg>,
    bytes: usize,
    last_at: u64,
    seq: u64,
    fin_sent: bool,
}

struct Conn {
    ends: [End; 2],
    /// bytes the client may still write before the connection breaks
    budget: Option<u64>,
}

struct Lst {
    node: NodeNo,
    backlog: VecDeque<usize>,
    waker: Option<Waker>,
    accepts: u64,
}

#[derive(Default)]
struct Net {
    cfg: NetConfig,
    conns: Vec<Conn>,
    listeners: BTreeMap<SocketAddr, Lst>,
    /// directed node pairs between which nothing is delivered
    cut: BTreeSet<(NodeNo, NodeNo)>,
    /// nodes whose machine is off: connects time out instead of being refused
    silent: BTreeSet<SocketAddr>,
    ports: u16,
    connect_no: u64,
    stats: NetStats,
    rw_no: u64,
}

thread_local! {
    static NET: RefCell<Net> = RefCell::new(Net::default());
}

pub(crate) fn init(cfg: NetConfig) {
    NET.with(|n| {
        *n.borrow_mut() = Net {
            cfg,
            ports: 40000,
            ..Net::default()
        }
    });
}

fn with<R>(f: impl FnOnce(&mut Net) -> R) -> R {
    NET.with(|n| f(&mut n.borrow_mut()))
}

pub fn stats() -> NetStats {
    with(|n| n.stats.clone())
}

pub fn set_config(f: impl FnOnce(&mut NetConfig)) {
    with(|n| f(&mut n.cfg))
}

fn wake_all(ws: Vec<Waker>) {
    for w in ws {
        w.wake();
    }
}

/// cut the link a -> b (one direction)
pub fn cut(a: NodeNo, b: NodeNo) {
    with(|n| {
        n.cut.insert((a, b));
    })
}

pub fn heal(a: NodeNo, b: NodeNo) {
    let ws = with(|n| {
        n.cut.remove(&(a, b));
        n.all_wakers()
    });
    wake_all(ws)
}

pub fn heal_all() {
    let ws = with(|n| {
        n.cut.clear();
        n.all_wakers()
    });
    wake_all(ws)
}

pub fn is_cut(a: NodeNo, b: NodeNo) -> bool {
    with(|n| n.cut.contains(&(a, b)))
}

/// reset every live connection between a and b. `mode` 0: both ends see it now,
/// 1: only a's end sees it now (b's end is half open), 2: only b's end
pub fn reset(a: NodeNo, b: NodeNo, mode: u8) -> usize {
    let (ws, c) = with(|n| {
        let now = now_nanos();
        let mut ws = vec![];
        let mut count = 0;
        let mut lost = 0;
        let mut half = 0;
        for c in n.conns.iter_mut() {
            let (x, y) = (c.ends[0].node, c.ends[1].node);
            if !((x == a && y == b) || (x == b && y == a)) || c.dead() {
                continue;
            }
            count += 1;
            for i in 0..2 {
                lost += c.ends[i].bytes as u64;
                c.ends[i].q.clear();
                c.ends[i].bytes = 0;
                let sees = mode == 0
                    || (mode == 1 && c.ends[i].node == a)
                    || (mode == 2 && c.ends[i].node == b);
                if sees {
                    c.ends[i].rst_at = Some(now);
                } else {
                    c.ends[i].half_open = true;
                    half += 1;
                }
                ws.extend(c.ends[i].rd.take());
                ws.extend(c.ends[i].wr.take());
            }
        }
        n.stats.bytes_lost += lost;
        n.stats.half_open += half;
        (ws, count)
    });
    wake_all(ws);
    c
}

/// the process `node` is gone. `silent`: machine off (peers learn by timeout),
/// otherwise its kernel resets every connection.
pub fn crash(node: NodeNo, silent: bool) {
    let ws = with(|n| {
        let now = now_nanos();
        let mut ws = vec![];
        let mut lost = 0;
        for c in n.conns.iter_mut() {
            for i in 0..2 {
                if c.ends[i].node != node || c.ends[i].gone {
                    continue;
                }
                c.ends[i].gone = true;
                lost += c.ends[i].bytes as u64 + c.ends[1 - i].bytes as u64;
                if c.ends[i].fin_sent && c.ends[i].q.is_empty() && c.ends[1 - i].gone {
                    continue;
                }
                c.ends[1 - i].q.clear();
                c.ends[1 - i].bytes = 0;
                if silent {
                    // whatever was already in flight from it may still arrive
                    c.ends[1 - i].half_open = true;
                } else {
                    c.ends[i].q.clear();
                    c.ends[i].bytes = 0;
                    c.ends[1 - i].rst_at = Some(now);
                }
                ws.extend(c.ends[1 - i].rd.take());
                ws.extend(c.ends[1 - i].wr.take());
            }
        }
        n.stats.bytes_lost += lost;
        let addrs: Vec<SocketAddr> = n
            .listeners
            .iter()
            .filter(|(_, l)| l.node == node)
            .map(|(a, _)| *a)
            .collect();
        for a in addrs {
            n.listeners.remove(&a);
            if silent {
                n.silent.insert(a);
            }
        }
        ws
    });
    wake_all(ws)
}

/// machine is back (its address answers again, with a refusal until someone binds)
pub fn power_on(addr: SocketAddr) {
    with(|n| {
        n.silent.remove(&addr);
    })
}

pub fn listening(addr: SocketAddr) -> bool {
    with(|n| n.listeners.contains_key(&addr))
}

/// live connections between two nodes
pub fn connections(a: NodeNo, b: NodeNo) -> usize {
    with(|n| {
        n.conns
            .iter()
            .filter(|c| {
                let (x, y) = (c.ends[0].node, c.ends[1].node);
                !c.dead() && ((x == a && y == b) || (x == b && y == a))
            })
            .count()
    })
}

impl Conn {
    fn dead(&self) -> bool {
        self.ends
            .iter()
            .all(|e| e.gone || e.rst_at.is_some() || e.half_open)
    }
}

impl Net {
    fn all_wakers(&mut self) -> Vec<Waker> {
        let mut ws = vec![];
        for c in self.conns.iter_mut() {
            for e in c.ends.iter_mut() {
                ws.extend(e.rd.take());
                ws.extend(e.wr.take());
            }
        }
        ws
    }

    fn delay(&mut self, conn: u64, dir: u64, seq: u64) -> u64 {
        let c = &self.cfg;
        let r = mix(c.seed ^ (conn << 20), dir, seq);
        let span = c.max_delay_ms.saturating_sub(c.min_delay_ms) + 1;
        let mut d = c.min_delay_ms + r % span;
        if c.spike_permille > 0 && (r >> 32) % 1000 < c.spike_permille {
            d += (r >> 42) % (c.spike_ms + 1);
            self.stats.delay_spikes += 1;
        }
        d * 1_000_000
    }
}

fn rst_err() -> io::Error {
    io::Error::new(io::ErrorKind::ConnectionReset, "connection reset by peer (sim)")
}

pub struct TcpStream {
    conn: usize,
    me: usize,
    sleep: Option<Pin<Box<Sleep>>>,
    rd_no: u64,
    wr_no: u64,
}

impl std::fmt::Debug for TcpStream {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "SimTcpStream({}:{})", self.conn, self.me)
    }
}

thread_local! {
    static PARKED: RefCell<BTreeMap<i32, TcpStream>> = RefCell::new(BTreeMap::new());
}

impl TcpStream {
    pub async fn connect<A: ToSocketAddrs>(addr: A) -> io::Result<TcpStream> {
        let mut last = io::Error::new(io::ErrorKind::InvalidInput, "no address");
        for a in crate::net::lookup_host(addr).await? {
            match connect_to(a).await {
                Ok(s) => return Ok(s),
                Err(e) => last = e,
            }
        }
        Err(last)
    }

    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        with(|n| Ok(n.conns[self.conn].ends[self.me].addr.unwrap()))
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        with(|n| Ok(n.conns[self.conn].ends[1 - self.me].addr.unwrap()))
    }
    pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn nodelay(&self) -> io::Result<bool> {
        Ok(true)
    }
    pub fn set_linger(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    /// libraries that only set socket options go through std: hand out a
    /// placeholder descriptor and find the simulated stream again by its number
    pub fn into_std(self) -> io::Result<std::net::TcpStream> {
        use std::os::fd::FromRawFd;
        let fd = unsafe { libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0) };
        if fd < 0 {
            return Err(io::Error::last_os_error());
        }
        PARKED.with(|p| p.borrow_mut().insert(fd, self));
        Ok(unsafe { std::net::TcpStream::from_raw_fd(fd) })
    }
    pub fn from_std(s: std::net::TcpStream) -> io::Result<TcpStream> {
        use std::os::fd::AsRawFd;
        PARKED
            .with(|p| p.borrow_mut().remove(&s.as_raw_fd()))
            .ok_or_else(|| io::Error::new(io::ErrorKind::Unsupported, "sim"))
    }
}

async fn connect_to(addr: SocketAddr) -> io::Result<TcpStream> {
    let me = current_node();
    let (no, delay, fail, timeout) = with(|n| {
        n.connect_no += 1;
        n.stats.connects += 1;
        let no = n.connect_no;
        let r = mix(n.cfg.seed ^ 0xc0, no, me as u64);
        let fail = n.cfg.connect_fail_permille > 0 && r % 1000 < n.cfg.connect_fail_permille;
        (no, n.delay(no, 7, 0), fail, n.cfg.connect_timeout_ms)
    });
    let _ = no;
    if delay > 0 {
        crate::time::sleep(Duration::from_nanos(delay)).await;
    }
    if fail {
        with(|n| n.stats.connect_injected += 1);
        return Err(io::Error::new(io::ErrorKind::ConnectionRefused, "connect failed (injected)"));
    }
    let deadline = now_nanos() + timeout * 1_000_000;
    loop {
        enum R {
            Wait,
            Refused,
            Ok(usize, Option<Waker>),
        }
        let r = with(|n| {
            if n.silent.contains(&addr) {
                return R::Wait;
            }
            let target = match n.listeners.get(&addr) {
                Some(l) => l.node,
                None => return R::Refused,
            };
            if n.cut.contains(&(me, target)) || n.cut.contains(&(target, me)) {
                return R::Wait;
            }
            n.ports = n.ports.wrapping_add(1).max(1024);
            let id = n.conns.len();
            let local = SocketAddr::new(
                IpAddr::V4(Ipv4Addr::new(10, 99, (me >> 8) as u8, me as u8)),
                n.ports,
            );
            let mut c = Conn {
                ends: [End::default(), End::default()],
                budget: None,
            };
            if n.cfg.break_permille > 0 {
                let r = mix(n.cfg.seed ^ 0xb4, no, me as u64);
                if r % 1000 < n.cfg.break_permille {
                    c.budget = Some(1 + (r >> 20) % n.cfg.break_bytes.max(1));
                }
            }
            c.ends[0].node = me;
            c.ends[0].addr = Some(local);
            c.ends[1].node = target;
            c.ends[1].addr = Some(addr);
            n.conns.push(c);
            let l = n.listeners.get_mut(&addr).unwrap();
            l.backlog.push_back(id);
            R::Ok(id, l.waker.take())
        });
        match r {
            R::Ok(conn, w) => {
                if let Some(w) = w {
                    w.wake()
                }
                return Ok(TcpStream {
                    conn,
                    me: 0,
                    sleep: None,
                    rd_no: 0,
                    wr_no: 0,
                });
            }
            R::Refused => {
                with(|n| n.stats.connect_refused += 1);
                return Err(io::Error::new(io::ErrorKind::ConnectionRefused, "connection refused (sim)"));
            }
            R::Wait => {
                if now_nanos() >= deadline {
                    with(|n| n.stats.connect_timeouts += 1);
                    return Err(io::Error::new(io::ErrorKind::TimedOut, "connect timed out (sim)"));
                }
                crate::time::sleep(Duration::from_millis(250)).await;
            }
        }
    }
}

impl TcpStream {
    fn arm(&mut self, cx: &mut Context<'_>, at: u64) {
        let now = now_nanos();
        let dl = Instant::now() + Duration::from_nanos(at.saturating_sub(now));
        match self.sleep.as_mut() {
            Some(s) => s.as_mut().reset(dl),
            None => self.sleep = Some(Box::pin(crate::time::sleep_until(dl))),
        }
        if self.sleep.as_mut().unwrap().as_mut().poll(cx).is_ready() {
            cx.waker().wake_by_ref();
        }
    }
}

enum RdRes {
    Done(usize),
    Err,
    Pend(Option<u64>),
}

impl AsyncRead for TcpStream {
    fn poll_read(
        mut self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut ReadBuf<'_>,
    ) -> Poll<io::Result<()>> {
        let me = self.me;
        self.rd_no += 1;
        let (conn, rd_no) = (self.conn, self.rd_no);
        let mut wake_writer = None;
        let res = with(|n| {
            let now = now_nanos();
            let (my_node, peer_node) = {
                let c = &n.conns[conn];
                (c.ends[me].node, c.ends[1 - me].node)
            };
            let blocked = n.cut.contains(&(peer_node, my_node));
            let short = n.cfg.short_permille > 0
                && mix(n.cfg.seed ^ 0x51 ^ ((conn as u64) << 24), me as u64, rd_no) % 1000
                    < n.cfg.short_permille;
            let c = &mut n.conns[conn];
            let rst = c.ends[me].rst_at;
            if let Some(t) = rst {
                if t <= now {
                    n.stats.resets_seen += 1;
                    wake_writer = c.ends[me].wr.take();
                    return RdRes::Err;
                }
            }
            if blocked {
                n.stats.partition_blocks += 1;
                c.ends[me].rd = Some(cx.waker().clone());
                return RdRes::Pend(rst);
            }
            let mut total = 0;
            loop {
                let head = match c.ends[1 - me].q.front_mut() {
                    None => break,
                    Some(h) => h,
                };
                if head.at > now {
                    break;
                }
                if head.fin {
                    if total == 0 {
                        return RdRes::Done(0);
                    }
                    break;
                }
                let mut k = (head.data.len() - head.off).min(buf.remaining());
                if short && k > 1 {
                    k = 1 + (mix(conn as u64, rd_no, 9) as usize) % k;
                }
                buf.put_slice(&head.data[head.off..head.off + k]);
                head.off += k;
                total += k;
                let done = head.off == head.data.len();
                c.ends[1 - me].bytes -= k;
                if done {
                    c.ends[1 - me].q.pop_front();
                }
                if short || buf.remaining() == 0 {
                    if short {
                        n.stats.short_reads += 1;
                    }
                    break;
                }
            }
            if total > 0 {
                wake_writer = c.ends[1 - me].wr.take();
                return RdRes::Done(total);
            }
            c.ends[me].rd = Some(cx.waker().clone());
            let next = c.ends[1 - me].q.front().map(|h| h.at);
            RdRes::Pend(match (next, rst) {
                (Some(a), Some(b)) => Some(a.min(b)),
                (a, b) => a.or(b),
            })
        });
        if let Some(w) = wake_writer {
            w.wake();
        }
        match res {
            RdRes::Done(_) => Poll::Ready(Ok(())),
            RdRes::Err => Poll::Ready(Err(rst_err())),
            RdRes::Pend(Some(at)) => {
                self.arm(cx, at);
                Poll::Pending
            }
            RdRes::Pend(None) => Poll::Pending,
        }
    }
}

impl AsyncWrite for TcpStream {
    fn poll_write(
        mut self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        data: &[u8],
    ) -> Poll<io::Result<usize>> {
        if data.is_empty() {
            return Poll::Ready(Ok(0));
        }
        self.wr_no += 1;
        let (conn, me, wr_no) = (self.conn, self.me, self.wr_no);
        let mut wake_rd = None;
        let mut wake_self_rd = None;
        let r = with(|n| {
            let now = now_nanos();
            let short = n.cfg.short_permille > 0
                && mix(n.cfg.seed ^ 0x52 ^ ((conn as u64) << 24), me as u64, wr_no) % 1000
                    < n.cfg.short_permille;
            let seq = n.conns[conn].ends[me].seq;
            let d = n.delay(conn as u64, me as u64, seq);
            let cap = n.cfg.send_buffer;
            let dead_ms = n.cfg.dead_peer_ms;
            let c = &mut n.conns[conn];
            if c.ends[me].rst_at.map_or(false, |t| t <= now) {
                n.stats.resets_seen += 1;
                return Poll::Ready(Err(rst_err()));
            }
            if c.ends[me].fin_sent {
                return Poll::Ready(Err(io::Error::new(io::ErrorKind::BrokenPipe, "sim")));
            }
            if c.ends[me].half_open || c.ends[1 - me].gone {
                // accepted by the local kernel, never delivered; the sender
                // learns about it a little later
                if c.ends[me].rst_at.is_none() {
                    let after = if c.ends[me].half_open { dead_ms * 1_000_000 } else { d + 1_000_000 };
                    c.ends[me].rst_at = Some(now + after);
                    wake_self_rd = c.ends[me].rd.take();
                }
                n.stats.bytes_lost += data.len() as u64;
                return Poll::Ready(Ok(data.len()));
            }
            if c.ends[me].bytes >= cap {
                n.stats.backpressure += 1;
                c.ends[me].wr = Some(cx.waker().clone());
                return Poll::Pending;
            }
            let mut k = data.len().min(cap - c.ends[me].bytes);
            if short && k > 1 {
                k = 1 + (mix(conn as u64, wr_no, 11) as usize) % k;
                n.stats.short_writes += 1;
            }
            if me == 0 && n.cfg.break_permille > 0 {
                if let Some(left) = c.budget {
                    if left == 0 {
                        // what is on its way arrives or is lost, then both ends see a reset
                        let lose = mix(n.cfg.seed ^ 0xb5, conn as u64, wr_no) % 2 == 0;
                        for i in 0..2 {
                            let end = if lose { now } else { now.max(c.ends[1 - i].last_at) + 1_000_000 };
                            if lose {
                                n.stats.bytes_lost += c.ends[i].bytes as u64;
                                c.ends[i].q.clear();
                                c.ends[i].bytes = 0;
                            }
                            c.ends[i].rst_at = Some(if i == 0 { now } else { end });
                        }
                        n.stats.broken_midway += 1;
                        wake_rd = c.ends[1].rd.take();
                        wake_self_rd = c.ends[0].rd.take();
                        return Poll::Ready(Err(rst_err()));
                    }
                    k = k.min(left as usize);
                    c.budget = Some(left - k as u64);
                }
            }
            let at = (now + d).max(c.ends[me].last_at);
            c.ends[me].last_at = at;
            c.ends[me].seq += 1;
            c.ends[me].bytes += k;
            c.ends[me].q.push_back(Seg {
                at,
                data: data[..k].to_vec(),
                off: 0,
                fin: false,
            });
            wake_rd = c.ends[1 - me].rd.take();
            n.stats.segments += 1;
            n.stats.bytes += k as u64;
            Poll::Ready(Ok(k))
        });
        if let Some(w) = wake_rd {
            w.wake();
        }
        if let Some(w) = wake_self_rd {
            w.wake();
        }
        r
    }

    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }

    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        fin(self.conn, self.me);
        Poll::Ready(Ok(()))
    }
}

fn fin(conn: usize, me: usize) {
    let w = with(|n| {
        let now = now_nanos();
        let seq = n.conns[conn].ends[me].seq;
        let d = n.delay(conn as u64, me as u64, seq);
        let c = &mut n.conns[conn];
        if c.ends[me].fin_sent || c.ends[me].half_open || c.ends[me].rst_at.map_or(false, |t| t <= now) {
            return None;
        }
        c.ends[me].fin_sent = true;
        let at = (now + d).max(c.ends[me].last_at);
        c.ends[me].q.push_back(Seg {
            at,
            data: vec![],
            off: 0,
            fin: true,
        });
        c.ends[1 - me].rd.take()
    });
    if let Some(w) = w {
        w.wake();
    }
}

impl Drop for TcpStream {
    fn drop(&mut self) {
        let (conn, me) = (self.conn, self.me);
        if NET.try_with(|n| n.try_borrow_mut().is_ok()) != Ok(true) {
            return;
        }
        if !with(|n| conn < n.conns.len()) {
            return;
        }
        fin(conn, me);
        let w = with(|n| {
            let c = &mut n.conns[conn];
            c.ends[me].gone = true;
            c.ends[1 - me].q.clear();
            c.ends[1 - me].bytes = 0;
            c.ends[1 - me].wr.take()
        });
        if let Some(w) = w {
            w.wake();
        }
    }
}

pub struct TcpListener {
    addr: SocketAddr,
    node: NodeNo,
    sleep: RefCell<Option<Pin<Box<Sleep>>>>,
}

// single threaded simulation: the RefCell is never shared across threads
unsafe impl Sync for TcpListener {}

impl std::fmt::Debug for TcpListener {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "SimTcpListener({})", self.addr)
    }
}

impl TcpListener {
    pub async fn bind<A: ToSocketAddrs>(addr: A) -> io::Result<TcpListener> {
        let addr = crate::net::lookup_host(addr)
            .await?
            .next()
            .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "no address"))?;
        with(|n| {
            if n.listeners.contains_key(&addr) {
                return Err(io::Error::new(io::ErrorKind::AddrInUse, "address in use (sim)"));
            }
            n.silent.remove(&addr);
            n.listeners.insert(
                addr,
                Lst {
                    node: current_node(),
                    backlog: VecDeque::new(),
                    waker: None,
                    accepts: 0,
                },
            );
            Ok(TcpListener {
                addr,
                node: current_node(),
                sleep: RefCell::new(None),
            })
        })
    }

    pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
        let _ = &self.sleep;
        with(|n| {
            let seed = n.cfg.seed;
            let p = n.cfg.accept_fail_permille;
            let l = match n.listeners.get_mut(&self.addr) {
                Some(l) => l,
                None => return Poll::Pending,
            };
            if l.backlog.is_empty() {
                l.waker = Some(cx.waker().clone());
                return Poll::Pending;
            }
            l.accepts += 1;
            let k = l.accepts;
            if p > 0 && mix(seed ^ 0xacc, k, self.node as u64) % 1000 < p {
                n.stats.accept_injected += 1;
                cx.waker().wake_by_ref();
                return Poll::Ready(Err(io::Error::new(
                    io::ErrorKind::Other,
                    "too many open files (injected)",
                )));
            }
            let id = l.backlog.pop_front().unwrap();
            n.stats.accepts += 1;
            let addr = n.conns[id].ends[0].addr.unwrap();
            Poll::Ready(Ok((
                TcpStream {
                    conn: id,
                    me: 1,
                    sleep: None,
                    rd_no: 0,
                    wr_no: 0,
                },
                addr,
            )))
        })
    }

    pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        crate::future::poll_fn(|cx| self.poll_accept(cx)).await
    }

    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.addr)
    }
}

impl Drop for TcpListener {
    fn drop(&mut self) {
        if NET.try_with(|n| n.try_borrow_mut().is_ok()) != Ok(true) {
            return;
        }
        let ws = with(|n| {
            let mut ws = vec![];
            if n.listeners.get(&self.addr).map(|l| l.node) == Some(self.node) {
                let l = n.listeners.remove(&self.addr).unwrap();
                for id in l.backlog {
                    let c = &mut n.conns[id];
                    c.ends[1].gone = true;
                    c.ends[0].rst_at = Some(now_nanos());
                    ws.extend(c.ends[0].rd.take());
                    ws.extend(c.ends[0].wr.take());
                }
            }
            ws
        });
        wake_all(ws);
    }
}
