//! Loopback server primitives and the two-thread session runner.
use crate::wire::*;
use std::io::{ErrorKind, Read, Write};
use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4, TcpListener, TcpStream, UdpSocket};
use std::os::unix::io::AsRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
use std::sync::mpsc;
use std::sync::{Arc, Mutex, MutexGuard};
use std::time::{Duration, Instant};

static NEXT: AtomicU32 = AtomicU32::new(0);
static SINGLE: AtomicBool = AtomicBool::new(false);
static SINGLE_LOCK: Mutex<()> = Mutex::new(());

/// Decides once whether the whole 127/8 block is usable.
pub fn init() {
    if TcpListener::bind("127.77.1.1:0").is_err() {
        SINGLE.store(true, Ordering::SeqCst);
    }
}

pub struct Slot {
    pub ip: Ipv4Addr,
    _guard: Option<MutexGuard<'static, ()>>,
}
/// A loopback address no other session of this process uses.
pub fn slot() -> Slot {
    if SINGLE.load(Ordering::SeqCst) {
        let g = SINGLE_LOCK.lock().unwrap_or_else(|e| e.into_inner());
        return Slot { ip: Ipv4Addr::new(127, 0, 0, 1), _guard: Some(g) };
    }
    let n = NEXT.fetch_add(1, Ordering::SeqCst) % (120 * 250 * 250);
    let pid = (std::process::id() % 7) * 17;
    let a = 2 + (n / (250 * 250) + pid) % 120;
    let ip = Ipv4Addr::new(127, a as u8, (1 + (n / 250) % 250) as u8, (1 + n % 250) as u8);
    Slot { ip, _guard: None }
}

pub fn listen(slot: &Slot, port: u16) -> TcpListener {
    let mut tries = 0;
    loop {
        match TcpListener::bind(SocketAddrV4::new(slot.ip, port)) {
            Ok(l) => return l,
            Err(e) => {
                tries += 1;
                if tries > 200 {
                    eprintln!("harness: cannot bind {}:{}: {}", slot.ip, port, e);
                    std::process::exit(3);
                }
                std::thread::sleep(Duration::from_millis(50));
            }
        }
    }
}

/// Shared between the two sides of a session.
pub struct Ctl {
    pub client_done: AtomicBool,
    pub abort: AtomicBool,
}

#[derive(Debug)]
pub enum In {
    Req(Req),
    Cmd(Cmd),
    BadCmd(String),
    Closed,
    Timeout,
}

pub struct Srv {
    pub ip: Ipv4Addr,
    pub listener: TcpListener,
    pub tcp: Option<TcpStream>,
    pub udp: UdpSocket,
    pub client_udp: Option<SocketAddr>,
    pub ctl: Arc<Ctl>,
    pub gripper: bool,
    rx: Vec<u8>,
    pub eof: bool,
}

pub fn ppoll(fds: &mut [libc::pollfd], t: Duration) -> i32 {
    let ts = libc::timespec { tv_sec: t.as_secs() as i64, tv_nsec: t.subsec_nanos() as i64 };
    unsafe { libc::ppoll(fds.as_mut_ptr(), fds.len() as u64, &ts, std::ptr::null()) }
}

impl Srv {
    fn new(slot: &Slot, listener: TcpListener, ctl: Arc<Ctl>, gripper: bool) -> Srv {
        let udp = UdpSocket::bind(SocketAddrV4::new(slot.ip, 0)).expect("bind udp");
        udp.set_nonblocking(true).unwrap();
        Srv { ip: slot.ip, listener, tcp: None, udp, client_udp: None, ctl, gripper, rx: vec![], eof: false }
    }
    pub fn gone(&self) -> bool {
        self.ctl.client_done.load(Ordering::SeqCst) || self.ctl.abort.load(Ordering::SeqCst)
    }
    /// Accept the client's TCP connection.
    pub fn accept(&mut self, timeout: Duration) -> bool {
        let t0 = Instant::now();
        loop {
            let mut p = [libc::pollfd { fd: self.listener.as_raw_fd(), events: libc::POLLIN, revents: 0 }];
            ppoll(&mut p, Duration::from_millis(20));
            if p[0].revents != 0 {
                if let Ok((s, _)) = self.listener.accept() {
                    s.set_nodelay(true).ok();
                    s.set_nonblocking(true).unwrap();
                    self.tcp = Some(s);
                    return true;
                }
            }
            if t0.elapsed() > timeout || self.gone() {
                return false;
            }
        }
    }
    pub fn header_len(&self) -> usize {
        if self.gripper {
            10
        } else {
            12
        }
    }
    fn parse(&mut self) -> Option<Req> {
        let h = self.header_len();
        if self.rx.len() < h {
            return None;
        }
        let (cmd, id, size) = {
            let mut r = R(&self.rx);
            if self.gripper {
                (r.u16() as u32, r.u32(), r.u32())
            } else {
                (r.u32(), r.u32(), r.u32())
            }
        };
        let n = (size as usize).max(h).min(1 << 20);
        if self.rx.len() < n {
            return None;
        }
        let body = self.rx[h..n].to_vec();
        self.rx.drain(..n);
        Some(Req { cmd, id, size, body })
    }
    /// Bytes received that do not form a whole request yet.
    pub fn residue(&self) -> usize {
        self.rx.len()
    }
    fn fill(&mut self) {
        if let Some(t) = &mut self.tcp {
            let mut b = [0u8; 65536];
            loop {
                match t.read(&mut b) {
                    Ok(0) => {
                        self.eof = true;
                        break;
                    }
                    Ok(n) => self.rx.extend_from_slice(&b[..n]),
                    Err(e) if e.kind() == ErrorKind::WouldBlock => break,
                    Err(e) if e.kind() == ErrorKind::Interrupted => continue,
                    Err(_) => {
                        self.eof = true;
                        break;
                    }
                }
            }
        }
    }
    fn udp_try(&mut self) -> Option<In> {
        let mut b = [0u8; 8192];
        match self.udp.recv_from(&mut b) {
            Ok((n, _)) => Some(match Cmd::decode(&b[..n]) {
                Ok(c) => In::Cmd(c),
                Err(e) => In::BadCmd(e),
            }),
            Err(_) => None,
        }
    }
    /// The next thing that arrives from the client.  UDP first, so that commands sent before a
    /// request are seen before it.
    pub fn next(&mut self, timeout: Duration) -> In {
        let t0 = Instant::now();
        loop {
            if let Some(x) = self.udp_try() {
                return x;
            }
            if let Some(r) = self.parse() {
                return In::Req(r);
            }
            if self.eof {
                return In::Closed;
            }
            let el = t0.elapsed();
            if el >= timeout {
                return In::Timeout;
            }
            let mut p = [
                libc::pollfd { fd: self.udp.as_raw_fd(), events: libc::POLLIN, revents: 0 },
                libc::pollfd {
                    fd: self.tcp.as_ref().map(|t| t.as_raw_fd()).unwrap_or(-1),
                    events: libc::POLLIN,
                    revents: 0,
                },
            ];
            ppoll(&mut p, (timeout - el).min(Duration::from_millis(100)));
            if p[1].revents != 0 {
                self.fill();
            }
            if self.ctl.abort.load(Ordering::SeqCst) {
                return In::Closed;
            }
        }
    }
    pub fn next_req(&mut self, timeout: Duration) -> Option<Req> {
        let t0 = Instant::now();
        while t0.elapsed() < timeout {
            match self.next(timeout.saturating_sub(t0.elapsed())) {
                In::Req(r) => return Some(r),
                In::Closed => return None,
                In::Timeout => return None,
                _ => {}
            }
        }
        None
    }
    pub fn send_tcp(&mut self, bytes: &[u8]) -> bool {
        let t0 = Instant::now();
        let mut off = 0;
        while off < bytes.len() {
            let t = match &mut self.tcp {
                Some(t) => t,
                None => return false,
            };
            match t.write(&bytes[off..]) {
                Ok(n) => off += n,
                Err(e) if e.kind() == ErrorKind::WouldBlock => {
                    if t0.elapsed() > Duration::from_secs(20) || self.gone() {
                        return false;
                    }
                    std::thread::sleep(Duration::from_micros(200));
                }
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(_) => return false,
            }
        }
        true
    }
    pub fn send_udp(&mut self, bytes: &[u8]) {
        if let Some(a) = self.client_udp {
            let _ = self.udp.send_to(bytes, a);
        }
    }
    pub fn set_client_udp(&mut self, port: u16) {
        let peer = self.tcp.as_ref().and_then(|t| t.peer_addr().ok());
        if let Some(SocketAddr::V4(p)) = peer {
            self.client_udp = Some(SocketAddr::V4(SocketAddrV4::new(*p.ip(), port)));
        }
    }
    /// Abrupt close (RST)
    pub fn reset_tcp(&mut self) {
        if let Some(t) = self.tcp.take() {
            let l = libc::linger { l_onoff: 1, l_linger: 0 };
            unsafe {
                libc::setsockopt(
                    t.as_raw_fd(),
                    libc::SOL_SOCKET,
                    libc::SO_LINGER,
                    &l as *const _ as *const libc::c_void,
                    std::mem::size_of::<libc::linger>() as u32,
                );
            }
        }
        self.eof = true;
    }
    /// The peer is gone without a word (power cut, cable pulled): what it has sent so far has
    /// arrived, nothing it is sent from now on is acknowledged, and it never closes.
    pub fn vanish(&mut self) -> bool {
        let t = match &self.tcp {
            Some(t) => t,
            None => return false,
        };
        let fd = t.as_raw_fd();
        let t0 = Instant::now();
        loop {
            let mut left: libc::c_int = 0;
            if unsafe { libc::ioctl(fd, libc::TIOCOUTQ, &mut left) } != 0 {
                return false;
            }
            if left == 0 {
                break;
            }
            if t0.elapsed() > Duration::from_secs(2) {
                return false;
            }
            std::thread::sleep(Duration::from_micros(200));
        }
        let mut prog = [libc::sock_filter { code: 0x06, jt: 0, jf: 0, k: 0 }];
        let f = libc::sock_fprog { len: 1, filter: prog.as_mut_ptr() };
        let r = unsafe {
            libc::setsockopt(
                fd,
                libc::SOL_SOCKET,
                libc::SO_ATTACH_FILTER,
                &f as *const _ as *const libc::c_void,
                std::mem::size_of::<libc::sock_fprog>() as u32,
            )
        };
        r == 0
    }
    pub fn close_tcp(&mut self) {
        if let Some(t) = self.tcp.take() {
            let _ = t.shutdown(std::net::Shutdown::Both);
        }
        self.eof = true;
    }
}

pub enum ClientEnd<T> {
    Done(T),
    Panic(String),
    Hang,
}

pub struct Session<A, B> {
    pub client: ClientEnd<A>,
    pub server: Option<B>,
    pub server_panic: Option<String>,
    pub wall: Duration,
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{}", info);
        LAST_PANIC.with(|p| *p.borrow_mut() = s.clone());
        if std::env::var("VERIF_TRACE").is_ok() {
            eprintln!("panic: {}", s);
        }
    }));
}
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// Signals that hit the client thread of the next sessions started from this thread: seed and the
/// shortest and longest pause between two of them in microseconds.
#[derive(Clone, Copy, Debug)]
pub struct Storm {
    pub seed: u64,
    pub lo: u64,
    pub hi: u64,
}
thread_local! {
    static STORM: std::cell::Cell<Option<Storm>> = const { std::cell::Cell::new(None) };
    static HITS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// Sets the storm and returns how many signals were sent since it was set last.
pub fn set_storm(s: Option<Storm>) -> u64 {
    extern "C" fn nothing(_: libc::c_int) {}
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| unsafe {
        // a handler as `signal(2)` users and runtimes install them; epoll_wait is never restarted
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = nothing as extern "C" fn(libc::c_int) as usize;
        a.sa_flags = libc::SA_RESTART;
        libc::sigaction(libc::SIGUSR1, &a, std::ptr::null_mut());
    });
    STORM.with(|x| x.set(s));
    HITS.with(|x| x.replace(0))
}
fn storm_thread(st: Storm, tid: Arc<std::sync::atomic::AtomicI32>, ctl: Arc<Ctl>) -> std::thread::JoinHandle<u64> {
    std::thread::spawn(move || {
        let mut r = crate::engine::Rng::new(st.seed);
        let mut n = 0;
        while !ctl.client_done.load(Ordering::SeqCst) && !ctl.abort.load(Ordering::SeqCst) {
            std::thread::sleep(Duration::from_micros(st.lo + r.next() % (st.hi - st.lo + 1)));
            let t = tid.load(Ordering::SeqCst);
            if t != 0 && !ctl.client_done.load(Ordering::SeqCst) {
                let ok = unsafe { libc::syscall(libc::SYS_tgkill, libc::getpid(), t, libc::SIGUSR1) };
                n += (ok == 0) as u64;
            }
        }
        n
    })
}

/// Runs a client (library) function against a server function, each on its own thread.
pub fn session<A, B, C, S>(port: u16, deadline: Duration, server: S, client: C) -> Session<A, B>
where
    A: Send + 'static,
    B: Send + 'static,
    C: FnOnce(&str) -> A + Send + 'static,
    S: FnOnce(&mut Srv) -> B + Send + 'static,
{
    let slot = slot();
    let listener = listen(&slot, port);
    let ctl = Arc::new(Ctl { client_done: AtomicBool::new(false), abort: AtomicBool::new(false) });
    let t0 = Instant::now();
    let (ctx, crx) = mpsc::channel();
    let (stx, srx) = mpsc::channel();
    let mut srv = Srv::new(&slot, listener, ctl.clone(), port == 1338);
    let ip = slot.ip.to_string();
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            let r = catch(|| server(&mut srv));
            drop(srv);
            let _ = stx.send(r);
        })
        .expect("spawn server");
    let c2 = ctl.clone();
    let tid = Arc::new(std::sync::atomic::AtomicI32::new(0));
    let storm = STORM.with(|x| x.get()).map(|s| storm_thread(s, tid.clone(), ctl.clone()));
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            tid.store(unsafe { libc::syscall(libc::SYS_gettid) } as i32, Ordering::SeqCst);
            let r = catch(|| client(&ip));
            c2.client_done.store(true, Ordering::SeqCst);
            let _ = ctx.send(r);
        })
        .expect("spawn client");
    let client = match crx.recv_timeout(deadline) {
        Ok(Ok(a)) => ClientEnd::Done(a),
        Ok(Err(p)) => ClientEnd::Panic(p),
        Err(_) => ClientEnd::Hang,
    };
    let hang = matches!(client, ClientEnd::Hang);
    if hang {
        ctl.abort.store(true, Ordering::SeqCst);
    }
    if let Some(h) = storm {
        let n = h.join().unwrap_or(0);
        HITS.with(|x| x.set(x.get() + n));
    }
    let (server, server_panic) = match srx.recv_timeout(Duration::from_secs(40)) {
        Ok(Ok(b)) => (Some(b), None),
        Ok(Err(p)) => (None, Some(p)),
        Err(_) => {
            ctl.abort.store(true, Ordering::SeqCst);
            (None, Some("server thread did not end".into()))
        }
    };
    Session { client, server, server_panic, wall: t0.elapsed() }
}
