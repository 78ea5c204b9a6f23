//! C27: the control loop keeps up with the robot's cycle of one millisecond.
use super::states::handshake;
use super::tcp::timing;
use crate::ctl::*;
use crate::engine::*;
use crate::net::*;
use crate::wire::*;
use franka::*;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{mpsc, Arc};
use std::time::{Duration, Instant};

/// What the library may take on average, without the slowest twentieth. It takes a tenth of this.
const MEAN: Duration = Duration::from_micros(500);
/// What a call may take to return when all it waits for is there.
const RETURN: Duration = Duration::from_millis(200);
const ATTEMPTS: usize = 6;

fn mean(v: &[Duration]) -> Duration {
    if v.is_empty() {
        return Duration::ZERO;
    }
    let mut v = v.to_vec();
    v.sort();
    let n = (v.len() - v.len() / 20).max(1);
    v[..n].iter().sum::<Duration>() / n as u32
}

struct Lat {
    run: Vec<Duration>,
    /// the last hundred of them
    late: Vec<Duration>,
    fin: Vec<Duration>,
    ret: Duration,
    /// unrelated responses that have to be read before the last one
    noise: usize,
}

#[derive(Clone, Debug)]
struct Plan {
    m: Arc<Motion>,
    fin: usize,
    log: Option<usize>,
    noise: usize,
    step: u64,
}

fn motion_once(p: &Plan) -> Result<Lat, String> {
    let (p1, p2) = (p.clone(), p.clone());
    let ses = session(
        1337,
        Duration::from_secs(40),
        move |srv| -> Result<(Vec<Duration>, Vec<Duration>, Instant, usize), String> {
            let mut id = 1;
            if !handshake(srv, &St::idle(id)) {
                return Err("handshake".into());
            }
            let mv = match srv.next_req(Duration::from_secs(5)) {
                Some(r) if r.cmd == MOVE => r.id,
                r => return Err(format!("no Move request: {:?}", r)),
            };
            srv.send_tcp(&robot_frame(MOVE, mv, &[MS_STARTED]));
            let mut st = St::idle(id).modes(p1.m.kind.mg(), p1.m.cm(), RM_MOVE);
            let t0 = Instant::now();
            let mut done = false;
            // the first command
            while !done {
                id += p1.step;
                st.id = id;
                srv.send_udp(&st.encode());
                match srv.next(Duration::from_millis(1)) {
                    In::Cmd(c) => {
                        done = true;
                        if c.finished {
                            break;
                        }
                    }
                    In::Closed => return Err("connection closed".into()),
                    _ => {}
                }
                if t0.elapsed() > Duration::from_secs(5) {
                    return Err("the motion does not start".into());
                }
            }
            // answers to states that were sent in the meantime
            while !matches!(srv.next(Duration::from_millis(3)), In::Timeout | In::Closed) {}
            let (mut run, mut fin) = (vec![], vec![]);
            let mut finished = false;
            let mut noise = 0;
            for k in 0.. {
                if finished && fin.len() >= p1.fin {
                    break;
                }
                if k > 200_000 || srv.gone() {
                    return Err("the motion does not end".into());
                }
                id += p1.step;
                st.id = id;
                if p1.noise > 0 && k % p1.noise == 0 {
                    noise += 1;
                    srv.send_tcp(&robot_frame(STOP_MOVE, 0x4000_0000 + k as u32, &[0]));
                }
                let b = st.encode();
                let t = Instant::now();
                srv.send_udp(&b);
                let c = loop {
                    match srv.next(Duration::from_millis(100)) {
                        In::Cmd(c) if c.id == id => break Some(c),
                        In::Cmd(_) => {}
                        In::Closed => return Err("connection closed".into()),
                        _ => break None,
                    }
                };
                let d = t.elapsed();
                if finished {
                    fin.push(d);
                } else {
                    run.push(d);
                }
                finished |= c.map(|c| c.finished).unwrap_or(false);
            }
            id += 1;
            srv.send_tcp(&robot_frame(MOVE, mv, &[MS_SUCCESS]));
            srv.send_udp(&St::idle(id).encode());
            let end = Instant::now();
            while !srv.gone() {
                std::thread::sleep(Duration::from_millis(1));
            }
            Ok((run, fin, end, noise))
        },
        move |addr| -> Result<Instant, String> {
            let mut r = Robot::new(addr, RealtimeConfig::Ignore, p2.log).map_err(|e| format!("connect: {:?}", e))?;
            let mut cbs = vec![];
            run_motion(&mut r, &p2.m, &mut cbs).map_err(|e| format!("the motion failed: {}", e))?;
            Ok(Instant::now())
        },
    );
    let end = match ses.client {
        ClientEnd::Done(r) => r?,
        ClientEnd::Panic(p) => return Err(format!("panic: {}", p)),
        ClientEnd::Hang => return Err("the call did not return".into()),
    };
    let (run, fin, sent, noise) = ses.server.ok_or(format!("harness server failed: {:?}", ses.server_panic))??;
    let late = run[run.len().saturating_sub(100)..].to_vec();
    Ok(Lat { run, late, fin, ret: end.saturating_duration_since(sent), noise })
}

fn gen(s: &mut Src, long: bool) -> Plan {
    let kind = s.pick(&KINDS);
    let n = if long { s.usize(3000, 12_000) } else { s.usize(20, 120) };
    let mut user = vec![User::rest(); n];
    let l = user.last_mut().unwrap();
    l.fin = kind != Kind::T;
    l.tau_fin = kind == Kind::T || s.bool();
    if s.bool() {
        for u in user.iter_mut() {
            u.elbow = Some([0.0, 1.0]);
        }
    }
    let mut m = Motion::simple(kind, user);
    m.mode = s.below(3) as u8;
    m.limit = s.pick(&[None, Some(true), Some(false)]);
    m.cutoff = s.pick(&[None, Some(1000.0), Some(50.0)]);
    Plan {
        m: Arc::new(m),
        fin: s.usize(10, 60),
        log: s.pick(&[None, Some(0), Some(1), Some(5000)]),
        noise: s.pick(&[0, 0, 1, 7]),
        step: s.pick(&[1, 1, 3]),
    }
}

fn judge(s: &mut Src, long: bool) -> Outcome {
    let p = gen(s, long);
    let what = format!(
        "{:?}, {} commands, {} states after the last, limiter {:?}, cutoff {:?}, log {:?}, unrelated response every {} states",
        p.m.kind,
        p.m.user.len(),
        p.fin,
        p.m.limit,
        p.m.cutoff,
        p.log,
        p.noise
    );
    let mut why = String::new();
    for k in 0..ATTEMPTS {
        if k > 0 {
            std::thread::sleep(Duration::from_millis(100));
        }
        match motion_once(&p) {
            Err(e) => why = e,
            Ok(l) => {
                let v = [("running", mean(&l.run)), ("at the end of the running part", mean(&l.late)), ("finishing", mean(&l.fin))];
                match v.iter().find(|(_, d)| *d > MEAN) {
                    Some((n, d)) => why = format!("{}: a state is answered after {:?} on average", n, d),
                    None if l.ret > RETURN + Duration::from_millis(5 * l.noise as u64) => why = format!("the call returned {:?} after the motion was over", l.ret),
                    None => {
                        return Outcome::pass(true)
                            .label("states answered in time", (l.run.len() + l.fin.len()) as u64)
                            .label("attempts", k as u64 + 1)
                            .label("microseconds per answer, added up", v[0].1.as_micros() as u64)
                            .sample(format!("{}: {:?} on average, returned after {:?}", what, v[0].1, l.ret));
                    }
                }
            }
        }
    }
    timing(format!("{} (in each of {} attempts)\ncase: {}", why, ATTEMPTS, what))
}

fn motions(s: &mut Src) -> Outcome {
    judge(s, false)
}
fn long(s: &mut Src) -> Outcome {
    judge(s, true)
}

/// The read loop hands out each state when it arrives and returns when the callback says so.
fn reads(s: &mut Src) -> Outcome {
    let n = s.usize(10, 150);
    let step = 1 + s.below(4);
    let pause = s.pick(&[0u64, 0, 100, 900]);
    let mut why = String::new();
    for k in 0..ATTEMPTS {
        if k > 0 {
            std::thread::sleep(Duration::from_millis(100));
        }
        let (tx, rx) = mpsc::channel::<Instant>();
        let started = Arc::new(AtomicUsize::new(0));
        let st2 = started.clone();
        let ses = session(
            1337,
            Duration::from_secs(30),
            move |srv| -> Result<(Vec<Duration>, Instant), String> {
                let mut id = 1;
                if !handshake(srv, &St::idle(id)) {
                    return Err("handshake".into());
                }
                while st2.load(Ordering::SeqCst) == 0 {
                    if srv.gone() {
                        return Err("no read".into());
                    }
                    std::thread::yield_now();
                }
                std::thread::sleep(Duration::from_millis(1));
                let mut v = vec![];
                let mut t = Instant::now();
                for _ in 0..n {
                    id += step;
                    let b = St::idle(id).encode();
                    if pause > 0 {
                        std::thread::sleep(Duration::from_micros(pause));
                    }
                    t = Instant::now();
                    srv.send_udp(&b);
                    match rx.recv_timeout(Duration::from_millis(300)) {
                        Ok(at) => v.push(at.saturating_duration_since(t)),
                        Err(_) => return Err("a state was not delivered within 300 ms".into()),
                    }
                }
                while !srv.gone() {
                    std::thread::sleep(Duration::from_millis(1));
                }
                Ok((v, t))
            },
            move |addr| -> Result<Instant, String> {
                let mut r = Robot::new(addr, RealtimeConfig::Ignore, None).map_err(|e| format!("connect: {:?}", e))?;
                let mut k = 0;
                started.store(1, Ordering::SeqCst);
                r.read(|_| {
                    let _ = tx.send(Instant::now());
                    k += 1;
                    k < n
                })
                .map_err(|e| format!("read: {}", e))?;
                Ok(Instant::now())
            },
        );
        let end = match ses.client {
            ClientEnd::Done(Ok(r)) => r,
            ClientEnd::Done(Err(e)) => {
                why = e;
                continue;
            }
            ClientEnd::Panic(p) => {
                why = format!("panic: {}", p);
                continue;
            }
            ClientEnd::Hang => {
                why = "read did not return".into();
                continue;
            }
        };
        match ses.server {
            Some(Ok((v, t))) => {
                let m = mean(&v);
                let ret = end.saturating_duration_since(t);
                if m > MEAN {
                    why = format!("a state is delivered after {:?} on average", m);
                } else if ret > RETURN {
                    why = format!("read returned {:?} after the last state was sent", ret);
                } else {
                    return Outcome::pass(true).label("states delivered in time", n as u64).sample(format!("{} states, {:?} on average, returned after {:?}", n, m, ret));
                }
            }
            Some(Err(e)) => why = e,
            None => why = format!("harness server failed: {:?}", ses.server_panic),
        }
    }
    timing(format!("{} (in each of {} attempts; {} states)", why, ATTEMPTS, n))
}

pub fn c27() -> Prop {
    Prop {
        id: "C27",
        level: "exploration",
        rule: "motions of all nine interfaces (20-120 commands, long: 3000-12000) with filter, limiter, log sizes, unrelated TCP responses in between; the time from sending a state to receiving the command that answers it is measured for every state of the running and the finishing part, and the time from the end of the motion to the return of the call. A case fails only if the mean (without the slowest 5 %) exceeds half a millisecond in each of six attempts, and again when it is repeated. reads: the same for the read loop. Non-trivial: every case.",
        assumptions: &["the machine is not so busy that six attempts in a row are slowed down by a factor of ten", "the callbacks return at once"],
        subs: vec![
            Sub { name: "motions", quick: 1500, thorough: 40_000, par: 2, f: motions },
            Sub { name: "long", quick: 16, thorough: 600, par: 2, f: long },
            Sub { name: "reads", quick: 500, thorough: 15_000, par: 2, f: reads },
        ],
    }
}
