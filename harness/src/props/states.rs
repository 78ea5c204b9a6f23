//! C06, C07, C22: what the user gets to see of the robot's state datagrams.
use super::motion::*;
use crate::ctl::*;
use crate::engine::*;
use crate::net::*;
use crate::wire::*;
use franka::robot::error::FrankaError;
use franka::{RealtimeConfig, Robot, RobotState};
use std::collections::HashMap;
use std::sync::mpsc;
use std::sync::Arc;
use std::time::{Duration, Instant};

fn timing(m: String) -> Outcome {
    Outcome { verdict: Verdict::FailTiming(m), nontrivial: false, labels: vec![], sample: None }
}

/// Handshake of the simulated robot; the first state has id `id`.
pub fn handshake(srv: &mut Srv, first: &St) -> bool {
    if !srv.accept(Duration::from_secs(5)) {
        return false;
    }
    match srv.next_req(Duration::from_secs(5)) {
        Some(r) if r.cmd == CONNECT && r.body.len() == 4 => {
            let mut b = R(&r.body);
            b.u16();
            srv.set_client_udp(b.u16());
            srv.send_tcp(&robot_frame(CONNECT, r.id, &[0, 5, 0]));
            srv.send_udp(&first.encode());
            true
        }
        _ => false,
    }
}

fn f_bits(r: &mut Rng) -> f64 {
    let x = r.next();
    match x % 16 {
        0 => 0.0,
        1 => -0.0,
        2 => f64::NAN,
        3 => f64::INFINITY,
        4 => f64::from_bits(0x7ff0_0000_0000_0001 | (r.next() >> 12)), // NaN with payload
        5 => f64::from_bits(r.next() >> 12),                          // subnormal
        6..=9 => f64::from_bits(r.next()),
        _ => (r.next() % 100_000) as f64 / 777.0 - 50.0,
    }
}
fn f_num(r: &mut Rng) -> f64 {
    (r.next() % 2_000_001) as f64 / 1e6 - 1.0
}
/// style 0: numbers, 1: any bits
fn random_state(st: &mut St, salt: u64, style: u64) {
    let mut r = Rng::new(mix(salt, st.id));
    if style == 1 {
        st.fill(|_| f_bits(&mut r));
        st.rate = f_bits(&mut r);
    } else {
        st.fill(|_| f_num(&mut r));
        st.rate = f_num(&mut r).abs();
    }
    if style == 0 || r.next() % 2 == 0 {
        // plausible mass data
        let m = |r: &mut Rng| match r.next() % 5 {
            0 => 0.0,
            1 => (r.next() % 1000) as f64 * 1e-9,
            _ => (r.next() % 5000) as f64 / 1000.0,
        };
        st.m_ee = [m(&mut r)];
        st.m_load = [m(&mut r)];
        for x in st.F_x_Cee.iter_mut().chain(st.F_x_Cload.iter_mut()) {
            *x = f_num(&mut r);
        }
        for x in st.I_ee.iter_mut().chain(st.I_load.iter_mut()) {
            *x = f_num(&mut r) * 0.1;
        }
    }
    let p = 2 + r.next() % 30;
    for b in st.errors.iter_mut().chain(st.reflex.iter_mut()) {
        *b = r.next() % p == 0;
    }
}

/// Mass, centre of mass and inertia of end effector and load together.
fn derived(st: &St, s: &RobotState) -> Result<bool, String> {
    let (me, ml) = (st.m_ee[0], st.m_load[0]);
    let mt = me + ml;
    if !(mt == s.m_total || (mt.is_nan() && s.m_total.is_nan())) {
        return Err(format!("m_total is {}, masses are {} and {}", s.m_total, me, ml));
    }
    let all = st.F_x_Cee.iter().chain(&st.F_x_Cload).chain(&st.I_ee).chain(&st.I_load);
    if !(me >= 0.0 && ml >= 0.0 && mt < 1e6) || !all.clone().all(|x| x.abs() < 1e6) {
        return Ok(false);
    }
    let mut c = [0.0; 3];
    if mt > 0.0 {
        for i in 0..3 {
            c[i] = (me * st.F_x_Cee[i] + ml * st.F_x_Cload[i]) / mt;
        }
    }
    for i in 0..3 {
        let sc = st.F_x_Cee[i].abs() + st.F_x_Cload[i].abs() + 1e-300;
        if !((c[i] - s.F_x_Ctotal[i]).abs() <= 1e-12 * sc) {
            return Err(format!("F_x_Ctotal {:?}, expected {:?} (masses {} {}, centres {:?} {:?})", s.F_x_Ctotal, c, me, ml, st.F_x_Cee, st.F_x_Cload));
        }
    }
    // parallel axis theorem: J = I + m (|c|^2 1 - c c^T)
    let steiner = |m: f64, c: &[f64; 3], i: usize, k: usize| -> f64 {
        let d = c[0] * c[0] + c[1] * c[1] + c[2] * c[2];
        m * (if i == k { d } else { 0.0 } - c[i] * c[k])
    };
    for k in 0..3 {
        for i in 0..3 {
            let (a, b) = (
                if me == 0.0 { 0.0 } else { st.I_ee[3 * k + i] } + steiner(me, &st.F_x_Cee, i, k),
                if ml == 0.0 { 0.0 } else { st.I_load[3 * k + i] } + steiner(ml, &st.F_x_Cload, i, k),
            );
            let t = steiner(mt, &c, i, k);
            let want = a + b - t;
            let n2 = |c: &[f64; 3]| c[0] * c[0] + c[1] * c[1] + c[2] * c[2];
            let sc = st.I_ee[3 * k + i].abs() + st.I_load[3 * k + i].abs() + me * n2(&st.F_x_Cee) + ml * n2(&st.F_x_Cload) + 1e-300;
            if !((want - s.I_total[3 * k + i]).abs() <= 1e-11 * sc) {
                return Err(format!("I_total[{}] is {:e}, expected {:e} (m {} {}, c {:?} {:?}, I {:?} {:?})", 3 * k + i, s.I_total[3 * k + i], want, me, ml, st.F_x_Cee, st.F_x_Cload, st.I_ee, st.I_load));
            }
        }
    }
    Ok(true)
}

/// A state a user got: one of the datagrams sent, unchanged.
fn is_sent(sent: &HashMap<u64, Vec<St>>, s: &RobotState, what: &str) -> Result<bool, String> {
    let id = s.time.as_millis() as u64;
    let c = sent.get(&id).ok_or_else(|| format!("{}: state with time {:?}: no datagram with that id was sent", what, s.time))?;
    let mut err = String::new();
    for st in c {
        match st.diff(s).and_then(|_| derived(st, s)) {
            Ok(d) => return Ok(d),
            Err(e) => err = e,
        }
    }
    Err(format!("{}: state {}: {}", what, id, err))
}

/// Streams states, the client reads them in several ways.
fn c06_reads(s: &mut Src) -> Outcome {
    c06_session(s, 6, 15)
}
fn c06_long(s: &mut Src) -> Outcome {
    c06_session(s, 100, 1500)
}
fn c06_session(s: &mut Src, max_once: usize, max_looped: usize) -> Outcome {
    let style = s.below(2);
    let salt = s.u64();
    let first_id = s.pick(&[0u64, 1, 4_294_967_290, 1 << 52]) + s.below(3);
    let (once, looped) = (s.usize(0, max_once), s.usize(0, max_looped));
    let step = 1 + s.below(3);
    let rand_modes = s.bool();
    let ses = session(
        1337,
        Duration::from_secs(20),
        move |srv| {
            let mut sent: HashMap<u64, Vec<St>> = HashMap::new();
            let mut id = first_id;
            let make = |id: u64| {
                let mut st = St::zero(id);
                random_state(&mut st, salt, style);
                let mut r = Rng::new(mix(id, salt));
                if rand_modes {
                    st.mg = (r.next() % 5) as u8;
                    st.cm = (r.next() % 4) as u8;
                }
                st.rm = (r.next() % 7) as u8;
                st
            };
            let f = make(id);
            if !handshake(srv, &f) {
                return sent;
            }
            sent.entry(id).or_default().push(f);
            while !srv.gone() && sent.len() < 20000 {
                match srv.next(Duration::from_micros(60)) {
                    In::Closed => break,
                    _ => {}
                }
                id += step;
                let st = make(id);
                srv.send_udp(&st.encode());
                sent.entry(id).or_default().push(st);
            }
            sent
        },
        move |addr| {
            let mut got: Vec<(&'static str, RobotState)> = vec![];
            let mut rob = Robot::new(addr, RealtimeConfig::Ignore, None).map_err(|e| format!("connect: {:?}", e))?;
            for _ in 0..once {
                got.push(("read_once", rob.read_once().map_err(|e| format!("read_once: {:?}", e))?));
            }
            if looped > 0 {
                let mut n = 0;
                rob.read(|st| {
                    got.push(("read", st.clone()));
                    n += 1;
                    n < looped
                })
                .map_err(|e| format!("read: {:?}", e))?;
                if n != looped {
                    return Err(format!("read callback was invoked {} times, it asked to stop after {}", n, looped));
                }
            }
            Ok(got)
        },
    );
    let got = match ses.client {
        ClientEnd::Done(Ok(g)) => g,
        ClientEnd::Done(Err(e)) => return timing(e),
        ClientEnd::Panic(p) => return Outcome { verdict: Verdict::Fail(format!("panic: {}", p)), nontrivial: true, labels: vec![], sample: None },
        ClientEnd::Hang => return timing("reading states did not return".into()),
    };
    let sent = match ses.server {
        Some(x) => x,
        None => return timing("harness server failed".into()),
    };
    let mut j = Judge::default();
    let mut full = 0;
    let mut last: Option<Duration> = None;
    for (w, st) in &got {
        match is_sent(&sent, st, w) {
            Ok(d) => full += d as u64,
            Err(e) => j.fail(e),
        }
        if let Some(l) = last {
            j.check(st.time > l, || format!("{}: time {:?} after {:?}", w, st.time, l));
        }
        last = Some(st.time);
    }
    let n = got.len() as u64;
    Outcome {
        verdict: j.verdict(),
        nontrivial: n > 0,
        labels: vec![("states compared", n), ("with mass data", full), (if style == 1 { "any bit patterns" } else { "numbers" }, 1)],
        sample: Some(format!("{} read_once, {} read, style {}, ids from {} in steps of {}", once, looped, style, first_id, step)),
    }
}

/// The same in control callbacks and error logs.
fn c06_control(s: &mut Src) -> Outcome {
    let p = Profile { fates: [3, 0, 0, 4, 2], max_motions: 2, raw: true, len: Len::Short };
    let c = gen_case(s, &p);
    let salt = s.u64();
    let style = s.below(2);
    let mut steps = vec![];
    for p in &c.plans {
        steps.push(Step::Motion(p.m.clone()));
    }
    let content: Content = Box::new(move |_, _, _, st: &mut St| random_state(st, salt, style));
    let run = match control_session(steps, c.log_size, c.first_id, content) {
        Ok(r) => r,
        Err(e) => return timing(e),
    };
    let mut sent: HashMap<u64, Vec<St>> = HashMap::new();
    for e in &run.ev {
        if let Ev::St(st) = e {
            sent.entry(st.id).or_default().push((**st).clone());
        }
    }
    let mut j = Judge::default();
    let (mut n, mut l) = (0, 0);
    for (i, (cbs, res)) in run.client.motions.iter().enumerate() {
        for cb in cbs {
            n += 1;
            if let Err(e) = is_sent(&sent, &cb.state, &format!("motion {} {} callback {}", i, if cb.control { "torque" } else { "motion" }, cb.n)) {
                j.fail(e);
            }
        }
        if let Ok(Res::Control { log: Some(log), .. }) = res {
            for (k, r) in log.iter().enumerate() {
                l += 1;
                if let Err(e) = is_sent(&sent, &r.state, &format!("motion {} log record {}", i, k)) {
                    j.fail(e);
                }
            }
        }
    }
    Outcome {
        verdict: j.verdict(),
        nontrivial: n > 0,
        labels: vec![("callback states", n), ("log states", l)],
        sample: Some(format!("{:?}", c.plans.iter().map(|p| (p.m.kind, p.fate, p.m.user.len())).collect::<Vec<_>>())),
    }
}

/// Damaged datagrams between whole ones: no call delivers one, it may only fail with a network error.
fn c06_damaged(s: &mut Src) -> Outcome {
    let size = St::zero(0).encode().len();
    damaged_(s, &|s: &mut Src| match s.below(3) {
        0 => Damage::Cut(size - 1 - s.usize(0, 8)),
        1 => Damage::Cut(s.usize(0, size - 1)),
        _ => Damage::Cut(s.pick(&[0, 1, 8, 16])),
    })
}
/// Datagrams with one byte that means nothing.
pub fn damaged(s: &mut Src, byte: &dyn Fn(&mut Src) -> (usize, u8)) -> Outcome {
    damaged_(s, &|s: &mut Src| {
        let (at, v) = byte(s);
        Damage::Byte(at, v)
    })
}
#[derive(Clone, Copy, Debug)]
pub enum Damage {
    /// only so many bytes are sent
    Cut(usize),
    Byte(usize, u8),
}
impl Damage {
    pub fn apply(&self, b: &mut Vec<u8>) {
        match self {
            Damage::Cut(l) => b.truncate(*l),
            Damage::Byte(at, v) => b[*at] = *v,
        }
    }
}
fn damaged_(s: &mut Src, gen: &dyn Fn(&mut Src) -> Damage) -> Outcome {
    let salt = s.u64();
    let n = s.usize(1, 30);
    let pattern: Vec<Option<Damage>> = (0..n).map(|_| if s.bool() { Some(gen(s)) } else { None }).collect();
    let cut = pattern.iter().filter(|x| x.is_some()).count();
    let (calls, looped) = (s.usize(1, 8), s.bool());
    let pace = s.pick(&[0u64, 30, 120]);
    let what = format!("{} calls of {}, datagrams {:?}", calls, if looped { "read" } else { "read_once" }, pattern);
    let ses = session(
        1337,
        Duration::from_secs(20),
        move |srv| {
            let mut sent: HashMap<u64, Vec<St>> = HashMap::new();
            let mut id = 7;
            let make = |id: u64| {
                let mut st = St::zero(id);
                random_state(&mut st, salt, 0);
                st
            };
            let f = make(id);
            if !handshake(srv, &f) {
                return sent;
            }
            sent.entry(id).or_default().push(f);
            let mut k = 0;
            while !srv.gone() && k < 20000 {
                match srv.next(Duration::from_micros(if k < n { pace.max(1) } else { 60 })) {
                    In::Closed => break,
                    _ => {}
                }
                id += 1;
                let st = make(id);
                let mut b = st.encode();
                match pattern.get(k) {
                    Some(Some(d)) => {
                        d.apply(&mut b);
                        srv.send_udp(&b);
                    }
                    _ => {
                        srv.send_udp(&b);
                        sent.entry(id).or_default().push(st);
                    }
                }
                k += 1;
            }
            sent
        },
        move |addr| {
            let mut got = vec![];
            let mut errs = vec![];
            let mut rob = Robot::new(addr, RealtimeConfig::Ignore, None).map_err(|e| format!("connect: {:?}", e))?;
            for _ in 0..calls {
                if looped {
                    let mut m = 0;
                    let r = rob.read(|st| {
                        got.push(st.clone());
                        m += 1;
                        m < 4
                    });
                    if let Err(e) = r {
                        errs.push(err_of(e));
                    }
                } else {
                    match rob.read_once() {
                        Ok(st) => got.push(st),
                        Err(e) => errs.push(err_of(e)),
                    }
                }
            }
            // each cut datagram costs one call at most
            let mut tries = 0;
            let last = loop {
                match rob.read_once() {
                    Ok(st) => {
                        got.push(st);
                        break true;
                    }
                    Err(e) => errs.push(err_of(e)),
                }
                tries += 1;
                if tries > cut + 1 {
                    break false;
                }
            };
            Ok::<_, String>((got, errs, last))
        },
    );
    let (got, errs, last) = match ses.client {
        ClientEnd::Done(Ok(g)) => g,
        // the state that completes the connection may be a cut one
        ClientEnd::Done(Err(_)) if cut > 0 => return Outcome::pass(false),
        ClientEnd::Done(Err(e)) => return timing(e),
        ClientEnd::Panic(p) => return Outcome { verdict: Verdict::Fail(format!("{}: panic: {}", what, p)), nontrivial: true, labels: vec![], sample: None },
        ClientEnd::Hang => return timing("reading states did not return".into()),
    };
    let sent = match ses.server {
        Some(x) => x,
        None => return timing("harness server failed".into()),
    };
    let mut j = Judge::default();
    let mut before: Option<Duration> = None;
    for st in &got {
        if let Err(e) = is_sent(&sent, st, &what) {
            j.fail(e);
        }
        if let Some(b) = before {
            j.check(st.time > b, || format!("{}: time {:?} after {:?}", what, st.time, b));
        }
        before = Some(st.time);
    }
    for e in &errs {
        j.check(matches!(e, Res::Network(_)), || format!("{}: {}", what, e.brief()));
    }
    if errs.len() > cut {
        j.timing(format!("{}: {} calls failed, {} datagrams were cut", what, errs.len(), cut));
    }
    if !last {
        j.timing(format!("{}: no state is delivered any more", what));
    }
    Outcome { verdict: j.verdict(), nontrivial: !errs.is_empty(), labels: vec![("states compared", got.len() as u64), ("calls that met a cut datagram", errs.len() as u64)], sample: Some(what) }
}

pub fn c06() -> Prop {
    Prop {
        id: "C06",
        level: "exploration",
        rule: "streams of state datagrams whose every field is derived from a random function of the id (plausible numbers, or any bit patterns including NaN payloads), read by read_once, read, motion and torque callbacks and through error logs; each delivered state is compared bit for bit with the datagram of its id, mass properties with the parallel axis theorem. damaged: datagrams cut at any byte among whole ones. Non-trivial: at least one state was compared (damaged: a call met a cut datagram).",
        assumptions: &["mass properties compared for masses >= 0 and finite data"],
        subs: vec![
            Sub { name: "reads", quick: 72_000, thorough: 1_000_000, par: 8, f: c06_reads },
            Sub { name: "long", quick: 200, thorough: 6000, par: 8, f: c06_long },
            Sub { name: "control", quick: 48_000, thorough: 600_000, par: 8, f: c06_control },
            Sub { name: "damaged", quick: 16_000, thorough: 200_000, par: 8, f: c06_damaged },
        ],
    }
}

// ---- C07 ---------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
enum Op {
    ReadOnce(Round),
    Read(Vec<Round>),
    Control(Vec<Round>),
}
/// What arrives before the next state is delivered. Offsets relative to the last delivered id.
#[derive(Clone, Debug)]
struct Round {
    waiting: Vec<i64>,
    /// further ones that arrive later: stale offsets, then one newer
    later: Vec<i64>,
    newer: i64,
}
fn gen_round(s: &mut Src) -> Round {
    // (the kernel keeps 48 state datagrams)
    let n = if s.chance(1, 8) { s.usize(10, 32) } else { s.usize(0, 9) };
    let style = s.below(5);
    let mut w = vec![];
    for k in 0..n {
        let v = match style {
            0 => 1 + k as i64,                              // in order
            1 => n as i64 - k as i64,                       // reversed
            2 => -(s.below(6) as i64),                      // stale and duplicates only
            3 => s.below(12) as i64 - 5,                    // mixed
            _ => s.below(1 << 34) as i64 - (1 << 33),       // far away
        };
        w.push(v);
    }
    if s.chance(1, 4) && !w.is_empty() {
        let d = w[s.usize(0, w.len() - 1)];
        w.push(d);
    }
    let later = (0..s.usize(0, 3)).map(|_| -(s.below(5) as i64)).collect();
    Round { waiting: w, later, newer: 1 + s.below(5) as i64 }
}
fn at(base: u64, off: i64) -> u64 {
    (base as i64 + off).max(0) as u64
}

enum Sync {
    /// the client is inside a callback, having been given this state
    Got(u64),
    /// about to call read_once
    Once,
    Begin,
    End,
}

fn c07_case(s: &mut Src) -> Outcome {
    c07_history(s, 4, 6)
}
fn c07_long(s: &mut Src) -> Outcome {
    c07_history(s, 12, 120)
}
fn c07_history(s: &mut Src, max_ops: usize, max_rounds: usize) -> Outcome {
    let base = s.pick(&[1000u64, 50, (1 << 33) + 100, 1 << 50]);
    let mut ops = vec![];
    for _ in 0..s.usize(1, max_ops) {
        ops.push(match s.below(3) {
            0 => Op::ReadOnce(gen_round(s)),
            1 => Op::Read((0..s.usize(1, max_rounds)).map(|_| gen_round(s)).collect()),
            _ => Op::Control((0..s.usize(1, max_rounds)).map(|_| gen_round(s)).collect()),
        });
    }
    let desc = format!("first id {}, {:?}", base, ops);
    let (ops_s, ops_c) = (ops.clone(), ops);
    let (ctx, srx) = mpsc::channel::<Sync>();
    let (stx, crx) = mpsc::channel::<()>();
    let ses = session(
        1337,
        Duration::from_secs(30),
        move |srv| -> Result<(Judge, u64), String> {
            let mut j = Judge::default();
            let mut copy = 0.0;
            let mut send = |srv: &mut Srv, id: u64, run: bool| {
                let mut st = St::idle(id);
                if run {
                    st = st.modes(MG_JP, CM_JI, RM_MOVE);
                }
                // duplicates of an id are told apart by their contents
                copy += 1.0;
                st.q[0] = copy;
                srv.send_udp(&st.encode());
            };
            if !handshake(srv, &St::idle(base)) {
                return Err("handshake".into());
            }
            let mut last = base;
            let mut delivered = 0u64;
            let wait = |t: u64| -> Result<Sync, String> { srx.recv_timeout(Duration::from_millis(t)).map_err(|_| "the client did not come back".to_string()) };
            for op in ops_s {
                match op {
                    Op::ReadOnce(r) => {
                        for o in &r.waiting {
                            send(srv, at(last, *o), false);
                        }
                        match wait(5000)? {
                            Sync::Begin => {}
                            _ => return Err("harness protocol".into()),
                        }
                        stx.send(()).ok();
                        match wait(5000)? {
                            Sync::Once => {}
                            _ => return Err("harness protocol".into()),
                        }
                        std::thread::sleep(Duration::from_millis(2));
                        for o in &r.later {
                            send(srv, at(last, *o), false);
                        }
                        let first = at(last, r.newer);
                        let mut n = first;
                        let mut tries = 0;
                        let got = loop {
                            send(srv, n, false);
                            match srx.recv_timeout(Duration::from_millis(if tries == 0 { 60 } else { 20 })) {
                                Ok(Sync::Got(g)) => break g,
                                Ok(_) => return Err("harness protocol".into()),
                                Err(_) => {
                                    tries += 1;
                                    n += 1;
                                    if tries > 100 {
                                        return Err(format!("read_once did not return although states newer than {} arrive", last));
                                    }
                                }
                            }
                        };
                        if got < first || got > n {
                            j.fail(format!("read_once delivered state {}, but the states that arrived after the call are {}..{} (waiting before: {:?} relative to {})", got, first, n, r.waiting, last));
                        } else if tries > 0 || got != first {
                            j.timing(format!("read_once delivered {} instead of the first new state {}", got, first));
                        }
                        stx.send(()).ok();
                        last = got;
                        delivered += 1;
                    }
                    Op::Read(rounds) | Op::Control(rounds) if rounds.is_empty() => {}
                    Op::Read(ref rounds) | Op::Control(ref rounds) => {
                        let control = matches!(op, Op::Control(_));
                        let mut queue: Vec<u64> = vec![];
                        let mut mid = 0;
                        // up to the first callback
                        match wait(5000)? {
                            Sync::Begin => {}
                            _ => return Err("harness protocol".into()),
                        }
                        if control {
                            stx.send(()).ok();
                            match srv.next_req(Duration::from_secs(5)) {
                                Some(r) if r.cmd == MOVE => {
                                    mid = r.id;
                                    srv.send_tcp(&robot_frame(MOVE, r.id, &[MS_STARTED]));
                                }
                                r => return Err(format!("no Move request: {:?}", r)),
                            }
                            let mut tries = 0;
                            let mut n = last;
                            let got = loop {
                                n += 1;
                                send(srv, n, true);
                                queue.push(n);
                                match srx.recv_timeout(Duration::from_millis(1)) {
                                    Ok(Sync::Got(g)) => break g,
                                    Ok(_) => return Err("harness protocol".into()),
                                    Err(_) => tries += 1,
                                }
                                if tries > 3000 {
                                    return Err("the control callback was not invoked".into());
                                }
                            };
                            if !queue.contains(&got) {
                                j.fail(format!("first control callback got state {}, sent were {:?}", got, queue));
                            }
                            last = got;
                            queue.retain(|x| *x > got);
                            delivered += 1;
                        } else {
                            // a state to start with
                            let n = last + 1;
                            send(srv, n, false);
                            stx.send(()).ok();
                            match wait(5000)? {
                                Sync::Got(g) => {
                                    if g != n {
                                        j.fail(format!("read delivered {}, sent was {}", g, n));
                                    }
                                    last = g;
                                    delivered += 1;
                                }
                                _ => return Err("harness protocol".into()),
                            }
                        }
                        for r in rounds {
                            for o in &r.waiting {
                                let id = at(last, *o);
                                send(srv, id, control);
                                queue.push(id);
                            }
                            let newest = queue.iter().copied().max().filter(|m| *m > last);
                            stx.send(()).ok(); // the callback returns
                            let want = match newest {
                                Some(m) => m,
                                None => {
                                    for o in &r.later {
                                        send(srv, at(last, *o), control);
                                    }
                                    let id = at(last, r.newer);
                                    send(srv, id, control);
                                    id
                                }
                            };
                            match wait(5000)? {
                                Sync::Got(g) => {
                                    if g != want {
                                        j.fail(format!("{} delivered state {} after {}, waiting were {:?}, the newest to deliver is {}", if control { "control loop" } else { "read" }, g, last, queue, want));
                                    }
                                    last = g;
                                    delivered += 1;
                                    queue.clear();
                                }
                                _ => return Err("harness protocol".into()),
                            }
                        }
                        stx.send(()).ok(); // last callback returns and ends it
                        if control {
                            // finished command arrives, robot becomes idle
                            let t0 = Instant::now();
                            loop {
                                match srv.next(Duration::from_millis(50)) {
                                    In::Cmd(c) if c.finished => break,
                                    In::Closed => return Err("connection closed".into()),
                                    _ => {}
                                }
                                if t0.elapsed() > Duration::from_secs(5) {
                                    return Err("no finished command".into());
                                }
                            }
                            last += 1;
                            srv.send_tcp(&robot_frame(MOVE, mid, &[MS_SUCCESS]));
                            send(srv, last, false);
                        }
                        match wait(5000)? {
                            Sync::End => {}
                            _ => return Err("harness protocol".into()),
                        }
                    }
                }
                if j.bad() {
                    break;
                }
            }
            Ok((j, delivered))
        },
        move |addr| -> Result<Vec<Duration>, String> {
            let mut rob = Robot::new(addr, RealtimeConfig::Ignore, None).map_err(|e| format!("connect: {:?}", e))?;
            let mut times = vec![];
            for op in ops_c {
                match op {
                    Op::ReadOnce(_) => {
                        ctx.send(Sync::Begin).ok();
                        crx.recv().map_err(|e| e.to_string())?;
                        ctx.send(Sync::Once).ok();
                        let st = rob.read_once().map_err(|e| format!("read_once: {:?}", e))?;
                        times.push(st.time);
                        ctx.send(Sync::Got(st.time.as_millis() as u64)).ok();
                        crx.recv().map_err(|e| e.to_string())?;
                    }
                    Op::Read(r) => {
                        ctx.send(Sync::Begin).ok();
                        crx.recv().map_err(|e| e.to_string())?;
                        let mut n = 0;
                        rob.read(|st| {
                            times.push(st.time);
                            ctx.send(Sync::Got(st.time.as_millis() as u64)).ok();
                            let ok = crx.recv().is_ok();
                            n += 1;
                            ok && n <= r.len()
                        })
                        .map_err(|e| format!("read: {:?}", e))?;
                        ctx.send(Sync::End).ok();
                    }
                    Op::Control(r) => {
                        ctx.send(Sync::Begin).ok();
                        crx.recv().map_err(|e| e.to_string())?;
                        let mut n = 0;
                        let cb = |st: &RobotState, _dt: &Duration| {
                            times.push(st.time);
                            ctx.send(Sync::Got(st.time.as_millis() as u64)).ok();
                            let ok = crx.recv().is_ok();
                            n += 1;
                            let out = franka::JointPositions::new([0.0; 7]);
                            if ok && n <= r.len() {
                                out
                            } else {
                                franka::MotionFinished::motion_finished(out)
                            }
                        };
                        rob.control_joint_positions(cb, None, Some(false), Some(1000.0)).map_err(|e| format!("control: {:?}", e))?;
                        ctx.send(Sync::End).ok();
                    }
                }
            }
            Ok(times)
        },
    );
    let client = match ses.client {
        ClientEnd::Done(c) => c,
        ClientEnd::Panic(p) => return Outcome { verdict: Verdict::Fail(format!("{}: panic: {}", desc, p)), nontrivial: true, labels: vec![], sample: None },
        ClientEnd::Hang => return timing(format!("{}: did not return", desc)),
    };
    let mut j = Judge::default();
    let mut n = 0;
    match ses.server {
        Some(Ok((js, d))) => {
            n = d;
            if let Some(f) = js.fail {
                j.fail(format!("{}: {}", desc, f));
            }
            if let Some(f) = js.timing {
                j.timing(format!("{}: {}", desc, f));
            }
        }
        Some(Err(e)) => j.timing(format!("{}: {} (client: {:?})", desc, e, client.as_ref().err())),
        None => j.timing(format!("{}: harness server failed: {:?}", desc, ses.server_panic)),
    }
    match &client {
        Ok(t) => {
            for w in t.windows(2) {
                j.check(w[0] < w[1], || format!("{}: delivered time {:?} after {:?}", desc, w[1], w[0]));
            }
        }
        Err(e) => {
            if !j.bad() {
                j.timing(format!("{}: {}", desc, e));
            }
        }
    }
    Outcome { verdict: j.verdict(), nontrivial: n >= 2, labels: vec![("states delivered", n)], sample: Some(desc) }
}

/// Silence (or only stale datagrams before it): network error after about a second.
fn c07_silence(s: &mut Src) -> Outcome {
    let how = s.below(3); // read_once, read, control
    let stale = s.usize(0, 5);
    let good = s.usize(0, 3) as u64;
    let desc = format!("{}: {} states, then {} stale ones, then silence", ["read_once", "read", "control"][how as usize], good, stale);
    let (gtx, grx) = mpsc::channel::<()>();
    let ses = session(
        1337,
        Duration::from_secs(25),
        move |srv| {
            if !handshake(srv, &St::idle(100)) {
                return false;
            }
            let mut id = 100;
            if how == 2 {
                if let Some(r) = srv.next_req(Duration::from_secs(5)) {
                    srv.send_tcp(&robot_frame(MOVE, r.id, &[MS_STARTED]));
                }
                for _ in 0..2 + good {
                    id += 1;
                    srv.send_udp(&St::idle(id).modes(MG_JP, CM_JI, RM_MOVE).encode());
                    std::thread::sleep(Duration::from_millis(1));
                }
                for k in 0..stale {
                    srv.send_udp(&St::idle(id - k as u64).modes(MG_JP, CM_JI, RM_MOVE).encode());
                }
            } else {
                for _ in 0..good {
                    // one at a time
                    if grx.recv_timeout(Duration::from_secs(5)).is_err() {
                        return false;
                    }
                    std::thread::sleep(Duration::from_millis(2));
                    id += 1;
                    srv.send_udp(&St::idle(id).encode());
                }
                let _ = grx.recv_timeout(Duration::from_secs(5));
                for k in 0..stale {
                    srv.send_udp(&St::idle(id - k as u64).encode());
                }
            }
            // only answer what is asked on TCP
            let t0 = Instant::now();
            while !srv.gone() && t0.elapsed() < Duration::from_secs(12) {
                match srv.next(Duration::from_millis(50)) {
                    In::Req(r) => {
                        srv.send_tcp(&robot_frame(r.cmd, r.id, &[0]));
                    }
                    In::Closed => break,
                    _ => {}
                }
            }
            true
        },
        move |addr| {
            let mut rob = Robot::new(addr, RealtimeConfig::Ignore, None).map_err(|e| format!("connect: {:?}", e))?;
            let mut n = 0;
            let mut t0 = Instant::now();
            let r = match how {
                0 => loop {
                    gtx.send(()).ok();
                    t0 = Instant::now();
                    match rob.read_once() {
                        Ok(_) => n += 1,
                        Err(e) => break Err(e),
                    }
                    if n > 50 {
                        break Ok(());
                    }
                },
                1 => {
                    gtx.send(()).ok();
                    rob.read(|_| {
                        n += 1;
                        t0 = Instant::now();
                        gtx.send(()).ok();
                        true
                    })
                }
                _ => {
                    let r = rob.control_joint_positions(
                        |_: &RobotState, _: &Duration| {
                            n += 1;
                            t0 = Instant::now();
                            franka::JointPositions::new([0.0; 7])
                        },
                        None,
                        Some(false),
                        Some(1000.0),
                    );
                    r
                }
            };
            Ok::<_, String>((res_of(r).1, t0.elapsed()))
        },
    );
    let mut j = Judge::default();
    match ses.client {
        ClientEnd::Done(Ok((Res::Network(_), el))) => {
            if el < Duration::from_millis(900) {
                j.fail(format!("{}: network error after {:?} already", desc, el));
            }
            // a motion also waits a second for the robot to stop
            if el > Duration::from_millis(if how == 2 { 2900 } else { 1700 }) {
                j.timing(format!("{}: network error only after {:?}", desc, el));
            }
        }
        ClientEnd::Done(Ok((r, el))) => j.fail(format!("{}: returned {} after {:?}", desc, r.brief(), el)),
        ClientEnd::Done(Err(e)) => j.timing(format!("{}: {}", desc, e)),
        ClientEnd::Panic(p) => j.fail(format!("{}: panic: {}", desc, p)),
        ClientEnd::Hang => j.timing(format!("{}: did not return", desc)),
    }
    Outcome { verdict: j.verdict(), nontrivial: true, labels: vec![(["read_once", "read", "control"][how as usize], 1)], sample: Some(desc) }
}

pub fn c07() -> Prop {
    Prop {
        id: "C07",
        level: "exploration",
        rule: "histories of read_once, read loops and control loops on one connection; while the client is held inside its callback (or before read_once) generated sets of datagrams are put in its queue: in order, reversed, duplicated, stale, far apart; the delivered state is compared with the newest one (or the first newer one arriving later). Non-trivial: at least two states delivered. silence: generated points after which nothing newer arrives.",
        assumptions: &["at most about 12 datagrams wait at a time (the socket buffer is not exceeded)", "a datagram sent over loopback is queued when sendto returns"],
        subs: vec![
            Sub { name: "histories", quick: 48_000, thorough: 600_000, par: 8, f: c07_case },
            Sub { name: "long", quick: 500, thorough: 15_000, par: 8, f: c07_long },
            Sub { name: "silence", quick: 96, thorough: 1500, par: 48, f: c07_silence },
        ],
    }
}

// ---- C22 ---------------------------------------------------------------------------------------

fn parse_list(t: &str) -> Option<Vec<String>> {
    let t = t.strip_prefix('[')?.strip_suffix(']')?;
    if t.is_empty() {
        return Some(vec![]);
    }
    t.split(", ").map(|x| Some(x.strip_prefix('"')?.strip_suffix('"')?.to_string())).collect()
}

fn judge_flags(j: &mut Judge, what: &str, e: &franka::robot::errors::FrankaErrors, flags: &[bool; 41], all: &[FrankaError]) {
    let mut want: Vec<&str> = (0..41).filter(|i| flags[*i]).map(|i| ERROR_NAMES[i]).collect();
    let mut got: Vec<String> = e.franka_errors.iter().map(|x| format!("{:?}", x)).collect();
    want.sort();
    got.sort();
    if want != got {
        j.fail(format!("{}: flags set for {:?}, errors are {:?}", what, want, got));
    }
    for x in all {
        let name = format!("{:?}", x);
        let set = want.contains(&name.as_str());
        j.check(e.contains(*x) == set, || format!("{}: contains({}) is {}, flags set for {:?}", what, name, e.contains(*x), want));
    }
    let text = e.to_string();
    match parse_list(&text) {
        Some(mut l) => {
            l.sort();
            j.check(l == want, || format!("{}: displayed as {:?}, flags set for {:?}", what, text, want));
        }
        None => j.fail(format!("{}: displayed as {:?}, which is no bracketed list of names", what, text)),
    }
}

fn c22_case(s: &mut Src) -> Outcome {
    // a batch of flag combinations for one connection; the first state always has all flags set,
    // which yields every error value
    let mut combos: Vec<([bool; 41], [bool; 41])> = vec![([true; 41], [true; 41])];
    let n = s.usize(1, 12);
    for _ in 0..n {
        let one = |s: &mut Src| {
            let mut f = [false; 41];
            match s.below(5) {
                0 => f[s.usize(0, 40)] = true,
                1 => {}
                2 => {
                    f = [true; 41];
                    f[s.usize(0, 40)] = false;
                }
                3 => {
                    f[s.usize(0, 40)] = true;
                    f[s.usize(0, 40)] = true;
                }
                _ => {
                    let b = s.u64();
                    for (i, x) in f.iter_mut().enumerate() {
                        *x = b >> i & 1 == 1;
                    }
                }
            }
            f
        };
        combos.push((one(s), one(s)));
    }
    let desc = format!("{:?}", combos[1..].iter().map(|(a, b)| (a.iter().filter(|x| **x).count(), b.iter().filter(|x| **x).count())).collect::<Vec<_>>());
    let combos = Arc::new(combos);
    let c2 = combos.clone();
    let (ctx, srx) = mpsc::channel::<()>();
    let ses = session(
        1337,
        Duration::from_secs(20),
        move |srv| {
            if !handshake(srv, &St::idle(1)) {
                return false;
            }
            for (i, (a, b)) in c2.iter().enumerate() {
                let mut st = St::idle(2 + i as u64);
                st.errors = *a;
                st.reflex = *b;
                srv.send_udp(&st.encode());
                if srx.recv_timeout(Duration::from_secs(5)).is_err() {
                    return false;
                }
            }
            true
        },
        move |addr| {
            let mut rob = Robot::new(addr, RealtimeConfig::Ignore, None).map_err(|e| format!("connect: {:?}", e))?;
            let mut out = vec![];
            let k = n + 1;
            rob.read(|st| {
                out.push(st.clone());
                ctx.send(()).ok();
                out.len() < k
            })
            .map_err(|e| format!("read: {:?}", e))?;
            Ok::<_, String>(out)
        },
    );
    let states = match ses.client {
        ClientEnd::Done(Ok(x)) => x,
        ClientEnd::Done(Err(e)) => return timing(format!("{}: {}", desc, e)),
        ClientEnd::Panic(p) => return Outcome { verdict: Verdict::Fail(format!("panic: {}", p)), nontrivial: true, labels: vec![], sample: None },
        ClientEnd::Hang => return timing(format!("{}: did not return", desc)),
    };
    let mut j = Judge::default();
    let all: Vec<FrankaError> = states[0].current_errors.franka_errors.clone();
    j.check(all.len() == 41, || format!("all 41 flags set, {} errors", all.len()));
    for (st, (a, b)) in states.iter().zip(combos.iter()) {
        judge_flags(&mut j, "current_errors", &st.current_errors, a, &all);
        judge_flags(&mut j, "last_motion_errors", &st.last_motion_errors, b, &all);
    }
    let nt = combos[1..].iter().any(|(a, b)| a != b && (a.contains(&true) || b.contains(&true)));
    Outcome { verdict: j.verdict(), nontrivial: nt, labels: vec![("flag combinations", 2 * combos.len() as u64)], sample: Some(desc) }
}

/// Every flag alone, once as current error and once as reflex reason (exhaustive).
fn c22_single(s: &mut Src) -> Outcome {
    let i = s.below(82) as usize;
    let mut st = St::idle(2);
    let k = i % 41;
    if i < 41 {
        st.errors[k] = true;
    } else {
        st.reflex[k] = true;
    }
    let st2 = st.clone();
    let ses = session(
        1337,
        Duration::from_secs(20),
        move |srv| {
            if handshake(srv, &St::idle(1)) {
                srv.send_udp(&st2.encode());
                srv.next(Duration::from_secs(3));
            }
        },
        move |addr| {
            let mut rob = Robot::new(addr, RealtimeConfig::Ignore, None).map_err(|e| format!("connect: {:?}", e))?;
            let mut out = None;
            rob.read(|st| {
                out = Some(st.clone());
                false
            })
            .map_err(|e| format!("read: {:?}", e))?;
            out.ok_or_else(|| "no state".to_string())
        },
    );
    let mut j = Judge::default();
    match ses.client {
        ClientEnd::Done(Ok(x)) => {
            judge_flags(&mut j, "current_errors", &x.current_errors, &st.errors, &[]);
            judge_flags(&mut j, "last_motion_errors", &x.last_motion_errors, &st.reflex, &[]);
        }
        ClientEnd::Done(Err(e)) => return timing(e),
        ClientEnd::Panic(p) => j.fail(format!("panic: {}", p)),
        ClientEnd::Hang => return timing("did not return".into()),
    }
    Outcome { verdict: j.verdict(), nontrivial: true, labels: vec![(ERROR_NAMES[k], 1)], sample: Some(format!("flag {} alone as {}", ERROR_NAMES[k], if i < 41 { "current error" } else { "reflex reason" })) }
}

pub fn c22() -> Prop {
    Prop {
        id: "C22",
        level: "exploration",
        rule: "batches of state datagrams with generated combinations of the 2x41 flags (none, one, two, all but one, random), plus single flags drawn from all 82; the reported errors, membership queries for all 41 errors and the displayed list are compared with the flag order of the protocol. Non-trivial: some flag set and current errors different from reflex reasons.",
        assumptions: &["flag order as documented by the franka control interface"],
        subs: vec![
            Sub { name: "single", quick: 30_000, thorough: 200_000, par: 8, f: c22_single },
            Sub { name: "combinations", quick: 200_000, thorough: 1_500_000, par: 8, f: c22_case },
        ],
    }
}
