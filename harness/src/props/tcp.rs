//! C12, C13, C15, C16: requests and responses of the robot and the gripper connection.
use super::states::{handshake, Damage};
use crate::ctl::*;
use crate::engine::*;
use crate::net::*;
use crate::wire::*;
use franka::{Gripper, GripperState, RealtimeConfig, Robot};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{mpsc, Arc};
use std::time::{Duration, Instant};

pub fn timing(m: String) -> Outcome {
    Outcome { verdict: Verdict::FailTiming(m), nontrivial: false, labels: vec![], sample: None }
}

// ---- gripper wire ----------------------------------------------------------------------------
pub const G_CONNECT: u32 = 0;
pub const G_HOMING: u32 = 1;
pub const G_GRASP: u32 = 2;
pub const G_MOVE: u32 = 3;
pub const G_STOP: u32 = 4;

#[derive(Clone, Debug)]
pub struct GSt {
    pub id: u32,
    pub width: f64,
    pub max_width: f64,
    pub grasped: bool,
    pub temperature: u16,
}
impl GSt {
    pub fn gen(id: u32, salt: u64) -> GSt {
        let mut r = Rng::new(mix(salt, id as u64));
        let f = |r: &mut Rng| match r.next() % 4 {
            0 => f64::from_bits(r.next()),
            1 => 0.0,
            _ => (r.next() % 100_000) as f64 / 1e6,
        };
        GSt { id, width: f(&mut r), max_width: f(&mut r), grasped: r.next() % 2 == 0, temperature: r.next() as u16 }
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut w = W::new();
        w.u32(self.id).f64(self.width).f64(self.max_width).u8(self.grasped as u8).u16(self.temperature);
        w.0
    }
    pub fn diff(&self, s: &GripperState) -> Result<(), String> {
        let ok = self.width.to_bits() == s.width.to_bits()
            && self.max_width.to_bits() == s.max_width.to_bits()
            && self.grasped == s.is_grasped
            && self.temperature == s.temperature
            && s.time == Duration::from_millis(self.id as u64);
        if ok {
            Ok(())
        } else {
            Err(format!("gripper sent {:?}, state is {:?}", self, s))
        }
    }
}

pub fn gripper_handshake(srv: &mut Srv, status: u16, version: u16) -> Option<Req> {
    if !srv.accept(Duration::from_secs(5)) {
        return None;
    }
    let r = srv.next_req(Duration::from_secs(5))?;
    if r.cmd != G_CONNECT || r.body.len() != 4 {
        return None;
    }
    let mut b = R(&r.body);
    b.u16();
    srv.set_client_udp(b.u16());
    let mut w = W::new();
    w.u16(status).u16(version);
    srv.send_tcp(&gripper_frame(0, r.id, &w.0));
    Some(r)
}

// ---- the calls -------------------------------------------------------------------------------
#[derive(Clone, Debug)]
pub enum Call {
    Coll(Box<[[f64; 7]; 4]>, Box<[[f64; 6]; 4]>),
    JImp([f64; 7]),
    CImp([f64; 6]),
    Guide([bool; 6], bool),
    K([f64; 16]),
    EE([f64; 16]),
    Load(f64, [f64; 3], [f64; 9]),
    Filters([f64; 5]),
    Aer,
    Stop,
    Wall(i32),
    Default,
    /// a short successful motion (so many commands) in between
    Motion(u8),
    Read,
    GMove(f64, f64),
    GHoming,
    GStop,
    GGrasp(f64, f64, f64, Option<f64>, Option<f64>),
}
#[derive(Debug)]
pub enum Got {
    Unit,
    Flag(bool),
    Wall(i32, [f64; 3], [f64; 16], bool),
}
pub enum Client {
    Robot(Box<Robot>),
    Gripper(Box<Gripper>),
}

fn val(s: &mut Src) -> f64 {
    s.any_bits()
}

impl Call {
    pub fn gen(s: &mut Src, gripper: bool) -> Call {
        if gripper {
            return match s.below(4) {
                0 => Call::GMove(val(s), val(s)),
                1 => Call::GHoming,
                2 => Call::GStop,
                _ => {
                    let (a, b, c) = (val(s), val(s), val(s));
                    let e1 = if s.bool() { Some(val(s)) } else { None };
                    let e2 = if s.bool() { Some(val(s)) } else { None };
                    Call::GGrasp(a, b, c, e1, e2)
                }
            };
        }
        match s.below(14) {
            12 => Call::Motion(s.below(3) as u8),
            13 => Call::Read,
            0 => Call::Aer,
            1 => Call::Stop,
            2 => {
                let id = match s.below(3) {
                    0 => s.below(20) as i32,
                    1 => -(s.below(20) as i32),
                    _ => s.u64() as i32,
                };
                Call::Wall(id)
            }
            3 => Call::JImp(s.arr(val)),
            4 => Call::CImp(s.arr(val)),
            5 => {
                let m = s.below(128);
                let mut g = [false; 6];
                for (i, x) in g.iter_mut().enumerate() {
                    *x = m >> i & 1 == 1;
                }
                Call::Guide(g, m >> 6 == 1)
            }
            6 => Call::K(s.arr(val)),
            7 => Call::EE(s.arr(val)),
            8 => Call::Load(val(s), s.arr(val), s.arr(val)),
            9 => Call::Filters(s.arr(val)),
            10 => Call::Default,
            _ => {
                let a = [s.arr(val), s.arr(val), s.arr(val), s.arr(val)];
                let b = [s.arr(val), s.arr(val), s.arr(val), s.arr(val)];
                Call::Coll(Box::new(a), Box::new(b))
            }
        }
    }
    /// the requests this call has to send, one per part
    pub fn requests(&self) -> Vec<(u32, Vec<u8>)> {
        let one = |c: u32, f: &dyn Fn(&mut W)| {
            let mut w = W::new();
            f(&mut w);
            vec![(c, w.0)]
        };
        match self {
            Call::Coll(t, f) => one(SET_COLLISION_BEHAVIOR, &|w| {
                for x in t.iter() {
                    w.f64s(x);
                }
                for x in f.iter() {
                    w.f64s(x);
                }
            }),
            Call::JImp(k) => one(SET_JOINT_IMPEDANCE, &|w| {
                w.f64s(k);
            }),
            Call::CImp(k) => one(SET_CARTESIAN_IMPEDANCE, &|w| {
                w.f64s(k);
            }),
            Call::Guide(g, n) => one(SET_GUIDING_MODE, &|w| {
                for b in g {
                    w.u8(*b as u8);
                }
                w.u8(*n as u8);
            }),
            Call::K(m) => one(SET_EE_TO_K, &|w| {
                w.f64s(m);
            }),
            Call::EE(m) => one(SET_NE_TO_EE, &|w| {
                w.f64s(m);
            }),
            Call::Load(m, c, i) => one(SET_LOAD, &|w| {
                w.f64(*m).f64s(c).f64s(i);
            }),
            Call::Filters(f) => one(SET_FILTERS, &|w| {
                w.f64s(f);
            }),
            Call::Aer => one(AUTOMATIC_ERROR_RECOVERY, &|_| {}),
            Call::Stop => one(STOP_MOVE, &|_| {}),
            Call::Wall(id) => one(GET_CARTESIAN_LIMIT, &|w| {
                w.u32(*id as u32);
            }),
            Call::Default => {
                // the values of the documented default behaviour
                let t = [[20.; 7], [20.; 7], [10.; 7], [10.; 7]];
                let f = [[20.; 6], [20.; 6], [10.; 6], [10.; 6]];
                let mut v = Call::Coll(Box::new(t), Box::new(f)).requests();
                v.extend(Call::JImp([3000., 3000., 3000., 2500., 2500., 2000., 2000.]).requests());
                v.extend(Call::CImp([3000., 3000., 3000., 300., 300., 300.]).requests());
                v
            }
            Call::Motion(_) => one(MOVE, &|w| {
                w.u32(0).u32(0);
                for _ in 0..2 {
                    w.f64(10.0).f64(3.12).f64(2.0 * std::f64::consts::PI);
                }
            }),
            Call::Read => vec![],
            Call::GMove(a, b) => one(G_MOVE, &|w| {
                w.f64(*a).f64(*b);
            }),
            Call::GHoming => one(G_HOMING, &|_| {}),
            Call::GStop => one(G_STOP, &|_| {}),
            Call::GGrasp(width, speed, force, i, o) => one(G_GRASP, &|w| {
                w.f64(*width).f64(i.unwrap_or(0.005)).f64(o.unwrap_or(0.005)).f64(*speed).f64(*force);
            }),
        }
    }
    pub fn statuses(&self) -> u64 {
        match self {
            Call::Aer => 6,
            Call::Stop => 5,
            Call::Motion(_) | Call::Read => 1,
            Call::GMove(..) | Call::GHoming | Call::GStop | Call::GGrasp(..) => 4,
            _ => 3,
        }
    }
    pub fn gripper(&self) -> bool {
        matches!(self, Call::GMove(..) | Call::GHoming | Call::GStop | Call::GGrasp(..))
    }
    /// what the error text has to mention for a status other than success
    fn reason(&self, status: u8) -> &'static [&'static str] {
        match self {
            Call::Aer => [&["" as &str] as &[&str], &["not possible"], &["manual"], &["reflex"], &["user stop", "emergency"], &["aborted"]][status as usize],
            Call::Stop => [&["" as &str] as &[&str], &["not possible"], &["user stop", "emergency"], &["reflex"], &["abort", "reject"]][status as usize],
            c if c.gripper() => [&["" as &str] as &[&str], &["fail"], &[""], &["abort"]][status as usize],
            _ => [&["" as &str] as &[&str], &["not possible"], &["invalid argument"]][status as usize],
        }
    }
    #[allow(deprecated)]
    pub fn run(&self, c: &mut Client) -> (Option<Got>, Res) {
        self.run_with(c, &mut |_, _| {})
    }
    /// `hook` gets every state that is delivered, and whether it is called from inside a motion.
    pub fn run_with(&self, c: &mut Client, hook: &mut dyn FnMut(&franka::RobotState, bool)) -> (Option<Got>, Res) {
        match c {
            Client::Robot(r) => {
                let unit = |x: franka::FrankaResult<()>| {
                    let (a, b) = res_of(x);
                    (a.map(|_| Got::Unit), b)
                };
                match self {
                    Call::Coll(t, f) => unit(r.set_collision_behavior(t[0], t[1], t[2], t[3], f[0], f[1], f[2], f[3])),
                    Call::JImp(k) => unit(r.set_joint_impedance(*k)),
                    Call::CImp(k) => unit(r.set_cartesian_impedance(*k)),
                    Call::Guide(g, n) => unit(r.set_guiding_mode(*g, *n)),
                    Call::K(m) => unit(r.set_K(*m)),
                    Call::EE(m) => unit(r.set_EE(*m)),
                    Call::Load(m, c, i) => unit(r.set_load(*m, *c, *i)),
                    Call::Filters(f) => unit(r.set_filters(f[0], f[1], f[2], f[3], f[4])),
                    Call::Aer => unit(r.automatic_error_recovery()),
                    Call::Stop => unit(r.stop()),
                    Call::Default => unit(r.set_default_behavior()),
                    Call::Read => unit(r.read_once().map(|st| hook(&st, false))),
                    Call::Motion(n) => {
                        let mut k = 0;
                        unit(r.control_joint_positions(
                            |st: &franka::RobotState, _: &Duration| {
                                use franka::Finishable;
                                hook(st, true);
                                k += 1;
                                let mut o = franka::JointPositions::new(st.q_d);
                                o.set_motion_finished(k > *n);
                                o
                            },
                            None,
                            None,
                            None,
                        ))
                    }
                    Call::Wall(id) => {
                        let (a, b) = res_of(r.get_virtual_wall(*id));
                        (a.map(|w| Got::Wall(w.id, w.object_world_size, w.p_frame, w.active)), b)
                    }
                    _ => unreachable!(),
                }
            }
            Client::Gripper(g) => {
                let (a, b) = res_of(match self {
                    Call::GMove(a, b) => g.move_gripper(*a, *b),
                    Call::GHoming => g.homing(),
                    Call::GStop => g.stop(),
                    Call::GGrasp(a, b, c, d, e) => g.grasp(*a, *b, *c, *d, *e),
                    _ => unreachable!(),
                });
                (a.map(Got::Flag), b)
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct Wall {
    pub size: [f64; 3],
    pub frame: [f64; 16],
    pub active: bool,
}
/// How the answers to one call are put on the wire.
#[derive(Clone, Debug, Default)]
pub struct Delivery {
    /// unrelated frames before the answer: (id seed, body length)
    pub before: Vec<(u64, usize)>,
    /// unrelated frames after the answer, and how many of their bytes are sent with it
    pub after: Vec<(u64, usize)>,
    pub with: usize,
    /// lengths of the pieces (the last piece takes the rest) and the pause after each
    pub cuts: Vec<(usize, u64)>,
}
#[derive(Clone, Debug)]
pub struct Planned {
    pub call: Call,
    /// status per part
    pub status: Vec<u8>,
    pub wall: Wall,
    pub delivery: Delivery,
}
impl Planned {
    pub fn gen(s: &mut Src, gripper: bool, fragment: bool) -> Planned {
        let call = Call::gen(s, gripper);
        let n = call.requests().len();
        let st = call.statuses();
        let mut status = vec![];
        for _ in 0..n {
            status.push(if n > 1 && !s.chance(1, 3) { 0 } else { s.below(st) as u8 });
        }
        let wall = if matches!(call, Call::Wall(_)) {
            Wall { size: s.arr(val), frame: s.arr(val), active: s.bool() }
        } else {
            Wall { size: [0.; 3], frame: [0.; 16], active: false }
        };
        let delivery = if fragment { Delivery::gen(s) } else { Delivery::default() };
        Planned { call, status, wall, delivery }
    }
    pub fn body(&self, part: usize) -> Vec<u8> {
        let st = self.status.get(part).copied().unwrap_or(0);
        let mut w = W::new();
        if self.call.gripper() {
            w.u16(st as u16);
        } else {
            w.u8(st);
            if matches!(self.call, Call::Wall(_)) {
                w.f64s(&self.wall.size).f64s(&self.wall.frame).u8(self.wall.active as u8);
            }
        }
        w.0
    }
}
impl Delivery {
    pub fn gen(s: &mut Src) -> Delivery {
        let frames = |s: &mut Src| {
            let n = s.weighted(&[5, 3, 1, 1]);
            (0..n)
                .map(|_| {
                    let len = match s.weighted(&[4, 3, 2, 1]) {
                        0 => s.usize(0, 4),
                        1 => s.usize(0, 200),
                        2 => s.usize(200, 9000),
                        _ => s.usize(60_000, 160_000),
                    };
                    (s.u64(), len)
                })
                .collect::<Vec<_>>()
        };
        let before = frames(s);
        let after = frames(s);
        let with = match s.below(4) {
            0 => 0,
            1 => s.usize(0, 14),
            2 => s.usize(0, 300),
            _ => usize::MAX,
        };
        let n = s.weighted(&[2, 3, 2, 2, 1]);
        let mut cuts = vec![];
        for _ in 0..[0, 1, 2, 5, 14][n] {
            let len = match s.below(4) {
                0 => 1,
                1 => s.usize(1, 12),
                2 => s.usize(1, 60),
                _ => s.usize(1, 20_000),
            };
            let pause = match s.weighted(&[3, 3, 2, 1]) {
                0 => 0,
                1 => 100,
                2 => 1000,
                _ => 12_000,
            };
            cuts.push((len, pause));
        }
        Delivery { before, after, with, cuts }
    }
    pub fn trivial(&self) -> bool {
        self.before.is_empty() && self.after.is_empty() && self.cuts.is_empty()
    }
}
/// An unrelated response; its id belongs to no request the client will ever wait for.
fn unrelated(gripper: bool, seed: u64, len: usize, old: &[u32]) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let id = if !old.is_empty() && seed % 3 == 0 { old[(seed >> 8) as usize % old.len()] } else { 0x4000_0000 | (r.next() as u32 >> 2) };
    let body: Vec<u8> = (0..len).map(|_| r.next() as u8).collect();
    if gripper {
        gripper_frame((seed >> 4) as u16 % 5, id, &body)
    } else {
        robot_frame((seed >> 4) as u32 % 14, id, &body)
    }
}

/// The sending side of a byte stream with leftovers.
#[derive(Default)]
pub struct Stream {
    pub rest: Vec<u8>,
}
impl Stream {
    /// Sends `answer` (and what has to go before it) cut as planned; returns when it was complete.
    pub fn deliver(&mut self, srv: &mut Srv, d: &Delivery, answer: &[u8], old: &[u32], mut between: impl FnMut(&mut Srv)) -> Instant {
        let g = srv.gripper;
        let mut out = std::mem::take(&mut self.rest);
        for (seed, len) in &d.before {
            out.extend(unrelated(g, *seed, *len, old));
        }
        out.extend_from_slice(answer);
        let must = out.len();
        let mut tail = vec![];
        for (seed, len) in &d.after {
            tail.extend(unrelated(g, *seed, *len, old));
        }
        let k = d.with.min(tail.len());
        out.extend_from_slice(&tail[..k]);
        self.rest = tail[k..].to_vec();
        let mut pos = 0;
        let mut complete = Instant::now();
        for (len, pause) in &d.cuts {
            if pos >= out.len() {
                break;
            }
            let e = (pos + len).min(out.len());
            srv.send_tcp(&out[pos..e]);
            pos = e;
            if pos < must || complete.elapsed() < Duration::ZERO {
                complete = Instant::now();
            }
            between(srv);
            if *pause > 0 {
                std::thread::sleep(Duration::from_micros(*pause));
            }
        }
        if pos < out.len() {
            srv.send_tcp(&out[pos..]);
            if pos < must {
                complete = Instant::now();
            }
        }
        complete
    }
}

/// A joint position motion that succeeds.
fn marked(id: u64, marker: f64) -> St {
    let mut st = St::idle(id);
    st.q = [marker; 7];
    st.q_d = [marker; 7];
    st
}
fn mini_motion(srv: &mut Srv, stream: &mut Stream, sid: &mut u64, id: u32, marker: f64, sent: &mut Vec<Cmd>) {
    stream.deliver(srv, &Delivery::default(), &robot_frame(MOVE, id, &[MS_STARTED]), &[], |_| {});
    let t0 = Instant::now();
    let mut cmds = 0;
    let mut last = Instant::now() - Duration::from_secs(1);
    while !srv.gone() && t0.elapsed() < Duration::from_secs(5) {
        if last.elapsed() > Duration::from_micros(if cmds == 0 { 300 } else { 200_000 }) {
            *sid += 1;
            srv.send_udp(&marked(*sid, marker).modes(MG_JP, CM_JI, RM_MOVE).encode());
            last = Instant::now();
        }
        match srv.next(Duration::from_micros(300)) {
            In::Cmd(c) => {
                cmds += 1;
                let end = c.finished;
                sent.push(c);
                if end {
                    break;
                }
                *sid += 1;
                srv.send_udp(&marked(*sid, marker).modes(MG_JP, CM_JI, RM_MOVE).encode());
                last = Instant::now();
            }
            In::Closed => return,
            _ => {}
        }
    }
    *sid += 1;
    srv.send_udp(&marked(*sid, marker).encode());
    stream.deliver(srv, &Delivery::default(), &robot_frame(MOVE, id, &[MS_SUCCESS]), &[], |_| {});
}

pub struct Seen {
    /// per call: the requests that arrived while it was running
    pub reqs: Vec<(usize, Req)>,
    /// when the last answer to call k was complete
    pub complete: Vec<Option<Instant>>,
    pub extra_bytes: usize,
    pub connect: Option<Req>,
    pub cmds: Vec<Cmd>,
}
pub struct Done {
    pub results: Vec<(Option<Got>, Res, Instant)>,
    pub connect: Res,
    pub version: u16,
}

/// The server of these calls. `cur` tells which of them is running.
pub fn serve_calls(srv: &mut Srv, plan: &[Planned], cur: &AtomicUsize, gripper: bool, version: u16, greet: &Delivery, marker: f64, first: u64) -> Seen {
    let mut seen = Seen { reqs: vec![], complete: vec![None; plan.len()], extra_bytes: 0, connect: None, cmds: vec![] };
    if !srv.accept(Duration::from_secs(5)) {
        return seen;
    }
    let mut stream = Stream::default();
    let mut old: Vec<u32> = vec![];
    match srv.next_req(Duration::from_secs(5)) {
        Some(r) if r.cmd == CONNECT && r.body.len() == 4 => {
            let mut b = R(&r.body);
            b.u16();
            srv.set_client_udp(b.u16());
            let mut w = W::new();
            let ans = if gripper {
                w.u16(0).u16(version);
                gripper_frame(0, r.id, &w.0)
            } else {
                w.u8(0).u16(version);
                robot_frame(CONNECT, r.id, &w.0)
            };
            stream.deliver(srv, greet, &ans, &old, |_| {});
            if !gripper {
                srv.send_udp(&marked(first, marker).encode());
            }
            old.push(r.id);
            seen.connect = Some(r);
        }
        _ => return seen,
    }
    let mut part = (usize::MAX, 0usize);
    let mut sid = first;
    loop {
        let wait = match plan.get(cur.load(Ordering::SeqCst)) {
            Some(p) if matches!(p.call, Call::Read) => Duration::from_micros(500),
            _ => Duration::from_millis(if gripper { 50 } else { 3 }),
        };
        match srv.next(wait) {
            In::Req(r) if r.cmd == MOVE && !gripper => {
                seen.reqs.push((cur.load(Ordering::SeqCst), r.clone()));
                mini_motion(srv, &mut stream, &mut sid, r.id, marker, &mut seen.cmds);
            }
            In::Timeout if !gripper && !srv.gone() => {
                sid += 1;
                srv.send_udp(&marked(sid, marker).encode());
            }
            In::Req(r) => {
                let k = cur.load(Ordering::SeqCst);
                if part.0 != k {
                    part = (k, 0);
                }
                if let Some(p) = plan.get(k) {
                    let body = p.body(part.1);
                    part.1 += 1;
                    let ans = if gripper { gripper_frame(r.cmd as u16, r.id, &body) } else { robot_frame(r.cmd, r.id, &body) };
                    let t = stream.deliver(srv, &p.delivery, &ans, &old, |_| {});
                    seen.complete[k] = Some(t);
                }
                old.push(r.id);
                seen.reqs.push((k, r));
            }
            In::Closed => break,
            In::Timeout if srv.gone() => break,
            _ => {}
        }
    }
    seen.extra_bytes = srv.residue();
    seen
}
pub fn connect_calls(addr: &str, gripper: bool, d: &mut Done) -> Option<Client> {
    if gripper {
        match Gripper::new(addr) {
            Ok(g) => {
                d.version = g.server_version();
                Some(Client::Gripper(Box::new(g)))
            }
            Err(e) => {
                d.connect = err_of(e);
                None
            }
        }
    } else {
        match Robot::new(addr, RealtimeConfig::Ignore, None) {
            Ok(r) => {
                d.version = r.server_version();
                Some(Client::Robot(Box::new(r)))
            }
            Err(e) => {
                d.connect = err_of(e);
                None
            }
        }
    }
}

/// Runs the planned calls on one connection. `reads`: the robot also streams states (ids 2..).
pub fn run_calls(plan: Arc<Vec<Planned>>, gripper: bool, version: u16, greet: Delivery) -> Result<(Done, Seen), String> {
    let cur = Arc::new(AtomicUsize::new(usize::MAX));
    let (cur_s, plan_s) = (cur.clone(), plan.clone());
    let s = session(
        if gripper { 1338 } else { 1337 },
        Duration::from_secs(12 + plan.len() as u64 / 1000),
        move |srv| serve_calls(srv, &plan_s, &cur_s, gripper, version, &greet, 0.0, 1),
        move |addr| {
            let mut d = Done { results: vec![], connect: Res::Ok, version: 0 };
            let mut c = match connect_calls(addr, gripper, &mut d) {
                Some(c) => c,
                None => return d,
            };
            for (k, p) in plan.iter().enumerate() {
                cur.store(k, Ordering::SeqCst);
                let (g, r) = p.call.run(&mut c);
                d.results.push((g, r, Instant::now()));
            }
            d
        },
    );
    let c = match s.client {
        ClientEnd::Done(c) => c,
        ClientEnd::Panic(p) => return Err(format!("!a call panicked: {}", p)),
        ClientEnd::Hang => return Err("a call did not return within 12 s although its response was sent".into()),
    };
    let srv = s.server.ok_or(format!("harness server failed: {:?}", s.server_panic))?;
    Ok((c, srv))
}

pub fn judge_calls(j: &mut Judge, plan: &[Planned], d: &Done, seen: &Seen, gripper: bool, version: u16) {
    if !matches!(d.connect, Res::Ok) {
        j.fail(format!("connecting failed although the server accepted: {}", d.connect.brief()));
        return;
    }
    j.check(d.version == version, || format!("server_version() is {}, the server reported {}", d.version, version));
    let hl = if gripper { 10 } else { 12 };
    let mut ids = std::collections::HashSet::new();
    if let Some(c) = &seen.connect {
        ids.insert(c.id);
    }
    for (k, r) in &seen.reqs {
        j.check(ids.insert(r.id), || format!("call {}: command id {} was used before", k, r.id));
        j.check(r.size as usize == hl + r.body.len(), || format!("call {}: size field {} with a body of {} bytes", k, r.size, r.body.len()));
    }
    j.check(seen.extra_bytes == 0, || format!("{} bytes that belong to no request", seen.extra_bytes));
    let mut of_call: std::collections::HashMap<usize, Vec<&Req>> = Default::default();
    for (i, r) in &seen.reqs {
        of_call.entry(*i).or_default().push(r);
    }
    for (k, p) in plan.iter().enumerate() {
        let got = of_call.remove(&k).unwrap_or_default();
        let want = p.call.requests();
        // a composite call stops at the first part that fails
        let fail = (0..want.len()).find(|i| p.status[*i] != 0);
        let n = fail.map(|i| i + 1).unwrap_or(want.len());
        j.check(got.len() == n, || format!("call {} ({:?}): {} requests, expected {}", k, p.call, got.len(), n));
        for (i, r) in got.iter().enumerate().take(n) {
            j.check(r.cmd == want[i].0, || format!("call {} ({:?}): command number {}, expected {}", k, p.call, r.cmd, want[i].0));
            j.check(r.body == want[i].1, || format!("call {} ({:?}): payload {:02x?}, expected {:02x?}", k, p.call, r.body, want[i].1));
        }
        let (g, r, at) = match d.results.get(k) {
            Some(x) => (&x.0, &x.1, x.2),
            None => {
                j.fail(format!("call {} has no result", k));
                return;
            }
        };
        let what = || format!("call {} ({:?}) answered with status {:?}: result {:?} {}", k, p.call, p.status, g, r.brief());
        match fail {
            None => {
                let ok = match (g, &p.call) {
                    (Some(Got::Wall(id, size, frame, act)), Call::Wall(want)) => {
                        id == want && bits_eq(size, &p.wall.size) && bits_eq(frame, &p.wall.frame) && *act == p.wall.active
                    }
                    (Some(Got::Flag(b)), c) if c.gripper() => *b,
                    (Some(Got::Unit), c) => !c.gripper() && !matches!(c, Call::Wall(_)),
                    _ => false,
                };
                j.check(ok, || format!("{} (wall sent: {:?})", what(), p.wall));
            }
            Some(i) if p.call.gripper() && p.status[i] == 2 => {
                j.check(matches!(g, Some(Got::Flag(false))), what);
            }
            Some(i) => match r {
                Res::Command(m) => {
                    let m = m.to_lowercase();
                    let words = p.call.reason(p.status[i]);
                    j.check(words.iter().any(|w| m.contains(w)), || format!("{}: the message does not describe the status", what()));
                }
                _ => {
                    j.fail(what());
                }
            },
        }
        if let Some(t) = seen.complete[k] {
            let late = at.saturating_duration_since(t);
            if late > Duration::from_millis(1500) {
                j.timing(format!("call {} returned {:?} after its response was complete", k, late));
            }
        }
    }
}

fn calls_case(s: &mut Src, gripper: bool, fragment: bool) -> Outcome {
    let n = 1 + s.weighted(&[1, 2, 3, 2, 2, 1, 1]) * if fragment { 1 } else { 2 };
    calls_of(s, gripper, fragment, n, n)
}
/// Thousands of calls over one connection: a few dozen generated ones, again and again.
fn many_calls(s: &mut Src, gripper: bool, fragment: bool) -> Outcome {
    let n = if fragment {
        s.usize(100, 400)
    } else {
        match s.below(8) {
            0 => s.usize(65_530, 66_500),
            _ => s.usize(250, 3000),
        }
    };
    let distinct = if fragment { s.usize(20, 60) } else { s.usize(1, 40) };
    calls_of(s, gripper, fragment, n, distinct)
}
fn calls_of(s: &mut Src, gripper: bool, fragment: bool, n: usize, distinct: usize) -> Outcome {
    let version = if s.bool() { s.u64() as u16 } else { if gripper { 3 } else { 5 } };
    let greet = if fragment && s.bool() { Delivery::gen(s) } else { Delivery::default() };
    let mut plan = vec![];
    for _ in 0..distinct {
        plan.push(Planned::gen(s, gripper, fragment));
    }
    if n > 10_000 {
        // these take too long
        plan.retain(|p| !matches!(p.call, Call::Motion(_) | Call::Read));
        if plan.is_empty() {
            plan.push(Planned { call: if gripper { Call::GStop } else { Call::Stop }, status: vec![0], wall: Wall { size: [0.; 3], frame: [0.; 16], active: false }, delivery: Delivery::default() });
        }
    }
    let mut k = 0;
    while plan.len() < n {
        plan.push(plan[k].clone());
        k += 1;
    }
    let plan = Arc::new(plan);
    let what = format!("{} calls, {:?}", n, plan.iter().take(2).collect::<Vec<_>>());
    let (d, seen) = match run_calls(plan.clone(), gripper, version, greet.clone()) {
        Ok(x) => x,
        Err(e) => {
            return match e.strip_prefix('!') {
                Some(p) => Outcome { verdict: Verdict::Fail(format!("{}\ncase: {}", p, what)), nontrivial: false, labels: vec![], sample: Some(what) },
                None => timing(format!("{}\ncase: {}", e, what)),
            }
        }
    };
    let mut j = Judge::default();
    judge_calls(&mut j, &plan, &d, &seen, gripper, version);
    let failed = plan.iter().filter(|p| p.status.iter().any(|x| *x != 0)).count() as u64;
    let frag = plan.iter().filter(|p| !p.delivery.trivial()).count() as u64;
    let nontrivial = if fragment { frag > 0 } else { plan.iter().any(|p| !matches!(p.call, Call::GHoming | Call::GStop)) };
    let mut o = Outcome::pass(nontrivial).label("calls", n as u64).label("calls answered with a failure", failed).sample(what);
    if fragment {
        o = o
            .label("responses cut, joined or preceded by others", frag)
            .label("unrelated responses", plan.iter().map(|p| (p.delivery.before.len() + p.delivery.after.len()) as u64).sum())
            .label("segment boundaries", plan.iter().map(|p| p.delivery.cuts.len() as u64).sum());
    }
    o.verdict = j.verdict();
    o
}
fn c12_case(s: &mut Src) -> Outcome {
    calls_case(s, false, false)
}
fn c13_robot(s: &mut Src) -> Outcome {
    calls_case(s, false, true)
}
fn c13_gripper(s: &mut Src) -> Outcome {
    calls_case(s, true, true)
}
fn c16_calls(s: &mut Src) -> Outcome {
    calls_case(s, true, false)
}

// ---- C12: single statuses and arguments, one call per case ----------------------------------
/// Every call with every status, systematically (the case number chooses them).
fn c12_each(s: &mut Src) -> Outcome {
    // enumerate: kind x status of the part that fails
    let mut plan = vec![];
    let mut p = Planned::gen(s, false, false);
    let parts = p.status.len();
    let at = s.below(parts as u64 + 1) as usize;
    let st = s.below(p.call.statuses()) as u8;
    for (i, x) in p.status.iter_mut().enumerate() {
        *x = if i == at || parts == 1 { st } else { 0 };
    }
    plan.push(p.clone());
    // the same call again must be judged on its own response
    let mut q = p.clone();
    q.status = vec![s.below(q.call.statuses()) as u8; parts];
    plan.push(q);
    let plan = Arc::new(plan);
    let what = format!("{:?}", plan);
    let (d, seen) = match run_calls(plan.clone(), false, 5, Delivery::default()) {
        Ok(x) => x,
        Err(e) => {
            return match e.strip_prefix('!') {
                Some(m) => Outcome { verdict: Verdict::Fail(format!("{}\ncase: {}", m, what)), nontrivial: false, labels: vec![], sample: Some(what) },
                None => timing(format!("{}\ncase: {}", e, what)),
            }
        }
    };
    let mut j = Judge::default();
    judge_calls(&mut j, &plan, &d, &seen, false, 5);
    let mut o = Outcome::pass(true).label(
        match st {
            0 => "first call succeeds",
            _ => "first call fails",
        },
        1,
    );
    o = o.sample(what);
    o.verdict = j.verdict();
    o
}

pub fn c12() -> Prop {
    Prop {
        id: "C12",
        level: "exploration",
        rule: "a session with at least one call whose request has arguments or whose status is chosen; counted once per distinct choice sequence",
        assumptions: &[
            "the robot answers every request with a response of the documented layout and one of the documented statuses",
            "loopback TCP stands for the robot's network",
        ],
        subs: vec![
            Sub { name: "sequences", quick: 160_000, thorough: 900_000, par: 16, f: c12_case },
            Sub { name: "many", quick: 48, thorough: 1500, par: 8, f: |s| many_calls(s, false, false) },
            Sub { name: "repeated", quick: 120_000, thorough: 600_000, par: 16, f: c12_each },
        ],
    }
}

// ---- C13: responses of a motion --------------------------------------------------------------
#[derive(Clone, Debug)]
struct FragMotion {
    started: Delivery,
    end: Delivery,
    pending: usize,
    steps: usize,
    /// 0 = normal, 1 = aborted while starting, 2 = aborted while running
    fate: u8,
    status: u8,
    /// the final response is sent before the idle state
    first: bool,
}
fn c13_motion(s: &mut Src) -> Outcome {
    let n = 1 + s.below(3) as usize;
    let mut ms = vec![];
    for _ in 0..n {
        ms.push(FragMotion {
            started: Delivery::gen(s),
            end: Delivery::gen(s),
            pending: s.usize(0, 3),
            steps: s.usize(1, 6),
            fate: s.weighted(&[3, 2, 2]) as u8,
            status: s.pick(&[2u8, 6, 7, 8, 9]),
            first: s.bool(),
        });
    }
    let ms = Arc::new(ms);
    let m2 = ms.clone();
    let what = format!("{:?}", ms);
    let run = session(
        1337,
        Duration::from_secs(15),
        move |srv| -> Result<(), String> {
            let mut id = 1u64;
            if !handshake(srv, &St::idle(id)) {
                return Err("no handshake".into());
            }
            let mut stream = Stream::default();
            let mut old = vec![];
            for m in m2.iter() {
                // idle until the Move request; a Stop may come first
                let mv = loop {
                    match srv.next(Duration::from_millis(2)) {
                        In::Req(r) if r.cmd == MOVE => break r,
                        In::Req(r) => {
                            stream.deliver(srv, &m.end, &robot_frame(r.cmd, r.id, &[0]), &old, |_| {});
                            old.push(r.id);
                        }
                        In::Closed => return Ok(()),
                        In::Timeout => {
                            id += 1;
                            srv.send_udp(&St::idle(id).encode());
                        }
                        _ => {}
                    }
                    if srv.gone() {
                        return Ok(());
                    }
                };
                stream.deliver(srv, &m.started, &robot_frame(MOVE, mv.id, &[MS_STARTED]), &old, |_| {});
                let idle = |srv: &mut Srv, id: &mut u64| {
                    *id += 1;
                    srv.send_udp(&St::idle(*id).encode());
                };
                for _ in 0..m.pending {
                    idle(srv, &mut id);
                }
                let status = if m.fate == 0 { MS_SUCCESS } else { m.status };
                let fin = robot_frame(MOVE, mv.id, &[status]);
                if m.fate == 1 {
                    let cell = std::cell::Cell::new(id);
                    stream.deliver(srv, &m.end, &fin, &old, |srv| {
                        cell.set(cell.get() + 1);
                        srv.send_udp(&St::idle(cell.get()).encode());
                    });
                    id = cell.get();
                    idle(srv, &mut id);
                    continue;
                }
                // running
                let t0 = Instant::now();
                let mut k = 0;
                id += 1;
                srv.send_udp(&St::idle(id).modes(MG_JP, CM_JI, RM_MOVE).encode());
                let mut last = Instant::now();
                loop {
                    match srv.next(Duration::from_millis(1)) {
                        In::Cmd(c) => {
                            k += 1;
                            last = Instant::now();
                            if c.finished || (m.fate == 2 && k >= m.steps) {
                                break;
                            }
                            id += 1;
                            srv.send_udp(&St::idle(id).modes(MG_JP, CM_JI, RM_MOVE).encode());
                        }
                        In::Closed => return Ok(()),
                        In::Timeout => {
                            // one more state is needed to enter the loop; later each command is answered
                            if last.elapsed() > Duration::from_millis(if k == 0 { 1 } else { 300 }) {
                                id += 1;
                                srv.send_udp(&St::idle(id).modes(MG_JP, CM_JI, RM_MOVE).encode());
                                last = Instant::now();
                            }
                        }
                        _ => {}
                    }
                    if srv.gone() || t0.elapsed() > Duration::from_secs(10) {
                        return Err("motion does not proceed".into());
                    }
                }
                if m.first {
                    stream.deliver(srv, &m.end, &fin, &old, |_| {});
                    idle(srv, &mut id);
                } else {
                    idle(srv, &mut id);
                    stream.deliver(srv, &m.end, &fin, &old, |_| {});
                }
            }
            loop {
                match srv.next(Duration::from_millis(2)) {
                    In::Req(r) => {
                        stream.deliver(srv, &Delivery::default(), &robot_frame(r.cmd, r.id, &[0]), &old, |_| {});
                    }
                    In::Closed => break,
                    In::Timeout => {
                        id += 1;
                        srv.send_udp(&St::idle(id).encode());
                    }
                    _ => {}
                }
                if srv.gone() {
                    break;
                }
            }
            Ok(())
        },
        {
            let ms = ms.clone();
            move |addr| -> Vec<Res> {
                let mut out = vec![];
                let mut robot = match Robot::new(addr, RealtimeConfig::Ignore, None) {
                    Ok(r) => r,
                    Err(e) => return vec![err_of(e)],
                };
                for m in ms.iter() {
                    let mut k = 0usize;
                    let r = robot.control_joint_positions(
                        |st: &franka::RobotState, _: &Duration| {
                            use franka::Finishable;
                            k += 1;
                            let mut o = franka::JointPositions::new(st.q_d);
                            if m.fate != 2 && k > m.steps {
                                o.set_motion_finished(true);
                            }
                            o
                        },
                        None,
                        Some(false),
                        Some(franka::MAX_CUTOFF_FREQUENCY),
                    );
                    out.push(res_of(r).1);
                }
                out
            }
        },
    );
    let res = match run.client {
        ClientEnd::Done(r) => r,
        ClientEnd::Panic(p) => return Outcome { verdict: Verdict::Fail(format!("panicked: {}\ncase: {}", p, what)), nontrivial: false, labels: vec![], sample: Some(what) },
        ClientEnd::Hang => return timing(format!("a motion did not end although its response was sent\ncase: {}", what)),
    };
    match run.server {
        Some(Ok(())) => {}
        x => return timing(format!("robot side: {:?} {:?}, results {:?}", x, run.server_panic, res)),
    }
    let mut j = Judge::default();
    j.check(res.len() == ms.len(), || format!("{} results for {} motions: {:?}", res.len(), ms.len(), res));
    for (m, r) in ms.iter().zip(&res) {
        let ok = match (m.fate, r) {
            (0, Res::Ok) => true,
            (0, _) => false,
            (_, Res::Control { error, .. }) => super::motion::names_reason(error, m.status),
            _ => false,
        };
        j.check(ok, || format!("motion {:?} ended with {}", m, r.brief()));
    }
    let mut o = Outcome::pass(ms.iter().any(|m| !m.started.trivial() || !m.end.trivial()))
        .label("motions", ms.len() as u64)
        .label("aborted while starting", ms.iter().filter(|m| m.fate == 1).count() as u64)
        .label("aborted while running", ms.iter().filter(|m| m.fate == 2).count() as u64)
        .sample(what);
    o.verdict = j.verdict();
    o
}

/// A robot or gripper that takes its time: homing, moving and recovering last for seconds.
fn c13_slow(s: &mut Src) -> Outcome {
    let gripper = s.bool();
    let n = s.usize(1, 2);
    let mut plan = vec![];
    let mut late = vec![];
    for _ in 0..n {
        let p = loop {
            let p = Planned::gen(s, gripper, false);
            if !matches!(p.call, Call::Motion(_) | Call::Read) && p.call.requests().len() == 1 {
                break p;
            }
        };
        plan.push(p);
        late.push(match s.below(4) {
            0 => s.usize(20, 400) as u64,
            1 => s.usize(400, 1500) as u64,
            2 => s.usize(1500, 5000) as u64,
            _ => s.usize(5000, 9000) as u64,
        });
    }
    let halves = s.bool();
    let what = format!(
        "gripper {}, {:?}, answered after {:?} ms{}",
        gripper,
        plan.iter().map(|p| format!("{:?} with status {:?}", p.call, p.status)).collect::<Vec<_>>(),
        late,
        if halves { " in two halves" } else { "" }
    );
    let plan = Arc::new(plan);
    let (pl, la) = (plan.clone(), late.clone());
    let run = session(
        if gripper { 1338 } else { 1337 },
        Duration::from_secs(40),
        move |srv| -> bool {
            let ok = if gripper { gripper_handshake(srv, 0, 3).is_some() } else { super::states::handshake(srv, &St::idle(1)) };
            if !ok {
                return false;
            }
            for (p, ms) in pl.iter().zip(&la) {
                let r = match srv.next_req(Duration::from_secs(5)) {
                    Some(r) => r,
                    None => return false,
                };
                let body = p.body(0);
                let ans = if gripper { gripper_frame(r.cmd as u16, r.id, &body) } else { robot_frame(r.cmd, r.id, &body) };
                let k = ans.len() / 2;
                if halves {
                    srv.send_tcp(&ans[..k]);
                }
                let t0 = Instant::now();
                while t0.elapsed() < Duration::from_millis(*ms) && !srv.gone() {
                    std::thread::sleep(Duration::from_millis(2));
                }
                srv.send_tcp(if halves { &ans[k..] } else { &ans });
            }
            true
        },
        {
            let plan = plan.clone();
            move |addr| -> Result<Vec<(Res, Duration)>, Res> {
                let mut cl = if gripper {
                    Client::Gripper(Box::new(Gripper::new(addr).map_err(err_of)?))
                } else {
                    Client::Robot(Box::new(Robot::new(addr, RealtimeConfig::Ignore, None).map_err(err_of)?))
                };
                Ok(plan
                    .iter()
                    .map(|p| {
                        let t = Instant::now();
                        let r = p.call.run(&mut cl).1;
                        (r, t.elapsed())
                    })
                    .collect())
            }
        },
    );
    let res = match run.client {
        ClientEnd::Done(Ok(r)) => r,
        ClientEnd::Done(Err(e)) => return timing(format!("connecting failed: {}\n{}", e.brief(), what)),
        ClientEnd::Panic(p) => return Outcome { verdict: Verdict::Fail(format!("panicked: {}\n{}", p, what)), nontrivial: false, labels: vec![], sample: None },
        ClientEnd::Hang => return timing(format!("a call did not return within 40 s\n{}", what)),
    };
    let mut j = Judge::default();
    for ((p, ms), (r, t)) in plan.iter().zip(&late).zip(&res) {
        let good = if p.status[0] == 0 { matches!(r, Res::Ok) } else { !matches!(r, Res::Network(_)) };
        j.check(good, || format!("{:?} returned {} after {:?}\n{}", p.call, r.brief(), t, what));
        j.check(*t + Duration::from_millis(1) >= Duration::from_millis(*ms), || format!("{:?} returned {} after {:?}, before it was answered\n{}", p.call, r.brief(), t, what));
        if *t > Duration::from_millis(*ms + 1500) {
            j.timing(format!("{:?} returned after {:?}\n{}", p.call, t, what));
        }
    }
    let mut o = Outcome::pass(true).label("slow answers", n as u64).sample(what);
    o.verdict = j.verdict();
    o
}

pub fn c13() -> Prop {
    Prop {
        id: "C13",
        level: "exploration",
        rule: "a session in which at least one response was cut into several segments, sent together with others or preceded by unrelated ones; counted once per distinct choice sequence",
        assumptions: &[
            "unrelated responses carry ids of no pending or future request",
            "segment boundaries are produced by separate writes with TCP_NODELAY and pauses; the kernel may merge some of them",
            "prompt means within 1.5 s of the response being complete, judged only if it repeats",
        ],
        subs: vec![
            Sub { name: "robot", quick: 20_000, thorough: 200_000, par: 24, f: c13_robot },
            Sub { name: "gripper", quick: 12_000, thorough: 120_000, par: 24, f: c13_gripper },
            Sub { name: "motion", quick: 5000, thorough: 40_000, par: 24, f: c13_motion },
            Sub { name: "many", quick: 60, thorough: 2000, par: 12, f: |s| { let gripper = s.bool(); many_calls(s, gripper, true) } },
            Sub { name: "slow", quick: 256, thorough: 6000, par: 128, f: c13_slow },
        ],
    }
}

// ---- C15 -------------------------------------------------------------------------------------
fn ver(s: &mut Src, lib: u16) -> u16 {
    match s.below(4) {
        0 => lib,
        1 => lib.wrapping_add(1 + s.below(3) as u16),
        2 => lib.wrapping_sub(1 + s.below(3) as u16),
        _ => s.u64() as u16,
    }
}
fn c15_robot(s: &mut Src) -> Outcome {
    let version = ver(s, 5);
    let status = s.below(2) as u8;
    let first_id = if s.bool() { 1 } else { s.u64() >> 8 };
    let salt = s.u64();
    let early = s.bool();
    let rt = s.bool();
    let log = match s.below(3) {
        0 => None,
        _ => Some(s.usize(0, 100)),
    };
    let what = format!("robot version {} status {} first state {} state before response {}", version, status, first_id, early);
    let mk = move |id: u64| {
        let mut st = St::idle(id);
        let mut r = Rng::new(salt ^ id);
        st.fill(|_| (r.next() % 1000) as f64);
        st
    };
    let run = session(
        1337,
        Duration::from_secs(8),
        move |srv| {
            let mut conns = 0;
            if !srv.accept(Duration::from_secs(5)) {
                return (None, 0, conns);
            }
            conns += 1;
            let req = srv.next_req(Duration::from_secs(5));
            let r = match &req {
                Some(r) => r.clone(),
                None => return (None, srv.residue(), conns),
            };
            if r.body.len() == 4 {
                let mut b = R(&r.body);
                b.u16();
                srv.set_client_udp(b.u16());
            }
            let mut w = W::new();
            w.u8(status).u16(version);
            if early {
                srv.send_udp(&mk(first_id).encode());
            }
            srv.send_tcp(&robot_frame(CONNECT, r.id, &w.0));
            if !early {
                srv.send_udp(&mk(first_id).encode());
            }
            let mut id = first_id;
            while !srv.gone() {
                match srv.next(Duration::from_millis(1)) {
                    In::Timeout => {
                        id += 1;
                        srv.send_udp(&mk(id).encode());
                    }
                    In::Closed => break,
                    In::Req(_) => return (Some((r, true)), srv.residue(), conns),
                    _ => {}
                }
            }
            (Some((r, false)), srv.residue(), conns)
        },
        move |addr| {
            let cfg = if rt { RealtimeConfig::Enforce } else { RealtimeConfig::Ignore };
            match Robot::new(addr, cfg, log) {
                Ok(mut r) => {
                    let v = r.server_version();
                    let st = r.read_once();
                    let (a, b) = res_of(st);
                    (Res::Ok, v, a, Some(b))
                }
                Err(e) => (err_of(e), 0, None, None),
            }
        },
    );
    let (res, v, st, rd) = match run.client {
        ClientEnd::Done(x) => x,
        ClientEnd::Panic(p) => return Outcome { verdict: Verdict::Fail(format!("connecting panicked: {} ({})", p, what)), nontrivial: false, labels: vec![], sample: None },
        ClientEnd::Hang => return timing(format!("connecting did not return ({})", what)),
    };
    let mut j = Judge::default();
    match run.server {
        Some((Some((r, more)), left, _)) => {
            judge_connect(&mut j, &r, 5, 12);
            j.check(!more && left == 0, || "more than the connect request was sent".to_string());
        }
        _ => return timing(format!("no connect request ({}): {}", what, res.brief())),
    }
    if status == 0 {
        j.check(matches!(res, Res::Ok), || format!("connecting failed although the server accepted: {} ({})", res.brief(), what));
        if matches!(res, Res::Ok) {
            j.check(v == version, || format!("server_version() is {}, the server reported {}", v, version));
            match (st, rd) {
                (Some(st), _) => {
                    let id = st.time.as_millis() as u64;
                    if let Err(e) = mk(id).diff(&st) {
                        j.fail(format!("state after connecting: {}", e));
                    }
                }
                (None, rd) => j.timing(format!("no state received on the announced port: {:?}", rd)),
            }
        }
    } else {
        j.check(matches!(res, Res::Version(a, 5) if a == version), || format!("expected the incompatible-version error with server {} and library 5, got {}", version, res.brief()));
    }
    let mut o = Outcome::pass(version != 5 || status != 0).label(if status == 0 { "accepted" } else { "refused" }, 1).sample(what);
    o.verdict = j.verdict();
    o
}
fn judge_connect(j: &mut Judge, r: &Req, lib: u16, hl: u32) {
    j.check(r.cmd == CONNECT && r.body.len() == 4 && r.size == hl + 4, || format!("connect request {:?}", r));
    if r.body.len() == 4 {
        let mut b = R(&r.body);
        let v = b.u16();
        j.check(v == lib, || format!("announces version {}, expected {}", v, lib));
    }
}
fn c15_gripper(s: &mut Src) -> Outcome {
    let version = ver(s, 3);
    let status = s.below(4) as u16;
    let salt = s.u64();
    let what = format!("gripper version {} status {}", version, status);
    let run = session(
        1338,
        Duration::from_secs(8),
        move |srv| {
            let r = gripper_handshake(srv, status, version);
            let mut id = 0;
            let mut more = false;
            while !srv.gone() {
                match srv.next(Duration::from_millis(1)) {
                    In::Timeout => {
                        id += 1;
                        srv.send_udp(&GSt::gen(id, salt).encode());
                    }
                    In::Closed => break,
                    In::Req(_) => more = true,
                    _ => {}
                }
            }
            (r, more, srv.residue())
        },
        move |addr| match Gripper::new(addr) {
            Ok(mut g) => {
                let v = g.server_version();
                let (a, b) = res_of(g.read_once());
                (Res::Ok, v, a, Some(b))
            }
            Err(e) => (err_of(e), 0, None, None),
        },
    );
    let (res, v, st, rd) = match run.client {
        ClientEnd::Done(x) => x,
        ClientEnd::Panic(p) => return Outcome { verdict: Verdict::Fail(format!("connecting panicked: {} ({})", p, what)), nontrivial: false, labels: vec![], sample: None },
        ClientEnd::Hang => return timing(format!("connecting did not return ({})", what)),
    };
    let mut j = Judge::default();
    match run.server {
        Some((Some(r), more, left)) => {
            judge_connect(&mut j, &r, 3, 10);
            j.check(!more && left == 0, || "more than the connect request was sent".to_string());
        }
        _ => return timing(format!("no connect request ({}): {}", what, res.brief())),
    }
    if status == 0 {
        j.check(matches!(res, Res::Ok), || format!("connecting failed although the server accepted: {} ({})", res.brief(), what));
        if matches!(res, Res::Ok) {
            j.check(v == version, || format!("server_version() is {}, the server reported {}", v, version));
            match (st, rd) {
                (Some(st), _) => {
                    if let Err(e) = GSt::gen(st.time.as_millis() as u32, salt).diff(&st) {
                        j.fail(format!("state after connecting: {}", e));
                    }
                }
                (None, rd) => j.timing(format!("no state received on the announced port: {:?}", rd)),
            }
        }
    } else {
        j.check(matches!(res, Res::Version(a, 3) if a == version), || format!("expected the incompatible-version error with server {} and library 3, got {} ({})", version, res.brief(), what));
    }
    let mut o = Outcome::pass(version != 3 || status != 0).label(if status == 0 { "accepted" } else { "refused" }, 1).sample(what);
    o.verdict = j.verdict();
    o
}
/// Connections one after the other to the same address: each is closed when the object is dropped or
/// connecting fails, and nothing of it is left.
fn c15_release(s: &mut Src) -> Outcome {
    let gripper = s.bool();
    // 0 accepted, 1 refused, 2 closed by the peer before the answer, 3 dropped after a failed call
    let plan: Vec<(u64, u64)> = (0..s.usize(1, 6)).map(|_| (s.below(4), s.below(4))).collect();
    let what = format!("{}: {:?}", if gripper { "gripper" } else { "robot" }, plan);
    let fds = || std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0);
    let (tx, rx) = mpsc::channel::<()>(); // the client dropped the object
    let (ax, ar) = mpsc::channel::<bool>(); // the server saw the connection end
    let (p1, p2) = (plan.clone(), plan.clone());
    let run = session(
        if gripper { 1338 } else { 1337 },
        Duration::from_secs(40),
        move |srv| {
            for (end, _) in p1 {
                srv.eof = false;
                if !srv.accept(Duration::from_secs(5)) {
                    return;
                }
                let r = match srv.next_req(Duration::from_secs(5)) {
                    Some(r) => r,
                    None => return,
                };
                let mut b = R(&r.body);
                b.u16();
                srv.set_client_udp(b.u16());
                let st = (end == 1) as u8;
                let mut w = W::new();
                if gripper {
                    w.u16(st as u16).u16(3);
                } else {
                    w.u8(st).u16(5);
                }
                if end != 2 {
                    let f = if gripper { gripper_frame(0, r.id, &w.0) } else { robot_frame(CONNECT, r.id, &w.0) };
                    srv.send_tcp(&f);
                } else {
                    srv.close_tcp();
                }
                let mut id = 0u64;
                let mut closed = end == 2;
                // serve until the client has dropped it, and a while longer
                let mut left: Option<Instant> = None;
                loop {
                    id += 1;
                    let b = if gripper { GSt::gen(id as u32, 1).encode() } else { St::idle(id).encode() };
                    if !closed {
                        srv.send_udp(&b);
                    }
                    if left.is_none() && rx.try_recv().is_ok() {
                        left = Some(Instant::now());
                    }
                    if let Some(t) = left {
                        if closed || t.elapsed() > Duration::from_secs(3) {
                            break;
                        }
                    }
                    if closed {
                        std::thread::sleep(Duration::from_micros(200));
                    } else {
                        match srv.next(Duration::from_micros(300)) {
                            In::Closed => closed = true,
                            In::Req(r) => {
                                // a rejection
                                let f = if gripper { gripper_frame(r.cmd as u16, r.id, &[1, 0]) } else { robot_frame(r.cmd, r.id, &[1]) };
                                srv.send_tcp(&f);
                            }
                            _ => {}
                        }
                    }
                    if srv.ctl.abort.load(Ordering::SeqCst) {
                        return;
                    }
                }
                srv.tcp = None;
                if ax.send(closed).is_err() {
                    return;
                }
            }
        },
        move |addr| -> Result<(), String> {
            for (k, (end, ops)) in p2.iter().enumerate() {
                let before = fds();
                let ok = if gripper {
                    match Gripper::new(addr) {
                        Ok(mut g) => {
                            for _ in 0..*ops {
                                let _ = g.read_once();
                            }
                            if *end == 3 {
                                let _ = g.stop();
                            }
                            true
                        }
                        Err(_) => false,
                    }
                } else {
                    match Robot::new(addr, RealtimeConfig::Ignore, None) {
                        Ok(mut r) => {
                            for _ in 0..*ops {
                                let _ = r.read_once();
                            }
                            if *end == 3 {
                                let _ = r.stop();
                            }
                            true
                        }
                        Err(_) => false,
                    }
                };
                if ok != (*end == 0 || *end == 3) {
                    return Err(format!("connection {}: {}", k, if ok { "was made" } else { "failed" }));
                }
                let _ = tx.send(());
                match ar.recv_timeout(Duration::from_secs(10)) {
                    Ok(true) => {}
                    Ok(false) => return Err(format!("connection {} is still open 3 s after it was dropped", k)),
                    Err(_) => return Err("harness: no word from the peer".into()),
                }
                let t = Instant::now();
                while fds() > before {
                    if t.elapsed() > Duration::from_secs(2) {
                        return Err(format!("{} files are open after connection {}, {} were before it", fds(), k, before));
                    }
                    std::thread::sleep(Duration::from_millis(1));
                }
            }
            Ok(())
        },
    );
    let mut o = Outcome::pass(plan.len() > 1).label("connections", plan.len() as u64).sample(what.clone());
    o.verdict = match run.client {
        ClientEnd::Done(Ok(())) => Verdict::Pass,
        ClientEnd::Done(Err(e)) => Verdict::FailTiming(format!("{}\n{}", e, what)),
        ClientEnd::Panic(p) => Verdict::Fail(format!("panicked: {}\n{}", p, what)),
        ClientEnd::Hang => Verdict::FailTiming(format!("did not return\n{}", what)),
    };
    o
}
pub fn c15() -> Prop {
    Prop {
        id: "C15",
        level: "exploration",
        rule: "a handshake in which the server's version differs from the library's or the server refuses (release: several connections one after the other); counted once per distinct choice sequence",
        assumptions: &["the server answers the connect request with one of the documented statuses"],
        subs: vec![
            Sub { name: "robot", quick: 45_000, thorough: 300_000, par: 16, f: c15_robot },
            Sub { name: "gripper", quick: 45_000, thorough: 300_000, par: 16, f: c15_gripper },
            Sub { name: "release", quick: 3000, thorough: 20_000, par: 1, f: c15_release },
        ],
    }
}

// ---- C16: states -----------------------------------------------------------------------------
fn c16_reads(s: &mut Src) -> Outcome {
    let salt = s.u64();
    let first = if s.bool() { 1 } else { (s.u64() as u32) >> 1 };
    let n = s.usize(1, 4);
    let rounds: Vec<(usize, bool)> = (0..n)
        .map(|_| {
            let b = match s.below(4) {
                0 => 0,
                1 => s.usize(1, 3),
                2 => s.usize(4, 60),
                _ => s.usize(100, 250),
            };
            (b, s.chance(1, 4))
        })
        .collect();
    let what = format!("first id {}, rounds (backlog, command in between) {:?}", first, rounds);
    // client -> server: true = send the backlog of the next round; server -> client: last backlog id
    let (qtx, qrx) = mpsc::channel::<usize>();
    let (atx, arx) = mpsc::channel::<u32>();
    let r2 = rounds.clone();
    let run = session(
        1338,
        Duration::from_secs(15),
        move |srv| {
            if gripper_handshake(srv, 0, 3).is_none() {
                return u32::MAX;
            }
            let mut id = first;
            let mut fresh = false;
            loop {
                match qrx.try_recv() {
                    Ok(0) => fresh = false, // read finished
                    Ok(k) => {
                        for _ in 0..r2[k - 1].0 {
                            id = id.wrapping_add(1);
                            srv.send_udp(&GSt::gen(id, salt).encode());
                        }
                        let _ = atx.send(id);
                        fresh = true;
                    }
                    Err(mpsc::TryRecvError::Disconnected) => break,
                    Err(_) => {}
                }
                match srv.next(Duration::from_micros(if fresh { 1500 } else { 200 })) {
                    In::Timeout if fresh => {
                        id = id.wrapping_add(1);
                        srv.send_udp(&GSt::gen(id, salt).encode());
                    }
                    In::Req(r) => {
                        srv.send_tcp(&gripper_frame(r.cmd as u16, r.id, &[0, 0]));
                    }
                    In::Closed => break,
                    _ => {}
                }
                if srv.gone() {
                    break;
                }
            }
            id
        },
        {
            let rounds = rounds.clone();
            move |addr| {
                let mut out = vec![];
                let mut g = match Gripper::new(addr) {
                    Ok(g) => g,
                    Err(e) => return Err(err_of(e).brief()),
                };
                for (k, r) in rounds.iter().enumerate() {
                    if r.1 {
                        if let Err(e) = g.homing() {
                            return Err(err_of(e).brief());
                        }
                    }
                    if qtx.send(k + 1).is_err() {
                        return Err("server gone".into());
                    }
                    // everything up to this id has arrived before the call starts
                    let last = match arx.recv_timeout(Duration::from_secs(3)) {
                        Ok(x) => x,
                        Err(_) => return Err("server does not answer".into()),
                    };
                    let (a, b) = res_of(g.read_once());
                    out.push((last, a, b));
                    let _ = qtx.send(0);
                }
                Ok(out)
            }
        },
    );
    let out = match run.client {
        ClientEnd::Done(Ok(x)) => x,
        ClientEnd::Done(Err(e)) => return timing(format!("{} ({})", e, what)),
        ClientEnd::Panic(p) => return Outcome { verdict: Verdict::Fail(format!("panicked: {} ({})", p, what)), nontrivial: false, labels: vec![], sample: None },
        ClientEnd::Hang => return timing(format!("read_once did not return ({})", what)),
    };
    let mut j = Judge::default();
    for (k, (last, st, res)) in out.iter().enumerate() {
        match st {
            Some(st) => {
                let id = st.time.as_millis() as u64;
                j.check(id <= u32::MAX as u64, || format!("time {:?}", st.time));
                if let Err(e) = GSt::gen(id as u32, salt).diff(st) {
                    j.fail(format!("read {}: {}", k, e));
                }
                j.check((id as u32).wrapping_sub(first) < 0x4000_0000, || format!("read {}: state {} was never sent (first {})", k, id, first));
                j.check((id as u32).wrapping_sub(*last).wrapping_sub(1) < 0x4000_0000, || {
                    format!("read {}: state {} had arrived before the call (the newest of these was {})", k, id, last)
                });
            }
            None => j.timing(format!("read {} failed although states arrive: {}", k, res.brief())),
        }
    }
    let mut o = Outcome::pass(rounds.iter().any(|r| r.0 > 0)).label("reads", n as u64).label("stale states", rounds.iter().map(|r| r.0 as u64).sum()).sample(what);
    o.verdict = j.verdict();
    o
}
/// Damaged datagrams between whole ones: never delivered.
fn c16_damaged(s: &mut Src) -> Outcome {
    let size = GSt::gen(0, 0).encode().len();
    damaged_(s, &|s: &mut Src| Damage::Cut(s.usize(0, size - 1)))
}
pub fn damaged(s: &mut Src, byte: &dyn Fn(&mut Src) -> (usize, u8)) -> Outcome {
    damaged_(s, &|s: &mut Src| {
        let (at, v) = byte(s);
        Damage::Byte(at, v)
    })
}
fn damaged_(s: &mut Src, gen: &dyn Fn(&mut Src) -> Damage) -> Outcome {
    let salt = s.u64();
    let n = s.usize(1, 30);
    let pattern: Vec<Option<Damage>> = (0..n).map(|_| if s.bool() { Some(gen(s)) } else { None }).collect();
    let cut = pattern.iter().filter(|x| x.is_some()).count();
    let calls = s.usize(1, 8);
    let pace = s.pick(&[1u64, 30, 120]);
    let what = format!("{} calls of read_once, datagrams {:?}", calls, pattern);
    let run = session(
        1338,
        Duration::from_secs(15),
        move |srv| {
            let mut whole = std::collections::HashSet::new();
            if gripper_handshake(srv, 0, 3).is_none() {
                return whole;
            }
            let mut k = 0usize;
            while !srv.gone() && k < 20000 {
                if let In::Closed = srv.next(Duration::from_micros(if k < n { pace } else { 60 })) {
                    break;
                }
                let mut b = GSt::gen(k as u32 + 1, salt).encode();
                match pattern.get(k) {
                    Some(Some(d)) => {
                        d.apply(&mut b);
                        srv.send_udp(&b);
                    }
                    _ => {
                        srv.send_udp(&b);
                        whole.insert(k as u32 + 1);
                    }
                }
                k += 1;
            }
            whole
        },
        move |addr| {
            let mut g = match Gripper::new(addr) {
                Ok(g) => g,
                Err(e) => return Err(err_of(e).brief()),
            };
            let (mut got, mut errs) = (vec![], vec![]);
            let mut tries = 0;
            loop {
                match g.read_once() {
                    Ok(st) => {
                        got.push(st);
                        if tries + 1 >= calls {
                            return Ok((got, errs, true));
                        }
                    }
                    Err(e) => errs.push(err_of(e)),
                }
                tries += 1;
                if tries > calls + cut + 1 {
                    return Ok((got, errs, false));
                }
            }
        },
    );
    let (got, errs, last) = match run.client {
        ClientEnd::Done(Ok(x)) => x,
        ClientEnd::Done(Err(e)) => return timing(format!("{} ({})", e, what)),
        ClientEnd::Panic(p) => return Outcome { verdict: Verdict::Fail(format!("panicked: {} ({})", p, what)), nontrivial: false, labels: vec![], sample: None },
        ClientEnd::Hang => return timing(format!("read_once did not return ({})", what)),
    };
    let whole = match run.server {
        Some(w) => w,
        None => return timing("harness server failed".into()),
    };
    let mut j = Judge::default();
    for st in &got {
        let id = st.time.as_millis() as u32;
        if let Err(e) = GSt::gen(id, salt).diff(st) {
            j.fail(format!("{}: {}", what, e));
        }
        j.check(whole.contains(&id), || format!("{}: state {} was not sent as a whole", what, id));
    }
    for e in &errs {
        j.check(matches!(e, Res::Network(_)), || format!("{}: {}", what, e.brief()));
    }
    if errs.len() > cut || !last {
        j.timing(format!("{}: {} calls failed", what, errs.len()));
    }
    let mut o = Outcome::pass(!errs.is_empty()).label("reads that met a cut datagram", errs.len() as u64).sample(what);
    o.verdict = j.verdict();
    o
}
pub fn c16() -> Prop {
    Prop {
        id: "C16",
        level: "exploration",
        rule: "a session with a command that has arguments, or a read with at least one stale state waiting; counted once per distinct choice sequence",
        assumptions: &[
            "state ids stay below 2^32",
            "datagrams sent over loopback before the call are in the socket's queue when the call starts",
        ],
        subs: vec![
            Sub { name: "commands", quick: 160_000, thorough: 800_000, par: 16, f: c16_calls },
            Sub { name: "states", quick: 32_000, thorough: 150_000, par: 16, f: c16_reads },
            Sub { name: "many", quick: 48, thorough: 1500, par: 8, f: |s| many_calls(s, true, false) },
            Sub { name: "damaged", quick: 16_000, thorough: 80_000, par: 16, f: c16_damaged },
        ],
    }
}
