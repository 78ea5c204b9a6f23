//! A simulated robot that runs generated control sessions in lock step with the library:
//! state -> command -> state -> ...
use crate::net::*;
use crate::wire::*;
use franka::exception::FrankaException;
use franka::robot::logger::Record;
use franka::*;
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    JP,
    JV,
    CP,
    CV,
    T,
    TJP,
    TJV,
    TCP,
    TCV,
}
pub const KINDS: [Kind; 9] =
    [Kind::JP, Kind::JV, Kind::CP, Kind::CV, Kind::T, Kind::TJP, Kind::TJV, Kind::TCP, Kind::TCV];
impl Kind {
    pub fn mg(self) -> u8 {
        match self {
            Kind::JP | Kind::TJP => MG_JP,
            Kind::JV | Kind::TJV | Kind::T => MG_JV,
            Kind::CP | Kind::TCP => MG_CP,
            Kind::CV | Kind::TCV => MG_CV,
        }
    }
    pub fn torque(self) -> bool {
        matches!(self, Kind::T | Kind::TJP | Kind::TJV | Kind::TCP | Kind::TCV)
    }
    pub fn cartesian(self) -> bool {
        matches!(self.mg(), MG_CP | MG_CV)
    }
}

/// What the user's callbacks return at their n-th invocation.
#[derive(Clone, Debug)]
pub struct User {
    pub joint: [f64; 7],
    pub pose: [f64; 16],
    pub twist: [f64; 6],
    pub elbow: Option<[f64; 2]>,
    pub tau: [f64; 7],
    pub fin: bool,
    pub tau_fin: bool,
}
impl User {
    pub fn rest() -> User {
        User { joint: [0.; 7], pose: IDENT16, twist: [0.; 6], elbow: None, tau: [0.; 7], fin: false, tau_fin: false }
    }
}

#[derive(Clone, Debug)]
pub struct StartPlan {
    /// answer to the Move request; MS_STARTED accepts it
    pub status: u8,
    /// states with modes that do not match yet: (mg, cm, rm)
    pub pending: Vec<(u8, u8, u8)>,
    /// robot aborts the move before the modes ever match: second Move response
    pub abort: Option<u8>,
    /// states between that response and the first idle one
    pub abort_tail: Vec<(u8, u8, u8)>,
}
#[derive(Clone, Debug)]
pub struct AbortPlan {
    /// after how many processed commands
    pub step: usize,
    pub mg: u8,
    pub cm: u8,
    pub rm: u8,
    pub status: u8,
    pub resp_first: bool,
    pub reflex: [bool; 41],
}
#[derive(Clone, Debug)]
pub struct EndPlan {
    /// running states the robot still sends after it saw the finished flag
    pub extra_running: usize,
    /// states after that in which only a part of the motion is over: (mg, cm, rm)
    pub half: Vec<(u8, u8, u8)>,
    pub status: u8,
    pub resp_first: bool,
    pub reflex: [bool; 41],
    pub rm: u8,
}

/// Lets the user's command depend on the state the callback sees (and on the invocation number).
#[derive(Clone)]
pub struct Pick(pub Arc<dyn Fn(&RobotState, usize) -> User + Send + Sync>);
impl std::fmt::Debug for Pick {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Pick")
    }
}

#[derive(Clone, Debug)]
pub struct Motion {
    /// runs Robot::joint_motion instead of a control call
    pub goto: Option<(f64, [f64; 7])>,
    /// overrides the values (not the finished flags) of `user`
    pub pick: Option<Pick>,
    pub kind: Kind,
    /// 0 = None (library default), 1 = JointImpedance, 2 = CartesianImpedance
    pub mode: u8,
    pub limit: Option<bool>,
    pub cutoff: Option<f64>,
    pub user: Vec<User>,
    pub start: StartPlan,
    pub gaps: Vec<u64>,
    pub abort: Option<AbortPlan>,
    pub end: EndPlan,
    pub stop_status: u8,
    /// running states after a Stop before the robot is idle
    pub after_stop: usize,
    /// modes of these states
    pub after_stop_modes: Option<(u8, u8)>,
}
impl Motion {
    pub fn simple(kind: Kind, user: Vec<User>) -> Motion {
        Motion {
            goto: None,
            pick: None,
            kind,
            mode: 0,
            limit: None,
            cutoff: None,
            user,
            start: StartPlan { status: MS_STARTED, pending: vec![], abort: None, abort_tail: vec![] },
            gaps: vec![],
            abort: None,
            end: EndPlan { extra_running: 0, half: vec![], status: MS_SUCCESS, resp_first: true, reflex: [false; 41], rm: RM_IDLE },
            stop_status: 0,
            after_stop: 0,
            after_stop_modes: None,
        }
    }
    pub fn cm(&self) -> u8 {
        if self.kind.torque() {
            CM_EXT
        } else if self.mode == 2 {
            CM_CI
        } else {
            CM_JI
        }
    }
    pub fn gap(&self, k: usize) -> u64 {
        if self.gaps.is_empty() {
            1
        } else {
            self.gaps[k % self.gaps.len()].max(1)
        }
    }
}

#[derive(Clone, Debug)]
pub enum Step {
    Motion(Arc<Motion>),
    Recovery,
}

#[derive(Clone, Debug)]
pub enum Ev {
    /// a state datagram sent
    St(Box<St>),
    Cmd(Cmd),
    BadCmd(String),
    Req(Req),
    Resp { cmd: u32, id: u32, status: u8 },
    /// server had to send a state without having got a command for the previous one
    Stall,
    /// marks the beginning of the handling of motion number n
    MotionStart(usize),
}

/// Fills in the contents of the state that follows command `cmd` (None: before the first command).
pub type Content = Box<dyn FnMut(usize, usize, Option<&Cmd>, &mut St) + Send>;

pub struct Robo {
    pub ev: Vec<Ev>,
    pub id: u64,
    pub content: Content,
    pub timed_out: Option<String>,
    pub closed: bool,
    cur: usize,
}

const TICK: Duration = Duration::from_micros(250);

impl Robo {
    pub fn new(first_id: u64, content: Content) -> Robo {
        Robo { ev: vec![], id: first_id, content, timed_out: None, closed: false, cur: 0 }
    }
    fn send_state(&mut self, srv: &mut Srv, st: St) {
        srv.send_udp(&st.encode());
        self.ev.push(Ev::St(Box::new(st)));
    }
    fn state(&mut self, gap: u64, k: usize, cmd: Option<&Cmd>, mg: u8, cm: u8, rm: u8) -> St {
        self.id += gap;
        let mut st = St::idle(self.id).modes(mg, cm, rm);
        (self.content)(self.cur, k, cmd, &mut st);
        st
    }
    fn respond(&mut self, srv: &mut Srv, cmd: u32, id: u32, status: u8) {
        self.ev.push(Ev::Resp { cmd, id, status });
        srv.send_tcp(&robot_frame(cmd, id, &[status]));
    }
    /// Handshake: Connect request, Connect response, first (idle) state.
    pub fn connect(&mut self, srv: &mut Srv) -> bool {
        if !srv.accept(Duration::from_secs(5)) {
            self.timed_out = Some("no TCP connection".into());
            return false;
        }
        let r = match srv.next_req(Duration::from_secs(5)) {
            Some(r) => r,
            None => {
                self.timed_out = Some("no Connect request".into());
                return false;
            }
        };
        if r.cmd != CONNECT || r.body.len() != 4 {
            self.timed_out = Some(format!("first request is not Connect: {:?}", r));
            return false;
        }
        let mut b = R(&r.body);
        let _v = b.u16();
        srv.set_client_udp(b.u16());
        let mut w = W::new();
        w.u8(0).u16(5);
        srv.send_tcp(&robot_frame(CONNECT, r.id, &w.0));
        self.ev.push(Ev::Req(r));
        let st = self.state(0, 0, None, MG_IDLE, CM_OTHER, RM_IDLE);
        self.send_state(srv, st);
        true
    }

    /// Robot is idle (or is being stopped): answers Stop requests, keeps sending states as long as
    /// `pump` says the client may be waiting for some, returns the next other request.
    fn idle(&mut self, srv: &mut Srv, m: Option<&Motion>, mut pump: bool) -> Option<Req> {
        let mut sent = 0u32;
        let mut running_left = 0usize;
        let t0 = Instant::now();
        loop {
            let t = if pump && sent < 400 { TICK } else { Duration::from_millis(20) };
            match srv.next(t) {
                In::Req(r) if r.cmd == STOP_MOVE => {
                    let id = r.id;
                    self.ev.push(Ev::Req(r));
                    let st = m.map(|m| m.stop_status).unwrap_or(0);
                    running_left = m.map(|m| m.after_stop).unwrap_or(0);
                    self.respond(srv, STOP_MOVE, id, st);
                    pump = true;
                    sent = 0;
                }
                In::Req(r) => return Some(r),
                In::Cmd(c) => self.ev.push(Ev::Cmd(c)),
                In::BadCmd(e) => self.ev.push(Ev::BadCmd(e)),
                In::Closed => {
                    self.closed = true;
                    return None;
                }
                In::Timeout => {
                    if pump {
                        let st = match m {
                            Some(m) if running_left > 0 => {
                                running_left -= 1;
                                let (mg, cm) = m.after_stop_modes.unwrap_or((m.kind.mg(), m.cm()));
                                self.state(1, usize::MAX, None, mg, cm, RM_MOVE)
                            }
                            _ => self.state(1, usize::MAX, None, MG_IDLE, CM_OTHER, RM_IDLE),
                        };
                        self.send_state(srv, st);
                        sent += 1;
                    }
                    if t0.elapsed() > Duration::from_secs(20) {
                        self.timed_out = Some("robot idle for 20 s".into());
                        return None;
                    }
                }
            }
        }
    }

    /// Waits for the command that answers state `self.id`.
    fn wait_cmd(&mut self, srv: &mut Srv, stalls: &mut u32) -> Result<Option<Cmd>, Option<Req>> {
        let t0 = Instant::now();
        loop {
            match srv.next(Duration::from_millis(40)) {
                In::Cmd(c) => {
                    self.ev.push(Ev::Cmd(c.clone()));
                    if c.id == self.id {
                        return Ok(Some(c));
                    }
                }
                In::BadCmd(e) => self.ev.push(Ev::BadCmd(e)),
                In::Req(r) => return Err(Some(r)),
                In::Closed => {
                    self.closed = true;
                    return Err(None);
                }
                In::Timeout => {
                    if t0.elapsed() > Duration::from_millis(300) {
                        *stalls += 1;
                        self.ev.push(Ev::Stall);
                        return Ok(None);
                    }
                }
            }
        }
    }

    /// Runs one motion; `req` is the Move request. Returns a request that interrupted it, if any.
    fn motion(&mut self, srv: &mut Srv, m: &Motion, req: Req) -> Option<Req> {
        let (mid, mg, cm) = (req.id, m.kind.mg(), m.cm());
        self.ev.push(Ev::Req(req));
        self.respond(srv, MOVE, mid, m.start.status);
        if m.start.status != MS_STARTED {
            return self.idle(srv, Some(m), false);
        }
        for (g, c, r) in m.start.pending.clone() {
            let st = self.state(1, 0, None, g, c, r);
            self.send_state(srv, st);
        }
        if let Some(s) = m.start.abort {
            self.respond(srv, MOVE, mid, s);
            for (g, c, r) in m.start.abort_tail.clone() {
                let st = self.state(1, 0, None, g, c, r);
                self.send_state(srv, st);
            }
            return self.idle(srv, Some(m), true);
        }
        // until the first command
        let mut first = None;
        let t0 = Instant::now();
        let mut sent = 0;
        while first.is_none() {
            let st = self.state(1, 0, None, mg, cm, RM_MOVE);
            self.send_state(srv, st);
            sent += 1;
            // the library needs two states: one that shows the modes and one to start with
            let deadline = Instant::now() + if sent == 1 { TICK } else { TICK * 8 };
            loop {
                let now = Instant::now();
                if now >= deadline {
                    break;
                }
                match srv.next(deadline - now) {
                    In::Cmd(c) => {
                        self.ev.push(Ev::Cmd(c.clone()));
                        first = Some(c);
                        break;
                    }
                    In::BadCmd(e) => self.ev.push(Ev::BadCmd(e)),
                    In::Req(r) => {
                        // client gave up (e.g. Stop)
                        return self.interrupt(srv, m, r);
                    }
                    In::Closed => {
                        self.closed = true;
                        return None;
                    }
                    In::Timeout => break,
                }
            }
            if t0.elapsed() > Duration::from_secs(8) {
                self.timed_out = Some("no command within 8 s after the motion started".into());
                return None;
            }
        }
        let mut last = first.unwrap();
        let mut stalls = 0;
        // make sure the newest state sent so far has been answered
        if last.id != self.id {
            match self.wait_cmd(srv, &mut stalls) {
                Ok(Some(c)) => last = c,
                Ok(None) => {}
                Err(Some(r)) => return self.interrupt(srv, m, r),
                Err(None) => return None,
            }
        }
        let mut step = 0usize;
        loop {
            if last.finished {
                if m.abort.is_some() {
                    // finished before the planned abort: cannot be judged as planned
                    self.ev.push(Ev::Stall);
                }
                return self.finish(srv, m, mid, last);
            }
            if let Some(a) = &m.abort {
                if step >= a.step {
                    let mut st = self.state(m.gap(step), step + 1, Some(&last), a.mg, a.cm, a.rm);
                    st.reflex = a.reflex;
                    if a.resp_first {
                        self.respond(srv, MOVE, mid, a.status);
                        self.send_state(srv, st);
                    } else {
                        self.send_state(srv, st);
                        self.respond(srv, MOVE, mid, a.status);
                    }
                    return self.idle(srv, Some(m), false);
                }
            }
            let st = self.state(m.gap(step), step + 1, Some(&last), mg, cm, RM_MOVE);
            self.send_state(srv, st);
            step += 1;
            match self.wait_cmd(srv, &mut stalls) {
                Ok(Some(c)) => last = c,
                Ok(None) => {
                    if stalls > 5 {
                        self.timed_out = Some("client stopped answering states during the motion".into());
                        return None;
                    }
                }
                Err(Some(r)) => return self.interrupt(srv, m, r),
                Err(None) => return None,
            }
        }
    }
    fn interrupt(&mut self, srv: &mut Srv, m: &Motion, r: Req) -> Option<Req> {
        if r.cmd == STOP_MOVE {
            let id = r.id;
            self.ev.push(Ev::Req(r));
            self.respond(srv, STOP_MOVE, id, m.stop_status);
            return self.idle(srv, Some(m), true);
        }
        Some(r)
    }
    fn finish(&mut self, srv: &mut Srv, m: &Motion, mid: u32, first: Cmd) -> Option<Req> {
        let mut last = first;
        let mut stalls = 0;
        for k in 0..m.end.extra_running + m.end.half.len() {
            let (mg, cm, rm) = if k < m.end.extra_running { (m.kind.mg(), m.cm(), RM_MOVE) } else { m.end.half[k - m.end.extra_running] };
            let st = self.state(m.gap(k), usize::MAX, Some(&last), mg, cm, rm);
            self.send_state(srv, st);
            match self.wait_cmd(srv, &mut stalls) {
                Ok(Some(c)) => last = c,
                Ok(None) => {}
                Err(Some(r)) => return self.interrupt(srv, m, r),
                Err(None) => return None,
            }
        }
        let mut st = self.state(m.gap(m.end.extra_running + m.end.half.len()), usize::MAX, Some(&last), MG_IDLE, CM_OTHER, m.end.rm);
        st.reflex = m.end.reflex;
        if m.end.resp_first {
            self.respond(srv, MOVE, mid, m.end.status);
            self.send_state(srv, st);
        } else {
            self.send_state(srv, st);
            std::thread::sleep(Duration::from_micros(300));
            self.respond(srv, MOVE, mid, m.end.status);
        }
        self.idle(srv, Some(m), false)
    }

    /// Serves a whole session of motions.
    pub fn serve(&mut self, srv: &mut Srv, steps: &[Step]) {
        if !self.connect(srv) {
            return;
        }
        let mut req = self.idle(srv, None, false);
        let mut queue = steps.iter();
        while let Some(r) = req {
            if r.cmd == MOVE {
                let m = loop {
                    match queue.next() {
                        Some(Step::Motion(m)) => break Some(m.clone()),
                        Some(_) => continue,
                        None => break None,
                    }
                };
                match m {
                    Some(m) => {
                        self.ev.push(Ev::MotionStart(self.cur));
                        req = self.motion(srv, &m, r);
                        self.cur += 1;
                    }
                    None => {
                        self.ev.push(Ev::Req(r));
                        self.timed_out = Some("more Move requests than motions".into());
                        return;
                    }
                }
            } else {
                let (c, id) = (r.cmd, r.id);
                self.ev.push(Ev::Req(r));
                self.respond(srv, c, id, 0);
                req = self.idle(srv, None, false);
            }
            if self.timed_out.is_some() {
                return;
            }
        }
    }
}

// ---- client side -----------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Cb {
    pub control: bool,
    pub n: usize,
    pub state: RobotState,
    pub dt: Duration,
    pub user: User,
}

#[derive(Debug)]
pub enum Res {
    Ok,
    Control { error: String, log: Option<Vec<Record>> },
    Command(String),
    Network(String),
    RealTime(String),
    Model(String),
    Version(u16, u16),
    Other(String),
}
impl Res {
    pub fn kind(&self) -> &'static str {
        match self {
            Res::Ok => "Ok",
            Res::Control { .. } => "ControlException",
            Res::Command(_) => "CommandException",
            Res::Network(_) => "NetworkException",
            Res::RealTime(_) => "RealTimeException",
            Res::Model(_) => "ModelException",
            Res::Version(..) => "IncompatibleLibraryVersionError",
            Res::Other(_) => "other error",
        }
    }
    pub fn brief(&self) -> String {
        match self {
            Res::Control { error, log } => {
                format!("ControlException({:?}, log {:?})", error, log.as_ref().map(|l| l.len()))
            }
            x => format!("{:?}", x),
        }
    }
}
pub fn res_of<T>(r: FrankaResult<T>) -> (Option<T>, Res) {
    match r {
        Ok(t) => (Some(t), Res::Ok),
        Err(e) => (None, err_of(e)),
    }
}
pub fn err_of(e: FrankaException) -> Res {
    match e {
        FrankaException::ControlException { log, error } => Res::Control { error, log },
        FrankaException::CommandException { message } => Res::Command(message),
        FrankaException::NetworkException { message } => Res::Network(message),
        FrankaException::RealTimeException { message } => Res::RealTime(message),
        FrankaException::ModelException { message } => Res::Model(message),
        FrankaException::IncompatibleLibraryVersionError { server_version, library_version } => {
            Res::Version(server_version, library_version)
        }
        e => Res::Other(format!("{:?}", e)),
    }
}

fn fin<T: Finishable + Copy>(mut t: T, f: bool) -> T {
    if f {
        t.set_motion_finished(true);
    }
    t
}

/// Runs the motion through the public API, recording every callback.
pub fn run_motion(robot: &mut Robot, m: &Motion, cbs: &mut Vec<Cb>) -> FrankaResult<()> {
    if let Some((f, goal)) = &m.goto {
        return robot.joint_motion(*f, goal);
    }
    let cell = std::cell::RefCell::new(cbs);
    let mut nc = 0usize;
    let call = |control: bool, n: &mut usize, s: &RobotState, dt: &Duration| -> User {
        let k = *n;
        *n += 1;
        let u = match m.user.get(k) {
            Some(u) => {
                let mut v = match &m.pick {
                    Some(p) => (p.0)(s, k),
                    None => u.clone(),
                };
                v.fin |= u.fin;
                v.tau_fin |= u.tau_fin;
                v
            }
            None => {
                let mut v = m.user.last().cloned().unwrap_or_else(User::rest);
                v.fin = true;
                v.tau_fin = true;
                v
            }
        };
        cell.borrow_mut().push(Cb { control, n: k, state: s.clone(), dt: *dt, user: u.clone() });
        u
    };
    let (mut n1, mut n2, mut n3, mut n4) = (0usize, 0usize, 0usize, 0usize);
    let mut jp = |s: &RobotState, dt: &Duration| {
        let u = call(false, &mut n1, s, dt);
        fin(JointPositions::new(u.joint), u.fin)
    };
    let mut jv = |s: &RobotState, dt: &Duration| {
        let u = call(false, &mut n2, s, dt);
        fin(JointVelocities::new(u.joint), u.fin)
    };
    let mut cp = |s: &RobotState, dt: &Duration| {
        let u = call(false, &mut n3, s, dt);
        fin(CartesianPose::new(u.pose, u.elbow), u.fin)
    };
    let mut cv = |s: &RobotState, dt: &Duration| {
        let u = call(false, &mut n4, s, dt);
        fin(CartesianVelocities::new(u.twist, u.elbow), u.fin)
    };
    let mut tq = |s: &RobotState, dt: &Duration| {
        let u = call(true, &mut nc, s, dt);
        fin(Torques::new(u.tau), u.tau_fin)
    };
    let mode = match m.mode {
        0 => None,
        1 => Some(ControllerMode::JointImpedance),
        _ => Some(ControllerMode::CartesianImpedance),
    };
    match m.kind {
        Kind::JP => robot.control_joint_positions(&mut jp, mode, m.limit, m.cutoff),
        Kind::JV => robot.control_joint_velocities(&mut jv, mode, m.limit, m.cutoff),
        Kind::CP => robot.control_cartesian_pose(&mut cp, mode, m.limit, m.cutoff),
        Kind::CV => robot.control_cartesian_velocities(&mut cv, mode, m.limit, m.cutoff),
        Kind::T => robot.control_torques(&mut tq, m.limit, m.cutoff),
        Kind::TJP => robot.control_torques_and_joint_positions(&mut tq, &mut jp, m.limit, m.cutoff),
        Kind::TJV => robot.control_torques_and_joint_velocities(&mut tq, &mut jv, m.limit, m.cutoff),
        Kind::TCP => robot.control_torques_and_cartesian_pose(&mut tq, &mut cp, m.limit, m.cutoff),
        Kind::TCV => robot.control_torques_and_cartesian_velocities(&mut tq, &mut cv, m.limit, m.cutoff),
    }
}

pub struct ClientTrace {
    /// per executed motion: callbacks and result (None if the motion's call panicked)
    pub motions: Vec<(Vec<Cb>, Result<Res, String>)>,
    pub recoveries: Vec<Res>,
    pub connect: Res,
}
pub struct Run {
    pub client: ClientTrace,
    pub ev: Vec<Ev>,
}

/// Runs a whole control session. Err = timing verdict text.
pub fn control_session(
    steps: Vec<Step>,
    log_size: Option<usize>,
    first_id: u64,
    content: Content,
) -> Result<Run, String> {
    let steps = Arc::new(steps);
    let s2 = steps.clone();
    let s = session(
        1337,
        Duration::from_secs(25),
        move |srv| {
            let mut r = Robo::new(first_id, content);
            r.serve(srv, &s2);
            // closing the socket lets a client that still waits fail instead of waiting forever
            srv.close_tcp();
            (r.ev, r.timed_out)
        },
        move |addr| {
            let mut tr = ClientTrace { motions: vec![], recoveries: vec![], connect: Res::Ok };
            let mut robot = match Robot::new(addr, RealtimeConfig::Ignore, log_size) {
                Ok(r) => r,
                Err(e) => {
                    tr.connect = err_of(e);
                    return tr;
                }
            };
            for st in steps.iter() {
                match st {
                    Step::Motion(m) => {
                        let mut cbs = vec![];
                        let r = catch(|| run_motion(&mut robot, m, &mut cbs));
                        let stop = r.is_err();
                        tr.motions.push((cbs, r.map(|r| res_of(r).1)));
                        if stop {
                            break; // after a panic the connection is given up
                        }
                    }
                    Step::Recovery => tr.recoveries.push(res_of(robot.automatic_error_recovery()).1),
                }
            }
            tr
        },
    );
    let client = match s.client {
        ClientEnd::Done(c) => c,
        ClientEnd::Panic(p) => return Err(format!("client panicked outside a motion: {}", p)),
        ClientEnd::Hang => return Err("the control call did not return within 25 s".into()),
    };
    let (ev, to) = match s.server {
        Some(x) => x,
        None => return Err(format!("harness server failed: {:?}", s.server_panic)),
    };
    if let Some(t) = to {
        if std::env::var("VERIF_DUMP").is_ok() {
            for e in ev.iter().take(60) {
                match e {
                    Ev::St(s) => eprintln!("  state {} mg {} cm {} rm {}", s.id, s.mg, s.cm, s.rm),
                    e => eprintln!("  {:?}", e),
                }
            }
        }
        return Err(format!("robot side gave up: {} (motion results {:?})", t, client.motions.iter().map(|m| match &m.1 { Ok(r) => r.brief(), Err(p) => format!("panic {}", p) }).collect::<Vec<_>>()));
    }
    Ok(Run { client, ev })
}

/// A command together with everything it was computed from.
pub struct Sample<'a> {
    pub st: &'a St,
    pub cmd: &'a Cmd,
    /// invocation number and what the user returned
    pub n: usize,
    pub user: User,
}

/// Splits the robot-side events per motion.
pub fn split_motions(ev: &[Ev]) -> Vec<&[Ev]> {
    let mut idx: Vec<usize> = ev.iter().enumerate().filter(|(_, e)| matches!(e, Ev::MotionStart(_))).map(|(i, _)| i).collect();
    idx.push(ev.len());
    idx.windows(2).map(|w| &ev[w[0]..w[1]]).collect()
}

/// Pairs each motion-callback invocation with the state it saw (by id) and the command the robot
/// received for that state (by id).
pub fn samples<'a>(ev: &'a [Ev], cbs: &[Cb]) -> Result<Vec<Sample<'a>>, String> {
    let mut by_id = std::collections::HashMap::new();
    for e in ev {
        if let Ev::St(s) = e {
            by_id.insert(s.id, &**s);
        }
    }
    let mut cmds = std::collections::HashMap::new();
    for e in ev {
        if let Ev::Cmd(c) = e {
            cmds.entry(c.id).or_insert(c);
        }
        if let Ev::BadCmd(b) = e {
            return Err(b.clone());
        }
    }
    let has_motion = cbs.iter().any(|c| !c.control);
    let mut out = vec![];
    for cb in cbs.iter().filter(|c| c.control != has_motion) {
        let id = cb.state.time.as_millis() as u64;
        let st = match by_id.get(&id) {
            Some(s) => *s,
            None => return Err(format!("callback {} saw a state with id {} the robot never sent", cb.n, id)),
        };
        if let Some(c) = cmds.get(&id) {
            out.push(Sample { st, cmd: c, n: cb.n, user: cb.user.clone() });
        }
    }
    Ok(out)
}
