//! C05, C08-C11, C21: whole control sessions.  Generated motions (all nine interfaces, all ways the
//! robot can accept, reject, abort or finish them) run against the simulated robot; both sides'
//! histories are compared.
use super::limits::{rotation, unit_of};
use crate::ctl::*;
use crate::engine::*;
use crate::net::*;
use crate::refmodel::*;
use crate::wire::*;
use franka::robot::logger::Record;
use franka::{RealtimeConfig, Robot};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Duration;

/// Move statuses with which the robot refuses or aborts a motion, and a word of the reason that the
/// error has to mention.
pub const REJECT: [(u8, &str); 8] = [
    (2, "preempted"),
    (3, "not possible"),
    (4, "singular"),
    (5, "out of range"),
    (6, "reflex"),
    (7, "user stop"),
    (8, "invalid input"),
    (9, "aborted"),
];
pub fn move_statuses() -> Vec<(u8, &'static str)> {
    REJECT.to_vec()
}

fn move_body_ok(b: &[u8], cm: u8, mg: u8) -> Result<(), String> {
    if b.len() != 56 {
        return Err(format!("Move request has {} payload bytes, expected 56", b.len()));
    }
    let mut r = R(b);
    let (c, g) = (r.u32(), r.u32());
    // on the wire the request's controller modes are JointImpedance, CartesianImpedance, External,
    // its motion generator modes JointPosition.. (a state's start with Idle)
    if c != cm as u32 || g + 1 != mg as u32 {
        return Err(format!("Move request asks for controller mode {} and motion generator mode {}, expected {} and {}", c, g, cm, mg - 1));
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fate {
    Success,
    Reject,
    StartAbort,
    RunAbort,
    EndAbort,
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub m: Arc<Motion>,
    pub fate: Fate,
}

pub struct Profile {
    /// weights of Success, Reject, StartAbort, RunAbort, EndAbort
    pub fates: [u64; 5],
    pub max_motions: usize,
    /// values unfiltered and unlimited, so that what is sent is bit for bit what the user returned
    pub raw: bool,
    pub len: Len,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Len {
    /// up to a dozen commands
    Short,
    /// up to 120 commands
    Medium,
    /// one of: thousands of commands, dozens of motions, hundreds of states before and after
    Deep,
}

fn reflex(s: &mut Src) -> [bool; 41] {
    let mut r = [false; 41];
    match s.below(4) {
        0 => r[s.usize(0, 40)] = true,
        1 => {}
        2 => {
            for _ in 0..s.usize(1, 5) {
                r[s.usize(0, 40)] = true;
            }
        }
        _ => {
            for x in r.iter_mut() {
                *x = s.bool();
            }
        }
    }
    r
}

fn users(s: &mut Src, n: usize, raw: bool) -> Vec<User> {
    let mut v = vec![];
    let elbow_mode = s.below(3);
    for _ in 0..n {
        let mut u = User::rest();
        let seed = s.u64();
        let mut r = Src::random(seed);
        if raw {
            u.joint = r.arr(|r| r.any_finite());
            u.twist = r.arr(|r| r.any_finite());
            u.tau = r.arr(|r| r.any_finite());
            u.pose = pose_of(&rotation(&mut r), [r.any_finite(), r.any_finite(), r.any_finite()]);
        } else {
            u.joint = r.arr(|r| r.sym(3.0));
            u.twist = r.arr(|r| r.sym(1.0));
            u.tau = r.arr(|r| r.sym(50.0));
            let ax = unit_of(&mut r);
            u.pose = pose_of(&exp_of(scale(ax, r.f64_in(0.0, 1.0))), [r.sym(1.0), r.sym(1.0), r.sym(1.0)]);
        }
        u.elbow = match elbow_mode {
            0 => None,
            1 => Some([if raw { r.any_finite() } else { r.sym(2.0) }, if r.bool() { 1.0 } else { -1.0 }]),
            _ => {
                if r.bool() {
                    Some([r.sym(2.0), if r.bool() { 1.0 } else { -1.0 }])
                } else {
                    None
                }
            }
        };
        v.push(u);
    }
    v
}

pub fn gen_plan(s: &mut Src, p: &Profile) -> Plan {
    let kind = s.pick(&KINDS);
    let fate = [Fate::Success, Fate::Reject, Fate::StartAbort, Fate::RunAbort, Fate::EndAbort][s.weighted(&p.fates)];
    let deep = if p.len == Len::Deep { s.below(3) } else { 3 };
    let n = match deep {
        0 => s.usize(200, 1500),
        3 if p.len == Len::Medium && s.chance(1, 3) => s.usize(45, 120),
        _ => s.usize(1, 12),
    };
    // a motion that is to be aborted must not end by itself before
    let total = if fate == Fate::RunAbort { n + 40 } else { n };
    let mut user = users(s, total, p.raw);
    // who ends the motion
    {
        let l = user.last_mut().unwrap();
        match kind {
            Kind::T => l.tau_fin = true,
            k if k.torque() => match s.below(3) {
                0 => l.fin = true,
                1 => l.tau_fin = true,
                _ => {
                    l.fin = true;
                    l.tau_fin = true;
                }
            },
            _ => l.fin = true,
        }
    }
    let mut m = Motion::simple(kind, user);
    m.mode = s.below(3) as u8;
    if p.raw {
        m.limit = Some(false);
        m.cutoff = Some(s.pick(&[1000.0, 1000.0, 2000.0, 1e9]));
    } else {
        m.limit = s.pick(&[None, Some(false), Some(true)]);
        m.cutoff = s.pick(&[None, Some(1000.0), Some(10.0), Some(500.0)]);
    }
    m.gaps = match s.below(4) {
        0 => vec![],
        1 => vec![1, 2],
        2 => {
            let k = s.usize(1, 5);
            (0..k).map(|_| 1 + s.below(20)).collect()
        }
        _ => vec![1, 1, 1 + s.below(1000), 1 + s.below(1 << 33)],
    };
    let (mg, cm) = (kind.mg(), m.cm());
    // states between the acceptance and the modes being active
    let np = if deep == 1 { s.usize(20, 300) } else { s.usize(0, 4) };
    for _ in 0..np {
        let mut t = match s.below(4) {
            0 => (MG_IDLE, CM_OTHER, RM_IDLE),
            1 => (mg, CM_OTHER, RM_MOVE),
            2 => (MG_IDLE, cm, RM_MOVE),
            _ => (s.below(5) as u8, s.below(4) as u8, s.pick(&[RM_IDLE, RM_MOVE, RM_OTHER])),
        };
        if (t.0, t.1) == (mg, cm) {
            t = (MG_IDLE, CM_OTHER, RM_IDLE);
        }
        m.start.pending.push(t);
    }
    let bad = move_statuses();
    m.stop_status = s.pick(&[0, 0, 1, 2, 3, 4]);
    m.after_stop = if deep == 1 { s.usize(20, 300) } else { s.usize(0, 4) };
    m.end.extra_running = if deep == 1 { s.usize(20, 300) } else { s.usize(0, 5) };
    // the robot may report the end of the motion generator and of the controller one after the other
    let half = if kind.torque() && s.bool() { (MG_IDLE, CM_EXT) } else { (mg, if cm == CM_OTHER { CM_JI } else { CM_OTHER }) };
    if s.chance(1, 2) {
        let rm = s.pick(&[RM_MOVE, RM_IDLE]);
        m.end.half = vec![(half.0, half.1, rm); if deep == 1 { s.usize(20, 120) } else { s.usize(1, 4) }];
    }
    if s.chance(1, 3) {
        m.after_stop_modes = Some(half);
    }
    m.end.resp_first = s.bool();
    m.end.rm = s.pick(&[RM_IDLE, RM_IDLE, RM_OTHER, RM_USERSTOPPED, RM_GUIDING]);
    match fate {
        Fate::Success => m.end.reflex = reflex(s),
        Fate::Reject => m.start.status = s.pick(&bad).0,
        Fate::StartAbort => {
            m.start.abort = Some(s.pick(&bad).0);
            // the robot may be idle already when it reports the abort, or become so a little later
            if s.chance(1, 3) {
                m.start.pending.push((MG_IDLE, CM_OTHER, RM_IDLE));
            } else {
                for _ in 0..s.usize(0, 5) {
                    let t = s.pick(&[(MG_IDLE, CM_EXT, RM_MOVE), (mg, if cm == CM_OTHER { CM_JI } else { CM_OTHER }, RM_MOVE), (mg, CM_OTHER, RM_IDLE)]);
                    if (t.0, t.1) != (mg, cm) {
                        m.start.abort_tail.push(t);
                    }
                }
            }
        }
        Fate::RunAbort => {
            let (amg, acm, arm) = match s.below(5) {
                0 => (MG_IDLE, CM_OTHER, RM_IDLE),
                1 => (MG_IDLE, CM_OTHER, RM_REFLEX),
                2 => (mg, cm, s.pick(&[RM_REFLEX, RM_USERSTOPPED, RM_IDLE, RM_OTHER, RM_GUIDING, RM_AER])),
                3 => (MG_IDLE, cm, RM_MOVE),
                _ => (mg, if cm == CM_OTHER { CM_JI } else { CM_OTHER }, RM_MOVE),
            };
            let st = s.weighted(&[3, 2]);
            m.abort = Some(AbortPlan {
                step: s.usize(0, n - 1),
                mg: amg,
                cm: acm,
                rm: arm,
                status: if st == 0 { MS_REFLEX } else { s.pick(&bad).0 },
                resp_first: s.bool(),
                reflex: reflex(s),
            });
        }
        Fate::EndAbort => {
            m.end.status = if s.bool() { MS_REFLEX } else { s.pick(&bad).0 };
            m.end.reflex = reflex(s);
        }
    }
    Plan { m: Arc::new(m), fate }
}

pub struct Case {
    pub plans: Vec<Plan>,
    pub log_size: Option<usize>,
    pub first_id: u64,
    pub recovery: bool,
}
pub fn gen_case(s: &mut Src, p: &Profile) -> Case {
    let n = if p.len == Len::Deep && s.chance(1, 3) { s.usize(10, 40) } else { s.usize(1, p.max_motions) };
    let first_id = match s.below(4) {
        0 => 1,
        1 => s.below(100_000) + 1,
        2 => (1u64 << 32) - 3 + s.below(5),
        _ => s.below(1 << 40) + 1,
    };
    let log_size = match s.below(6) {
        0 => None,
        1 => Some(0),
        2 => Some(1),
        3 => Some(s.usize(2, 6)),
        4 => Some(50),
        _ if p.len == Len::Deep => Some(s.usize(7, 2000)),
        _ => Some(s.usize(7, 200)),
    };
    let recovery = s.bool();
    let plans = (0..n).map(|_| gen_plan(s, p)).collect();
    Case { plans, log_size, first_id, recovery }
}

/// Fills the fields of a state that filter and limiter do not look at (all fields if `raw`).
pub fn noise(raw: bool, salt: u64) -> Content {
    Box::new(move |_m, _k, _c, st: &mut St| {
        let mut r = Rng::new(mix(salt, st.id));
        let keep = (st.O_T_EE_c, st.elbow_c, st.delbow_c, st.ddelbow_c, st.O_dP_EE_c, st.O_ddP_EE_c, st.q_d, st.dq_d, st.ddq_d, st.tau_J_d);
        st.fill(|_| {
            let x = r.next();
            match x % 8 {
                0 => 0.0,
                1 => 1.0,
                _ => ((x >> 20) as f64 / (1u64 << 40) as f64 - 8.0) * 0.5,
            }
        });
        st.rate = (r.next() % 1000) as f64 / 1000.0;
        if !raw {
            st.O_T_EE_c = keep.0;
            st.elbow_c = keep.1;
            st.delbow_c = keep.2;
            st.ddelbow_c = keep.3;
            st.O_dP_EE_c = keep.4;
            st.O_ddP_EE_c = keep.5;
            st.q_d = keep.6;
            st.dq_d = keep.7;
            st.ddq_d = keep.8;
            st.tau_J_d = keep.9;
        }
        for k in 0..41 {
            st.errors[k] = r.next() % 9 == 0;
        }
    })
}

pub fn run_case(c: &Case, raw: bool) -> Result<Run, String> {
    let mut steps = vec![];
    for p in &c.plans {
        steps.push(Step::Motion(p.m.clone()));
        if c.recovery && p.fate != Fate::Success {
            steps.push(Step::Recovery);
        }
    }
    control_session(steps, c.log_size, c.first_id, noise(raw, c.first_id))
}

/// One motion as both sides saw it.
pub struct View<'a> {
    pub i: usize,
    pub plan: &'a Plan,
    pub ev: &'a [Ev],
    pub cbs: &'a [Cb],
    pub res: &'a Result<Res, String>,
}
impl<'a> View<'a> {
    pub fn what(&self) -> String {
        format!("motion {} ({:?}, {:?}, {} user commands)", self.i, self.plan.m.kind, self.plan.fate, self.plan.m.user.len())
    }
    pub fn cmds(&self) -> Vec<&'a Cmd> {
        self.ev.iter().filter_map(|e| if let Ev::Cmd(c) = e { Some(c) } else { None }).collect()
    }
    pub fn state(&self, id: u64) -> Option<&'a St> {
        self.ev.iter().find_map(|e| match e {
            Ev::St(s) if s.id == id => Some(&**s),
            _ => None,
        })
    }
    pub fn state_pos(&self, id: u64) -> usize {
        self.ev.iter().position(|e| matches!(e, Ev::St(s) if s.id == id)).unwrap_or(0)
    }
    /// callbacks of the interface that drives the motion
    pub fn main(&self) -> Vec<&'a Cb> {
        let control = self.plan.m.kind == Kind::T;
        self.cbs.iter().filter(|c| c.control == control).collect()
    }
    pub fn stalled(&self) -> bool {
        self.ev.iter().any(|e| matches!(e, Ev::Stall))
    }
    fn res_text(&self) -> String {
        match self.res {
            Ok(r) => r.brief(),
            Err(p) => format!("panic: {}", p),
        }
    }
}

pub fn views<'a>(c: &'a Case, run: &'a Run) -> Result<Vec<View<'a>>, String> {
    if !matches!(run.client.connect, Res::Ok) {
        return Err(format!("connecting failed: {}", run.client.connect.brief()));
    }
    let evs = split_motions(&run.ev);
    let mut out = vec![];
    for (i, (cbs, res)) in run.client.motions.iter().enumerate() {
        match evs.get(i) {
            Some(ev) => out.push(View { i, plan: &c.plans[i], ev, cbs, res }),
            None => return Err(format!("motion {} ({:?}) sent no Move request (result {:?})", i, c.plans[i].m.kind, res.as_ref().map(|r| r.brief()))),
        }
    }
    Ok(out)
}

// ---- judges ------------------------------------------------------------------------------------

/// C08: commands answer states.
fn judge_commands(j: &mut Judge, v: &View) {
    let m = &v.plan.m;
    let kind = m.kind;
    let main = v.main();
    let cmds = v.cmds();
    let w = v.what();
    // callbacks see states the robot sent for this motion, strictly increasing, dt is the difference
    let mut prev: Option<Duration> = None;
    for cb in &main {
        let id = cb.state.time.as_millis() as u64;
        match v.state(id) {
            None => {
                j.fail(format!("{}: callback {} saw a state with id {} that the robot did not send in this motion", w, cb.n, id));
                return;
            }
            Some(st) => {
                if let Err(e) = st.diff(&cb.state) {
                    j.fail(format!("{}: callback {}: {}", w, cb.n, e));
                    return;
                }
            }
        }
        let want = match prev {
            None => Duration::from_millis(0),
            Some(p) => cb.state.time.checked_sub(p).unwrap_or_default(),
        };
        j.check(cb.dt == want, || format!("{}: callback {} got time step {:?}, states differ by {:?}", w, cb.n, cb.dt, want));
        if let Some(p) = prev {
            j.check(cb.state.time > p, || format!("{}: callback {} saw time {:?} after {:?}", w, cb.n, cb.state.time, p));
        }
        prev = Some(cb.state.time);
    }
    // combined: motion callback first, then the torque callback, with the same state and time step
    if kind.torque() && kind != Kind::T {
        let mut expect_control: Option<&Cb> = None;
        let mut nm = 0;
        for cb in v.cbs {
            match (cb.control, expect_control) {
                (false, None) => {
                    nm += 1;
                    expect_control = if cb.user.fin { None } else { Some(cb) };
                }
                (true, Some(mcb)) => {
                    j.check(cb.n == mcb.n && cb.state.time == mcb.state.time && cb.dt == mcb.dt, || {
                        format!("{}: torque callback {} saw time {:?} step {:?}, motion callback {} saw {:?} step {:?}", w, cb.n, cb.state.time, cb.dt, mcb.n, mcb.state.time, mcb.dt)
                    });
                    if let Some(st) = v.state(cb.state.time.as_millis() as u64) {
                        if let Err(e) = st.diff(&cb.state) {
                            j.fail(format!("{}: torque callback {}: {}", w, cb.n, e));
                        }
                    }
                    expect_control = None;
                }
                (false, Some(_)) => j.fail(format!("{}: motion callback {} without a torque callback before it", w, nm)),
                (true, None) => j.fail(format!("{}: torque callback {} without a motion callback before it", w, cb.n)),
            }
        }
        if let Some(c) = expect_control {
            j.fail(format!("{}: no torque callback after motion callback {}", w, c.n));
        }
    }
    // exactly one command per invocation, in order, with the invocation's state id and values
    for (n, cb) in main.iter().enumerate() {
        let id = cb.state.time.as_millis() as u64;
        let same: Vec<&&Cmd> = cmds.iter().filter(|c| c.id == id).collect();
        if same.len() != 1 {
            j.fail(format!("{}: {} commands for state {} (callback {})", w, same.len(), id, n));
            return;
        }
        if cmds.get(n).map(|c| c.id) != Some(id) {
            j.fail(format!("{}: command number {} answers state {:?}, callback {} saw state {}", w, n, cmds.get(n).map(|c| c.id), n, id));
            return;
        }
        if let Err(e) = same_cmd(&expected_cmd(v, &main, n), same[0]) {
            j.fail(format!("{}: command {} of callback {}: {}", w, id, n, e));
            return;
        }
    }
}

/// The command for invocation n of the callbacks when nothing is filtered or limited.
fn expected_cmd(v: &View, main: &[&Cb], n: usize) -> Cmd {
    let (cb, kind) = (main[n], v.plan.m.kind);
    let torque_cb = v.cbs.iter().find(|x| x.control && x.n == n && x.state.time == cb.state.time);
    // an invocation whose motion callback finished the motion has no torque callback: the last torques stay
    let tau = v.cbs.iter().filter(|x| x.control && x.n <= n).last().map(|t| t.user.tau).unwrap_or([0.0; 7]);
    let u = &cb.user;
    Cmd {
        id: cb.state.time.as_millis() as u64,
        q: if kind.mg() == MG_JP { u.joint } else { [0.0; 7] },
        dq: if kind.mg() == MG_JV && kind != Kind::T { u.joint } else { [0.0; 7] },
        pose: if kind.mg() == MG_CP { u.pose } else { [0.0; 16] },
        twist: if kind.mg() == MG_CV { u.twist } else { [0.0; 6] },
        elbow: if kind.cartesian() { u.elbow.unwrap_or([0.0; 2]) } else { [0.0; 2] },
        valid_elbow: kind.cartesian() && u.elbow.is_some(),
        finished: if kind == Kind::T { u.tau_fin } else { u.fin } || torque_cb.map(|t| t.user.tau_fin).unwrap_or(false),
        tau: if kind.torque() { tau } else { [0.0; 7] },
    }
}

/// bit for bit, except that untouched fields may be +0 or -0
fn same_cmd(want: &Cmd, got: &Cmd) -> Result<(), String> {
    let f = |name: &str, a: &[f64], b: &[f64]| -> Result<(), String> {
        for i in 0..a.len() {
            if a[i].to_bits() != b[i].to_bits() && !(a[i] == 0.0 && b[i] == 0.0) {
                return Err(format!("{}[{}] is {:e}, the user returned {:e}", name, i, b[i], a[i]));
            }
        }
        Ok(())
    };
    if want.id != got.id {
        return Err(format!("id {} instead of {}", got.id, want.id));
    }
    f("q_c", &want.q, &got.q)?;
    f("dq_c", &want.dq, &got.dq)?;
    f("O_T_EE_c", &want.pose, &got.pose)?;
    f("O_dP_EE_c", &want.twist, &got.twist)?;
    f("tau_J_d", &want.tau, &got.tau)?;
    if want.valid_elbow != got.valid_elbow {
        return Err(format!("valid_elbow {} instead of {}", got.valid_elbow, want.valid_elbow));
    }
    f("elbow_c", &want.elbow, &got.elbow)?;
    if want.finished != got.finished {
        return Err(format!("finished flag {} instead of {}", got.finished, want.finished));
    }
    Ok(())
}

fn after_stop(ev: &[Ev], id: u64) -> bool {
    let stop = ev.iter().position(|e| matches!(e, Ev::Req(r) if r.cmd == STOP_MOVE)).unwrap_or(ev.len());
    ev.iter().position(|e| matches!(e, Ev::St(s) if s.id == id)).map(|p| p > stop).unwrap_or(false)
}

/// C09: start and end in step with the robot.
fn judge_lifecycle(j: &mut Judge, v: &View) {
    let m = &v.plan.m;
    let w = v.what();
    let (mg, cm) = (m.kind.mg(), m.cm());
    let moves: Vec<&Req> = v.ev.iter().filter_map(|e| if let Ev::Req(r) = e { if r.cmd == MOVE { Some(r) } else { None } } else { None }).collect();
    if !j.check(moves.len() == 1, || format!("{}: {} Move requests", w, moves.len())) {
        return;
    }
    if let Err(e) = move_body_ok(&moves[0].body, cm, mg) {
        j.fail(format!("{}: {}", w, e));
    }
    // nothing before the modes are active
    let active = v.ev.iter().position(|e| matches!(e, Ev::St(s) if s.mg == mg && s.cm == cm));
    let first_cmd = v.ev.iter().position(|e| matches!(e, Ev::Cmd(_)));
    match (active, first_cmd) {
        (None, Some(_)) => j.fail(format!("{}: command sent although the modes never became active", w)),
        (Some(a), Some(c)) if c < a => j.fail(format!("{}: command sent before the modes were active", w)),
        _ => {}
    }
    for cb in v.cbs {
        match v.state(cb.state.time.as_millis() as u64) {
            Some(s) => {
                j.check(s.mg == mg && s.cm == cm && s.rm == RM_MOVE, || {
                    format!("{}: callback {} ran with a state whose modes are (mg {}, cm {}, {}), the motion's are (mg {}, cm {}, Move)", w, cb.n, s.mg, s.cm, RM_NAMES[s.rm as usize], mg, cm)
                });
            }
            None => j.fail(format!("{}: callback {} saw a state not sent in this motion", w, cb.n)),
        }
    }
    // no callback after a finished command
    let main = v.main();
    let fin_at = m.user.iter().position(|u| (m.kind != Kind::T && u.fin) || (m.kind.torque() && u.tau_fin)).unwrap_or(usize::MAX);
    let nmain = main.len();
    j.check(nmain <= fin_at.saturating_add(1), || format!("{}: {} invocations, but number {} returned a finished command", w, nmain, fin_at));
    if let Some(pos) = v.cbs.iter().position(|c| (!c.control && c.user.fin) || (c.control && c.user.tau_fin)) {
        j.check(pos + 1 == v.cbs.len(), || format!("{}: callbacks ran after a finished command was returned", w));
    }
    let ended = matches!(v.plan.fate, Fate::Success | Fate::EndAbort);
    let fin_cmd = if ended { v.ev.iter().position(|e| matches!(e, Ev::Cmd(c) if c.finished)) } else { None };
    // once the first command is out the robot waits for each answer: exactly one per running state
    if let Some(p) = first_cmd {
        for e in &v.ev[p..] {
            if let Ev::St(st) = e {
                let n = v.ev.iter().filter(|e| matches!(e, Ev::Cmd(c) if c.id == st.id)).count();
                let finishing = fin_cmd.map(|p| v.state_pos(st.id) > p).unwrap_or(false) && (st.mg != MG_IDLE || st.cm == CM_EXT);
                if ((st.mg, st.cm, st.rm) == (mg, cm, RM_MOVE) || finishing) && !after_stop(v.ev, st.id) {
                    j.check(n == 1, || format!("{}: {} commands in answer to the running state {}", w, n, st.id));
                } else {
                    j.check(n == 0, || format!("{}: {} commands in answer to state {}, which shows that the motion is over", w, n, st.id));
                }
            }
        }
    }
    // finishing: the last command, marked finished, once per state, until the robot is idle
    let cmds = v.cmds();
    if ended {
        j.check(nmain == fin_at + 1, || format!("{}: {} invocations, expected {}", w, nmain, fin_at + 1));
        if let Some(f) = cmds.iter().position(|c| c.finished) {
            let first = cmds[f];
            if nmain > 0 {
                if let Err(e) = same_cmd(&expected_cmd(v, &main, nmain - 1), first) {
                    j.fail(format!("{}: the finished command is not what the callbacks returned last: {}", w, e));
                }
            }
            for c in &cmds[f..] {
                let mut e = (*first).clone();
                e.id = c.id;
                j.check(same_cmd(&e, c).is_ok() && c.finished, || format!("{}: command {} after the finished one differs from it: {:?}", w, c.id, same_cmd(&e, c)));
            }
            j.check(main.last().map(|c| c.state.time.as_millis() as u64) == Some(first.id), || format!("{}: first finished command has id {}", w, first.id));
            // each answers a different state of this motion, in the order they were sent
            let mut last = 0;
            for c in &cmds[f..] {
                let ok = c.id > last && v.state(c.id).map(|s| s.mg != MG_IDLE || s.cm == CM_EXT).unwrap_or(false);
                j.check(ok, || format!("{}: finished command with id {} (previous {})", w, c.id, last));
                last = c.id;
            }
        } else {
            j.fail(format!("{}: no command was marked finished", w));
        }
    } else {
        j.check(cmds.iter().all(|c| !c.finished) || nmain == fin_at + 1, || format!("{}: a command is marked finished but no callback said so", w));
    }
    match (v.plan.fate, v.res) {
        (Fate::Success, Ok(Res::Ok)) => {}
        (Fate::Success, r) => j.fail(format!("{}: finished successfully, but the call returned {}", w, match r { Ok(r) => r.brief(), Err(p) => format!("panic {}", p) })),
        (_, Ok(Res::Ok)) => j.fail(format!("{}: the call returned success", w)),
        _ => {}
    }
    if v.plan.fate == Fate::Success {
        let stops = v.ev.iter().filter(|e| matches!(e, Ev::Req(r) if r.cmd == STOP_MOVE)).count();
        j.check(stops == 0, || format!("{}: {} Stop requests", w, stops));
    }
}

fn keyword(status: u8) -> &'static str {
    REJECT.iter().find(|r| r.0 == status).map(|r| r.1).unwrap_or("")
}
pub fn names_reason(text: &str, status: u8) -> bool {
    let t = text.to_lowercase();
    let k = keyword(status);
    if !t.contains(k) {
        return false;
    }
    // the generic reason is a part of others' texts
    if status == 9 {
        return !REJECT.iter().any(|(s, k)| *s != 9 && t.contains(k));
    }
    true
}
/// The quoted / bracketed names in an error text are exactly the flagged ones.
fn names_reflexes(text: &str, flags: &[bool; 41]) -> Result<(), String> {
    let words: Vec<&str> = text.split(|c: char| !c.is_alphanumeric()).filter(|w| !w.is_empty()).collect();
    for (i, n) in ERROR_NAMES.iter().enumerate() {
        if words.contains(n) != flags[i] {
            return Err(format!("{} is {} but the text {:?} {}", n, if flags[i] { "set" } else { "not set" }, text, if flags[i] { "does not name it" } else { "names it" }));
        }
    }
    Ok(())
}

/// C10: aborted motions.
fn judge_abort(j: &mut Judge, v: &View, next_req_after: bool) {
    let m = &v.plan.m;
    let w = v.what();
    let stops: Vec<usize> = v.ev.iter().enumerate().filter(|(_, e)| matches!(e, Ev::Req(r) if r.cmd == STOP_MOVE)).map(|(i, _)| i).collect();
    match v.plan.fate {
        Fate::Success => {
            j.check(matches!(v.res, Ok(Res::Ok)), || format!("{}: returned {}", w, v.res_text()));
            j.check(stops.is_empty(), || format!("{}: Stop request although nothing failed", w));
        }
        Fate::Reject => match v.res {
            Ok(Res::Command(msg)) => {
                j.check(names_reason(msg, m.start.status), || format!("{}: rejected with status {} ({}), but the error says {:?}", w, m.start.status, keyword(m.start.status), msg));
                j.check(v.cbs.is_empty() && v.cmds().is_empty(), || format!("{}: callbacks or commands although the motion was rejected", w));
            }
            _ => j.fail(format!("{}: rejected with status {}, but the call returned {}", w, m.start.status, v.res_text())),
        },
        Fate::StartAbort => match v.res {
            Ok(Res::Control { error, .. }) => {
                let st = m.start.abort.unwrap();
                j.check(names_reason(error, st), || format!("{}: aborted while starting with status {} ({}), but the error says {:?}", w, st, keyword(st), error));
                j.check(v.cbs.is_empty() && v.cmds().is_empty(), || format!("{}: callbacks or commands although the motion was aborted while starting", w));
            }
            _ => j.fail(format!("{}: aborted while starting, but the call returned {}", w, v.res_text())),
        },
        Fate::RunAbort => {
            let a = m.abort.as_ref().unwrap();
            let at = v.ev.iter().position(|e| matches!(e, Ev::Resp { cmd: MOVE, status, .. } if *status == a.status)).unwrap_or(v.ev.len());
            // no callback with or after the reporting state
            let abort_state = v.ev[at.min(v.ev.len() - 1).saturating_sub(1)..].iter().find_map(|e| match e {
                Ev::St(s) if (s.mg, s.cm, s.rm) == (a.mg, a.cm, a.rm) => Some(s.id),
                _ => None,
            });
            if let Some(id) = abort_state {
                for cb in v.cbs {
                    j.check((cb.state.time.as_millis() as u64) < id, || format!("{}: callback {} ran with state {} although state {} reported the abort", w, cb.n, cb.state.time.as_millis(), id));
                }
                for c in v.cmds() {
                    j.check(c.id < id, || format!("{}: command {} sent in answer to the aborting state {} or later", w, c.id, id));
                }
            }
            match v.res {
                Ok(Res::Control { error, .. }) => {
                    j.check(names_reason(error, a.status), || format!("{}: aborted with status {} ({}), but the error says {:?}", w, a.status, keyword(a.status), error));
                    let want = if a.status == MS_REFLEX { a.reflex } else { [false; 41] };
                    if let Err(e) = names_reflexes(error, &want) {
                        j.fail(format!("{}: {}", w, e));
                    }
                }
                _ => j.fail(format!("{}: aborted with status {}, but the call returned {}", w, a.status, v.res_text())),
            }
            j.check(stops.len() == 1, || format!("{}: {} Stop requests after the abort", w, stops.len()));
            if let Some(s) = stops.first() {
                j.check(*s > at, || format!("{}: Stop request before the abort", w));
            }
            // the call returned only after the robot was idle: any later request comes after that
            if next_req_after {
                let last_req = v.ev.iter().rposition(|e| matches!(e, Ev::Req(r) if r.cmd != STOP_MOVE && r.cmd != MOVE));
                let end = last_req.unwrap_or(v.ev.len());
                if let Some(s) = stops.first() {
                    let idle = v.ev[*s..end.max(*s)].iter().any(|e| matches!(e, Ev::St(s) if s.mg == MG_IDLE && s.cm != CM_EXT));
                    j.check(idle, || format!("{}: the call returned before the robot was idle", w));
                }
            }
        }
        Fate::EndAbort => {
            match v.res {
                Ok(Res::Control { error, .. }) => {
                    if m.end.status == MS_REFLEX {
                        if let Err(e) = names_reflexes(error, &m.end.reflex) {
                            j.fail(format!("{}: {}", w, e));
                        }
                    } else {
                        j.check(names_reason(error, m.end.status), || format!("{}: aborted while finishing with status {} ({}), but the error says {:?}", w, m.end.status, keyword(m.end.status), error));
                    }
                }
                _ => j.fail(format!("{}: aborted while finishing, but the call returned {}", w, v.res_text())),
            }
            j.check(stops.len() <= 1, || format!("{}: {} Stop requests", w, stops.len()));
        }
    }
}

/// The commands of an aborted motion, each with the id of the state received in answer to it.
fn exchanges<'a>(v: &View<'a>) -> Option<Vec<(&'a Cmd, u64)>> {
    let m = &v.plan.m;
    let cmds = v.cmds();
    // the state that ended it
    let terminal = match v.plan.fate {
        Fate::RunAbort => {
            let a = m.abort.as_ref().unwrap();
            let last_cmd = v.ev.iter().rposition(|e| matches!(e, Ev::Cmd(_)));
            last_cmd.and_then(|p| {
                v.ev[p..].iter().find_map(|e| match e {
                    Ev::St(s) if (s.mg, s.cm, s.rm) == (a.mg, a.cm, a.rm) => Some(s.id),
                    _ => None,
                })
            })
        }
        _ => {
            let last_cmd = v.ev.iter().rposition(|e| matches!(e, Ev::Cmd(_)));
            last_cmd.and_then(|p| v.ev[p..].iter().find_map(|e| if let Ev::St(s) = e { Some(s.id) } else { None }))
        }
    };
    let terminal = terminal?;
    let mut pairs: Vec<(&'a Cmd, u64)> = vec![];
    for (k, c) in cmds.iter().enumerate() {
        pairs.push((c, cmds.get(k + 1).map(|n| n.id).unwrap_or(terminal)));
    }
    Some(pairs)
}

/// C23: what a reflex error says about the communication.
fn judge_quality(j: &mut Judge, v: &View, log_size: Option<usize>) -> bool {
    let w = v.what();
    let error = match v.res {
        Ok(Res::Control { error, .. }) => error,
        _ => return false,
    };
    let reflex = match v.plan.fate {
        Fate::RunAbort => v.plan.m.abort.as_ref().unwrap().status == MS_REFLEX,
        Fate::EndAbort => v.plan.m.end.status == MS_REFLEX,
        _ => false,
    };
    let after = |key: &str| {
        error.find(key).and_then(|p| {
            let t = error[p + key.len()..].trim_start_matches(|c: char| c == ':' || c == '=' || c.is_whitespace());
            t.split_whitespace().next().and_then(|x| x.parse::<f64>().ok())
        })
    };
    let rate = after("control_command_success_rate");
    let lost = after("lost in a row in the last sample");
    let pairs = match exchanges(v) {
        Some(p) if reflex && p.len().min(log_size.unwrap_or(50)) >= 2 => p,
        _ => {
            j.check(rate.is_none() && lost.is_none(), || format!("{}: no reflex with two logged exchanges, but the error says {:?}", w, error));
            return false;
        }
    };
    let (a, b) = (pairs[pairs.len() - 2].1, pairs[pairs.len() - 1].1);
    let n = (b - a - 1) as f64;
    let want = match v.state(a) {
        Some(s) => s.rate * (1.0 - n / 100.0),
        None => return false,
    };
    j.check(rate.map(|r| (r - want).abs() <= 1e-5 + 1e-9 * want.abs()).unwrap_or(false), || {
        format!("{}: the state before the last one reported {:?} and {} messages were missing, so the rate is {}; the error says {:?}", w, v.state(a).map(|s| s.rate), n, want, error)
    });
    if n > 0.0 {
        j.check(lost == Some(n), || format!("{}: {} messages were missing, the error says {:?}", w, n, error));
    } else {
        j.check(lost.is_none(), || format!("{}: no message was missing, the error says {:?}", w, error));
    }
    true
}

fn judge_log(j: &mut Judge, v: &View, log_size: Option<usize>) -> usize {
    let w = v.what();
    let m = &v.plan.m;
    let log: &Vec<Record> = match (v.plan.fate, v.res) {
        (Fate::RunAbort, Ok(Res::Control { log: Some(l), .. })) | (Fate::EndAbort, Ok(Res::Control { log: Some(l), .. })) => l,
        (Fate::RunAbort, _) | (Fate::EndAbort, _) => {
            j.fail(format!("{}: aborted, but the call returned {} (no log)", w, v.res_text()));
            return 0;
        }
        (Fate::StartAbort, Ok(Res::Control { log: Some(l), .. })) => {
            j.check(l.is_empty(), || format!("{}: log of {} records for a motion that never ran", w, l.len()));
            return 0;
        }
        _ => return 0,
    };
    let pairs = match exchanges(v) {
        Some(p) => p,
        None => {
            j.fail(format!("{}: the robot's history has no terminal state", w));
            return 0;
        }
    };
    let n = log_size.unwrap_or(50);
    let skip = pairs.len().saturating_sub(n);
    let want = &pairs[skip..];
    if !j.check(log.len() == want.len(), || format!("{}: log has {} records; {} pairs were exchanged and the log size is {}", w, log.len(), pairs.len(), n)) {
        return pairs.len();
    }
    for (k, (r, (c, sid))) in log.iter().zip(want).enumerate() {
        match v.state(*sid) {
            Some(st) => {
                if let Err(e) = st.diff(&r.state) {
                    j.fail(format!("{}: record {} of {}: state {} expected: {}", w, k, log.len(), sid, e));
                }
            }
            None => j.fail(format!("{}: state {} not in the history", w, sid)),
        }
        let ok = bits_eq(&r.command.joint_positions.q, &c.q)
            && bits_eq(&r.command.joint_velocities.dq, &c.dq)
            && bits_eq(&r.command.cartesian_pose.O_T_EE, &c.pose)
            && bits_eq(&r.command.cartesian_velocities.O_dP_EE, &c.twist)
            && bits_eq(&r.command.torques.tau_J, &c.tau);
        j.check(ok, || format!("{}: record {} of {}: command differs from the one sent for state {}: {:?} / {:?}", w, k, log.len(), c.id, r.command, c));
    }
    pairs.len()
}

fn timing(m: String) -> Outcome {
    Outcome { verdict: Verdict::FailTiming(m), nontrivial: false, labels: vec![], sample: None }
}

/// A view whose history is disturbed by scheduling cannot be judged strictly.
fn disturbed(v: &View) -> bool {
    v.stalled()
}

fn bad_datagrams(j: &mut Judge, run: &Run) {
    for e in &run.ev {
        if let Ev::BadCmd(b) = e {
            j.fail(b.clone());
        }
    }
}

fn label_of(f: Fate) -> &'static str {
    match f {
        Fate::Success => "motion succeeded",
        Fate::Reject => "motion rejected",
        Fate::StartAbort => "aborted while starting",
        Fate::RunAbort => "aborted while running",
        Fate::EndAbort => "aborted while finishing",
    }
}

fn sessions(s: &mut Src, p: &Profile, judge: fn(&mut Judge, &View, &Case, bool) -> (bool, u64)) -> Outcome {
    let c = gen_case(s, p);
    let run = match run_case(&c, p.raw) {
        Ok(r) => r,
        Err(e) => return timing(e),
    };
    let mut j = Judge::default();
    bad_datagrams(&mut j, &run);
    let vs = match views(&c, &run) {
        Ok(v) => v,
        Err(e) => {
            return Outcome { verdict: Verdict::Fail(e), nontrivial: true, labels: vec![], sample: None };
        }
    };
    let mut nontrivial = false;
    let mut labels: Vec<(&'static str, u64)> = vec![];
    let mut total = 0;
    for (i, v) in vs.iter().enumerate() {
        if disturbed(v) {
            j.timing(format!("{}: a state was not answered within 300 ms", v.what()));
            continue;
        }
        let followed = i + 1 < c.plans.len() || (c.recovery && v.plan.fate != Fate::Success);
        let (nt, k) = judge(&mut j, v, &c, followed);
        nontrivial |= nt;
        total += k;
        labels.push((label_of(v.plan.fate), 1));
        if v.res.is_err() {
            j.fail(format!("{}: {}", v.what(), v.res_text()));
        }
    }
    // the connection stays usable: everything that was planned took place
    j.check(vs.len() == c.plans.len(), || format!("only {} of {} motions took place", vs.len(), c.plans.len()));
    for r in &run.client.recoveries {
        j.check(matches!(r, Res::Ok), || format!("error recovery after an aborted motion returned {}", r.brief()));
    }
    labels.push(("commands", total));
    let sample = format!(
        "log size {:?}, first id {}, motions {:?}",
        c.log_size,
        c.first_id,
        c.plans.iter().map(|p| format!("{:?}/{:?}/{} cmds/pending {}/gaps {:?}", p.m.kind, p.fate, p.m.user.len(), p.m.start.pending.len(), p.m.gaps)).collect::<Vec<_>>()
    );
    Outcome { verdict: j.verdict(), nontrivial, labels, sample: Some(sample) }
}

pub fn c08() -> Prop {
    fn f(s: &mut Src, len: Len) -> Outcome {
        sessions(s, &Profile { fates: [6, 0, 0, 3, 1], max_motions: 3, raw: true, len }, |j, v, _, _| {
            judge_commands(j, v);
            (v.cmds().len() >= 2, v.cmds().len() as u64)
        })
    }
    Prop {
        id: "C08",
        level: "exploration",
        rule: "sessions of 1-3 motions of any of the nine interfaces with filter and limiter off, arbitrary finite values, state ids with gaps and beyond 2^32; every callback and every command datagram is recorded and paired by message id. long: the same with up to 40 motions, 1500 commands per motion, and 300 states before the modes are active, after the finished command or after a Stop. Non-trivial: a motion exchanged at least two commands.",
        assumptions: &["the simulated robot answers in lock step over loopback", "finite user values (others: C05)"],
        subs: vec![
            Sub { name: "sessions", quick: 90_000, thorough: 800_000, par: 8, f: |s| f(s, Len::Short) },
            Sub { name: "long", quick: 400, thorough: 8000, par: 8, f: |s| f(s, Len::Deep) },
        ],
    }
}
pub fn c09() -> Prop {
    fn f(s: &mut Src, len: Len) -> Outcome {
        sessions(s, &Profile { fates: [8, 1, 1, 1, 1], max_motions: 4, raw: true, len }, |j, v, _, _| {
            judge_lifecycle(j, v);
            (v.plan.fate == Fate::Success && !v.cmds().is_empty(), v.cmds().len() as u64)
        })
    }
    Prop {
        id: "C09",
        level: "exploration",
        rule: "sessions of 1-4 motions; generated states before the modes become active, states still running after the finished command, order of final response and idle state, rejected and aborted motions in between. long: the same with up to 40 motions, 1500 commands per motion, and 300 states before the modes are active, after the finished command or after a Stop. Non-trivial: a motion was started, exchanged commands and ended successfully.",
        assumptions: &["the simulated robot answers in lock step over loopback"],
        subs: vec![
            Sub { name: "sessions", quick: 90_000, thorough: 800_000, par: 8, f: |s| f(s, Len::Short) },
            Sub { name: "long", quick: 400, thorough: 8000, par: 8, f: |s| f(s, Len::Deep) },
        ],
    }
}
pub fn c10() -> Prop {
    fn f(s: &mut Src, len: Len) -> Outcome {
        sessions(s, &Profile { fates: [2, 2, 2, 6, 3], max_motions: 4, raw: true, len }, |j, v, _, followed| {
            judge_abort(j, v, followed);
            (v.plan.fate != Fate::Success, v.cmds().len() as u64)
        })
    }
    Prop {
        id: "C10",
        level: "fault_enumeration",
        rule: "sessions of 1-4 motions where the robot rejects or aborts most of them: every Move status, at every point (start, before the modes, any step, finishing), every combination of reported modes, any reflex flags, response before or after the state, every Stop status, states still running after the Stop. long: the same with up to 40 motions, 1500 commands per motion, and 300 states before the modes are active, after the finished command or after a Stop. Non-trivial: a motion was rejected or aborted.",
        assumptions: &["the robot eventually becomes idle after a Stop", "a robot aborts a running motion with an error status, not with Success"],
        subs: vec![
            Sub { name: "sessions", quick: 90_000, thorough: 800_000, par: 8, f: |s| f(s, Len::Short) },
            Sub { name: "long", quick: 400, thorough: 8000, par: 8, f: |s| f(s, Len::Deep) },
        ],
    }
}
pub fn c11() -> Prop {
    fn f(s: &mut Src, len: Len) -> Outcome {
        sessions(s, &Profile { fates: [3, 0, 1, 6, 3], max_motions: 3, raw: false, len }, |j, v, c, _| {
            let n = judge_log(j, v, c.log_size);
            (n >= 2, n as u64)
        })
    }
    Prop {
        id: "C11",
        level: "exploration",
        rule: "sessions of 1-3 motions with 1-120 commands, filter and limiter on or off, log sizes none/0/1/../200, aborted while running or finishing, successful motions in between. The expected log is computed from the robot side's history. long: the same with up to 40 motions, 1500 commands per motion, and 300 states before the modes are active, after the finished command or after a Stop. Non-trivial: an aborted motion exchanged at least two pairs.",
        assumptions: &["the simulated robot answers in lock step over loopback"],
        subs: vec![
            Sub { name: "sessions", quick: 60_000, thorough: 400_000, par: 8, f: |s| f(s, Len::Medium) },
            Sub { name: "long", quick: 400, thorough: 8000, par: 8, f: |s| f(s, Len::Deep) },
        ],
    }
}

pub fn c23() -> Prop {
    fn f(s: &mut Src, len: Len) -> Outcome {
        sessions(s, &Profile { fates: [2, 0, 1, 6, 4], max_motions: 3, raw: true, len }, |j, v, c, _| {
            let n = judge_quality(j, v, c.log_size);
            (n, v.cmds().len() as u64)
        })
    }
    Prop {
        id: "C23",
        level: "exploration",
        rule: "sessions of 1-3 motions aborted while running or finishing, by a reflex or otherwise, with generated success rates, message id gaps (none to 2^33) and log sizes. The expected numbers are computed from the robot side's history. long: the same with up to 40 motions, 1500 commands per motion, and 300 states before the modes are active, after the finished command or after a Stop. Non-trivial: a reflex after at least two logged exchanges.",
        assumptions: &["the simulated robot answers in lock step over loopback"],
        subs: vec![
            Sub { name: "sessions", quick: 80_000, thorough: 500_000, par: 8, f: |s| f(s, Len::Short) },
            Sub { name: "long", quick: 400, thorough: 8000, par: 8, f: |s| f(s, Len::Deep) },
        ],
    }
}

// ---- C05 ---------------------------------------------------------------------------------------

fn poison(s: &mut Src) -> f64 {
    s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -f64::NAN])
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Bad {
    None,
    NonFinite,
    Elbow,
    Matrix,
}

fn break_user(s: &mut Src, kind: Kind, u: &mut User) -> Bad {
    let cart = kind.cartesian();
    let opts: &[u64] = if kind.mg() == MG_CP { &[4, 3, 3] } else if cart { &[4, 3, 0] } else { &[1, 0, 0] };
    match s.weighted(opts) {
        0 => {
            let x = poison(s);
            let torque = kind.torque() && (kind == Kind::T || s.bool());
            if torque {
                u.tau[s.usize(0, 6)] = x;
            } else {
                match kind.mg() {
                    MG_JP | MG_JV => u.joint[s.usize(0, 6)] = x,
                    MG_CP => {
                        if u.elbow.is_some() && s.chance(1, 4) {
                            u.elbow = Some([x, 1.0]);
                        } else {
                            u.pose[s.usize(0, 15)] = x
                        }
                    }
                    _ => {
                        if u.elbow.is_some() && s.chance(1, 4) {
                            u.elbow = Some([x, 1.0]);
                        } else {
                            u.twist[s.usize(0, 5)] = x
                        }
                    }
                }
            }
            Bad::NonFinite
        }
        1 => {
            let a = s.sym(2.0);
            let sg = s.pick(&[0.0, 0.5, -0.5, 2.0, -2.0, 1.0001, -0.999, f64::NAN, f64::INFINITY, 1e300]);
            u.elbow = Some([a, sg]);
            Bad::Elbow
        }
        _ => {
            match s.below(9) {
                0 => u.pose[s.pick(&[3usize, 7, 11])] = s.pick(&[1.0, -1.0, 0.01, 1e-4, 1e10]),
                1 => u.pose[15] = s.pick(&[0.0, 2.0, -1.0, 0.99, 1.001]),
                2 => u.pose = [0.0; 16],
                3 => {
                    let f = s.pick(&[0.5, 2.0, 1.01, 0.99, 1.001]);
                    for k in [0, 1, 2, 4, 5, 6, 8, 9, 10] {
                        u.pose[k] *= f;
                    }
                }
                4 => {
                    let f = s.pick(&[0.5, 2.0, 1.01, -1.5]);
                    let j = s.usize(0, 2);
                    for k in 0..3 {
                        u.pose[4 * j + k] *= f;
                    }
                }
                5 => {
                    let f = s.pick(&[0.5, 2.0, 1.01, -1.5, 1.0001]);
                    let i = s.usize(0, 2);
                    for k in 0..3 {
                        u.pose[4 * k + i] *= f;
                    }
                }
                // all columns (or rows) have length one, but not all rows (columns)
                6 | 7 => {
                    let (from, to) = s.pick(&[(0usize, 1usize), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)]);
                    let cols = s.bool();
                    for k in 0..3 {
                        if cols {
                            u.pose[4 * to + k] = u.pose[4 * from + k];
                        } else {
                            u.pose[4 * k + to] = u.pose[4 * k + from];
                        }
                    }
                }
                _ => {
                    let i = s.pick(&[0usize, 1, 2, 4, 5, 6, 8, 9, 10]);
                    u.pose[i] += s.pick(&[1.0, -1.0, 0.5, 3.0]);
                }
            }
            // (a change of sign, say, leaves all lengths as they are)
            let p = u.pose;
            let fine = p[3] == 0.0
                && p[7] == 0.0
                && p[11] == 0.0
                && p[15] == 1.0
                && (0..3).all(|k| {
                    let col = (p[4 * k].powi(2) + p[4 * k + 1].powi(2) + p[4 * k + 2].powi(2)).sqrt();
                    let row = (p[k].powi(2) + p[4 + k].powi(2) + p[8 + k].powi(2)).sqrt();
                    (col - 1.0).abs() < 5e-5 && (row - 1.0).abs() < 5e-5
                });
            if fine {
                u.pose[15] = 2.0;
            }
            Bad::Matrix
        }
    }
}

fn wire_valid(c: &Cmd, cp: bool) -> Result<(), String> {
    for (n, a) in [("q_c", &c.q[..]), ("dq_c", &c.dq[..]), ("O_T_EE_c", &c.pose[..]), ("O_dP_EE_c", &c.twist[..]), ("tau_J_d", &c.tau[..])] {
        if let Some(i) = a.iter().position(|x| !x.is_finite()) {
            return Err(format!("{}[{}] is {}", n, i, a[i]));
        }
    }
    if c.elbow.iter().any(|x| !x.is_finite()) {
        return Err(format!("elbow is {:?}", c.elbow));
    }
    if c.valid_elbow && c.elbow[1].abs() != 1.0 {
        return Err(format!("elbow sign is {}", c.elbow[1]));
    }
    if cp {
        let p = &c.pose;
        if p[3] != 0.0 || p[7] != 0.0 || p[11] != 0.0 || p[15] != 1.0 {
            return Err(format!("last row of the pose is {:?}", [p[3], p[7], p[11], p[15]]));
        }
        for k in 0..3 {
            let col = (p[4 * k].powi(2) + p[4 * k + 1].powi(2) + p[4 * k + 2].powi(2)).sqrt();
            let row = (p[k].powi(2) + p[4 + k].powi(2) + p[8 + k].powi(2)).sqrt();
            if (col - 1.0).abs() > 1.2e-5 || (row - 1.0).abs() > 1.2e-5 {
                return Err(format!("rotation row/column {} has length {}/{}", k, row, col));
            }
        }
    }
    Ok(())
}

fn c05_case(s: &mut Src) -> Outcome {
    let kind = s.pick(&KINDS);
    let n = s.usize(1, 8);
    let mut user = users(s, n, false);
    for u in user.iter_mut() {
        if s.chance(1, 3) {
            u.elbow = Some([s.sym(2.0), s.pick(&[1.0, -1.0])]);
        }
    }
    let user_bad = !s.chance(1, 4);
    let mut bad = Bad::None;
    let at = s.usize(0, n - 1);
    if user_bad {
        bad = break_user(s, kind, &mut user[at]);
    }
    let l = user.last_mut().unwrap();
    if kind == Kind::T {
        l.tau_fin = true
    } else if kind.torque() && s.bool() {
        l.tau_fin = true
    } else {
        l.fin = true
    }
    // a poisoned torque in the invocation in which the motion part already finished is never asked for
    let tau_bad = user[at].tau.iter().any(|x| !x.is_finite());
    let reached = !(tau_bad && kind != Kind::T && user[at].fin);
    let mut m = Motion::simple(kind, user);
    m.mode = s.below(3) as u8;
    m.limit = s.pick(&[None, Some(false), Some(true)]);
    m.cutoff = s.pick(&[None, Some(1000.0), Some(50.0), Some(1e6)]);
    // garbage in the states the filter and the limiter look at
    let state_bad = if s.chance(1, 3) { 1 + s.below(4) } else { 0 };
    let bad_from = s.usize(0, n) as u64;
    let salt = s.u64();
    let mut count = 0u64;
    let content: Content = Box::new(move |_m, k, c, st: &mut St| {
        let mut r = Rng::new(mix(salt, st.id));
        if let Some(c) = c {
            if k != usize::MAX {
                st.q_d = c.q;
                st.dq_d = c.dq;
                st.O_dP_EE_c = c.twist;
                st.tau_J_d = c.tau;
                if c.pose != [0.0; 16] {
                    st.O_T_EE_c = c.pose;
                }
            }
        }
        count += 1;
        if state_bad > 0 && count > bad_from {
            let x = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e308, -1e308, 7.0][(r.next() % 6) as usize];
            match state_bad {
                1 => {
                    let i = (r.next() % 7) as usize;
                    match r.next() % 4 {
                        0 => st.q_d[i] = x,
                        1 => st.dq_d[i] = x,
                        2 => st.ddq_d[i] = x,
                        _ => st.tau_J_d[i] = x,
                    }
                }
                2 => st.O_T_EE_c[(r.next() % 16) as usize] = x,
                3 => {
                    let i = (r.next() % 6) as usize;
                    match r.next() % 4 {
                        0 => st.O_dP_EE_c[i] = x,
                        1 => st.O_ddP_EE_c[i] = x,
                        2 => st.elbow_c[i % 2] = x,
                        _ => st.delbow_c[i % 2] = x,
                    }
                }
                _ => {
                    st.O_T_EE_c = match r.next() % 3 {
                        0 => [0.0; 16],
                        1 => [1.0; 16],
                        _ => {
                            let mut a = [0.0; 16];
                            for y in a.iter_mut() {
                                *y = f64::from_bits(r.next());
                            }
                            a
                        }
                    }
                }
            }
        }
    });
    let (limit, cutoff) = (m.limit, m.cutoff);
    let filtered = cutoff.unwrap_or(100.0) < 1000.0 || limit.unwrap_or(true);
    let first = 1 + s.below(1000);
    let desc = format!("{:?} {} commands, bad user value {:?} at {}, bad state kind {} from {}, limit {:?} cutoff {:?}", kind, n, bad, at, state_bad, bad_from, limit, cutoff);
    let m = Arc::new(m);
    let run = match control_session(vec![Step::Motion(m.clone())], Some(3), first, content) {
        Ok(r) => r,
        Err(e) => return timing(format!("{}: {}", desc, e)),
    };
    let mut j = Judge::default();
    bad_datagrams(&mut j, &run);
    let mut sent = 0;
    for e in &run.ev {
        if let Ev::Cmd(c) = e {
            sent += 1;
            if let Err(x) = wire_valid(c, kind.mg() == MG_CP) {
                j.fail(format!("{}: the robot received an invalid command ({}): {:?}", desc, x, c));
            }
        }
    }
    if let Some((cbs, res)) = run.client.motions.first() {
        let got = cbs.iter().any(|c| c.n == at);
        let must_fail = match bad {
            Bad::None => false,
            Bad::NonFinite => got && reached,
            Bad::Elbow => got,
            Bad::Matrix => got && !filtered,
        };
        if must_fail && matches!(res, Ok(Res::Ok)) {
            j.fail(format!("{}: the call returned success", desc));
        }
        // no command of the invocation that produced the invalid value
        if must_fail {
            let main_control = kind == Kind::T;
            if let Some(cb) = cbs.iter().find(|c| c.n == at && c.control == main_control) {
                let id = cb.state.time.as_millis() as u64;
                let any = run.ev.iter().any(|e| matches!(e, Ev::Cmd(c) if c.id >= id));
                j.check(!any, || format!("{}: a command was sent for or after the invocation that returned the invalid value", desc));
            }
        }
        if bad == Bad::None && state_bad == 0 {
            j.check(matches!(res, Ok(Res::Ok)), || format!("{}: valid values, but the call ended with {:?}", desc, res.as_ref().map(|r| r.brief())));
        }
    }
    let lab = match bad {
        Bad::None => "valid user values",
        Bad::NonFinite => "non-finite user value",
        Bad::Elbow => "bad elbow",
        Bad::Matrix => "bad matrix",
    };
    let mut labels = vec![(lab, 1), ("commands checked", sent)];
    if state_bad > 0 {
        labels.push(("garbage in states", 1));
    }
    Outcome { verdict: j.verdict(), nontrivial: bad != Bad::None || state_bad > 0, labels, sample: Some(desc) }
}

pub fn c05() -> Prop {
    Prop {
        id: "C05",
        level: "fault_enumeration",
        rule: "motions of all nine interfaces in which one user value at a generated invocation is NaN/infinite, an elbow sign is not +1/-1 or a matrix is no transformation, and/or the robot's states contain NaN, infinities, huge values or garbage matrices; filter and limiter on and off. Every received datagram is validated. Non-trivial: something invalid was injected.",
        assumptions: &["with the filter or limiter on, a finite matrix that is no transformation may be replaced by a valid one instead of failing"],
        subs: vec![Sub { name: "sessions", quick: 250_000, thorough: 1_500_000, par: 8, f: c05_case }],
    }
}

// ---- C21 ---------------------------------------------------------------------------------------

/// Answers everything, reports the modes in `m2` while no motion runs, and counts Move requests and commands.
fn c21_serve(srv: &mut Srv, m2: &AtomicUsize) -> (usize, usize, Vec<String>) {
    let mut ev: Vec<String> = vec![];
    let mut moves = 0usize;
    let mut cmds = 0usize;
    if !srv.accept(Duration::from_secs(5)) {
        return (moves, cmds, ev);
    }
    let mut id = 10u64;
    let mut running: Option<(u8, u8, u32, bool)> = None;
    loop {
        match srv.next(Duration::from_micros(400)) {
            In::Req(r) => match r.cmd {
                CONNECT => {
                    let mut b = R(&r.body);
                    b.u16();
                    srv.set_client_udp(b.u16());
                    srv.send_tcp(&robot_frame(CONNECT, r.id, &[0, 5, 0]));
                }
                MOVE => {
                    moves += 1;
                    let mut b = R(&r.body);
                    let (c, g) = (b.u32() as u8, b.u32() as u8 + 1);
                    srv.send_tcp(&robot_frame(MOVE, r.id, &[MS_STARTED]));
                    running = Some((g, c, r.id, false));
                }
                c => {
                    ev.push(format!("request {}", c));
                    srv.send_tcp(&robot_frame(c, r.id, &[0]));
                }
            },
            In::Cmd(c) => {
                cmds += 1;
                if let (Some(x), true) = (running, c.finished) {
                    running = None;
                    srv.send_tcp(&robot_frame(MOVE, x.2, &[MS_SUCCESS]));
                }
            }
            In::BadCmd(_) => cmds += 1,
            In::Closed => return (moves, cmds, ev),
            In::Timeout => {
                id += 1;
                let b = m2.load(Ordering::SeqCst);
                let st = match running {
                    Some((g, c, _, _)) => St::idle(id).modes(g, c, RM_MOVE),
                    None => St::idle(id).modes((b & 255) as u8, (b >> 8) as u8, if b & 255 == 0 && b >> 8 != 2 { RM_IDLE } else { RM_MOVE }),
                };
                srv.send_udp(&st.encode());
            }
        }
    }
}
fn c21_case(s: &mut Src) -> Outcome {
    #[derive(Clone, Debug)]
    enum Op {
        /// control call while the robot reports these modes
        Blocked(Kind, u8, u8),
        Free(Kind),
        Recover,
        Read(u8, u8),
        JointMotion(u8, u8),
    }
    let enforce = s.below(3); // 0: Ignore, 1: Enforce, 2: default
    let rt = !crate::rt::works() && std::path::Path::new("/sys/kernel/realtime").exists();
    let n = s.usize(1, 5);
    let busy_modes = |s: &mut Src| -> (u8, u8) {
        match s.below(3) {
            0 => (MG_IDLE, CM_EXT),
            1 => (1 + s.below(4) as u8, s.below(4) as u8),
            _ => (1 + s.below(4) as u8, CM_EXT),
        }
    };
    let mut ops = vec![];
    for _ in 0..n {
        let k = s.pick(&KINDS);
        ops.push(match s.weighted(&[5, 2, 1, 1, 1]) {
            0 => {
                let (a, b) = busy_modes(s);
                Op::Blocked(k, a, b)
            }
            1 => Op::Free(k),
            2 => Op::Recover,
            3 => {
                let (a, b) = busy_modes(s);
                Op::Read(a, b)
            }
            _ => {
                let (a, b) = busy_modes(s);
                Op::JointMotion(a, b)
            }
        });
    }
    if enforce > 0 && rt {
        return Outcome::pass(false);
    }
    let desc = format!("realtime config {}, ops {:?}", ["Ignore", "Enforce", "default"][enforce as usize], ops);
    // what state the robot is in, set by the client side before it asks for a state
    let mode = Arc::new(AtomicUsize::new((CM_OTHER as usize) << 8 | MG_IDLE as usize));
    let (m2, ops2) = (mode.clone(), ops.clone());
    let simple = |k: Kind| {
        let mut u = vec![User::rest(); 3];
        u[2].fin = true;
        u[2].tau_fin = true;
        Arc::new(Motion::simple(k, u))
    };
    let free: Vec<Arc<Motion>> = ops.iter().filter_map(|o| if let Op::Free(k) = o { Some(simple(*k)) } else { None }).collect();
    let ses = session(
        1337,
        Duration::from_secs(30),
        move |srv| c21_serve(srv, &m2),
        move |addr| {
            let mut out: Vec<(String, Result<Res, String>, usize)> = vec![];
            crate::rt::set(Some(crate::rt::World { kernel: false, priority: false, lock: false }));
            let rob = match enforce {
                0 => Robot::new(addr, RealtimeConfig::Ignore, None),
                1 => Robot::new(addr, RealtimeConfig::Enforce, None),
                _ => Robot::new(addr, None, None),
            };
            let mut rob = match rob {
                Ok(r) => r,
                Err(e) => {
                    out.push(("connect".into(), Ok(err_of(e)), 0));
                    return out;
                }
            };
            let set = |g: u8, c: u8| mode.store((c as usize) << 8 | g as usize, Ordering::SeqCst);
            // reads until the robot is seen in the wanted modes (idle or busy)
            let settle = |rob: &mut Robot, busy: bool| {
                for _ in 0..2000 {
                    if let Ok(s) = rob.read_once() {
                        let b = format!("{:?}", s.robot_mode) == "Move";
                        if b == busy {
                            return true;
                        }
                    }
                }
                false
            };
            let mut free = free.into_iter();
            for op in ops2 {
                let mut cbs = vec![];
                match &op {
                    Op::Blocked(k, g, c) => {
                        set(*g, *c);
                        if !settle(&mut rob, true) {
                            out.push(("settle".into(), Err("robot not seen busy".into()), 0));
                            break;
                        }
                        let m = simple(*k);
                        let r = catch(|| run_motion(&mut rob, &m, &mut cbs));
                        out.push(("blocked".into(), r.map(|r| res_of(r).1), cbs.len()));
                    }
                    Op::Free(_) => {
                        set(MG_IDLE, CM_OTHER);
                        if !settle(&mut rob, false) {
                            out.push(("settle".into(), Err("robot not seen idle".into()), 0));
                            break;
                        }
                        let m = free.next().unwrap();
                        let r = catch(|| run_motion(&mut rob, &m, &mut cbs));
                        out.push(("free".into(), r.map(|r| res_of(r).1), cbs.len()));
                    }
                    Op::Recover => {
                        let r = catch(|| rob.automatic_error_recovery());
                        out.push(("other".into(), r.map(|r| res_of(r).1), 0));
                    }
                    Op::Read(g, c) => {
                        set(*g, *c);
                        let r = catch(|| rob.read_once().map(|_| ()));
                        out.push(("other".into(), r.map(|r| res_of(r).1), 0));
                    }
                    Op::JointMotion(g, c) => {
                        set(*g, *c);
                        if !settle(&mut rob, true) {
                            out.push(("settle".into(), Err("robot not seen busy".into()), 0));
                            break;
                        }
                        let r = catch(|| rob.joint_motion(0.5, &[0.1; 7]));
                        out.push(("blocked".into(), r.map(|r| res_of(r).1), 0));
                    }
                }
            }
            out
        },
    );
    let out = match ses.client {
        ClientEnd::Done(o) => o,
        ClientEnd::Panic(p) => return Outcome { verdict: Verdict::Fail(format!("{}: panic {}", desc, p)), nontrivial: true, labels: vec![], sample: None },
        ClientEnd::Hang => return timing(format!("{}: a call did not return", desc)),
    };
    let (moves, cmds, _ev) = match ses.server {
        Some(x) => x,
        None => return timing(format!("{}: harness server failed {:?}", desc, ses.server_panic)),
    };
    let mut j = Judge::default();
    let mut ok_motions = 0;
    let mut nontrivial = false;
    let mut labels = vec![];
    for (k, (what, r, ncb)) in out.iter().enumerate() {
        let t = match r {
            Ok(r) => r.brief(),
            Err(p) => p.clone(),
        };
        match what.as_str() {
            "settle" => j.timing(format!("{}: op {}: {}", desc, k, t)),
            "blocked" => {
                nontrivial = true;
                labels.push((if enforce > 0 { "refused: real time" } else { "refused: busy" }, 1));
                let want = if enforce > 0 { "RealTimeException" } else { "ControlException" };
                j.check(matches!(r, Ok(x) if x.kind() == want), || format!("{}: op {} returned {}, expected {}", desc, k, t, want));
                j.check(*ncb == 0, || format!("{}: op {} invoked a callback", desc, k));
            }
            "free" => {
                if enforce > 0 {
                    nontrivial = true;
                    labels.push(("refused: real time", 1));
                    j.check(matches!(r, Ok(Res::RealTime(_))), || format!("{}: op {} returned {}, expected RealTimeException", desc, k, t));
                    j.check(*ncb == 0, || format!("{}: op {} invoked a callback", desc, k));
                } else {
                    ok_motions += 1;
                    labels.push(("allowed", 1));
                    j.check(matches!(r, Ok(Res::Ok)), || format!("{}: op {} returned {}, expected success", desc, k, t));
                }
            }
            _ => {
                j.check(matches!(r, Ok(Res::Ok)), || format!("{}: op {} returned {}, expected success", desc, k, t));
            }
        }
    }
    j.check(moves == ok_motions, || format!("{}: {} Move requests for {} motions that were allowed to start", desc, moves, ok_motions));
    j.check(ok_motions > 0 || cmds == 0, || format!("{}: {} commands sent although no motion was allowed to start", desc, cmds));
    Outcome { verdict: j.verdict(), nontrivial, labels, sample: Some(desc) }
}

/// Systems with and without a real-time kernel, the permission to raise priorities and to lock memory.
fn c21_realtime(s: &mut Src) -> Outcome {
    use crate::rt::{self, Asked, World};
    if !rt::works() {
        return Outcome::pass(false);
    }
    let enforce = s.below(4).min(2); // 0: Ignore, 1: Enforce, 2: default
    let n = s.usize(1, 4);
    // (kind of motion, None = joint_motion; the world; anything else in between)
    let ops: Vec<(Option<Kind>, World, bool)> = (0..n)
        .map(|_| {
            let k = if s.chance(1, 6) { None } else { Some(s.pick(&KINDS)) };
            let w = match s.below(5) {
                0 | 1 => World { kernel: true, priority: true, lock: true },
                2 => World { kernel: true, priority: false, lock: true },
                3 => World { kernel: true, priority: true, lock: false },
                _ => World { kernel: s.bool(), priority: s.bool(), lock: s.bool() },
            };
            (k, w, s.bool())
        })
        .collect();
    let desc = format!("realtime config {}, motions {:?}", ["Ignore", "Enforce", "default"][enforce as usize], ops);
    let mode = Arc::new(AtomicUsize::new((CM_OTHER as usize) << 8 | MG_IDLE as usize));
    let ops2 = ops.clone();
    let ses = session(
        1337,
        Duration::from_secs(30),
        move |srv| c21_serve(srv, &mode),
        move |addr| -> Result<Vec<(Result<Res, String>, Vec<Asked>, Asked, Option<Res>)>, Res> {
            let rob = match enforce {
                0 => Robot::new(addr, RealtimeConfig::Ignore, None),
                1 => Robot::new(addr, RealtimeConfig::Enforce, None),
                _ => Robot::new(addr, None, None),
            };
            let mut rob = rob.map_err(err_of)?;
            let mut out = vec![];
            for (k, w, other) in ops2 {
                // the robot of the last motion is seen idle
                for _ in 0..2000 {
                    match rob.read_once() {
                        Ok(s) if format!("{:?}", s.robot_mode) != "Move" => break,
                        Ok(_) => {}
                        Err(e) => return Err(err_of(e)),
                    }
                }
                rt::set(Some(w));
                let seen = Arc::new(std::sync::Mutex::new(vec![]));
                let s2 = seen.clone();
                let r = match k {
                    Some(k) => {
                        let mut u = vec![User::rest(); 3];
                        u[2].fin = true;
                        u[2].tau_fin = true;
                        let mut m = Motion::simple(k, u);
                        m.pick = Some(Pick(Arc::new(move |_, _| {
                            s2.lock().unwrap().push(rt::asked());
                            User::rest()
                        })));
                        let mut cbs = vec![];
                        catch(|| run_motion(&mut rob, &Arc::new(m), &mut cbs))
                    }
                    None => catch(|| rob.joint_motion(1.0, &[1e-4; 7])),
                };
                let last = rt::asked();
                rt::set(None);
                let o = if other { Some(res_of(rob.automatic_error_recovery()).1) } else { None };
                let seen = seen.lock().unwrap().clone();
                out.push((r.map(|r| res_of(r).1), seen, last, o));
            }
            Ok(out)
        },
    );
    let out = match ses.client {
        ClientEnd::Done(Ok(o)) => o,
        ClientEnd::Done(Err(e)) => return timing(format!("{}: {}", desc, e.brief())),
        ClientEnd::Panic(p) => return Outcome { verdict: Verdict::Fail(format!("{}: panic {}", desc, p)), nontrivial: true, labels: vec![], sample: None },
        ClientEnd::Hang => return timing(format!("{}: a call did not return", desc)),
    };
    let (moves, cmds, _) = match ses.server {
        Some(x) => x,
        None => return timing(format!("{}: harness server failed {:?}", desc, ses.server_panic)),
    };
    let mut j = Judge::default();
    let mut allowed = 0;
    let mut labels = vec![];
    for (i, ((k, w, _), (r, seen, last, other))) in ops.iter().zip(&out).enumerate() {
        let t = match r {
            Ok(r) => r.brief(),
            Err(p) => p.clone(),
        };
        if enforce > 0 && !w.good() {
            labels.push(("refused", 1));
            j.check(matches!(r, Ok(Res::RealTime(_))), || format!("{}: motion {} returned {}, expected RealTimeException", desc, i, t));
            j.check(seen.is_empty(), || format!("{}: motion {} invoked a callback", desc, i));
        } else {
            allowed += 1;
            j.check(matches!(r, Ok(Res::Ok)), || format!("{}: motion {} returned {}, expected success", desc, i, t));
            let real = |a: &Asked| (a.policy == libc::SCHED_FIFO || a.policy == libc::SCHED_RR) && a.priority > 0 && a.locked & (libc::MCL_CURRENT | libc::MCL_FUTURE) == (libc::MCL_CURRENT | libc::MCL_FUTURE);
            if enforce > 0 {
                labels.push(("with real-time priority", 1));
                j.check(k.is_none() || !seen.is_empty(), || format!("{}: motion {} invoked no callback", desc, i));
                j.check(seen.iter().all(real) && real(last), || format!("{}: motion {} ran with {:?} {:?}", desc, i, seen.first(), last));
            } else {
                labels.push(("ignored", 1));
                j.check(last.calls == 0, || format!("{}: motion {} asked for real-time scheduling although it is to be ignored: {:?}", desc, i, last));
            }
        }
        if let Some(o) = other {
            j.check(matches!(o, Res::Ok), || format!("{}: a command after motion {} returned {}", desc, i, o.brief()));
        }
    }
    j.check(moves == allowed, || format!("{}: {} Move requests for {} motions that were allowed to start", desc, moves, allowed));
    j.check(allowed > 0 || cmds == 0, || format!("{}: {} commands sent although no motion was allowed to start", desc, cmds));
    Outcome { verdict: j.verdict(), nontrivial: enforce > 0, labels, sample: Some(desc) }
}

pub fn c21() -> Prop {
    Prop {
        id: "C21",
        level: "exploration",
        rule: "sequences of control calls of all interfaces (and joint_motion) on one connection with real-time scheduling enforced (explicitly or by default) or ignored, while the robot reports an idle or any busy combination of modes, mixed with other calls; and systems with and without a real-time kernel, the right to raise priorities and the right to lock memory. Non-trivial: at least one call had to be refused, or real-time scheduling is enforced.",
        assumptions: &["the existence of /sys/kernel/realtime and the calls that set the scheduler and lock memory are answered by stand-ins in the harness, which are told for each motion what the system offers"],
        subs: vec![
            Sub { name: "sequences", quick: 60_000, thorough: 600_000, par: 8, f: c21_case },
            Sub { name: "realtime", quick: 30_000, thorough: 300_000, par: 8, f: c21_realtime },
        ],
    }
}
