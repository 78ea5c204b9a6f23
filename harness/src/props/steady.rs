//! C28: a connection can be used forever, nothing accumulates.
use super::motion::*;
use super::tcp::*;
use crate::alloc::held;
use crate::ctl::*;
use crate::engine::*;
use crate::net::*;
use franka::*;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Duration;

/// Bytes by which a thread may hold more after the second half of the repetitions than before it.
const SLACK: i64 = 1500;

fn verdict(rounds: usize, marks: &[i64], what: String, odd: Option<String>) -> Outcome {
    let (a, b) = (marks[0], marks[1]);
    let mut o = Outcome::pass(true).label("repetitions", rounds as u64 * 2).sample(format!("{} repetitions, {} bytes held in the middle, {} at the end: {}", rounds * 2, a, b, what));
    if let Some(m) = odd {
        o.verdict = Verdict::FailTiming(m);
    } else if b - a > SLACK {
        o.verdict = Verdict::Fail(format!("the library holds {} bytes more after {} further repetitions\ncase: {}", b - a, rounds, what));
    }
    o
}

/// The same commands again and again.
fn commands(s: &mut Src, gripper: bool) -> Outcome {
    let n = s.usize(1, 5);
    let cycle: Vec<Planned> = (0..n).map(|_| Planned::gen(s, gripper, false)).collect();
    let rounds = if cycle.iter().any(|p| matches!(p.call, Call::Motion(_) | Call::Read)) { 150 } else { 300 };
    let what = format!("{:?}", cycle.iter().map(|p| (&p.call, &p.status)).collect::<Vec<_>>());
    let plan: Arc<Vec<Planned>> = Arc::new((0..2 * rounds).flat_map(|_| cycle.clone()).collect());
    let cur = Arc::new(AtomicUsize::new(usize::MAX));
    let (plan_s, cur_s) = (plan.clone(), cur.clone());
    let ses = session(
        if gripper { 1338 } else { 1337 },
        Duration::from_secs(30),
        move |srv| {
            serve_calls(srv, &plan_s, &cur_s, gripper, 5, &Delivery::default(), 0.0, 1);
        },
        move |addr| -> Result<[i64; 2], String> {
            let mut d = Done { results: vec![], connect: Res::Ok, version: 0 };
            let mut c = connect_calls(addr, gripper, &mut d).ok_or(format!("connect: {}", d.connect.brief()))?;
            let mut marks = [0; 2];
            for (k, p) in plan.iter().enumerate() {
                cur.store(k, Ordering::SeqCst);
                drop(p.call.run(&mut c));
                if (k + 1) % (n * rounds) == 0 {
                    marks[(k + 1) / (n * rounds) - 1] = held();
                }
            }
            Ok(marks)
        },
    );
    match ses.client {
        ClientEnd::Done(Ok(m)) => verdict(rounds, &m, what, None),
        ClientEnd::Done(Err(e)) | ClientEnd::Panic(e) => timing(e),
        ClientEnd::Hang => timing("the calls did not return within 30 s".into()),
    }
}

/// The same motions (also rejected and aborted ones) again and again.
fn motions(s: &mut Src) -> Outcome {
    let p = Profile { fates: [3, 2, 3, 3, 2], max_motions: 3, raw: true, len: Len::Short };
    let c = gen_case(s, &p);
    let rounds = 100;
    let what = format!("log size {:?}, {:?}", c.log_size, c.plans.iter().map(|p| (p.m.kind, p.fate, p.m.user.len())).collect::<Vec<_>>());
    let mut cycle = vec![];
    for p in &c.plans {
        cycle.push(Step::Motion(p.m.clone()));
        if c.recovery && p.fate != Fate::Success {
            cycle.push(Step::Recovery);
        }
    }
    let n = cycle.len();
    let steps: Arc<Vec<Step>> = Arc::new((0..2 * rounds).flat_map(|_| cycle.clone()).collect());
    let s2 = steps.clone();
    let (first, log) = (c.first_id, c.log_size);
    let ses = session(
        1337,
        Duration::from_secs(60),
        move |srv| {
            let mut r = Robo::new(first, noise(true, first));
            r.serve(srv, &s2);
            srv.close_tcp();
            r.timed_out
        },
        move |addr| -> Result<[i64; 2], String> {
            let mut robot = Robot::new(addr, RealtimeConfig::Ignore, log).map_err(|e| format!("connect: {}", e))?;
            let mut marks = [0; 2];
            for (k, st) in steps.iter().enumerate() {
                match st {
                    Step::Motion(m) => {
                        let mut cbs = vec![];
                        drop(run_motion(&mut robot, m, &mut cbs));
                    }
                    Step::Recovery => drop(robot.automatic_error_recovery()),
                }
                if (k + 1) % (n * rounds) == 0 {
                    marks[(k + 1) / (n * rounds) - 1] = held();
                }
            }
            Ok(marks)
        },
    );
    let odd = match ses.server {
        Some(t) => t,
        None => Some(format!("harness server failed: {:?}", ses.server_panic)),
    };
    match ses.client {
        ClientEnd::Done(Ok(m)) => verdict(rounds, &m, what, odd),
        ClientEnd::Done(Err(e)) | ClientEnd::Panic(e) => timing(e),
        ClientEnd::Hang => timing("the motions did not end within 60 s".into()),
    }
}

/// Long read loops and motions.
fn cycles(s: &mut Src) -> Outcome {
    use super::states::handshake;
    use crate::wire::*;
    let rounds = s.usize(400, 1500);
    let kind = s.pick(&KINDS);
    let read = s.chance(1, 3);
    let log = s.pick(&[None, Some(0), Some(200)]);
    let mut user = vec![User::rest(); 1];
    user[0].fin = false;
    let mut m = Motion::simple(kind, user);
    m.limit = s.pick(&[None, Some(false)]);
    let cm = m.cm();
    let what = format!("{} cycles of {}, log size {:?}", 2 * rounds, if read { "read".into() } else { format!("{:?}", kind) }, log);
    let ses = session(
        1337,
        Duration::from_secs(40),
        move |srv| -> Option<String> {
            let mut id = 1;
            if !handshake(srv, &St::idle(id)) {
                return Some("handshake".into());
            }
            let mut mv = 0;
            if !read {
                match srv.next_req(Duration::from_secs(5)) {
                    Some(r) if r.cmd == MOVE => mv = r.id,
                    r => return Some(format!("no Move request: {:?}", r)),
                }
                srv.send_tcp(&robot_frame(MOVE, mv, &[MS_STARTED]));
            }
            let mut st = if read { St::idle(1) } else { St::idle(1).modes(kind.mg(), cm, RM_MOVE) };
            while !srv.gone() {
                id += 1;
                st.id = id;
                srv.send_udp(&st.encode());
                match srv.next(Duration::from_micros(if read { 40 } else { 2000 })) {
                    In::Cmd(c) if c.finished => {
                        srv.send_tcp(&robot_frame(MOVE, mv, &[MS_SUCCESS]));
                        id += 1;
                        srv.send_udp(&St::idle(id).encode());
                    }
                    In::Closed => break,
                    _ => {}
                }
            }
            None
        },
        move |addr| -> Result<[i64; 2], String> {
            let mut robot = Robot::new(addr, RealtimeConfig::Ignore, log).map_err(|e| format!("connect: {}", e))?;
            let mut marks = [0; 2];
            let mut k = 0;
            let mut tick = || {
                k += 1;
                if k == rounds {
                    marks[0] = held();
                }
                if k == 2 * rounds {
                    marks[1] = held();
                }
                k >= 2 * rounds
            };
            if read {
                robot.read(|_| !tick()).map_err(|e| e.to_string())?;
            } else {
                m.user.clear();
                let r = steady_motion(&mut robot, &m, &mut tick);
                r.map_err(|e| e.to_string())?;
            }
            Ok(marks)
        },
    );
    let odd = match ses.server {
        Some(t) => t,
        None => Some(format!("harness server failed: {:?}", ses.server_panic)),
    };
    match ses.client {
        ClientEnd::Done(Ok(m)) => verdict(rounds, &m, what, odd),
        ClientEnd::Done(Err(e)) | ClientEnd::Panic(e) => timing(e),
        ClientEnd::Hang => timing("the loop did not end within 40 s".into()),
    }
}

/// Callbacks that hold nothing themselves.
fn steady_motion(robot: &mut Robot, m: &Motion, tick: &mut dyn FnMut() -> bool) -> FrankaResult<()> {
    let tick = std::cell::RefCell::new(tick);
    fn fin<T: Finishable>(mut t: T, f: bool) -> T {
        t.set_motion_finished(f);
        t
    }
    let u = User::rest();
    let combined = m.kind.torque();
    let mut jp = |_: &RobotState, _: &Duration| fin(JointPositions::new(u.joint), (*tick.borrow_mut())());
    let mut jv = |_: &RobotState, _: &Duration| fin(JointVelocities::new(u.joint), (*tick.borrow_mut())());
    let mut cp = |_: &RobotState, _: &Duration| fin(CartesianPose::new(u.pose, None), (*tick.borrow_mut())());
    let mut cv = |_: &RobotState, _: &Duration| fin(CartesianVelocities::new(u.twist, None), (*tick.borrow_mut())());
    let only = m.kind == Kind::T;
    let mut tq = |_: &RobotState, _: &Duration| fin(Torques::new(u.tau), if only { (*tick.borrow_mut())() } else { false });
    let _ = combined;
    match m.kind {
        Kind::JP => robot.control_joint_positions(&mut jp, None, m.limit, m.cutoff),
        Kind::JV => robot.control_joint_velocities(&mut jv, None, m.limit, m.cutoff),
        Kind::CP => robot.control_cartesian_pose(&mut cp, None, m.limit, m.cutoff),
        Kind::CV => robot.control_cartesian_velocities(&mut cv, None, m.limit, m.cutoff),
        Kind::T => robot.control_torques(&mut tq, m.limit, m.cutoff),
        Kind::TJP => robot.control_torques_and_joint_positions(&mut tq, &mut jp, m.limit, m.cutoff),
        Kind::TJV => robot.control_torques_and_joint_velocities(&mut tq, &mut jv, m.limit, m.cutoff),
        Kind::TCP => robot.control_torques_and_cartesian_pose(&mut tq, &mut cp, m.limit, m.cutoff),
        Kind::TCV => robot.control_torques_and_cartesian_velocities(&mut tq, &mut cv, m.limit, m.cutoff),
    }
}

pub fn c28() -> Prop {
    Prop {
        id: "C28",
        level: "exploration",
        rule: "a generated sequence of calls is repeated 200 to 600 times on one connection (commands with any outcome, reads; motions that succeed, are rejected or aborted in any phase, with recovery), or one read loop or motion runs 800 to 3000 cycles; the harness's allocator counts what the calling thread allocates and frees. What it holds must not grow during the second half (by more than 1500 bytes). Non-trivial: every case.",
        assumptions: &["the robot sends no responses that nobody asked for"],
        subs: vec![
            Sub { name: "robot", quick: 240, thorough: 6000, par: 8, f: |s| commands(s, false) },
            Sub { name: "gripper", quick: 160, thorough: 4000, par: 8, f: |s| commands(s, true) },
            Sub { name: "motions", quick: 240, thorough: 6000, par: 8, f: motions },
            Sub { name: "cycles", quick: 240, thorough: 6000, par: 8, f: cycles },
        ],
    }
}
