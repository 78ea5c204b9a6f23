//! C25: whatever bytes the peer sends, no call panics, and none takes bytes that are no message of
//! the protocol for one.
use super::model;
use super::states::{self, handshake};
use super::tcp::{self, *};
use crate::ctl::*;
use crate::engine::*;
use crate::net::*;
use crate::wire::*;
use franka::{Finishable, Gripper, JointPositions, JointVelocities, RealtimeConfig, Robot, RobotState, Torques};
use std::sync::Arc;
use std::time::{Duration, Instant};

fn fail(m: String) -> Outcome {
    Outcome { verdict: Verdict::Fail(m), nontrivial: true, labels: vec![], sample: None }
}
fn frame(gripper: bool, cmd: u32, id: u32, body: &[u8]) -> Vec<u8> {
    if gripper {
        gripper_frame(cmd as u16, id, body)
    } else {
        robot_frame(cmd, id, body)
    }
}
fn resize(gripper: bool, f: &mut [u8], size: u32) {
    let o = if gripper { 6 } else { 8 };
    f[o..o + 4].copy_from_slice(&size.to_le_bytes());
}

/// What is done to one frame.
#[derive(Clone, Debug)]
enum Mal {
    None,
    Status(u16),
    Byte(u64, u8),
    Cut(u64),
    Long(usize, u64),
    Size(u32),
    Command(u32),
    Other(u32),
    Raw(u64, usize),
}
impl Mal {
    fn gen(s: &mut Src) -> Mal {
        match s.below(9) {
            0 => Mal::None,
            1 => Mal::Status(s.pick(&[4, 5, 6, 7, 9, 10, 11, 127, 128, 255, 256, 0x8000, 0xffff])),
            2 => Mal::Byte(s.u64(), s.u64() as u8),
            3 => Mal::Cut(s.u64()),
            4 => Mal::Long(s.usize(1, 300), s.u64()),
            5 => Mal::Size(match s.below(3) {
                0 => s.below(24) as u32,
                1 => s.pick(&[u32::MAX, i32::MAX as u32, 1 << 31, 70_000, 1 << 24]),
                _ => s.u64() as u32,
            }),
            6 => Mal::Command(match s.below(3) {
                0 => s.below(40) as u32,
                1 => s.pick(&[u32::MAX, 0xffff, 256, 1 << 16]),
                _ => s.u64() as u32,
            }),
            7 => Mal::Other(s.u64() as u32 | 0x4000_0000),
            _ => Mal::Raw(s.u64(), s.usize(0, 60)),
        }
    }
    fn apply(&self, gripper: bool, cmd: u32, id: u32, body: &[u8]) -> Vec<u8> {
        let h = if gripper { 10 } else { 12 };
        let mut f = frame(gripper, cmd, id, body);
        match self {
            Mal::None => {}
            Mal::Status(x) => {
                f[h] = *x as u8;
                if gripper {
                    f[h + 1] = (*x >> 8) as u8;
                }
            }
            Mal::Byte(p, v) => {
                let p = (*p % f.len() as u64) as usize;
                f[p] = *v;
            }
            Mal::Cut(n) => {
                let n = (*n % body.len() as u64) as usize;
                f = frame(gripper, cmd, id, &body[..n]);
            }
            Mal::Long(n, seed) => {
                let mut r = Rng::new(*seed);
                let mut b = body.to_vec();
                b.extend((0..*n).map(|_| r.next() as u8));
                f = frame(gripper, cmd, id, &b);
            }
            Mal::Size(n) => resize(gripper, &mut f, *n),
            Mal::Command(c) => f = frame(gripper, *c, id, body),
            Mal::Other(i) => f = frame(gripper, cmd, *i, body),
            Mal::Raw(seed, n) => {
                let mut r = Rng::new(*seed);
                f = (0..*n).map(|_| r.next() as u8).collect();
            }
        }
        f
    }
}

/// What a stream of response bytes that ends here is worth to a call that waits for `id`.
struct Worth {
    /// the call may succeed, on account of this body
    ok: Option<Vec<u8>>,
    /// the call may fail
    err: bool,
    /// the connection may be used on: every byte belongs to a whole frame
    sync: bool,
}
fn worth(gripper: bool, bytes: &[u8], id: u32, len: usize, good: &dyn Fn(&[u8]) -> Option<bool>) -> Worth {
    let h = if gripper { 10 } else { 12 };
    let known = if gripper { 5 } else { 14 };
    let mut pos = 0;
    let mut odd = false;
    let mut hit: Option<Vec<u8>> = None;
    let mut sync = true;
    while pos < bytes.len() {
        if bytes.len() - pos < h {
            sync = false;
            break;
        }
        let mut r = R(&bytes[pos..]);
        let cmd = if gripper { r.u16() as u32 } else { r.u32() };
        let (fid, size) = (r.u32(), r.u32() as usize);
        if size < h || pos + size > bytes.len() {
            sync = false;
            break;
        }
        if cmd >= known && hit.is_none() {
            odd = true;
        }
        if fid == id {
            match &hit {
                None => hit = Some(bytes[pos + h..pos + size].to_vec()),
                // two answers to one request: either may be taken
                Some(_) => odd = true,
            }
        }
        pos += size;
    }
    let no = Worth { ok: None, err: true, sync };
    let b = match hit {
        Some(b) => b,
        None => return no,
    };
    if b.len() < len {
        return no;
    }
    match good(&b) {
        None | Some(false) => no,
        Some(true) => Worth { err: odd || b.len() > len || !sync, ok: Some(b), sync: sync && !odd },
    }
}

/// Answers of any shape to one call among ordinary ones.
fn answers(s: &mut Src) -> Outcome {
    let gripper = s.bool();
    let connecting = s.chance(1, 5);
    let before = if connecting { 0 } else { s.usize(0, 2) };
    let mut plan = vec![];
    for k in 0..before + 2 {
        let mut p = loop {
            let p = Planned::gen(s, gripper, false);
            if !matches!(p.call, Call::Motion(_) | Call::Read) {
                break p;
            }
        };
        if k != before {
            p.status.iter_mut().for_each(|x| *x = 0);
        }
        plan.push(p);
    }
    let part = s.below(plan[before].call.requests().len() as u64) as usize;
    for (i, x) in plan[before].status.iter_mut().enumerate() {
        if i != part {
            *x = 0;
        }
    }
    let junk: Vec<Mal> = (0..s.weighted(&[4, 2, 1])).map(|_| Mal::gen(s)).collect();
    let mal = Mal::gen(s);
    let gap = s.pick(&[0u64, 0, 100, 2000]);
    let reset = s.bool();
    let what = format!(
        "{}, answer to {} (part {}) after {} calls: {:?} then {:?}",
        if gripper { "gripper" } else { "robot" },
        if connecting { "the connection request".to_string() } else { format!("{:?} with status {}", plan[before].call, plan[before].status[part]) },
        part,
        before,
        junk,
        mal
    );
    let odd = !junk.is_empty() || !matches!(mal, Mal::None);
    let plan = Arc::new(plan);
    let (pl, pc) = (plan.clone(), plan.clone());
    let run = session(
        if gripper { 1338 } else { 1337 },
        Duration::from_secs(20),
        move |srv| -> Option<Worth> {
            let mut out = None;
            // the bytes that answer a request, and what they are worth
            let build = |r: &Req, body: &[u8], good: &dyn Fn(&[u8]) -> Option<bool>| {
                let mut bytes = vec![];
                for (k, m) in junk.iter().enumerate() {
                    let id = 0x4000_0000 | k as u32;
                    bytes.extend(m.apply(gripper, r.cmd, id, body));
                }
                bytes.extend(mal.apply(gripper, r.cmd, r.id, body));
                let w = worth(gripper, &bytes, r.id, body.len(), good);
                (bytes, w)
            };
            let mut id = 1u64;
            if !srv.accept(Duration::from_secs(5)) {
                return None;
            }
            let r = srv.next_req(Duration::from_secs(5))?;
            let mut b = R(&r.body);
            b.u16();
            srv.set_client_udp(b.u16());
            let mut w = W::new();
            if gripper {
                w.u16(0).u16(3);
            } else {
                w.u8(0).u16(5);
            }
            if connecting {
                let (bytes, wo) = build(&r, &w.0, &|b| Some(if gripper { b[0] == 0 && b[1] == 0 } else { b[0] == 0 }));
                srv.send_tcp(&bytes);
                let go = wo.sync && wo.ok.is_some();
                out = Some(wo);
                if !go {
                    std::thread::sleep(Duration::from_micros(gap));
                    if reset {
                        srv.reset_tcp()
                    } else {
                        srv.close_tcp()
                    }
                }
            } else {
                srv.send_tcp(&frame(gripper, r.cmd, r.id, &w.0));
            }
            let mut n = 0;
            let parts: Vec<(usize, usize)> = pl.iter().enumerate().flat_map(|(k, p)| (0..p.call.requests().len()).map(move |i| (k, i))).collect();
            let t0 = Instant::now();
            while !srv.gone() && t0.elapsed() < Duration::from_secs(20) {
                if !gripper {
                    id += 1;
                    srv.send_udp(&St::idle(id).encode());
                }
                if srv.tcp.is_none() {
                    std::thread::sleep(Duration::from_millis(1));
                    continue;
                }
                match srv.next(Duration::from_millis(1)) {
                    In::Req(r) => {
                        let (k, i) = match parts.get(n) {
                            Some(x) => *x,
                            None => (usize::MAX, 0),
                        };
                        n += 1;
                        if k == usize::MAX || connecting || k != before || i != part {
                            let body = if k == usize::MAX { vec![0; 2 - !gripper as usize] } else { pl[k].body(i) };
                            srv.send_tcp(&frame(gripper, r.cmd, r.id, &body));
                            continue;
                        }
                        let p = &pl[k];
                        let wall = matches!(p.call, Call::Wall(_));
                        let (bytes, wo) = build(&r, &p.body(i), &|b| {
                            let st = if gripper { u16::from_le_bytes([b[0], b[1]]) as u64 } else { b[0] as u64 };
                            if st >= p.call.statuses() || (wall && b[153] > 1) {
                                return None;
                            }
                            Some(st == 0 || (gripper && st == 2))
                        });
                        srv.send_tcp(&bytes);
                        let go = wo.sync && wo.ok.is_some();
                        out = Some(wo);
                        if !go {
                            std::thread::sleep(Duration::from_micros(gap));
                            if reset {
                                srv.reset_tcp()
                            } else {
                                srv.close_tcp()
                            }
                        }
                    }
                    In::Closed => break,
                    _ => {}
                }
            }
            out
        },
        move |addr| -> Result<Vec<Result<(Option<Got>, Res), String>>, Result<Res, String>> {
            let cl = catch(|| {
                if gripper {
                    Gripper::new(addr).map(|g| Client::Gripper(Box::new(g)))
                } else {
                    Robot::new(addr, RealtimeConfig::Ignore, None).map(|r| Client::Robot(Box::new(r)))
                }
            });
            let mut cl = match cl {
                Err(p) => return Err(Err(p)),
                Ok(Err(e)) => return Err(Ok(err_of(e))),
                Ok(Ok(c)) => c,
            };
            Ok(pc.iter().map(|p| catch(|| p.call.run(&mut cl))).collect())
        },
    );
    let w = match run.server {
        Some(Some(w)) => w,
        _ => return timing(format!("the answer was not asked for ({:?})\n{}", run.server_panic, what)),
    };
    let mut j = Judge::default();
    // what the call that got the answer returned
    let mut result: Option<(Option<Got>, Res)> = None;
    match run.client {
        ClientEnd::Panic(p) | ClientEnd::Done(Err(Err(p))) => j.fail(format!("panicked: {}\n{}", p, what)),
        ClientEnd::Hang => j.timing(format!("a call did not return within 20 s\n{}", what)),
        ClientEnd::Done(Err(Ok(e))) => {
            if connecting {
                result = Some((None, e));
            } else {
                j.timing(format!("connecting failed: {}\n{}", e.brief(), what));
            }
        }
        ClientEnd::Done(Ok(recs)) => {
            if connecting {
                result = Some((None, Res::Ok));
            }
            for (k, r) in recs.into_iter().enumerate() {
                match r {
                    Err(p) => j.fail(format!("{:?} panicked: {}\n{}", plan[k].call, p, what)),
                    Ok(r) => {
                        if k < before && !connecting {
                            j.check(matches!(r.1, Res::Ok), || format!("{:?} failed before the odd answer: {}\n{}", plan[k].call, r.1.brief(), what));
                        }
                        if k == before && !connecting {
                            result = Some(r);
                        }
                    }
                }
            }
        }
    }
    if let (Some((got, res)), false) = (&result, j.bad()) {
        if let Res::Ok = res {
            j.check(w.ok.is_some(), || format!("the call succeeded, but nothing it was sent confirms it\n{}", what));
        } else {
            j.check(w.err, || format!("the call failed ({}), but its answer says that it succeeded\n{}", res.brief(), what));
        }
        if let (Some(b), Some(g)) = (&w.ok, got) {
            match g {
                Got::Unit => {}
                Got::Flag(f) => {
                    j.check(*f == (b[0] == 0), || format!("the call returned {}, the answer's status is {}\n{}", f, b[0], what));
                }
                Got::Wall(_, size, fr, act) => {
                    let mut r = R(&b[1..]);
                    let (a, c): ([f64; 3], [f64; 16]) = (r.arr(), r.arr());
                    j.check(bits_eq(&a, size) && bits_eq(&c, fr) && (r.u8() == 1) == *act, || format!("the wall differs from the answer's bytes\n{}", what));
                }
            }
        }
    }
    let refused = w.ok.is_none();
    let mut o = Outcome::pass(odd)
        .label("answers that are no confirmation", refused as u64)
        .label("answers that may be taken", !refused as u64)
        .sample(what);
    o.verdict = j.verdict();
    o
}

/// Bytes of a state datagram that only have a few valid values: (index, number of valid values)
fn discrete() -> Vec<(usize, u8)> {
    let n = St::zero(0).encode().len();
    // mg, cm, 2 * 41 flags, rm, f64
    let mg = n - 8 - 1 - 82 - 2;
    let mut v = vec![(mg, 5), (mg + 1, 4)];
    v.extend((mg + 2..mg + 84).map(|i| (i, 2)));
    v.push((mg + 84, 7));
    v
}

// ---- motions -----------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
enum P {
    Started,
    WhileStarting,
    Running,
    Finishing,
    Abort,
    Final,
    StopAnswer,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum B {
    Status(u8),
    Empty,
    Small(u32),
    Command(u32),
    Huge,
}
fn motion(s: &mut Src) -> Outcome {
    let kind = s.pick(&[Kind::JP, Kind::JV, Kind::T]);
    let p = s.pick(&[P::Started, P::WhileStarting, P::Running, P::Finishing, P::Abort, P::Final, P::StopAnswer]);
    let b = match s.below(6) {
        0 => B::Empty,
        1 => B::Small(s.below(12) as u32),
        2 => B::Command(s.pick(&[14, 15, 255, 256, u32::MAX])),
        3 => B::Huge,
        4 if p == P::Abort => B::Status(s.below(2) as u8),
        _ => B::Status(s.pick(&[10, 11, 64, 127, 128, 255])),
    };
    let ds = discrete();
    let (at, lim) = ds[s.below(ds.len() as u64) as usize];
    let v = lim + s.below(256 - lim as u64) as u8;
    let bad_states = s.usize(1, 3);
    let steps = s.usize(1, 5);
    let when = s.usize(0, steps - 1);
    let again = s.bool();
    let what = format!("{:?}, {:?}: response {:?}, state byte {} = {} ({} times), command {} of {}", kind, p, b, at, v, bad_states, when, steps);
    let cm = if kind.torque() { CM_EXT } else { CM_JI };
    let run = session(
        1337,
        Duration::from_secs(20),
        move |srv| -> Result<bool, String> {
            let mut id = 1u64;
            if !handshake(srv, &St::idle(id)) {
                return Err("no handshake".into());
            }
            // an odd response; true: the stream makes no sense any more, and the peer hangs up
            let odd = |srv: &mut Srv, cmd: u32, id: u32| {
                let mut f = robot_frame(cmd, id, &[0]);
                let hang_up = match b {
                    B::Status(x) => {
                        f[12] = x;
                        false
                    }
                    B::Empty => {
                        f = robot_frame(cmd, id, &[]);
                        false
                    }
                    B::Small(n) => {
                        f.truncate(12);
                        resize(false, &mut f, n);
                        true
                    }
                    B::Command(c) => {
                        f = robot_frame(c, id, &[0]);
                        true
                    }
                    B::Huge => {
                        resize(false, &mut f, u32::MAX);
                        true
                    }
                };
                srv.send_tcp(&f);
                if hang_up {
                    std::thread::sleep(Duration::from_millis(1));
                    srv.close_tcp();
                }
            };
            let mut phase = 0; // 0 none, 1 running
            let mut did = false;
            let mut mv = 0;
            let mut cmds = 0;
            let mut motions = 0;
            let mut todo = 0;
            let mut last = Instant::now();
            let t0 = Instant::now();
            while !srv.gone() && t0.elapsed() < Duration::from_secs(19) {
                if last.elapsed() >= if phase == 1 && cmds > 0 { Duration::from_millis(20) } else { Duration::from_micros(500) } || todo > 0 {
                    id += 1;
                    let st = if phase == 1 { St::idle(id).modes(kind.mg(), cm, RM_MOVE) } else { St::idle(id) };
                    let mut bytes = st.encode();
                    if todo > 0 {
                        todo -= 1;
                        bytes[at] = v;
                    }
                    srv.send_udp(&bytes);
                    last = Instant::now();
                }
                if srv.tcp.is_none() {
                    srv.eof = false;
                }
                match srv.next(Duration::from_micros(200)) {
                    In::Req(r) if r.cmd == MOVE => {
                        motions += 1;
                        cmds = 0;
                        mv = r.id;
                        if motions == 1 && p == P::Started {
                            did = true;
                            odd(srv, MOVE, r.id);
                            phase = 0;
                        } else {
                            if motions == 1 && p == P::WhileStarting {
                                did = true;
                                todo = bad_states;
                            }
                            srv.send_tcp(&robot_frame(MOVE, r.id, &[MS_STARTED]));
                            phase = 1;
                        }
                    }
                    In::Req(r) if r.cmd == STOP_MOVE => {
                        if motions == 1 && p == P::StopAnswer {
                            odd(srv, STOP_MOVE, r.id);
                        } else {
                            srv.send_tcp(&robot_frame(STOP_MOVE, r.id, &[0]));
                        }
                        phase = 0;
                    }
                    In::Req(r) => {
                        srv.send_tcp(&robot_frame(r.cmd, r.id, &[0]));
                    }
                    In::Cmd(c) if phase == 1 => {
                        cmds += 1;
                        if motions == 1 && !did && cmds > when {
                            if p == P::Running || p == P::StopAnswer {
                                did = true;
                                todo = bad_states;
                            }
                            if p == P::Abort {
                                did = true;
                                phase = 0;
                                odd(srv, MOVE, mv);
                            }
                        }
                        if c.finished && phase == 1 {
                            if motions == 1 && p == P::Finishing && !did {
                                did = true;
                                todo = bad_states;
                                continue;
                            }
                            phase = 0;
                            if motions == 1 && p == P::Final {
                                did = true;
                                odd(srv, MOVE, mv);
                            } else {
                                srv.send_tcp(&robot_frame(MOVE, mv, &[MS_SUCCESS]));
                            }
                        }
                        id += 1;
                        let st = if phase == 1 { St::idle(id).modes(kind.mg(), cm, RM_MOVE) } else { St::idle(id) };
                        if todo == 0 {
                            srv.send_udp(&st.encode());
                            last = Instant::now();
                        }
                    }
                    In::Closed if srv.tcp.is_some() => break,
                    _ => {}
                }
            }
            Ok(did)
        },
        move |addr| -> Result<Vec<Result<Res, String>>, Res> {
            let mut robot = Robot::new(addr, RealtimeConfig::Ignore, None).map_err(err_of)?;
            let mut out = vec![];
            for _ in 0..1 + again as usize {
                let mut n = 0usize;
                let r = catch(|| {
                    let mut end = || {
                        n += 1;
                        n > steps
                    };
                    res_of(match kind {
                        Kind::JP => robot.control_joint_positions(|_: &RobotState, _: &Duration| fin(JointPositions::new([0.; 7]), end()), None, None, None),
                        Kind::JV => robot.control_joint_velocities(|_: &RobotState, _: &Duration| fin(JointVelocities::new([0.; 7]), end()), None, None, None),
                        _ => robot.control_torques(|_: &RobotState, _: &Duration| fin(Torques::new([0.; 7]), end()), None, None),
                    })
                    .1
                });
                let ended = r.is_err();
                out.push(r);
                if ended {
                    break;
                }
            }
            Ok(out)
        },
    );
    let recs = match run.client {
        ClientEnd::Done(Ok(r)) => r,
        ClientEnd::Done(Err(e)) => return timing(format!("connecting failed: {}\n{}", e.brief(), what)),
        ClientEnd::Panic(p) => return fail(format!("panicked: {}\n{}", p, what)),
        ClientEnd::Hang => return timing(format!("a motion did not return within 20 s\n{}", what)),
    };
    match run.server {
        Some(Ok(true)) => {}
        x => return timing(format!("the odd message was not reached: {:?} {:?}\n{}", x, run.server_panic, what)),
    }
    let mut j = Judge::default();
    for (k, r) in recs.iter().enumerate() {
        match r {
            Err(e) => j.fail(format!("motion {} panicked: {}\n{}", k, e, what)),
            Ok(Res::Ok) if k == 0 && matches!(p, P::Started | P::Abort | P::Final) => {
                j.fail(format!("the motion succeeded, although no valid answer says so\n{}", what))
            }
            Ok(_) => {}
        }
    }
    let mut o = Outcome::pass(true)
        .label(
            match p {
                P::Started => "odd first response",
                P::WhileStarting => "odd states while starting",
                P::Running => "odd states while running",
                P::Finishing => "odd states while finishing",
                P::Abort => "odd response to an abort",
                P::Final => "odd final response",
                P::StopAnswer => "odd states, then an odd answer to StopMove",
            },
            1,
        )
        .sample(what);
    o.verdict = j.verdict();
    o
}
fn fin<T: Finishable + Copy>(mut t: T, f: bool) -> T {
    t.set_motion_finished(f);
    t
}

// ---- the model ---------------------------------------------------------------------------------
fn library(s: &mut Src) -> Outcome {
    let mal = match s.below(4) {
        0 => Mal::Status(s.pick(&[2, 3, 127, 128, 255])),
        1 => Mal::Cut(0),
        2 => Mal::Size(s.below(12) as u32),
        _ => Mal::Command(s.pick(&[14, 15, 255, 256, u32::MAX])),
    };
    let data = s.usize(1, 40);
    let persistent = s.bool();
    let what = format!("answer to the request for the model library: {:?}, {} bytes of data, persistent {}", mal, data, persistent);
    let _one = model::exclusive();
    let mal2 = mal.clone();
    let run = session(
        1337,
        Duration::from_secs(20),
        move |srv| {
            if !handshake(srv, &St::idle(1)) {
                return false;
            }
            let mut did = false;
            if let Some(r) = srv.next_req(Duration::from_secs(5)) {
                let mut body = vec![0u8; 1 + data];
                if matches!(mal2, Mal::Cut(_)) {
                    body.truncate(1);
                }
                let mut f = mal2.apply(false, r.cmd, r.id, &body);
                if matches!(mal2, Mal::Size(_)) {
                    f.truncate(12);
                }
                srv.send_tcp(&f);
                std::thread::sleep(Duration::from_millis(1));
                srv.close_tcp();
                did = true;
            }
            let t0 = Instant::now();
            while !srv.gone() && t0.elapsed() < Duration::from_secs(19) {
                std::thread::sleep(Duration::from_micros(300));
            }
            did
        },
        move |addr| -> Result<Result<Res, String>, Res> {
            let mut robot = Robot::new(addr, RealtimeConfig::Ignore, None).map_err(err_of)?;
            Ok(catch(|| res_of(robot.load_model(persistent)).1))
        },
    );
    let mut j = Judge::default();
    match run.client {
        ClientEnd::Done(Ok(Ok(Res::Ok))) => j.fail(format!("load_model succeeded\n{}", what)),
        ClientEnd::Done(Ok(Ok(_))) => {}
        ClientEnd::Done(Ok(Err(p))) | ClientEnd::Panic(p) => j.fail(format!("panicked: {}\n{}", p, what)),
        ClientEnd::Done(Err(e)) => j.timing(format!("connecting failed: {}\n{}", e.brief(), what)),
        ClientEnd::Hang => j.timing(format!("load_model did not return within 20 s\n{}", what)),
    }
    j.check(!model::stored(), || format!("a file was stored\n{}", what));
    if run.server != Some(true) {
        j.timing(format!("the library was not asked for\n{}", what));
    }
    let mut o = Outcome::pass(true).label("answers", 1).sample(what);
    o.verdict = j.verdict();
    o
}

fn robot_states(s: &mut Src) -> Outcome {
    let ds = discrete();
    states::damaged(s, &|s: &mut Src| {
        let (at, lim) = ds[s.below(ds.len() as u64) as usize];
        (at, lim + s.below(256 - lim as u64) as u8)
    })
}
fn gripper_states(s: &mut Src) -> Outcome {
    // id u32, two f64, the flag, temperature u16
    tcp::damaged(s, &|s: &mut Src| (20, 2 + s.below(254) as u8))
}

pub fn c25() -> Prop {
    Prop {
        id: "C25",
        level: "exploration",
        rule: "answers: one request is answered by zero to two odd frames and a frame with an unknown status, any byte replaced, a short or long body, a wrong size or command number, another id, or random bytes; a walk over the same bytes decides whether any of them confirm the request. motion: Move and StopMove responses and states with bytes that mean nothing. library: odd answers to load_model. states, gripper_states: datagrams of the right length with a byte outside its few valid values among valid ones. Non-trivial: something odd was sent (states: a call met an odd datagram).",
        assumptions: &["a peer that leaves a message incomplete closes the connection in the end (waiting for the rest of a message is right)", "what a call does with a body longer than its message is not judged"],
        subs: vec![
            Sub { name: "answers", quick: 160_000, thorough: 600_000, par: 24, f: answers },
            Sub { name: "states", quick: 36_000, thorough: 150_000, par: 8, f: robot_states },
            Sub { name: "gripper_states", quick: 20_000, thorough: 60_000, par: 16, f: gripper_states },
            Sub { name: "motion", quick: 24_000, thorough: 100_000, par: 16, f: motion },
            Sub { name: "library", quick: 1500, thorough: 5000, par: 1, f: library },
        ],
    }
}
