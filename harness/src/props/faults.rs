//! C14: the peer closes, resets, falls silent or is not there at all.
use super::states::handshake;
use super::tcp::*;
use crate::ctl::*;
use crate::engine::*;
use crate::net::*;
use crate::wire::*;
use franka::{Finishable, Gripper, RealtimeConfig, Robot};
use std::sync::{mpsc, Arc};
use std::time::{Duration, Instant};

const BOUND: Duration = Duration::from_secs(8);

#[derive(Clone, Copy, Debug, PartialEq)]
enum Cut {
    Close,
    Reset,
}
fn cut(srv: &mut Srv, c: Cut) {
    match c {
        Cut::Close => srv.close_tcp(),
        Cut::Reset => srv.reset_tcp(),
    }
}
fn gen_cut(s: &mut Src) -> Cut {
    s.pick(&[Cut::Close, Cut::Reset])
}
fn pause(s: &mut Src) -> u64 {
    s.pick(&[0, 0, 50, 300, 2000, 15_000])
}
fn nap(us: u64) {
    if us > 0 {
        std::thread::sleep(Duration::from_micros(us));
    }
}
fn fail(m: String) -> Outcome {
    Outcome { verdict: Verdict::Fail(m), nontrivial: false, labels: vec![], sample: None }
}

/// one call of the client: what it was, what came out, how long it took
type Rec = (String, Result<Res, String>, Duration);
fn timed(name: &str, f: impl FnOnce() -> Res) -> Rec {
    let t = Instant::now();
    let r = catch(f);
    (name.to_string(), r, t.elapsed())
}
/// Every call after the fault has to fail; calls in `maybe` may have been confirmed before it.
fn judge(j: &mut Judge, recs: &[Rec], must_fail: &dyn Fn(usize) -> bool, what: &str) {
    judge_within(j, recs, must_fail, what, BOUND)
}
fn judge_within(j: &mut Judge, recs: &[Rec], must_fail: &dyn Fn(usize) -> bool, what: &str, bound: Duration) {
    for (i, (name, r, t)) in recs.iter().enumerate() {
        match r {
            Err(p) => j.fail(format!("{} panicked: {}\n{}", name, p, what)),
            Ok(r) => {
                if must_fail(i) {
                    j.check(matches!(r, Res::Network(_) | Res::Control { .. }), || {
                        format!("{} returned {} (expected a network error)\n{}", name, r.brief(), what)
                    });
                } else {
                    j.check(matches!(r, Res::Network(_) | Res::Control { .. } | Res::Ok), || format!("{} returned {}\n{}", name, r.brief(), what));
                }
                if *t > bound {
                    j.timing(format!("{} took {:?}\n{}", name, t, what));
                }
            }
        }
    }
}

// ---- connecting --------------------------------------------------------------------------------
fn c14_connect(s: &mut Src) -> Outcome {
    let gripper = s.bool();
    let point = s.weighted(&[2, 2, 3, 3, 6, 1]);
    let c = gen_cut(s);
    let p = pause(s);
    let name = s.pick(&["no.such.host.invalid", "", "1.2.3.4.5", "two words", "[::", "-"]);
    let len = if gripper { 14 } else { 15 };
    let k = s.usize(0, len - 1);
    let tail = s.below(3);
    let what = format!("gripper {}, point {} ({}), cut {:?}, pause {} us, {} of {} response bytes", gripper, point, 
        ["refused", "unresolvable", "closed at once", "closed after the request", "closed within the response", "accepted, but no state"][point], c, p, k, len);
    let connect = move |addr: &str| {
        timed("connect", || {
            if gripper {
                match Gripper::new(addr) {
                    Ok(_) => Res::Ok,
                    Err(e) => err_of(e),
                }
            } else {
                match Robot::new(addr, RealtimeConfig::Ignore, None) {
                    Ok(_) => Res::Ok,
                    Err(e) => err_of(e),
                }
            }
        })
    };
    let mut j = Judge::default();
    let port = if gripper { 1338 } else { 1337 };
    if point < 2 {
        let addr = if point == 0 { slot().ip.to_string() } else { name.to_string() };
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || {
            let _ = tx.send(connect(&addr));
        });
        match rx.recv_timeout(Duration::from_secs(20)) {
            Ok(r) => judge(&mut j, &[r], &|_| true, &what),
            Err(_) => j.timing(format!("connect did not return within 20 s\n{}", what)),
        }
    } else {
        let run = session(
            port,
            Duration::from_secs(20),
            move |srv| {
                if !srv.accept(Duration::from_secs(5)) {
                    return;
                }
                if point == 2 {
                    nap(p);
                    cut(srv, c);
                    return;
                }
                let r = match srv.next_req(Duration::from_secs(5)) {
                    Some(r) => r,
                    None => return,
                };
                let mut w = W::new();
                let ans = if gripper {
                    w.u16(0).u16(3);
                    gripper_frame(0, r.id, &w.0)
                } else {
                    w.u8(0).u16(5);
                    robot_frame(CONNECT, r.id, &w.0)
                };
                match point {
                    3 => {
                        nap(p);
                        cut(srv, c);
                    }
                    4 => {
                        srv.send_tcp(&ans[..k]);
                        nap(p);
                        cut(srv, c);
                    }
                    _ => {
                        srv.send_tcp(&ans);
                        nap(p);
                        match tail {
                            0 => {}
                            1 => srv.close_tcp(),
                            _ => srv.reset_tcp(),
                        }
                    }
                }
                let t0 = Instant::now();
                while !srv.gone() && t0.elapsed() < Duration::from_secs(20) {
                    std::thread::sleep(Duration::from_millis(1));
                }
            },
            move |addr| connect(addr),
        );
        match run.client {
            ClientEnd::Done(r) => {
                let confirmed = point == 5 && gripper;
                judge(&mut j, &[r], &|_| !confirmed, &what)
            }
            ClientEnd::Panic(p) => j.fail(format!("panicked: {}\n{}", p, what)),
            ClientEnd::Hang => j.timing(format!("connect did not return within 20 s\n{}", what)),
        }
    }
    let mut o = Outcome::pass(true)
        .label(["refused", "unresolvable", "closed at once", "closed after the request", "closed within the response", "no state"][point], 1)
        .sample(what);
    o.verdict = j.verdict();
    o
}

// ---- commands ----------------------------------------------------------------------------------
fn c14_calls(s: &mut Src) -> Outcome {
    let gripper = s.chance(1, 3);
    let good = s.usize(0, 3);
    let after = s.usize(0, 2);
    let mut plan = vec![];
    for _ in 0..(good + 1 + after) {
        let mut p = loop {
            let p = Planned::gen(s, gripper, false);
            if !matches!(p.call, Call::Motion(_) | Call::Read) {
                break p;
            }
        };
        for x in p.status.iter_mut() {
            *x = 0;
        }
        plan.push(p);
    }
    // 0 between two calls, 1 after the request, 2 within the response, 3 after unrelated data, 4 after the response
    let point = s.weighted(&[3, 3, 5, 2, 1]);
    let part = s.below(plan[good].call.requests().len() as u64) as usize;
    let frac = s.u64();
    let c = gen_cut(s);
    let p = pause(s);
    let what = format!("gripper {}, calls {:?}, fault at call {} part {} point {} cut {:?} pause {}", gripper,
        plan.iter().map(|p| format!("{:?}", p.call).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()).collect::<Vec<_>>(), good, part, point, c, p);
    let plan = Arc::new(plan);
    let pl = plan.clone();
    let run = session(
        if gripper { 1338 } else { 1337 },
        Duration::from_secs(25),
        move |srv| {
            let ok = if gripper { gripper_handshake(srv, 0, 3).is_some() } else { handshake(srv, &St::idle(1)) };
            if !ok {
                return false;
            }
            for (k, pl) in pl.iter().enumerate() {
                for i in 0..pl.call.requests().len() {
                    let here = k == good && i == part;
                    if here && point == 0 {
                        nap(p);
                        cut(srv, c);
                        break;
                    }
                    let r = match srv.next_req(Duration::from_secs(5)) {
                        Some(r) => r,
                        None => return srv.eof,
                    };
                    let body = pl.body(i);
                    let ans = if gripper { gripper_frame(r.cmd as u16, r.id, &body) } else { robot_frame(r.cmd, r.id, &body) };
                    if !here {
                        srv.send_tcp(&ans);
                        continue;
                    }
                    match point {
                        1 => {}
                        2 => {
                            srv.send_tcp(&ans[..(frac % ans.len() as u64) as usize]);
                        }
                        3 => {
                            let u = if gripper { gripper_frame(1, 77777, &[1; 9]) } else { robot_frame(4, 77777, &[1; 9]) };
                            srv.send_tcp(&u);
                            srv.send_tcp(&ans[..(frac % ans.len() as u64) as usize]);
                        }
                        _ => {
                            srv.send_tcp(&ans);
                        }
                    }
                    nap(p);
                    cut(srv, c);
                    break;
                }
                if srv.tcp.is_none() {
                    break;
                }
            }
            let t0 = Instant::now();
            while !srv.gone() && t0.elapsed() < Duration::from_secs(25) {
                std::thread::sleep(Duration::from_millis(1));
            }
            true
        },
        {
            let plan = plan.clone();
            move |addr| -> Result<Vec<Rec>, Res> {
                let mut cl = if gripper {
                    Client::Gripper(Box::new(Gripper::new(addr).map_err(err_of)?))
                } else {
                    Client::Robot(Box::new(Robot::new(addr, RealtimeConfig::Ignore, None).map_err(err_of)?))
                };
                let mut out = vec![];
                for p in plan.iter() {
                    out.push(timed(&format!("{:?}", p.call), || p.call.run(&mut cl).1));
                }
                Ok(out)
            }
        },
    );
    let recs = match run.client {
        ClientEnd::Done(Ok(r)) => r,
        ClientEnd::Done(Err(e)) => return timing(format!("connecting failed: {}\n{}", e.brief(), what)),
        ClientEnd::Panic(p) => return fail(format!("panicked: {}\n{}", p, what)),
        ClientEnd::Hang => return timing(format!("a call did not return within 25 s of losing the connection\n{}", what)),
    };
    let parts = plan[good].call.requests().len();
    let mut j = Judge::default();
    for (i, (n, r, _)) in recs.iter().enumerate().take(good) {
        // a call before the fault may only be hit by it if nothing separates the two
        if !matches!(r, Ok(Res::Ok)) && !(i + 1 == good && point == 0 && part == 0) {
            j.fail(format!("{} failed before the fault: {:?}\n{}", n, r.as_ref().map(|r| r.brief()), what));
        }
    }
    judge(&mut j, &recs, &|i| if i < good { false } else if i == good { !(point == 4 && part + 1 == parts) } else { true }, &what);
    let mut o = Outcome::pass(true)
        .label(["closed between calls", "closed after the request", "closed within the response", "closed after unrelated data", "closed after the response"][point], 1)
        .label("calls after the fault", after as u64)
        .sample(what);
    o.verdict = j.verdict();
    o
}

// ---- the peer vanishes -------------------------------------------------------------------------
const VANISH_BOUND: Duration = Duration::from_secs(12);
/// The peer acknowledges a request (and perhaps part of its answer gets through) and is never heard
/// of again; its end of the connection is neither closed nor reset.
fn c14_vanished(s: &mut Src) -> Outcome {
    let gripper = s.bool();
    let good = s.usize(0, 2);
    let in_connect = s.chance(1, 4);
    let mut plan = vec![];
    for _ in 0..good + 2 {
        let mut p = loop {
            let p = Planned::gen(s, gripper, false);
            if !matches!(p.call, Call::Motion(_) | Call::Read) {
                break p;
            }
        };
        for x in p.status.iter_mut() {
            *x = 0;
        }
        plan.push(p);
    }
    let part = s.below(plan[good].call.requests().len() as u64) as usize;
    let within = s.bool();
    // the last call before the fault is the last thing the peer hears
    let before = !in_connect && s.chance(1, 3);
    let within = within && !before;
    let frac = s.u64();
    let what = format!(
        "gripper {}, calls {:?}, the peer vanishes {} {}",
        gripper,
        plan.iter().map(|p| format!("{:?}", p.call).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()).collect::<Vec<_>>(),
        if within { "within the answer" } else if before { "before the request" } else { "after the request" },
        if in_connect { "of connecting".to_string() } else { format!("at call {} part {}", good, part) }
    );
    let plan = Arc::new(plan);
    let pl = plan.clone();
    let run = session(
        if gripper { 1338 } else { 1337 },
        Duration::from_secs(25),
        move |srv| -> bool {
            let wait = |srv: &mut Srv| {
                let t0 = Instant::now();
                while !srv.gone() && t0.elapsed() < Duration::from_secs(25) {
                    std::thread::sleep(Duration::from_millis(1));
                }
            };
            if in_connect {
                if !srv.accept(Duration::from_secs(5)) {
                    return false;
                }
                let r = match srv.next_req(Duration::from_secs(5)) {
                    Some(r) => r,
                    None => return false,
                };
                let mut w = W::new();
                let ans = if gripper {
                    w.u16(0).u16(3);
                    gripper_frame(0, r.id, &w.0)
                } else {
                    w.u8(0).u16(5);
                    robot_frame(CONNECT, r.id, &w.0)
                };
                if within {
                    srv.send_tcp(&ans[..(frac % ans.len() as u64) as usize]);
                }
                let v = srv.vanish();
                if v {
                    wait(srv);
                }
                return v;
            }
            let ok = if gripper { gripper_handshake(srv, 0, 3).is_some() } else { handshake(srv, &St::idle(1)) };
            if !ok {
                return false;
            }
            for (k, pl) in pl.iter().enumerate() {
                for i in 0..pl.call.requests().len() {
                    if before && k == good && i == part {
                        let v = srv.vanish();
                        if v {
                            wait(srv);
                        }
                        return v;
                    }
                    let r = match srv.next_req(Duration::from_secs(5)) {
                        Some(r) => r,
                        None => return false,
                    };
                    let body = pl.body(i);
                    let ans = if gripper { gripper_frame(r.cmd as u16, r.id, &body) } else { robot_frame(r.cmd, r.id, &body) };
                    if !(k == good && i == part) {
                        srv.send_tcp(&ans);
                        continue;
                    }
                    if within {
                        srv.send_tcp(&ans[..(frac % ans.len() as u64) as usize]);
                    }
                    let v = srv.vanish();
                    if v {
                        wait(srv);
                    }
                    return v;
                }
            }
            false
        },
        {
            let plan = plan.clone();
            move |addr| -> Vec<Rec> {
                let mut cl = None;
                let first = timed("connect", || {
                    if gripper {
                        match Gripper::new(addr) {
                            Ok(g) => {
                                cl = Some(Client::Gripper(Box::new(g)));
                                Res::Ok
                            }
                            Err(e) => err_of(e),
                        }
                    } else {
                        match Robot::new(addr, RealtimeConfig::Ignore, None) {
                            Ok(g) => {
                                cl = Some(Client::Robot(Box::new(g)));
                                Res::Ok
                            }
                            Err(e) => err_of(e),
                        }
                    }
                });
                let mut out = vec![first];
                if let Some(mut cl) = cl {
                    for p in plan.iter() {
                        out.push(timed(&format!("{:?}", p.call), || p.call.run(&mut cl).1));
                    }
                }
                out
            }
        },
    );
    let recs = match run.client {
        ClientEnd::Done(r) => r,
        ClientEnd::Panic(p) => return fail(format!("panicked: {}\n{}", p, what)),
        ClientEnd::Hang => {
            return match run.server {
                Some(false) => Outcome::pass(false),
                _ => timing(format!("a call did not return within 25 s of the peer vanishing\n{}", what)),
            }
        }
    };
    match run.server {
        Some(true) => {}
        // the socket filter is not available here
        _ => return Outcome::pass(false),
    }
    let mut j = Judge::default();
    let at = if in_connect { 0 } else { good + 1 };
    // `before` races with the request: whether it was still acknowledged or not, it was not answered
    for (i, (name, r, t)) in recs.iter().enumerate() {
        match r {
            Err(p) => j.fail(format!("{} panicked: {}\n{}", name, p, what)),
            Ok(r) if i < at => {
                j.check(matches!(r, Res::Ok), || format!("{} failed before the fault: {}\n{}", name, r.brief(), what));
            }
            Ok(r) => {
                j.check(matches!(r, Res::Network(_)), || format!("{} returned {} (expected a network error)\n{}", name, r.brief(), what));
            }
        }
        if *t > VANISH_BOUND {
            j.timing(format!("{} took {:?}\n{}", name, t, what));
        }
    }
    let mut o = Outcome::pass(true).label(if within { "vanished within an answer" } else if before { "vanished before a request" } else { "vanished after a request" }, 1).sample(what);
    o.verdict = j.verdict();
    o
}

// ---- states stop arriving ----------------------------------------------------------------------
fn c14_silence(s: &mut Src) -> Outcome {
    let gripper = s.chance(1, 3);
    let loop_read = s.bool();
    let n = s.usize(0, 5);
    let tcp = s.below(3);
    let what = format!("gripper {}, read loop {}, silent after {} states, tcp {}", gripper, loop_read, n, ["open", "closed", "reset"][tcp as usize]);
    let run = session(
        if gripper { 1338 } else { 1337 },
        Duration::from_secs(25),
        move |srv| {
            let ok = if gripper { gripper_handshake(srv, 0, 3).is_some() } else { handshake(srv, &St::idle(1)) };
            if !ok {
                return;
            }
            for i in 0..n {
                std::thread::sleep(Duration::from_millis(2));
                if gripper {
                    srv.send_udp(&GSt::gen(i as u32 + 2, 1).encode());
                } else {
                    srv.send_udp(&St::idle(i as u64 + 2).encode());
                }
            }
            match tcp {
                0 => {}
                1 => srv.close_tcp(),
                _ => srv.reset_tcp(),
            }
            let t0 = Instant::now();
            while !srv.gone() && t0.elapsed() < Duration::from_secs(25) {
                std::thread::sleep(Duration::from_millis(1));
            }
        },
        move |addr| -> Result<Vec<Rec>, Res> {
            let mut out = vec![];
            if gripper {
                let mut g = Gripper::new(addr).map_err(err_of)?;
                for _ in 0..n + 1 {
                    out.push(timed("read_once", || res_of(g.read_once()).1));
                    if !matches!(out.last().unwrap().1, Ok(Res::Ok)) {
                        break;
                    }
                }
            } else {
                let mut r = Robot::new(addr, RealtimeConfig::Ignore, None).map_err(err_of)?;
                if loop_read {
                    out.push(timed("read", || res_of(r.read(|_| true)).1));
                } else {
                    for _ in 0..n + 1 {
                        out.push(timed("read_once", || res_of(r.read_once()).1));
                        if !matches!(out.last().unwrap().1, Ok(Res::Ok)) {
                            break;
                        }
                    }
                }
            }
            Ok(out)
        },
    );
    let recs = match run.client {
        ClientEnd::Done(Ok(r)) => r,
        ClientEnd::Done(Err(e)) => return timing(format!("connecting failed: {}\n{}", e.brief(), what)),
        ClientEnd::Panic(p) => return fail(format!("panicked: {}\n{}", p, what)),
        ClientEnd::Hang => return timing(format!("reading did not return within 25 s of the last state\n{}", what)),
    };
    let mut j = Judge::default();
    let l = recs.len();
    judge(&mut j, &recs, &|i| i + 1 == l, &what);
    let mut o = Outcome::pass(true).label("reads that end in silence", 1).sample(what);
    o.verdict = j.verdict();
    o
}

// ---- motions -----------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
enum F {
    Close,
    Reset,
    /// states stop, TCP goes on answering
    Silence,
    /// states stop and TCP is closed
    Both,
    /// states stop, and nothing is acknowledged any more
    Vanish,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum P {
    Request,
    InStarted,
    Starting,
    Running,
    /// the robot leaves the motion (abort) and is gone before it says why
    Aborting,
    Finishing,
    InFinal,
}
fn c14_motion(s: &mut Src) -> Outcome {
    c14_motion_(s, false)
}
fn c14_motion_vanished(s: &mut Src) -> Outcome {
    c14_motion_(s, true)
}
fn c14_motion_(s: &mut Src, vanish: bool) -> Outcome {
    let kind = s.pick(&[Kind::JP, Kind::JV, Kind::CV, Kind::T, Kind::TJV]);
    let point = s.pick(&[P::Request, P::InStarted, P::Starting, P::Running, P::Aborting, P::Finishing, P::InFinal]);
    let f = match point {
        P::Request | P::InStarted | P::Aborting | P::InFinal => s.pick(&[F::Close, F::Reset]),
        _ => s.pick(&[F::Close, F::Reset, F::Silence, F::Both]),
    };
    let f = if vanish { F::Vanish } else { f };
    let steps = s.usize(1, 6);
    let at = s.usize(0, steps - 1);
    let pending = s.usize(0, 3);
    let k = s.usize(0, 12);
    let p = pause(s);
    let good_before = s.chance(1, 3);
    let stop_status = s.below(5) as u8;
    let follow = s.bool();
    let what = format!("{:?}, fault {:?} at {:?} (command {} of {}, {} response bytes, pause {} us), a motion before {}", kind, f, point, at, steps, k, p, good_before);
    let cm = if kind.torque() { CM_EXT } else { CM_JI };
    let run = session(
        1337,
        Duration::from_secs(30),
        move |srv| -> Result<bool, String> {
            let mut id = 1u64;
            if !handshake(srv, &St::idle(id)) {
                return Err("no handshake".into());
            }
            let run_state = move |id: u64| St::idle(id).modes(kind.mg(), cm, RM_MOVE).encode();
            let mut did = false;
            for round in 0..(1 + good_before as usize) {
                let bad = round == good_before as usize;
                let mut silent = false;
                let fault = |srv: &mut Srv, silent: &mut bool| {
                    nap(p);
                    match f {
                        F::Close => srv.close_tcp(),
                        F::Reset => srv.reset_tcp(),
                        F::Silence => *silent = true,
                        F::Both => {
                            srv.close_tcp();
                            *silent = true;
                        }
                        F::Vanish => {
                            if !srv.vanish() {
                                srv.reset_tcp(); // no socket filters here: the nearest thing
                            }
                            *silent = true;
                        }
                    }
                };
                // wait for Move
                let mv = loop {
                    match srv.next(Duration::from_millis(2)) {
                        In::Req(r) if r.cmd == MOVE => break r,
                        In::Req(r) => {
                            srv.send_tcp(&robot_frame(r.cmd, r.id, &[0]));
                        }
                        In::Closed => return Ok(did),
                        In::Timeout => {
                            id += 1;
                            srv.send_udp(&St::idle(id).encode());
                        }
                        _ => {}
                    }
                    if srv.gone() {
                        return Ok(did);
                    }
                };
                let started = robot_frame(MOVE, mv.id, &[MS_STARTED]);
                let fin = robot_frame(MOVE, mv.id, &[MS_SUCCESS]);
                // phase: 0 starting, 1 running, 2 idle again
                let mut phase = 0;
                if bad && point == P::Request {
                    fault(srv, &mut silent);
                    did = true;
                } else if bad && point == P::InStarted {
                    srv.send_tcp(&started[..k]);
                    fault(srv, &mut silent);
                    did = true;
                } else {
                    srv.send_tcp(&started);
                    if bad && point == P::Starting {
                        for _ in 0..pending {
                            id += 1;
                            srv.send_udp(&St::idle(id).encode());
                        }
                        fault(srv, &mut silent);
                        did = true;
                    } else {
                        phase = 1;
                    }
                }
                let t0 = Instant::now();
                let mut cmds = 0usize;
                let mut last = Instant::now();
                let mut final_sent = false;
                loop {
                    if srv.gone() || t0.elapsed() > Duration::from_secs(28) {
                        return Ok(did);
                    }
                    // keep the states coming
                    let every = if cmds == 0 || phase != 1 { Duration::from_millis(1) } else { Duration::from_millis(30) };
                    if !silent && last.elapsed() >= every {
                        id += 1;
                        let b = if phase == 1 { run_state(id) } else { St::idle(id).encode() };
                        srv.send_udp(&b);
                        last = Instant::now();
                    }
                    if srv.tcp.is_none() {
                        srv.eof = false; // only UDP is left
                    }
                    match srv.next(Duration::from_micros(500)) {
                        In::Cmd(c) => {
                            cmds += 1;
                            if phase != 1 {
                                continue;
                            }
                            if bad && !did && point == P::Running && cmds > at {
                                fault(srv, &mut silent);
                                did = true;
                            }
                            if bad && !did && point == P::Aborting && cmds > at {
                                fault(srv, &mut silent);
                                did = true;
                                phase = 2;
                                continue;
                            }
                            if c.finished {
                                if bad && !did && point == P::Finishing {
                                    fault(srv, &mut silent);
                                    did = true;
                                }
                                phase = 2;
                                if bad && !did && point == P::InFinal {
                                    srv.send_tcp(&fin[..k]);
                                    fault(srv, &mut silent);
                                    did = true;
                                }
                                if !did {
                                    id += 1;
                                    srv.send_udp(&St::idle(id).encode());
                                    srv.send_tcp(&fin);
                                    final_sent = true;
                                    break;
                                }
                            } else if !silent {
                                id += 1;
                                srv.send_udp(&run_state(id));
                                last = Instant::now();
                            }
                        }
                        In::Req(r) if r.cmd == STOP_MOVE => {
                            srv.send_tcp(&robot_frame(STOP_MOVE, r.id, &[stop_status]));
                            phase = 2;
                        }
                        In::Req(r) => {
                            srv.send_tcp(&robot_frame(r.cmd, r.id, &[0]));
                        }
                        In::Closed if srv.tcp.is_some() => return Ok(did),
                        _ => {}
                    }
                }
                let _ = final_sent;
            }
            Ok(did)
        },
        move |addr| -> Result<(Vec<Rec>, usize), Res> {
            let mut robot = Robot::new(addr, RealtimeConfig::Ignore, None).map_err(err_of)?;
            let mut out = vec![];
            for _ in 0..(1 + good_before as usize) {
                let mut u = vec![User::rest(); steps];
                let mut l = User::rest();
                l.fin = true;
                l.tau_fin = true;
                u.push(l);
                let mut n = 0usize;
                out.push(timed("control", || {
                    let mut jp = |_: &franka::RobotState, _: &Duration| {
                        n += 1;
                        n > steps
                    };
                    let r = match kind {
                        Kind::JP => robot.control_joint_positions(|s: &franka::RobotState, d: &Duration| fin(franka::JointPositions::new([0.; 7]), jp(s, d)), None, Some(false), None),
                        Kind::JV => robot.control_joint_velocities(|s: &franka::RobotState, d: &Duration| fin(franka::JointVelocities::new([0.; 7]), jp(s, d)), None, None, None),
                        Kind::CV => robot.control_cartesian_velocities(|s: &franka::RobotState, d: &Duration| fin(franka::CartesianVelocities::new([0.; 6], None), jp(s, d)), None, None, None),
                        Kind::T => robot.control_torques(|s: &franka::RobotState, d: &Duration| fin(franka::Torques::new([0.; 7]), jp(s, d)), None, None),
                        _ => robot.control_torques_and_joint_velocities(
                            |_: &franka::RobotState, _: &Duration| franka::Torques::new([0.; 7]),
                            |s: &franka::RobotState, d: &Duration| fin(franka::JointVelocities::new([0.; 7]), jp(s, d)),
                            None,
                            None,
                        ),
                    };
                    res_of(r).1
                }));
            }
            let m = out.len();
            if follow {
                out.push(timed("automatic_error_recovery", || res_of(robot.automatic_error_recovery()).1));
            }
            Ok((out, m))
        },
    );
    let (recs, m) = match run.client {
        ClientEnd::Done(Ok(r)) => r,
        ClientEnd::Done(Err(e)) => return timing(format!("connecting failed: {}\n{}", e.brief(), what)),
        ClientEnd::Panic(p) => return fail(format!("panicked: {}\n{}", p, what)),
        ClientEnd::Hang => return timing(format!("a motion did not return within 30 s of losing the connection\n{}", what)),
    };
    let mut j = Judge::default();
    match run.server {
        Some(Ok(true)) => {}
        x => return timing(format!("the fault was not reached: {:?} {:?} {:?}\n{}", x, run.server_panic, recs.iter().map(|r| r.1.as_ref().map(|x| x.brief())).collect::<Vec<_>>(), what)),
    }
    if good_before {
        j.check(matches!(recs[0].1, Ok(Res::Ok)), || format!("the motion before the fault failed: {:?}\n{}", recs[0].1.as_ref().map(|r| r.brief()), what));
    }
    let closed = f != F::Silence;
    judge_within(&mut j, &recs, &|i| i + 1 == m || (i >= m && closed), &what, if f == F::Vanish { VANISH_BOUND } else { BOUND });
    let mut o = Outcome::pass(true)
        .label(
            match point {
                P::Request => "after the Move request",
                P::InStarted => "within the first Move response",
                P::Starting => "while starting",
                P::Running => "while running",
                P::Aborting => "while aborting",
                P::Finishing => "while finishing",
                P::InFinal => "within the final Move response",
            },
            1,
        )
        .sample(what);
    o.verdict = j.verdict();
    o
}
fn fin<T: Finishable + Copy>(mut t: T, f: bool) -> T {
    t.set_motion_finished(f);
    t
}

pub fn c14() -> Prop {
    Prop {
        id: "C14",
        level: "fault_enumeration",
        rule: "a session in which the fault was injected; counted once per distinct choice sequence",
        assumptions: &[
            "bounded means 8 s per call, judged only if it repeats three times",
            "a peer that keeps acknowledging TCP traffic still answers requests (the library waits for an answer as long as the connection lives)",
            "a vanished peer (simulated by a filter that drops everything its socket receives) has to be given up within 12 s",
            "closing and resetting are done with the socket calls of the loopback peer",
        ],
        subs: vec![
            Sub { name: "connect", quick: 5000, thorough: 100_000, par: 48, f: c14_connect },
            Sub { name: "commands", quick: 20_000, thorough: 500_000, par: 32, f: c14_calls },
            Sub { name: "vanished", quick: 256, thorough: 8000, par: 128, f: c14_vanished },
            Sub { name: "motion_vanished", quick: 256, thorough: 8000, par: 128, f: c14_motion_vanished },
            Sub { name: "silence", quick: 200, thorough: 2000, par: 64, f: c14_silence },
            Sub { name: "motion", quick: 2000, thorough: 40_000, par: 64, f: c14_motion },
        ],
    }
}
