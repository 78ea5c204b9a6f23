//! C19 (joint motion generator) and C20 (conversions).
use super::limits::*;
use crate::ctl::*;
use crate::engine::*;
use crate::net::catch;
use crate::refmodel::*;
use crate::wire::*;
use franka::{
    array_to_isometry, CartesianPose, CartesianVelocities, Finishable, JointPositions, JointVelocities, MotionFinished, MotionGenerator, RobotState, Torques,
    Vector7,
};
use nalgebra::{Isometry3, Quaternion, Translation3, UnitQuaternion, Vector6};
use std::sync::Arc;
use std::time::Duration;

// ---- C19 -------------------------------------------------------------------------------------
const VMAX: [f64; 7] = [2.0, 2.0, 2.0, 2.0, 2.5, 2.5, 2.5];
const AMAX: f64 = 5.0;

/// Time the fastest profile of this shape needs (upper bound for sanity of the total time only).
fn needed(f: f64, i: usize, d: f64) -> f64 {
    let (v, a) = (VMAX[i] * f, AMAX * f);
    let v = v.min((2.0 / 3.0 * a * d).sqrt());
    1.5 * v / a + d / v
}
fn state_at(q: &[f64; 7], noise: u64) -> RobotState {
    let mut st = RobotState::default();
    let mut r = Rng::new(noise);
    for i in 0..7 {
        st.q[i] = q[i] + rng_sym(&mut r, 0.3);
        st.dq[i] = rng_sym(&mut r, 1.0);
        st.dq_d[i] = rng_sym(&mut r, 1.0);
        st.theta[i] = rng_sym(&mut r, 2.0);
    }
    st.time = Duration::from_millis(r.next() % 1_000_000);
    st.q_d = *q;
    st
}
/// The value at elapsed time t: one step from the start.
fn at(f: f64, start: &[f64; 7], goal: &[f64; 7], t: Duration) -> ([f64; 7], bool) {
    let mut g = MotionGenerator::new(f, goal);
    let st = state_at(start, 5);
    let r = g.generate_motion(&st, &Duration::ZERO);
    if t == Duration::ZERO {
        return (r.q, r.is_finished());
    }
    let r = g.generate_motion(&state_at(&r.q, 6), &t);
    (r.q, r.is_finished())
}
fn gen_speed(s: &mut Src) -> f64 {
    match s.below(5) {
        0 => 1.0,
        1 => s.f64_in(0.05, 1.0),
        2 => s.pick(&[0.5, 0.2, 0.1, 0.25, 0.8]),
        3 => s.log_mag(1e-3, 1.0),
        _ => s.log_mag(1e-4, 1e-2),
    }
}
fn gen_delta(s: &mut Src, f: f64, i: usize) -> f64 {
    let edge = 1.5 * VMAX[i] * VMAX[i] * f / AMAX;
    let d = match s.below(9) {
        0 => 0.0,
        1 => s.f64_in(0.0, 1.0),
        2 => s.f64_in(0.0, 6.0),
        3 => s.log_mag(2e-6, 6.0),
        // the border between reaching and not reaching full speed
        4 => edge * (1.0 + s.sym(1e-3)),
        5 => edge * (1.0 + s.sym(1e-12)),
        6 => edge,
        7 => s.log_mag(1e-9, 0.9e-6),
        _ => s.log_mag(1.1e-6, 1e-4),
    };
    if s.bool() {
        -d
    } else {
        d
    }
}
fn c19_direct(s: &mut Src) -> Outcome {
    let f = gen_speed(s);
    let mut start = [0.0; 7];
    let mut goal = [0.0; 7];
    let same = s.chance(1, 8);
    let d0 = gen_delta(s, f, 0);
    for i in 0..7 {
        start[i] = if s.chance(1, 4) { 0.0 } else { s.sym(2.9) };
        goal[i] = start[i] + if same { d0 } else { gen_delta(s, f, i) };
    }
    let only = s.below(9) as usize;
    if only < 7 && s.bool() {
        for i in 0..7 {
            if i != only {
                goal[i] = start[i];
            }
        }
    }
    let delta: Vec<f64> = (0..7).map(|i| goal[i] - start[i]).collect();
    let what = format!("speed factor {:e}, start {:?}, goal {:?}", f, start, goal);
    let mut j = Judge::default();
    // a difference of one microradian is the resolution: within a hair of it both are right
    if delta.iter().any(|d| (d.abs() - 1e-6).abs() < 1e-9) {
        return Outcome::pass(false);
    }
    let moving: Vec<bool> = delta.iter().map(|d| d.abs() > 1e-6).collect();
    let tref = (0..7).filter(|i| moving[*i]).map(|i| needed(f, i, delta[i].abs())).fold(0.0, f64::max);
    let bound = 1.5 * tref + 1.0;
    let dur = |t: f64| Duration::from_secs_f64(t);
    let run = catch(|| {
        let (q0, fin0) = at(f, &start, &goal, Duration::ZERO);
        j.check(max_abs_diff(&q0, &start) <= 1e-12, || format!("starts at {:?}\n{}", q0, what));
        j.check(fin0 == !moving.iter().any(|m| *m), || format!("finished at once: {}\n{}", fin0, what));
        let (qe, fine) = at(f, &start, &goal, dur(bound));
        j.check(fine, || format!("not finished after {} s\n{}", bound, what));
        for i in 0..7 {
            j.check((qe[i] - goal[i]).abs() <= 1.000001e-6 && (!moving[i] || (qe[i] - goal[i]).abs() <= 1e-12), || {
                format!("joint {} ends at {} instead of {}\n{}", i, qe[i], goal[i], what)
            });
        }
        if j.bad() || tref == 0.0 {
            return;
        }
        // when does it finish
        let (mut lo, mut hi) = (0.0, bound);
        while hi - lo > (tref * 1e-10).max(2e-9) {
            let m = 0.5 * (lo + hi);
            if at(f, &start, &goal, dur(m)).1 {
                hi = m;
            } else {
                lo = m;
            }
        }
        let t_f = hi;
        // the slowest joint, alone at its limits, sets the time: nobody waits longer, nobody is rushed
        // (solving for the speed of a joint that has hardly anything to do cancels digits)
        let least = (0..7).filter(|i| moving[*i]).map(|i| delta[i].abs()).fold(f64::MAX, f64::min);
        let rel = 1e-7 + 16.0 * f64::EPSILON * tref * tref * AMAX * f / (6.0 * least);
        j.check((t_f - tref).abs() <= rel * tref + 1e-8, || format!("finishes after {} s, the limits require {} s\n{}", t_f, tref, what));
        // along one run with even steps
        let n = 300 + s.below(900) as usize;
        let h = Duration::from_nanos(((t_f / n as f64) * 1e9).ceil().max(1.0) as u64);
        let hs = h.as_secs_f64();
        let mut g = MotionGenerator::new(f, &goal);
        let mut prev2: Option<[f64; 7]> = None;
        let mut prev = g.generate_motion(&state_at(&start, 1), &Duration::ZERO).q;
        let mut done = false;
        let size = start.iter().zip(&goal).map(|(a, b)| a.abs().max(b.abs())).fold(0.0, f64::max);
        let round = 8.0 * f64::EPSILON * size;
        for k in 1..n + 5 {
            let r = g.generate_motion(&state_at(&prev, k as u64), &h);
            let q = r.q;
            for i in 0..7 {
                let sg = if delta[i] < 0.0 { -1.0 } else { 1.0 };
                if !moving[i] {
                    j.check((q[i] - start[i]).abs() <= 1e-6, || format!("joint {} moves without need\n{}", i, what));
                    continue;
                }
                let step = (q[i] - prev[i]) * sg;
                // rounding of the profile's own polynomials
                let tiny = round + 1e-12 * delta[i].abs();
                j.check(step >= -1e-9_f64.min(tiny * 4.0), || format!("joint {} moves backwards by {:e} at step {} of {} s\n{}", i, -step, k, hs, what));
                j.check((goal[i] - q[i]) * sg >= -1e-9_f64.min(tiny * 4.0), || format!("joint {} overshoots by {:e}\n{}", i, (q[i] - goal[i]) * sg, what));
                j.check(step <= VMAX[i] * f * hs * (1.0 + 1e-9) + tiny, || {
                    format!("joint {} moves at {} (limit {}) at t={}\n{}", i, step / hs, VMAX[i] * f, hs * k as f64, what)
                });
                if let Some(p2) = prev2 {
                    let a = (q[i] - 2.0 * prev[i] + p2[i]).abs();
                    j.check(a <= AMAX * f * hs * hs * (1.0 + 1e-6) + 4.0 * tiny, || {
                        format!("joint {} accelerates with {} (limit {}) at t={}\n{}", i, a / hs / hs, AMAX * f, hs * k as f64, what)
                    });
                }
            }
            if r.is_finished() {
                for i in 0..7 {
                    j.check((q[i] - goal[i]).abs() <= 1.000001e-6 && (!moving[i] || (q[i] - goal[i]).abs() <= 1e-12), || {
                        format!("finished although joint {} is at {} instead of {}\n{}", i, q[i], goal[i], what)
                    });
                }
            } else {
                j.check(!done, || format!("finished and then not finished\n{}", what));
                j.check(hs * k as f64 <= t_f * (1.0 + 1e-9) + 1e-8, || format!("not finished at {} s\n{}", hs * k as f64, what));
            }
            // the end is signalled when all joints have arrived, not later
            if !r.is_finished() && hs * (k as f64) < t_f * 0.999 {
                let arrived = (0..7).all(|i| !moving[i] || q[i] == goal[i]);
                j.check(!arrived, || format!("all joints have arrived at {} s, but the end is signalled at {} s\n{}", hs * k as f64, t_f, what));
            }
            done |= r.is_finished();
            prev2 = Some(prev);
            prev = q;
            if j.bad() {
                return;
            }
        }
        j.check(done, || format!("not finished after {} steps of {} s\n{}", n + 4, hs, what));
        // all joints are still on their way shortly before the end
        let (ql, _) = at(f, &start, &goal, dur(t_f * 0.98));
        for i in 0..7 {
            if moving[i] {
                let rest = (goal[i] - ql[i]).abs();
                let start_dist = delta[i].abs();
                j.check(rest >= 1e-6 * start_dist && rest <= 0.2 * start_dist + 1e-12, || {
                    format!("joint {} has {:e} of {:e} to go at 98 % of the time ({} s)\n{}", i, rest, start_dist, t_f, what)
                });
            }
        }
        // however the time is divided, the value is the same
        for _ in 0..3 {
            let mut g = MotionGenerator::new(f, &goal);
            let mut last = g.generate_motion(&state_at(&start, 2), &Duration::ZERO).q;
            let mut sum = Duration::ZERO;
            let steps = 1 + s.below(40);
            for k in 0..steps {
                let p = match s.below(4) {
                    0 => Duration::from_millis(1),
                    1 => dur(t_f * s.unit() * 0.1),
                    2 => dur(t_f * s.unit() / steps as f64 * 2.0),
                    _ => Duration::from_nanos(s.below(1000)),
                };
                if sum == Duration::ZERO && p == Duration::ZERO {
                    continue;
                }
                sum += p;
                let r = g.generate_motion(&state_at(&last, k), &p);
                last = r.q;
                let (q, fin) = at(f, &start, &goal, sum);
                let tol = 1e-12 * (size + 1.0) + VMAX[6] * f * sum.as_secs_f64() * 1e-14;
                j.check(max_abs_diff(&q, &r.q) <= tol, || format!("after {:?} the position is {:?}, in one step {:?}\n{}", sum, r.q, q, what));
                j.check(fin == r.is_finished() || (sum.as_secs_f64() - t_f).abs() <= t_f * 1e-9 + 1e-8, || {
                    format!("after {:?} finished is {}, in one step {}\n{}", sum, r.is_finished(), fin, what)
                });
            }
        }
    });
    if let Err(p) = run {
        j.fail(format!("panicked: {}\n{}", p, what));
    }
    let mut o = Outcome::pass(moving.iter().any(|m| *m)).label("moving joints", moving.iter().filter(|m| **m).count() as u64).sample(what);
    o.verdict = j.verdict();
    o
}

/// The same through Robot::joint_motion with a robot that follows.
fn c19_robot(s: &mut Src) -> Outcome {
    let f = s.pick(&[1.0, 0.8, 0.6, 0.5]);
    let mut ph = Phys::rest();
    let mut goal = [0.0; 7];
    for i in 0..7 {
        ph.q[i] = s.sym(2.5);
        let d = s.f64_in(0.25, 0.6) * f;
        goal[i] = ph.q[i] + if s.bool() { d } else { -d };
        if s.chance(1, 5) {
            goal[i] = ph.q[i];
        }
    }
    let start = ph.q;
    let pending = s.usize(0, 3);
    let seed = s.u64();
    let what = format!("joint_motion({}, {:?}) from {:?}", f, goal, start);
    let mut m = Motion::simple(Kind::JP, vec![]);
    m.start.pending = (0..pending).map(|_| (MG_IDLE, CM_OTHER, RM_IDLE)).collect();
    m.goto = Some((f, goal));
    let mut r = Rng::new(seed);
    let content: Content = Box::new(move |_m, _k, cmd, st| {
        if let Some(c) = cmd {
            ph.follow(Kind::JP, c);
        }
        ph.put(st, &mut r);
    });
    let run = match control_session(vec![Step::Motion(Arc::new(m))], None, 1, content) {
        Ok(r) => r,
        Err(e) => return Outcome { verdict: Verdict::FailTiming(format!("{}\n{}", e, what)), nontrivial: false, labels: vec![], sample: None },
    };
    let mut j = Judge::default();
    match run.client.motions.first() {
        Some((_, Ok(Res::Ok))) => {}
        Some((_, Ok(r))) => j.fail(format!("{}: {}", what, r.brief())),
        Some((_, Err(p))) => j.fail(format!("{} panicked: {}", what, p)),
        None => j.fail(format!("{}: not executed ({})", what, run.client.connect.brief())),
    }
    let mut states = std::collections::HashMap::new();
    for e in &run.ev {
        if let Ev::St(st) = e {
            states.insert(st.id, st.clone());
        }
    }
    let mut g = MotionGenerator::new(f, &goal);
    let mut last: Option<u64> = None;
    let mut finished = false;
    let mut n = 0u64;
    for e in &run.ev {
        match e {
            Ev::Req(r) if r.cmd == MOVE => {
                let mut b = R(&r.body);
                let (c, mg) = (b.u32(), b.u32());
                j.check(c == 0 && mg == 0, || format!("{}: Move with controller mode {} and motion generator mode {}", what, c, mg));
            }
            Ev::Cmd(c) => {
                let st = match states.get(&c.id) {
                    Some(st) => st,
                    None => {
                        j.fail(format!("{}: command for state {} that was never sent", what, c.id));
                        break;
                    }
                };
                n += 1;
                if finished {
                    j.check(max_abs_diff(&c.q, &goal) <= 1.1e-6 && c.finished, || format!("{}: after the end {:?} is commanded", what, c.q));
                    continue;
                }
                let rs = state_at(&st.q_d, 1);
                let w = g.generate_motion(&rs, &Duration::from_millis(last.map(|l| c.id - l).unwrap_or(0)));
                last = Some(c.id);
                j.check(max_abs_diff(&w.q, &c.q) <= 1e-9, || format!("{}: command {} is {:?}, the generator says {:?}", what, n, c.q, w.q));
                j.check(w.is_finished() == c.finished, || format!("{}: command {} finished {}, the generator says {}", what, n, c.finished, w.is_finished()));
                finished = c.finished;
                if finished {
                    j.check(max_abs_diff(&c.q, &goal) <= 1.1e-6, || format!("{}: ends at {:?}", what, c.q));
                }
            }
            _ => {}
        }
        if j.bad() {
            break;
        }
    }
    j.check(finished, || format!("{}: no finished command", what));
    let mut o = Outcome::pass(goal != start).label("commands", n).sample(what);
    o.verdict = j.verdict();
    o
}
pub fn c19() -> Prop {
    Prop {
        id: "C19",
        level: "exploration",
        rule: "a motion in which at least one joint moves by more than a microradian; counted once per distinct choice sequence",
        assumptions: &[
            "speed factors from 0.0001 to 1, joint angles within 9 rad",
            "speeds and accelerations are difference quotients over 300 to 1200 even steps",
            "finishing together: at 98 % of the total time every moving joint still has part of its way to go, but at most a fifth",
            "through joint_motion: moves of 0.12 to 0.6 rad, where the rate limiter leaves the trajectory alone",
        ],
        subs: vec![
            Sub { name: "generator", quick: 1_000_000, thorough: 8_000_000, par: 8, f: c19_direct },
            Sub { name: "joint_motion", quick: 6000, thorough: 60_000, par: 16, f: c19_robot },
        ],
    }
}

// ---- C20 -------------------------------------------------------------------------------------
/// Rotations of every kind, with a bias to where conversions are delicate.
fn any_rotation(s: &mut Src) -> M3 {
    let axis = match s.below(6) {
        0 => s.pick(&[[1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [-1., 0., 0.], [0., -1., 0.], [0., 0., -1.]]),
        1 => {
            let a: [f64; 3] = s.pick(&[[1., 1., 0.], [1., 0., 1.], [0., 1., 1.], [1., -1., 0.], [1., 0., -1.], [0., 1., -1.], [1., 1., 1.], [1., 1., -1.]]);
            scale(a, 1.0 / norm(a))
        }
        2 => {
            // nearly an axis
            let mut a = [0.0; 3];
            let k = s.below(3) as usize;
            a[k] = 1.0;
            a[(k + 1) % 3] = s.sym(1.0) * s.log_mag(1e-12, 1e-2);
            a[(k + 2) % 3] = s.sym(1.0) * s.log_mag(1e-12, 1e-2);
            scale(a, 1.0 / norm(a))
        }
        _ => unit_of(s),
    };
    let angle = match s.below(8) {
        0 => 0.0,
        1 => s.log_mag(1e-15, 1e-2),
        2 => std::f64::consts::PI,
        3 => std::f64::consts::PI - s.log_mag(1e-15, 1e-2),
        4 => s.pick(&[0.5, 1.0, 1.5]) * std::f64::consts::PI,
        5 => 2.0 * std::f64::consts::PI / 3.0,
        _ => s.f64_in(0.0, 3.141592),
    };
    let mut m = exp_of(scale(axis, angle));
    if angle == std::f64::consts::PI {
        // exactly symmetric: 2 a a^T - 1
        for r in 0..3 {
            for c in 0..3 {
                m[r][c] = 2.0 * axis[r] * axis[c] - (r == c) as u8 as f64;
            }
        }
    }
    if s.chance(1, 8) {
        // exact quarter and half turns
        for r in m.iter_mut() {
            for x in r.iter_mut() {
                if (*x - x.round()).abs() < 1e-9 {
                    *x = x.round();
                }
            }
        }
    }
    m
}
fn c20_pose(s: &mut Src) -> Outcome {
    let m = any_rotation(s);
    let noise = if s.bool() { 0.0 } else { s.log_mag(1e-16, 1e-6) };
    let t = [s.any_finite(), s.any_finite(), s.any_finite()];
    let mut a = pose_of(&m, t);
    if noise > 0.0 {
        for c in 0..3 {
            for r in 0..3 {
                a[c * 4 + r] += s.sym(noise);
            }
        }
    }
    let what = format!("{:?} (noise {:e})", a, noise);
    let mut j = Judge::default();
    let mut lab = "other";
    match catch(|| (array_to_isometry(&a), CartesianPose::from(array_to_isometry(&a)))) {
        Err(p) => j.fail(format!("panicked: {}\n{}", p, what)),
        Ok((iso, back)) => {
            // The rotation is determined to about the matrix's own error; as a matrix the error is
            // of that size, too.
            let tol = 1e-8_f64.max(4.0 * noise);
            j.check(iso.translation.vector.iter().zip(&t).all(|(x, y)| x.to_bits() == y.to_bits()), || {
                format!("translation {:?} instead of {:?}\n{}", iso.translation.vector, t, what)
            });
            let h = iso.rotation.to_rotation_matrix();
            for r in 0..3 {
                for c in 0..3 {
                    j.check((h[(r, c)] - m[r][c]).abs() <= tol, || format!("rotation {:?}\ninstead of {:?}\n{}", h, m, what));
                }
            }
            for k in 0..16 {
                let w = if k >= 12 { a[k] } else { a[k] };
                let ok = if k % 4 == 3 || k >= 12 { back.O_T_EE[k].to_bits() == w.to_bits() || back.O_T_EE[k] == w } else { (back.O_T_EE[k] - w).abs() <= tol };
                j.check(ok, || format!("back: element {} is {} instead of {}\n{}", k, back.O_T_EE[k], w, what));
            }
            j.check(!back.is_finished() && back.elbow.is_none() && !back.has_elbow(), || format!("the pose made from an isometry is finished or has an elbow\n{}", what));
            let tr = m[0][0] + m[1][1] + m[2][2];
            if tr < -1.0 + 1e-12 {
                lab = "half turn";
            } else if tr > 3.0 - 1e-9 {
                lab = "nearly identity";
            }
        }
    }
    let mut o = Outcome::pass(m3_diff(&m, &I3) > 1e-9).label(lab, 1).sample(what);
    o.verdict = j.verdict();
    o
}
/// From an isometry to a pose and back.
fn c20_iso(s: &mut Src) -> Outcome {
    let q = {
        let m = any_rotation(s);
        let mut q = quat_of(&m);
        if s.bool() {
            q = [-q[0], -q[1], -q[2], -q[3]];
        }
        q
    };
    let t = [s.any_finite(), s.any_finite(), s.any_finite()];
    let uq = UnitQuaternion::from_quaternion(Quaternion::new(q[0], q[1], q[2], q[3]));
    let iso = Isometry3::from_parts(Translation3::new(t[0], t[1], t[2]), uq);
    let what = format!("quaternion (w,x,y,z) {:?}, translation {:?}", q, t);
    let mut j = Judge::default();
    match catch(|| CartesianPose::from(iso)) {
        Err(p) => j.fail(format!("panicked: {}\n{}", p, what)),
        Ok(p) => {
            let want = pose_of(&mat_of(&q), t);
            for k in 0..16 {
                let ok = if k % 4 == 3 || k >= 12 { p.O_T_EE[k] == want[k] } else { (p.O_T_EE[k] - want[k]).abs() <= 1e-14 };
                j.check(ok, || format!("element {} is {} instead of {}\n{}", k, p.O_T_EE[k], want[k], what));
            }
            j.check(!p.is_finished() && !p.has_elbow(), || format!("finished or with elbow\n{}", what));
            match catch(|| array_to_isometry(&p.O_T_EE)) {
                Err(e) => j.fail(format!("back: panicked: {}\n{}", e, what)),
                Ok(b) => {
                    j.check(b.translation.vector.iter().zip(&t).all(|(x, y)| x == y), || format!("back: translation {:?}\n{}", b, what));
                    let c = b.rotation.coords; // x y z w
                    let dot = (c[0] * q[1] + c[1] * q[2] + c[2] * q[3] + c[3] * q[0]).abs();
                    // 1 - |dot| is half the square of half the angle between them
                    j.check((1.0 - dot).abs() <= 1e-14, || format!("back: rotation {:?} (|dot| = {:e} from 1)\n{}", c, 1.0 - dot, what));
                }
            }
        }
    }
    let mut o = Outcome::pass(q[0].abs() < 0.999999).sample(what);
    o.verdict = j.verdict();
    o
}
fn c20_types(s: &mut Src) -> Outcome {
    let a7: [f64; 7] = s.arr(|s| s.any_bits());
    let a6: [f64; 6] = s.arr(|s| s.any_bits());
    let a16: [f64; 16] = s.arr(|s| s.any_bits());
    let el = if s.bool() { Some([s.any_bits(), s.any_bits()]) } else { None };
    let what = format!("{:?} {:?} {:?} {:?}", a7, a6, a16, el);
    let mut j = Judge::default();
    let eqel = |a: Option<[f64; 2]>, b: Option<[f64; 2]>| match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => bits_eq(&a, &b),
        _ => false,
    };
    macro_rules! life {
        ($name:expr, $v:expr, $f:ident, $want:expr, $el:expr) => {{
            let v = $v;
            j.check(bits_eq(&v.$f, &$want), || format!("{} holds {:?}\n{}", $name, v.$f, what));
            j.check(!v.is_finished(), || format!("{} is finished from the start\n{}", $name, what));
            let d = v.motion_finished();
            j.check(d.is_finished(), || format!("{} is not finished after motion_finished()\n{}", $name, what));
            j.check(bits_eq(&d.$f, &$want), || format!("motion_finished() changes {} to {:?}\n{}", $name, d.$f, what));
            j.check($el(&v) && $el(&d), || format!("{}: elbow changed\n{}", $name, what));
            let mut e = v;
            e.set_motion_finished(true);
            j.check(e.is_finished() && bits_eq(&e.$f, &$want), || format!("{}: set_motion_finished(true)\n{}", $name, what));
            e.set_motion_finished(false);
            j.check(!e.is_finished() && bits_eq(&e.$f, &$want) && $el(&e), || format!("{}: set_motion_finished(false)\n{}", $name, what));
        }};
    }
    let v7 = Vector7::from_column_slice(&a7);
    let v6 = Vector6::from_column_slice(&a6);
    life!("JointPositions::new", JointPositions::new(a7), q, a7, |_: &JointPositions| true);
    life!("JointPositions::from", JointPositions::from(v7), q, a7, |_: &JointPositions| true);
    life!("JointVelocities::new", JointVelocities::new(a7), dq, a7, |_: &JointVelocities| true);
    life!("JointVelocities::from", JointVelocities::from(v7), dq, a7, |_: &JointVelocities| true);
    life!("Torques::new", Torques::new(a7), tau_J, a7, |_: &Torques| true);
    life!("Torques::from", Torques::from(v7), tau_J, a7, |_: &Torques| true);
    let pe = |w: Option<[f64; 2]>| move |p: &CartesianPose| eqel(p.elbow, w) && p.has_elbow() == w.is_some();
    let ve = |w: Option<[f64; 2]>| move |p: &CartesianVelocities| eqel(p.elbow, w) && p.has_elbow() == w.is_some();
    life!("CartesianPose::new", CartesianPose::new(a16, el), O_T_EE, a16, pe(el));
    life!("CartesianPose::from", CartesianPose::from(a16), O_T_EE, a16, pe(None));
    life!("CartesianVelocities::new", CartesianVelocities::new(a6, el), O_dP_EE, a6, ve(el));
    life!("CartesianVelocities::from", CartesianVelocities::from(v6), O_dP_EE, a6, ve(None));
    if let Some(e) = el {
        j.check(CartesianPose::is_valid_elbow(&e) == (e[1] == 1.0 || e[1] == -1.0), || format!("is_valid_elbow({:?})", e));
        let ok = e[0].is_finite() && (e[1] == 1.0 || e[1] == -1.0);
        j.check(catch(|| CartesianPose::check_elbow(&e)).is_ok() == ok, || format!("check_elbow({:?})", e));
    }
    let mut o = Outcome::pass(a7.iter().any(|x| *x != 0.0)).sample(what);
    o.verdict = j.verdict();
    o
}
pub fn c20() -> Prop {
    Prop {
        id: "C20",
        level: "exploration",
        rule: "a rotation that differs from the identity, or a command type with a non-zero value; counted once per distinct choice sequence",
        assumptions: &[
            "the rotation part is orthogonal up to 1e-6 per element",
            "rotations are compared as matrices within 1e-8 (or four times the noise of the given matrix), after the way back from an exact isometry within 1e-7 rad",
        ],
        subs: vec![
            Sub { name: "matrix", quick: 6_000_000, thorough: 60_000_000, par: 8, f: c20_pose },
            Sub { name: "isometry", quick: 1_500_000, thorough: 15_000_000, par: 8, f: c20_iso },
            Sub { name: "types", quick: 300_000, thorough: 3_000_000, par: 8, f: c20_types },
        ],
    }
}
