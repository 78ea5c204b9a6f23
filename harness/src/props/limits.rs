//! C01-C05: what the library makes of the user's commands (filter, limiter, validation), observed on
//! the command datagrams a simulated robot receives.
use crate::ctl::*;
use crate::engine::*;
use crate::refmodel::*;
use crate::wire::*;
use std::sync::Arc;

pub fn unit_of(s: &mut Src) -> V3 {
    match s.below(6) {
        0 => [0., 0., 1.],
        1 => [1., 0., 0.],
        2 => [0., 1., 0.],
        _ => {
            let a = [s.sym(1.0), s.sym(1.0), s.sym(1.0)];
            let n = norm(a);
            if n < 1e-3 {
                [0., 0., 1.]
            } else {
                scale(a, 1.0 / n)
            }
        }
    }
}
/// all kinds of rotations: none, about an axis, half turns, near half turns
pub fn rotation(s: &mut Src) -> M3 {
    const PI: f64 = std::f64::consts::PI;
    match s.below(7) {
        0 => I3,
        1 => [[1., 0., 0.], [0., -1., 0.], [0., 0., -1.]],
        2 => {
            let u = unit_of(s);
            exp_of(scale(u, PI))
        }
        3 => {
            let u = unit_of(s);
            let d = s.log_mag(1e-12, 1e-2);
            exp_of(scale(u, PI - d))
        }
        4 => {
            let d = [[1., 0., 0.], [0., -1., 0.], [0., 0., -1.]];
            mm(&exp_of([0., 0., s.sym(PI)]), &d)
        }
        5 => {
            let u = unit_of(s);
            let d = s.log_mag(1e-12, 1e-2);
            exp_of(scale(u, d))
        }
        _ => {
            let u = unit_of(s);
            exp_of(scale(u, s.f64_in(0.0, PI)))
        }
    }
}

pub fn rng_unit(r: &mut Rng) -> f64 {
    (r.next() >> 11) as f64 / (1u64 << 53) as f64
}
pub fn rng_sym(r: &mut Rng, m: f64) -> f64 {
    (2.0 * rng_unit(r) - 1.0) * m
}
pub fn rng_v3(r: &mut Rng, m: f64) -> V3 {
    [rng_sym(r, m), rng_sym(r, m), rng_sym(r, m)]
}

/// What the robot reports as its last desired / commanded values.
#[derive(Clone, Debug)]
pub struct Phys {
    pub q: [f64; 7],
    pub dq: [f64; 7],
    pub ddq: [f64; 7],
    pub pose: [f64; 16],
    pub tw: [f64; 6],
    pub acc: [f64; 6],
    pub el: f64,
    pub el_sign: f64,
    pub del: f64,
    pub ddel: f64,
    pub tau: [f64; 7],
}
impl Phys {
    pub fn rest() -> Phys {
        Phys { q: [0.; 7], dq: [0.; 7], ddq: [0.; 7], pose: IDENT16, tw: [0.; 6], acc: [0.; 6], el: 0., el_sign: 1., del: 0., ddel: 0., tau: [0.; 7] }
    }
    /// Puts these values into a state whose other fields are noise.
    pub fn put(&self, st: &mut St, r: &mut Rng) {
        st.fill(|_| rng_sym(r, 2.0));
        for k in 0..6 {
            let m = pose_of(&exp_of(rng_v3(r, 1.7)), rng_v3(r, 1.0));
            match k {
                0 => st.O_T_EE = m,
                1 => st.O_T_EE_d = m,
                2 => st.F_T_EE = m,
                3 => st.EE_T_K = m,
                4 => st.F_T_NE = m,
                _ => st.NE_T_EE = m,
            }
        }
        st.m_ee[0] = rng_unit(r);
        st.m_load[0] = rng_unit(r);
        st.rate = rng_unit(r);
        st.q_d = self.q;
        st.dq_d = self.dq;
        st.ddq_d = self.ddq;
        st.O_T_EE_c = self.pose;
        st.O_dP_EE_c = self.tw;
        st.O_ddP_EE_c = self.acc;
        st.elbow_c = [self.el, self.el_sign];
        st.delbow_c[0] = self.del;
        st.ddelbow_c[0] = self.ddel;
        st.tau_J_d = self.tau;
    }
    /// The robot follows the command exactly.
    pub fn follow(&mut self, kind: Kind, c: &Cmd) {
        match kind {
            Kind::JP | Kind::TJP => {
                for i in 0..7 {
                    let v = (c.q[i] - self.q[i]) / DT;
                    self.ddq[i] = (v - self.dq[i]) / DT;
                    self.dq[i] = v;
                    self.q[i] = c.q[i];
                }
            }
            Kind::JV | Kind::TJV | Kind::T => {
                for i in 0..7 {
                    self.ddq[i] = (c.dq[i] - self.dq[i]) / DT;
                    self.dq[i] = c.dq[i];
                    self.q[i] += c.dq[i] * DT;
                }
            }
            Kind::CP | Kind::TCP => {
                let v = twist_between(&c.pose, &self.pose);
                for i in 0..6 {
                    self.acc[i] = (v[i] - self.tw[i]) / DT;
                }
                self.tw = v;
                self.pose = c.pose;
            }
            Kind::CV | Kind::TCV => {
                for i in 0..6 {
                    self.acc[i] = (c.twist[i] - self.tw[i]) / DT;
                }
                self.tw = c.twist;
                let r = mm(&exp_of(scale(v3(&self.tw[3..]), DT)), &orth(&rot_of(&self.pose)));
                self.pose = pose_of(&r, add(v3(&self.pose[12..]), scale(v3(&self.tw[..3]), DT)));
            }
        }
        if kind.cartesian() {
            if c.valid_elbow {
                let v = (c.elbow[0] - self.el) / DT;
                self.ddel = (v - self.del) / DT;
                self.del = v;
                self.el = c.elbow[0];
                self.el_sign = c.elbow[1];
            } else {
                self.del = 0.0;
                self.ddel = 0.0;
            }
        }
        if kind.torque() {
            self.tau = c.tau;
        }
    }
}

// ---- expected command ------------------------------------------------------------------------
#[derive(Default, Clone)]
pub struct Exp {
    pub q: Option<[f64; 7]>,
    pub dq: Option<[f64; 7]>,
    pub pose: Option<[f64; 16]>,
    pub twist: Option<[f64; 6]>,
    pub elbow: Option<[f64; 2]>,
    pub tau: Option<[f64; 7]>,
    /// how many values the limiter changed
    pub clamped: u64,
    /// pose: the shortest way is ambiguous, rotation not comparable
    pub ambiguous: bool,
}
pub fn expected(kind: Kind, st: &St, u: &User, limit: bool, fc: f64) -> Exp {
    let mut e = Exp::default();
    let lp = fc < 1000.0;
    let f = |y: f64, y0: f64| if lp { filter(DT, y, y0, fc) } else { y };
    match kind {
        Kind::JP | Kind::TJP => {
            let mut o = [0.0; 7];
            for i in 0..7 {
                o[i] = f(u.joint[i], st.q_d[i]);
                if limit {
                    let (x, c) = limit_position(joint_lim(i), o[i], st.q_d[i], st.dq_d[i], st.ddq_d[i]);
                    o[i] = x;
                    e.clamped += c as u64;
                }
            }
            e.q = Some(o);
        }
        Kind::JV | Kind::TJV | Kind::T => {
            let mut o = [0.0; 7];
            for i in 0..7 {
                let x = if kind == Kind::T { 0.0 } else { u.joint[i] };
                o[i] = f(x, st.dq_d[i]);
                if limit {
                    let (x, c) = limit_scalar(joint_lim(i), o[i], st.dq_d[i], st.ddq_d[i]);
                    o[i] = x;
                    e.clamped += (c && kind != Kind::T) as u64;
                }
            }
            e.dq = Some(o);
        }
        Kind::CP | Kind::TCP => {
            let mut p = u.pose;
            let gap = |a: &[f64; 16], b: &[f64; 16]| std::f64::consts::PI - angle_between(&orth(&rot_of(a)), &orth(&rot_of(b)));
            if (lp || limit) && gap(&p, &st.O_T_EE_c) < 1e-5 {
                e.ambiguous = true;
            }
            if lp {
                p = filter_pose(DT, &p, &st.O_T_EE_c, fc);
            }
            if limit {
                let (x, c) = limit_pose(&p, &st.O_T_EE_c, &st.O_dP_EE_c, &st.O_ddP_EE_c);
                p = x;
                e.clamped += c as u64;
            }
            e.pose = Some(p);
        }
        Kind::CV | Kind::TCV => {
            let mut o = [0.0; 6];
            for i in 0..6 {
                o[i] = f(u.twist[i], st.O_dP_EE_c[i]);
            }
            if limit {
                let (x, c) = limit_twist(trans_lim(), rot_lim(), &o, &st.O_dP_EE_c, &st.O_ddP_EE_c);
                o = x;
                e.clamped += c as u64;
            }
            e.twist = Some(o);
        }
    }
    if kind.cartesian() {
        if let Some(el) = u.elbow {
            let mut x = f(el[0], st.elbow_c[0]);
            if limit {
                let (y, c) = limit_position(elbow_lim(), x, st.elbow_c[0], st.delbow_c[0], st.ddelbow_c[0]);
                x = y;
                e.clamped += c as u64;
            }
            e.elbow = Some([x, el[1]]);
        }
    }
    if kind.torque() {
        let mut o = [0.0; 7];
        for i in 0..7 {
            o[i] = f(u.tau[i], st.tau_J_d[i]);
            if limit {
                let (x, c) = limit_torque(o[i], st.tau_J_d[i]);
                o[i] = x;
                e.clamped += (c && kind.torque()) as u64;
            }
        }
        e.tau = Some(o);
    }
    e
}

#[derive(Clone, Copy, PartialEq)]
pub enum Part {
    Joint,
    Cartesian,
    Torque,
}

/// got must be what the reference computes, up to rounding
pub fn compare(j: &mut Judge, kind: Kind, s: &Sample, e: &Exp, limit: bool, fc: f64, part: Part) {
    let plain = !limit && fc >= 1000.0;
    let ctx = || format!("{:?}, limit {}, cutoff {}, callback {} (state id {})", kind, limit, fc, s.n, s.st.id);
    let near = |name: &str, i: usize, got: f64, want: f64, tol: f64, j: &mut Judge, user: f64| {
        let ok = if plain { got.to_bits() == user.to_bits() } else { (got - want).abs() <= tol };
        j.check(ok, || format!("{}[{}]: sent {:e}, expected {:e}, user returned {:e}; {}", name, i, got, want, user, ctx()));
    };
    if part == Part::Joint {
        if let Some(q) = &e.q {
            for i in 0..7 {
                let m = s.st.q_d[i].abs() + if limit { 0. } else { s.user.joint[i].abs() };
                near("q", i, s.cmd.q[i], q[i], 1e-12 * (1.0 + m), j, s.user.joint[i]);
            }
        }
        if let Some(q) = &e.dq {
            if kind != Kind::T {
                for i in 0..7 {
                    let m = s.st.dq_d[i].abs() + if limit { 0. } else { s.user.joint[i].abs() };
                    near("dq", i, s.cmd.dq[i], q[i], 1e-11 * (1.0 + m), j, s.user.joint[i]);
                }
            }
        }
    }
    if part == Part::Cartesian {
        if let Some(p) = &e.pose {
            for i in 0..16 {
                let rot = i < 12;
                if rot && e.ambiguous {
                    continue;
                }
                let m = s.st.O_T_EE_c[i].abs() + if limit { 0. } else { s.user.pose[i].abs() };
                let tol = if rot { 3e-7 } else { 1e-11 * (1.0 + m) };
                near("O_T_EE", i, s.cmd.pose[i], p[i], tol, j, s.user.pose[i]);
            }
        }
        if let Some(p) = &e.twist {
            for i in 0..6 {
                let m = if limit { 1.0 } else { 1.0 + s.user.twist[i].abs() + s.st.O_dP_EE_c[i].abs() };
                near("O_dP_EE", i, s.cmd.twist[i], p[i], 1e-9 * m, j, s.user.twist[i]);
            }
        }
        if kind.cartesian() {
            match &e.elbow {
                Some(x) => {
                    j.check(s.cmd.valid_elbow, || format!("elbow given but not marked valid; {}", ctx()));
                    let m = s.st.elbow_c[0].abs() + if limit { 0. } else { s.user.elbow.unwrap()[0].abs() };
                    near("elbow", 0, s.cmd.elbow[0], x[0], 1e-12 * (1.0 + m), j, s.user.elbow.unwrap()[0]);
                    j.check(s.cmd.elbow[1] == x[1], || format!("elbow sign sent {}, user chose {}; {}", s.cmd.elbow[1], x[1], ctx()));
                }
                None => {
                    j.check(!s.cmd.valid_elbow, || format!("elbow marked valid but none given; {}", ctx()));
                }
            }
        }
    }
    if part == Part::Torque {
        if let Some(t) = &e.tau {
            for i in 0..7 {
                let m = s.st.tau_J_d[i].abs() + if limit { 0. } else { s.user.tau[i].abs() };
                near("tau", i, s.cmd.tau[i], t[i], 1e-12 * (1.0 + m), j, s.user.tau[i]);
            }
        }
    }
}

/// documented limits, independent of the reference limiter
pub fn within_limits(j: &mut Judge, kind: Kind, s: &Sample, jerk: bool, part: Part) {
    let ctx = || format!("{:?} callback {} (state id {})", kind, s.n, s.st.id);
    let scalar = |name: &str, l: Lim, v: f64, v0: f64, a0: f64, m: f64, j: &mut Judge, jerk: bool| {
        let a = (v - v0) / DT;
        let jk = (a - a0) / DT;
        j.check(v.abs() <= l.v + 1e-9 * m, || format!("{}: velocity {} exceeds {} ; {}", name, v, l.v, ctx()));
        j.check(a.abs() <= l.a + 1e-6 * m, || format!("{}: acceleration {} exceeds {} ; {}", name, a, l.a, ctx()));
        if jerk {
            j.check(jk.abs() <= l.j + 1e-2 * m, || format!("{}: jerk {} exceeds {} ; {}", name, jk, l.j, ctx()));
        }
    };
    let vector = |name: &str, l: Lim, v: V3, v0: V3, m: f64, j: &mut Judge| {
        let a = norm(scale(sub(v, v0), 1.0 / DT));
        let vn = norm(v);
        j.check(vn <= l.v + 1e-8 * m, || format!("{}: velocity {} exceeds {} ; {}", name, vn, l.v, ctx()));
        j.check(a <= l.a + 1e-5 * m, || format!("{}: acceleration {} exceeds {} ; {}", name, a, l.a, ctx()));
    };
    if part == Part::Joint {
        for i in 0..7 {
            match kind {
                Kind::JP | Kind::TJP => {
                    let v = (s.cmd.q[i] - s.st.q_d[i]) / DT;
                    scalar(&format!("joint {}", i), joint_lim(i), v, s.st.dq_d[i], s.st.ddq_d[i], 1.0 + s.st.q_d[i].abs(), j, jerk);
                }
                Kind::JV | Kind::TJV => {
                    scalar(&format!("joint {}", i), joint_lim(i), s.cmd.dq[i], s.st.dq_d[i], s.st.ddq_d[i], 1.0, j, jerk);
                }
                _ => {}
            }
        }
    }
    if part == Part::Cartesian {
        let (v, m) = match kind {
            Kind::CP | Kind::TCP => {
                let m = 1.0 + (12..15).map(|i| s.st.O_T_EE_c[i].abs()).fold(0.0, f64::max);
                (twist_between(&s.cmd.pose, &s.st.O_T_EE_c), m)
            }
            _ => (s.cmd.twist, 1.0),
        };
        vector("translation", trans_lim(), v3(&v[..3]), v3(&s.st.O_dP_EE_c[..3]), m, j);
        vector("rotation", rot_lim(), v3(&v[3..]), v3(&s.st.O_dP_EE_c[3..]), 1.0, j);
        if s.cmd.valid_elbow {
            let v = (s.cmd.elbow[0] - s.st.elbow_c[0]) / DT;
            scalar("elbow", elbow_lim(), v, s.st.delbow_c[0], s.st.ddelbow_c[0], 1.0 + s.st.elbow_c[0].abs(), j, jerk);
        }
    }
    if part == Part::Torque {
        for i in 0..7 {
            let d = (s.cmd.tau[i] - s.st.tau_J_d[i]).abs();
            j.check(d <= TORQUE_RATE * DT + 1e-12 * (1.0 + s.st.tau_J_d[i].abs()), || {
                format!("torque {} changes by {} Nm in 1 ms, limit {} ; {}", i, d, TORQUE_RATE * DT, ctx())
            });
        }
    }
}

// ---- generated user behaviour ------------------------------------------------------------------
/// scalar signal: value at sample n
#[derive(Clone, Debug)]
pub enum Sig {
    Hold,
    Steps { at: Vec<(usize, f64)> },
    Sine { amp: f64, w: f64, ph: f64 },
    Ramp { v: f64, from: usize, to: usize },
    Noise { amp: f64, seed: u64 },
    Square { amp: f64, period: usize },
    Feasible(Arc<Vec<f64>>),
}
impl Sig {
    /// `pos`: the signal is a position whose derivative is limited by l, else a velocity
    pub fn gen(s: &mut Src, l: Lim, pos: bool, len: usize) -> Sig {
        let big = if pos { l.v * 0.3 } else { l.v * 1.5 };
        match s.below(7) {
            0 => Sig::Hold,
            1 => {
                let n = s.usize(1, 4);
                let mut at = vec![];
                for _ in 0..n {
                    let huge = s.chance(1, 12);
                    let m = if huge { 1e6 } else { big };
                    at.push((s.usize(0, len), s.sym(m)));
                }
                at.sort_by_key(|x| x.0);
                Sig::Steps { at }
            }
            2 => {
                let w = s.log_mag(0.3, 300.0);
                let amp = if pos { s.f64_in(0.2, 3.0) * l.v / w } else { s.f64_in(0.2, 2.0) * l.v };
                Sig::Sine { amp, w, ph: s.f64_in(0.0, 6.28) }
            }
            3 => {
                let v = if pos { s.sym(2.0 * l.v) } else { s.sym(2.0 * l.a) };
                let from = s.usize(0, len / 3);
                Sig::Ramp { v, from, to: s.usize(from, len) }
            }
            4 => Sig::Noise { amp: s.log_mag(1e-6, 1.0), seed: s.u64() },
            5 => Sig::Square { amp: s.sym(big), period: s.usize(2, 200) },
            _ => {
                // a trajectory that respects every limit: follow a rough one with the reference
                let rough = Sig::Square { amp: s.sym(big), period: s.usize(20, 300) };
                let lead = s.usize(5, 30);
                let (mut x, mut v, mut a) = (0.0, 0.0, 0.0);
                let mut out = vec![];
                let safe = Lim { v: l.v * 0.999, a: l.a * 0.999, j: l.j * 0.999 };
                for n in 0..len {
                    if n >= lead {
                        if pos {
                            let (y, _) = limit_position(safe, rough.at(n), x, v, a);
                            let nv = (y - x) / DT;
                            a = (nv - v) / DT;
                            v = nv;
                            x = y;
                        } else {
                            let (y, _) = limit_scalar(safe, rough.at(n), x, a);
                            a = (y - x) / DT;
                            x = y;
                        }
                    }
                    out.push(x);
                }
                Sig::Feasible(Arc::new(out))
            }
        }
    }
    pub fn at(&self, n: usize) -> f64 {
        let t = n as f64 * DT;
        match self {
            Sig::Hold => 0.0,
            Sig::Steps { at } => at.iter().take_while(|x| x.0 <= n).last().map(|x| x.1).unwrap_or(0.0),
            Sig::Sine { amp, w, ph } => amp * ((w * t + ph).sin() - ph.sin()),
            Sig::Ramp { v, from, to } => {
                if n < *from {
                    0.0
                } else {
                    v * DT * (n.min(*to) - from) as f64
                }
            }
            Sig::Noise { amp, seed } => rng_sym(&mut Rng::new(mix(*seed, n as u64)), *amp),
            Sig::Square { amp, period } => {
                if (n / period) % 2 == 0 {
                    *amp
                } else {
                    -amp
                }
            }
            Sig::Feasible(v) => v.get(n).or(v.last()).copied().unwrap_or(0.0),
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Sig::Hold => "hold",
            Sig::Steps { .. } => "steps",
            Sig::Sine { .. } => "sine",
            Sig::Ramp { .. } => "ramp",
            Sig::Noise { .. } => "noise",
            Sig::Square { .. } => "square",
            Sig::Feasible(_) => "feasible",
        }
    }
}

pub fn gen_cutoff(s: &mut Src) -> Option<f64> {
    match s.below(6) {
        0 => Some(1000.0),
        1 => None,
        2 => Some(s.f64_in(1000.0, 5000.0)),
        3 => Some(s.log_mag(0.5, 999.0)),
        4 => Some(s.pick(&[999.9999999, 100.0, 10.0, 500.0])),
        _ => Some(1000.0),
    }
}
pub fn eff_cutoff(c: Option<f64>) -> f64 {
    c.unwrap_or(100.0)
}

fn session_len(s: &mut Src) -> usize {
    match s.below(12) {
        0 => s.usize(1, 20),
        11 => s.usize(900, 2500),
        10 => s.usize(500, 900),
        _ => s.usize(200, 450),
    }
}

pub fn gen_gaps(s: &mut Src) -> Vec<u64> {
    match s.below(3) {
        0 => vec![],
        1 => (0..s.usize(1, 6)).map(|_| 1 + s.below(5)).collect(),
        _ => (0..s.usize(1, 9)).map(|_| if s.chance(1, 6) { 1 + s.below(60) } else { 1 }).collect(),
    }
}

/// One control session whose robot follows the commands; the user plays generated signals.
fn closed_loop(s: &mut Src, kinds: &[Kind], part: Part) -> Outcome {
    let kind = s.pick(kinds);
    let len = session_len(s);
    let limit = s.pick(&[Some(true), None, Some(true)]);
    let cutoff = gen_cutoff(s);
    let fc = eff_cutoff(cutoff);
    let mut ph = Phys::rest();
    let mut names: Vec<&'static str> = vec![];
    let mut user: Vec<User> = vec![User::rest(); len];
    let mut pick = None;
    let far = s.chance(1, 8);
    for i in 0..7 {
        ph.q[i] = if far { s.sym(1000.0) } else { s.sym(2.8) };
        ph.tau[i] = s.sym(80.0);
    }
    // joints (the same signal family for all, with a different instance each)
    if !kind.cartesian() && kind != Kind::T {
        let pos = kind.mg() == MG_JP;
        for i in 0..7 {
            let sig = Sig::gen(s, joint_lim(i), pos, len);
            names.push(sig.name());
            for (n, u) in user.iter_mut().enumerate() {
                u.joint[i] = sig.at(n) + if pos { ph.q[i] } else { 0.0 };
            }
        }
    }
    if kind.cartesian() {
        let pos = kind.mg() == MG_CP;
        let r0 = rotation(s);
        let t0 = [s.sym(0.8), s.sym(0.8), s.sym(0.8)];
        ph.pose = pose_of(&r0, t0);
        let mut sig: Vec<Sig> = vec![];
        let planar = s.bool();
        for k in 0..6 {
            let l = if k < 3 { trans_lim() } else { rot_lim().scaled(POSE_ROT_FACTOR) };
            let g = if planar && k % 3 != 2 { Sig::Hold } else { Sig::gen(s, l, pos, len) };
            names.push(g.name());
            sig.push(g);
        }
        for (n, u) in user.iter_mut().enumerate() {
            let x: Vec<f64> = sig.iter().map(|g| g.at(n)).collect();
            if pos {
                let mut w = [x[3], x[4], x[5]];
                let a = norm(w);
                if a > 3.0 {
                    w = scale(w, 3.0 / a);
                }
                u.pose = pose_of(&mm(&exp_of(w), &r0), add(t0, v3(&x[..3])));
            } else {
                u.twist.copy_from_slice(&x);
            }
        }
        // a user that saturates the velocity and then pushes sideways
        if s.chance(1, 3) {
            names.push("sideways");
            let (e1, e2) = (unit_of(s), unit_of(s));
            let (amp, step, rot) = (s.f64_in(0.7, 3.0), s.log_mag(1e-4, 1.0), s.bool());
            let els = user.clone();
            pick = Some(Pick(Arc::new(move |st: &franka::RobotState, n: usize| {
                let mut u = els[n.min(els.len() - 1)].clone();
                let (off, l) = if rot { (3, rot_lim().scaled(if pos { POSE_ROT_FACTOR } else { 1.0 })) } else { (0, trans_lim()) };
                let v = v3(&st.O_dP_EE_c[off..off + 3]);
                let target = if norm(v) < l.v * 0.999999999 {
                    scale(e1, amp * l.v)
                } else {
                    let p = [v[1] * e2[2] - v[2] * e2[1], v[2] * e2[0] - v[0] * e2[2], v[0] * e2[1] - v[1] * e2[0]];
                    let pn = norm(p).max(1e-9);
                    add(v, scale(p, step / pn))
                };
                let mut tw = [0.0; 6];
                tw[off..off + 3].copy_from_slice(&target);
                u.twist = tw;
                if pos {
                    let r = mm(&exp_of(scale(v3(&tw[3..]), DT)), &rot_of(&st.O_T_EE_c));
                    u.pose = pose_of(&r, add(v3(&st.O_T_EE_c[12..]), scale(v3(&tw[..3]), DT)));
                }
                u
            })));
        }
        let (el0, sign) = (s.sym(2.0), s.pick(&[1.0, -1.0]));
        ph.el = el0;
        ph.el_sign = s.pick(&[1.0, -1.0]);
        if s.bool() {
            let g = Sig::gen(s, elbow_lim(), true, len);
            names.push(g.name());
            for (n, u) in user.iter_mut().enumerate() {
                u.elbow = Some([el0 + g.at(n), sign]);
            }
            if let Some(p) = pick.take() {
                let els: Vec<_> = user.iter().map(|u| u.elbow).collect();
                pick = Some(Pick(Arc::new(move |st: &franka::RobotState, n: usize| {
                    let mut u = (p.0)(st, n);
                    u.elbow = els[n.min(els.len() - 1)];
                    u
                })));
            }
        }
    }
    if kind.torque() {
        for i in 0..7 {
            let l = Lim { v: 60.0, a: 1000.0, j: 1e5 };
            let g = Sig::gen(s, l, false, len);
            names.push(g.name());
            for (n, u) in user.iter_mut().enumerate() {
                u.tau[i] = ph.tau[i] + g.at(n);
            }
        }
        if let Some(p) = pick.take() {
            let ts: Vec<_> = user.iter().map(|u| u.tau).collect();
            pick = Some(Pick(Arc::new(move |st: &franka::RobotState, n: usize| {
                let mut u = (p.0)(st, n);
                u.tau = ts[n.min(ts.len() - 1)];
                u
            })));
        }
    }
    let l = user.len();
    if kind == Kind::T || (kind.torque() && s.bool()) {
        user[l - 1].tau_fin = true;
    } else {
        user[l - 1].fin = true;
    }
    let mut m = Motion::simple(kind, user);
    m.pick = pick;
    m.limit = limit;
    m.cutoff = cutoff;
    m.gaps = gen_gaps(s);
    m.mode = s.below(3) as u8;
    let seed = s.u64();
    let mut rng = Rng::new(seed);
    let mut phys = ph.clone();
    let content: Content = Box::new(move |_, k, cmd, st| {
        if k != usize::MAX {
            if let Some(c) = cmd {
                phys.follow(kind, c);
            }
        }
        phys.put(st, &mut rng);
    });
    let jerk = true;
    judge_session(s, m, content, part, jerk, fc, true, format!("{:?} closed loop, {} steps, cutoff {:?}, signals {:?}", kind, len, cutoff, names))
}

fn judge_session(s: &mut Src, m: Motion, content: Content, part: Part, jerk: bool, fc: f64, lim: bool, what: String) -> Outcome {
    let kind = m.kind;
    let first = 1 + s.below(1000);
    let run = match control_session(vec![Step::Motion(Arc::new(m))], None, first, content) {
        Ok(r) => r,
        Err(e) => return Outcome { verdict: Verdict::FailTiming(e), nontrivial: false, labels: vec![], sample: Some(what) },
    };
    let mut j = Judge::default();
    let (mut clamped, mut same, mut total) = (0, 0, 0);
    match run.client.motions.first() {
        Some((cbs, r)) => {
            match r {
                Ok(Res::Ok) => {}
                Ok(e) => {
                    // losing the motion to a network timeout is a matter of timing, not of limits
                    if matches!(e, Res::Network(_)) {
                        j.timing(format!("{}: {}", what, e.brief()));
                    } else {
                        j.fail(format!("{}: the motion failed: {}", what, e.brief()));
                    }
                }
                Err(p) => j.fail(format!("{}: panic: {}", what, p)),
            }
            match samples(&run.ev, cbs) {
                Ok(sm) => {
                    for x in &sm {
                        // the torque of a motion that the motion callback finished is the previous one
                        if part == Part::Torque && kind != Kind::T && x.user.fin {
                            continue;
                        }
                        let e = expected(kind, x.st, &x.user, lim, fc);
                        if lim {
                            within_limits(&mut j, kind, x, jerk && part == Part::Joint, part);
                        }
                        compare(&mut j, kind, x, &e, lim, fc, part);
                        total += 1;
                        if e.clamped > 0 {
                            clamped += 1;
                        } else {
                            same += 1;
                        }
                        if j.bad() {
                            break;
                        }
                    }
                    if sm.is_empty() && !j.bad() {
                        j.timing(format!("{}: no command observed", what));
                    }
                }
                Err(e) => j.fail(e),
            }
        }
        None => j.timing(format!("{}: connecting failed: {}", what, run.client.connect.brief())),
    }
    if let Some(f) = j.fail.take() {
        j.fail = Some(format!("{} | {}", f, what));
    }
    Outcome { verdict: j.verdict(), nontrivial: total > 0 && (clamped > 0 || !lim), labels: vec![("commands", total), ("commands_limited", clamped), ("commands_unchanged", same)], sample: Some(what) }
}

/// Every state is an unrelated random one within limits; the user's command is derived from it.
fn open_loop(s: &mut Src, kinds: &[Kind], part: Part, lim: bool) -> Outcome {
    let kind = s.pick(kinds);
    let len = s.usize(20, 250);
    let limit = if lim { s.pick(&[Some(true), None]) } else { Some(false) };
    let cutoff = if lim || s.chance(2, 3) { gen_cutoff(s) } else { Some(s.pick(&[1000.0, 1e4])) };
    let fc = eff_cutoff(cutoff);
    let seed = s.u64();
    let big = s.pick(&[1.0, 1.0, 1e3, 1e9, 1e100]);
    let tiny = s.chance(1, 6);
    let at_rest = s.chance(1, 4);
    // case k: a state and a user command, both a pure function of (seed, k)
    let case = move |k: u64| -> (Phys, User) {
        let mut r = Rng::new(mix(seed, k));
        let r = &mut r;
        let mut p = Phys::rest();
        let mut u = User::rest();
        let edge = |r: &mut Rng, m: f64| match r.next() % 6 {
            0 => m,
            1 => -m,
            2 => 0.0,
            3 => m * (1.0 - 1e-12 * rng_unit(r)),
            _ => rng_sym(r, m),
        };
        // velocity the user asks for, placed around the limits
        let ask = |r: &mut Rng, l: Lim, v0: f64, a0: f64| -> f64 {
            let x = match r.next() % 10 {
                0 => v0,
                1 => v0 + a0 * DT,
                2 => v0 + (a0 + rng_sym(r, 2.0) * l.j * DT) * DT,
                3 => v0 + (a0 + l.j * DT * (1.0 + rng_sym(r, 1e-6))) * DT,
                4 => v0 + l.a * DT * rng_sym(r, 2.0),
                5 => v0 - l.a * DT * (1.0 + rng_sym(r, 1e-6)),
                6 => rng_sym(r, 1.2 * l.v),
                7 => v0 + 500.0 * (l.v - v0) * DT * (1.0 + rng_sym(r, 0.1)),
                8 => v0 + 500.0 * (-l.v - v0) * DT * (1.0 + rng_sym(r, 0.1)),
                _ => rng_sym(r, 5.0 * l.v) * big,
            };
            if tiny {
                v0 + rng_sym(r, 1e-6)
            } else {
                x
            }
        };
        for i in 0..7 {
            let l = joint_lim(i);
            p.q[i] = rng_sym(r, 3.0);
            if !at_rest {
                p.dq[i] = edge(r, l.v);
                p.ddq[i] = edge(r, l.a);
            }
            let v = ask(r, l, p.dq[i], p.ddq[i]);
            u.joint[i] = if kind.mg() == MG_JP { p.q[i] + v * DT } else { v };
            p.tau[i] = rng_sym(r, 90.0);
            u.tau[i] = match r.next() % 7 {
                0 => p.tau[i],
                1 => p.tau[i] + rng_sym(r, 2.0),
                2 => p.tau[i] + TORQUE_RATE * DT * (1.0 + rng_sym(r, 1e-9)),
                3 => p.tau[i] - TORQUE_RATE * DT * (1.0 + rng_sym(r, 1e-9)),
                4 => rng_sym(r, 90.0),
                5 => rng_sym(r, 90.0) * big,
                _ => p.tau[i] + rng_sym(r, 1e-3),
            };
        }
        // Cartesian
        let ball = |r: &mut Rng, m: f64| -> V3 {
            let d = rng_v3(r, 1.0);
            let n = norm(d).max(1e-6);
            let f = match r.next() % 5 {
                0 => 1.0,
                1 => 0.0,
                2 => 1.0 - 1e-12 * rng_unit(r),
                _ => rng_unit(r),
            };
            let d = if r.next() % 4 == 0 { [1., 0., 0.] } else { scale(d, 1.0 / n) };
            scale(d, m * f)
        };
        let base = match r.next() % 5 {
            0 => I3,
            1 => [[1., 0., 0.], [0., -1., 0.], [0., 0., -1.]],
            2 => exp_of(scale([rng_unit(r), 0.3, -0.1], 1.0)),
            3 => mm(&exp_of([0., 0., rng_sym(r, 3.0)]), &[[1., 0., 0.], [0., -1., 0.], [0., 0., -1.]]),
            _ => exp_of(rng_v3(r, 1.8)),
        };
        p.pose = pose_of(&base, rng_v3(r, 1.0));
        let lr = rot_lim().scaled(POSE_ROT_FACTOR);
        let mut tw = [0.0; 6];
        for (o, l) in [(0usize, trans_lim()), (3usize, lr)] {
            let (v0, a0) = if at_rest { ([0.0; 3], [0.0; 3]) } else { (ball(r, l.v), ball(r, l.a)) };
            p.tw[o..o + 3].copy_from_slice(&v0);
            p.acc[o..o + 3].copy_from_slice(&a0);
            let mut t = match r.next() % 8 {
                0 => v0,
                1 => add(v0, scale(a0, DT)),
                2 => add(v0, scale(add(a0, ball(r, 2.0 * l.j * DT)), DT)),
                3 => {
                    let f = 1.0 + rng_sym(r, 1e-6);
                    add(v0, scale(add(a0, ball(r, l.j * DT * f)), DT))
                }
                4 => add(v0, ball(r, 2.0 * l.a * DT)),
                5 => ball(r, 1.3 * l.v),
                6 => add(v0, scale(rng_v3(r, 1.0), l.a * DT)),
                _ => scale(rng_v3(r, 5.0), l.v * if o == 0 { big } else { 1.0 }),
            };
            if tiny {
                t = add(v0, rng_v3(r, 1e-5));
            }
            tw[o..o + 3].copy_from_slice(&t);
        }
        if kind.mg() == MG_CV {
            u.twist = tw;
        } else {
            let mut w = scale(v3(&tw[3..]), DT);
            if r.next() % 6 == 0 {
                w = rng_v3(r, 1.5);
            }
            u.pose = pose_of(&mm(&exp_of(w), &base), add(v3(&p.pose[12..]), scale(v3(&tw[..3]), DT)));
        }
        let l = elbow_lim();
        p.el = rng_sym(r, 2.5);
        p.el_sign = if r.next() % 2 == 0 { 1.0 } else { -1.0 };
        if !at_rest {
            p.del = edge(r, l.v);
            p.ddel = edge(r, l.a);
        }
        if r.next() % 3 != 0 {
            let v = ask(r, l, p.del, p.ddel);
            u.elbow = Some([p.el + v * DT, if r.next() % 2 == 0 { 1.0 } else { -1.0 }]);
        }
        (p, u)
    };
    let mut m = Motion::simple(kind, vec![User::rest(); len]);
    if kind == Kind::T || (kind.torque() && s.bool()) {
        m.user[len - 1].tau_fin = true;
    } else {
        m.user[len - 1].fin = true;
    }
    let c2 = case;
    // the index of the generated case travels in a field nobody computes with
    m.pick = Some(Pick(Arc::new(move |st: &franka::RobotState, _| c2(st.theta[0] as u64).1)));
    m.limit = limit;
    m.cutoff = cutoff;
    m.gaps = gen_gaps(s);
    m.mode = s.below(3) as u8;
    let mut rng = Rng::new(seed ^ 0x55);
    let mut k = 0u64;
    let content: Content = Box::new(move |_, _, _, st| {
        k += 1;
        case(k).0.put(st, &mut rng);
        st.theta[0] = k as f64;
    });
    judge_session(s, m, content, part, false, fc, lim, format!("{:?} independent states, {} steps, limit {:?}, cutoff {:?}", kind, len, limit, cutoff))
}

const JOINT_KINDS: [Kind; 4] = [Kind::JP, Kind::JV, Kind::TJP, Kind::TJV];
const CART_KINDS: [Kind; 4] = [Kind::CP, Kind::CV, Kind::TCP, Kind::TCV];
const TORQUE_KINDS: [Kind; 5] = [Kind::T, Kind::TJP, Kind::TJV, Kind::TCP, Kind::TCV];

pub fn c01() -> Prop {
    Prop {
        id: "C01",
        level: "exploration",
        rule: "A case is one control session of 1-2500 user commands (position or velocity interface, internal or torque controller, any filter setting) against a simulated robot; closed_loop: the robot's desired state follows the commands from rest and the user plays jumps, ramps, sines, squares, noise or feasible trajectories per joint; independent_states: every state is drawn anew inside the limits (edges included) and the command is placed around the clamp boundaries. Non-trivial: at least one command had to be changed by the limiter.",
        assumptions: &[
            "the reported desired positions/velocities/accelerations are within the limits (independent_states) or follow the sent commands (closed_loop)",
            "comparison with the reference limiter up to 1e-12 relative (rounding)",
            "user values up to 1e100",
        ],
        subs: vec![
            Sub { name: "closed_loop", quick: 27_000, thorough: 250_000, par: 8, f: |s| closed_loop(s, &JOINT_KINDS, Part::Joint) },
            Sub { name: "independent_states", quick: 54_000, thorough: 500_000, par: 8, f: |s| open_loop(s, &JOINT_KINDS, Part::Joint, true) },
        ],
    }
}
pub fn c02() -> Prop {
    Prop {
        id: "C02",
        level: "exploration",
        rule: "As C01, for Cartesian poses and twists with and without elbow: base orientations include the identity, half turns, near half turns and the downward-pointing gripper; users play per-axis jumps/ramps/sines/noise/feasible trajectories or saturate the velocity and push sideways; independent_states draws velocity and acceleration vectors inside (and on) the limit spheres. Non-trivial: at least one command had to be changed by the limiter.",
        assumptions: &[
            "reported commanded pose/twist/acceleration within the limits or following the sent commands",
            "orientation compared up to 3e-7 rad (the library measures small angles with acos), everything else up to 1e-9",
            "rotation jumps within 1e-5 rad of a half turn are not compared with the reference (direction ambiguous), but their limits are checked",
        ],
        subs: vec![
            Sub { name: "closed_loop", quick: 27_000, thorough: 250_000, par: 8, f: |s| closed_loop(s, &CART_KINDS, Part::Cartesian) },
            Sub { name: "independent_states", quick: 54_000, thorough: 500_000, par: 8, f: |s| open_loop(s, &CART_KINDS, Part::Cartesian, true) },
        ],
    }
}
pub fn c03() -> Prop {
    Prop {
        id: "C03",
        level: "exploration",
        rule: "As C01, for the torques of all five torque interfaces: closed_loop: desired torque follows the commands, the user plays generated signals; independent_states: desired torques drawn anew per state, commands at the rate limit (within 1e-9 of it), inside and far outside. Non-trivial: at least one command had to be changed by the limiter.",
        assumptions: &["comparison up to 1e-12 relative", "torques up to 1e100"],
        subs: vec![
            Sub { name: "closed_loop", quick: 18_000, thorough: 250_000, par: 8, f: |s| closed_loop(s, &TORQUE_KINDS, Part::Torque) },
            Sub { name: "independent_states", quick: 42_000, thorough: 500_000, par: 8, f: |s| open_loop(s, &TORQUE_KINDS, Part::Torque, true) },
        ],
    }
}

// ---- C04 -------------------------------------------------------------------------------------
fn c04_session(s: &mut Src) -> Outcome {
    let part = s.pick(&[Part::Joint, Part::Cartesian, Part::Torque]);
    let kinds: &[Kind] = match part {
        Part::Joint => &JOINT_KINDS,
        Part::Cartesian => &CART_KINDS,
        Part::Torque => &TORQUE_KINDS,
    };
    open_loop(s, kinds, part, false)
}
/// limiting on, commands far inside the limits after filtering: only the filter acts
fn c04_defaults(s: &mut Src) -> Outcome {
    let part = s.pick(&[Part::Joint, Part::Cartesian, Part::Torque]);
    let kinds: &[Kind] = match part {
        Part::Joint => &JOINT_KINDS,
        Part::Cartesian => &CART_KINDS,
        Part::Torque => &TORQUE_KINDS,
    };
    let kind = s.pick(kinds);
    // None/None in the first place
    let limit = s.pick(&[None, None, Some(true)]);
    let cutoff = s.pick(&[None, None, Some(100.0)]);
    let len = s.usize(10, 120);
    let seed = s.u64();
    let case = move |k: u64| -> (Phys, User) {
        let mut r = Rng::new(mix(seed, k));
        let r = &mut r;
        let mut p = Phys::rest();
        let mut u = User::rest();
        let f = if r.next() % 4 == 0 { 30.0 } else { 0.8 };
        for i in 0..7 {
            let l = joint_lim(i);
            p.q[i] = rng_sym(r, 2.8);
            let v = rng_sym(r, l.j * DT * DT * f);
            u.joint[i] = if kind.mg() == MG_JP { p.q[i] + v * DT } else { v };
            p.tau[i] = rng_sym(r, 50.0);
            u.tau[i] = p.tau[i] + rng_sym(r, 2.0);
        }
        let base = exp_of(rng_v3(r, 1.8));
        p.pose = pose_of(&base, rng_v3(r, 1.0));
        let t = rng_v3(r, 3e-3 * f);
        let w = rng_v3(r, 6e-3 * f);
        u.twist = [t[0], t[1], t[2], w[0], w[1], w[2]];
        u.pose = pose_of(&mm(&exp_of(scale(w, DT)), &base), add(v3(&p.pose[12..]), scale(t, DT)));
        p.el = rng_sym(r, 2.0);
        u.elbow = Some([p.el + rng_sym(r, 4e-6 * f), 1.0]);
        (p, u)
    };
    let mut m = Motion::simple(kind, vec![User::rest(); len]);
    if kind.torque() {
        m.user[len - 1].tau_fin = true;
    } else {
        m.user[len - 1].fin = true;
    }
    m.pick = Some(Pick(Arc::new(move |st: &franka::RobotState, _| case(st.theta[0] as u64).1)));
    m.limit = limit;
    m.cutoff = cutoff;
    let mut rng = Rng::new(seed ^ 0x77);
    let mut k = 0u64;
    let content: Content = Box::new(move |_, _, _, st| {
        k += 1;
        case(k).0.put(st, &mut rng);
        st.theta[0] = k as f64;
    });
    let mut o = judge_session(s, m, content, part, false, 100.0, true, format!("{:?} default settings, {} steps, limit {:?}, cutoff {:?}", kind, len, limit, cutoff));
    o.nontrivial = o.labels.iter().any(|(l, n)| *l == "commands" && *n > 0);
    o
}

fn c04_scalar(s: &mut Src) -> Outcome {
    use franka::robot::low_pass_filter::low_pass_filter;
    let mut j = Judge::default();
    let dt = match s.below(5) {
        0 => 1e-3,
        1 => 0.0,
        2 => s.log_mag(1e-9, 1e3),
        3 => s.f64_in(0.0, 1.0),
        _ => s.log_mag(1e-300, 1e-9),
    };
    let fc = match s.below(5) {
        0 => 100.0,
        1 => s.f64_in(1e-3, 999.0),
        2 => s.log_mag(1e-9, 1e9),
        3 => s.log_mag(1e-300, 1e300),
        _ => s.pick(&[1000.0, 999.9999999999999, 1e-12, 5000.0]),
    };
    let val = |s: &mut Src| match s.below(4) {
        0 => s.sym(3.0),
        1 => {
            let m = s.log_mag(1e-150, 1e150);
            if s.bool() {
                -m
            } else {
                m
            }
        }
        2 => 0.0,
        _ => s.sym(1e6),
    };
    let (y, y0) = (val(s), val(s));
    let bad = s.below(9);
    let nonfin = s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    let (mut a, mut b, mut c, mut d) = (dt, y, y0, fc);
    let invalid = match bad {
        1 => {
            a = s.pick(&[-1e-3, f64::NAN, f64::INFINITY, -1e-300, f64::NEG_INFINITY, -1.0]);
            true
        }
        2 => {
            b = nonfin;
            true
        }
        3 => {
            c = nonfin;
            true
        }
        4 => {
            d = s.pick(&[0.0, -0.0, -1.0, -100.0, f64::NAN, f64::INFINITY, -1e-300, f64::NEG_INFINITY]);
            true
        }
        _ => false,
    };
    let what = format!("low_pass_filter({:e}, {:e}, {:e}, {:e})", a, b, c, d);
    let got = crate::net::catch(|| low_pass_filter(a, b, c, d));
    match (&got, invalid) {
        (Ok(v), true) => j.fail(format!("{} returned {} instead of panicking", what, v)),
        (Err(p), false) => j.fail(format!("{} panicked: {}", what, p)),
        (Ok(v), false) => {
            let w = if a == 0.0 { c } else { filter(a, b, c, d) };
            let tol = 1e-13 * (b.abs().max(c.abs())) + 1e-300;
            j.check((v - w).abs() <= tol, || format!("{} = {:e}, expected {:e}", what, v, w));
            let (lo, hi) = (b.min(c), b.max(c));
            j.check(*v >= lo - tol && *v <= hi + tol, || format!("{} = {:e} not between its arguments", what, v));
        }
        _ => {}
    }
    Outcome { verdict: j.verdict(), nontrivial: y != y0 || invalid, labels: vec![(if invalid { "invalid" } else { "valid" }, 1)], sample: Some(what) }
}
fn c04_pose(s: &mut Src) -> Outcome {
    use franka::robot::low_pass_filter::cartesian_low_pass_filter;
    let mut j = Judge::default();
    let r0 = rotation(s);
    let r1 = match s.below(4) {
        0 => r0,
        1 => rotation(s),
        2 => {
            let u = unit_of(s);
            let d = s.log_mag(1e-10, 1.0);
            mm(&exp_of(scale(u, d)), &r0)
        }
        _ => {
            let u = unit_of(s);
            mm(&exp_of(scale(u, s.f64_in(0.0, 3.1))), &r0)
        }
    };
    let p0 = pose_of(&r0, [s.sym(1.0), s.sym(1.0), s.sym(1.0)]);
    let p1 = pose_of(&r1, [s.sym(1.0), s.sym(1.0), s.sym(1e3)]);
    let dt = s.pick(&[1e-3, 1e-3, 0.0, 0.1]);
    let fc = match s.below(3) {
        0 => 100.0,
        1 => s.f64_in(0.01, 999.0),
        _ => s.log_mag(1e-6, 1e5),
    };
    let (mut a, mut b, mut c, mut d) = (dt, p1, p0, fc);
    let nonfin = s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    let i = s.usize(0, 15);
    let invalid = match s.below(10) {
        1 => {
            a = s.pick(&[-1e-3, f64::NAN, f64::INFINITY, -1.0]);
            true
        }
        2 => {
            b[i] = nonfin;
            true
        }
        3 => {
            c[i] = nonfin;
            true
        }
        4 => {
            d = s.pick(&[0.0, -0.0, -1.0, f64::NAN, f64::INFINITY, -1e-300]);
            true
        }
        _ => false,
    };
    let what = format!("cartesian_low_pass_filter({:e}, {:?}, {:?}, {:e})", a, b, c, d);
    let got = crate::net::catch(|| cartesian_low_pass_filter(a, &b, &c, d));
    let ang = angle_between(&r0, &r1);
    match (&got, invalid) {
        (Ok(v), true) => j.fail(format!("{} returned {:?} instead of panicking", what, v)),
        (Err(p), false) => j.fail(format!("{} panicked: {}", what, p)),
        (Ok(v), false) => {
            let w = if a == 0.0 { c } else { filter_pose(a, &b, &c, d) };
            let dr = m3_diff(&rot_of(v), &rot_of(&w));
            if ang < std::f64::consts::PI - 1e-5 {
                j.check(dr <= 2e-7, || format!("{} has rotation {:?}, expected {:?}", what, rot_of(v), rot_of(&w)));
            }
            for k in 12..15 {
                j.check((v[k] - w[k]).abs() <= 1e-12 * (1.0 + b[k].abs()), || format!("{}: translation[{}] {:e}, expected {:e}", what, k - 12, v[k], w[k]));
            }
            j.check(v[3] == 0. && v[7] == 0. && v[11] == 0. && v[15] == 1., || format!("{}: last row {:?}", what, [v[3], v[7], v[11], v[15]]));
            let o = rot_of(v);
            j.check(m3_diff(&mm(&o, &tr(&o)), &I3) < 3e-8, || format!("{}: result is no rotation {:?}", what, o));
        }
        _ => {}
    }
    Outcome { verdict: j.verdict(), nontrivial: ang > 1e-9 || invalid, labels: vec![(if invalid { "invalid" } else { "valid" }, 1)], sample: Some(what) }
}

pub fn c04() -> Prop {
    Prop {
        id: "C04",
        level: "exploration",
        rule: "scalar/pose: direct calls of the public filter functions with generated sample times, cutoff frequencies (1e-300..1e300), values and poses (half turns included), a third of them with one invalid argument; sessions: control sessions with limiting off and any cutoff (off: compared bit for bit), independent random states; defaults: sessions without explicit arguments. Non-trivial: filtered and last value differ, or an argument is invalid, or a session exchanged commands.",
        assumptions: &["values up to 1e150", "orientation compared up to 3e-7 rad, not at all within 1e-5 rad of an ambiguous half turn"],
        subs: vec![
            Sub { name: "scalar", quick: 800_000, thorough: 8_000_000, par: 8, f: c04_scalar },
            Sub { name: "pose", quick: 400_000, thorough: 4_000_000, par: 8, f: c04_pose },
            Sub { name: "sessions", quick: 54_000, thorough: 600_000, par: 8, f: c04_session },
            Sub { name: "defaults", quick: 24_000, thorough: 200_000, par: 8, f: c04_defaults },
        ],
    }
}
