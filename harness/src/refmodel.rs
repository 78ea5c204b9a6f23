//! Reference models: the limiter, the filter, small linear algebra. Written from the definitions,
//! with plain arrays; nothing of the library is used here.
#![allow(clippy::needless_range_loop)]
pub const DT: f64 = 1e-3;
pub const EPS: f64 = 1e-3;
const LOST: f64 = 1e-3;

pub type V3 = [f64; 3];
/// row major: m[r][c]
pub type M3 = [[f64; 3]; 3];

// ---- documented limits -----------------------------------------------------------------------
pub const JOINT_JERK: [f64; 7] = [7500. - EPS, 3750. - EPS, 5000. - EPS, 6250. - EPS, 7500. - EPS, 10000. - EPS, 10000. - EPS];
pub const JOINT_ACC: [f64; 7] = [15. - EPS, 7.5 - EPS, 10. - EPS, 12.5 - EPS, 15. - EPS, 20. - EPS, 20. - EPS];
pub fn joint_vel(i: usize) -> f64 {
    let v = if i < 4 { 2.175 } else { 2.61 };
    v - EPS - LOST * DT * JOINT_ACC[i]
}
pub const TORQUE_RATE: f64 = 1000. - EPS;

#[derive(Clone, Copy)]
pub struct Lim {
    pub v: f64,
    pub a: f64,
    pub j: f64,
}
impl Lim {
    fn new(v: f64, a: f64, j: f64) -> Lim {
        let a = a - EPS;
        Lim { v: v - EPS - LOST * DT * a, a, j: j - EPS }
    }
    pub fn scaled(self, f: f64) -> Lim {
        Lim { v: self.v * f, a: self.a * f, j: self.j * f }
    }
}
pub fn joint_lim(i: usize) -> Lim {
    Lim { v: joint_vel(i), a: JOINT_ACC[i], j: JOINT_JERK[i] }
}
pub fn trans_lim() -> Lim {
    Lim::new(2.0, 13.0, 6500.0)
}
pub fn rot_lim() -> Lim {
    Lim::new(2.5, 25.0, 12500.0)
}
pub fn elbow_lim() -> Lim {
    Lim::new(2.175, 10.0, 5000.0)
}
pub const POSE_ROT_FACTOR: f64 = 0.99;

// ---- vectors ---------------------------------------------------------------------------------
pub fn v3(a: &[f64]) -> V3 {
    [a[0], a[1], a[2]]
}
pub fn add(a: V3, b: V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn scale(a: V3, s: f64) -> V3 {
    [a[0] * s, a[1] * s, a[2] * s]
}
pub fn dot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn norm(a: V3) -> f64 {
    let m = a[0].abs().max(a[1].abs()).max(a[2].abs());
    if m == 0.0 || !m.is_finite() {
        return m;
    }
    let b = scale(a, 1.0 / m);
    m * dot(b, b).sqrt()
}
pub fn mm(a: &M3, b: &M3) -> M3 {
    let mut o = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            o[i][j] = (0..3).map(|k| a[i][k] * b[k][j]).sum();
        }
    }
    o
}
pub fn tr(a: &M3) -> M3 {
    let mut o = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            o[i][j] = a[j][i];
        }
    }
    o
}
pub const I3: M3 = [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]];
pub fn m3_diff(a: &M3, b: &M3) -> f64 {
    let mut m = 0.0f64;
    for i in 0..3 {
        for j in 0..3 {
            let d = (a[i][j] - b[i][j]).abs();
            if d.is_nan() {
                return f64::NAN;
            }
            m = m.max(d);
        }
    }
    m
}
/// rotation part of a column-major 4x4
pub fn rot_of(p: &[f64; 16]) -> M3 {
    let mut o = [[0.0; 3]; 3];
    for r in 0..3 {
        for c in 0..3 {
            o[r][c] = p[4 * c + r];
        }
    }
    o
}
pub fn pose_of(r: &M3, t: V3) -> [f64; 16] {
    let mut p = [0.0; 16];
    for i in 0..3 {
        for j in 0..3 {
            p[4 * j + i] = r[i][j];
        }
        p[12 + i] = t[i];
    }
    p[15] = 1.0;
    p
}
/// unit quaternion (w,x,y,z) of a rotation matrix, numerically robust for every rotation
pub fn quat_of(m: &M3) -> [f64; 4] {
    let t = [
        1.0 + m[0][0] + m[1][1] + m[2][2],
        1.0 + m[0][0] - m[1][1] - m[2][2],
        1.0 - m[0][0] + m[1][1] - m[2][2],
        1.0 - m[0][0] - m[1][1] + m[2][2],
    ];
    let k = (0..4).fold(0, |b, i| if t[i] > t[b] { i } else { b });
    let mut q = match k {
        0 => [t[0], m[2][1] - m[1][2], m[0][2] - m[2][0], m[1][0] - m[0][1]],
        1 => [m[2][1] - m[1][2], t[1], m[0][1] + m[1][0], m[0][2] + m[2][0]],
        2 => [m[0][2] - m[2][0], m[0][1] + m[1][0], t[2], m[1][2] + m[2][1]],
        _ => [m[1][0] - m[0][1], m[0][2] + m[2][0], m[1][2] + m[2][1], t[3]],
    };
    let n = (q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]).sqrt();
    for x in q.iter_mut() {
        *x /= n;
    }
    q
}
pub fn mat_of(q: &[f64; 4]) -> M3 {
    let [w, x, y, z] = *q;
    [
        [1. - 2. * (y * y + z * z), 2. * (x * y - w * z), 2. * (x * z + w * y)],
        [2. * (x * y + w * z), 1. - 2. * (x * x + z * z), 2. * (y * z - w * x)],
        [2. * (x * z - w * y), 2. * (y * z + w * x), 1. - 2. * (x * x + y * y)],
    ]
}
pub fn qmul(a: &[f64; 4], b: &[f64; 4]) -> [f64; 4] {
    [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ]
}
/// rotation vector of a rotation, angle in [0, pi]
pub fn log_of(m: &M3) -> V3 {
    let mut q = quat_of(m);
    if q[0] < 0.0 {
        for x in q.iter_mut() {
            *x = -*x;
        }
    }
    let s = norm([q[1], q[2], q[3]]);
    if s == 0.0 {
        return [0.0; 3];
    }
    let ang = 2.0 * s.atan2(q[0]);
    scale([q[1], q[2], q[3]], ang / s)
}
pub fn exp_of(w: V3) -> M3 {
    let a = norm(w);
    if a == 0.0 {
        return I3;
    }
    let u = scale(w, (a / 2.0).sin() / a);
    mat_of(&[(a / 2.0).cos(), u[0], u[1], u[2]])
}
/// nearest rotation (for a matrix that is one up to noise)
pub fn orth(m: &M3) -> M3 {
    // Newton iteration of the polar decomposition, X <- (X + X^-T)/2
    let mut x = *m;
    for _ in 0..12 {
        let c = |i: usize, j: usize| {
            let (a, b) = ((i + 1) % 3, (i + 2) % 3);
            let (d, e) = ((j + 1) % 3, (j + 2) % 3);
            x[a][d] * x[b][e] - x[a][e] * x[b][d]
        };
        let det = x[0][0] * c(0, 0) + x[0][1] * c(0, 1) + x[0][2] * c(0, 2);
        let mut n = x;
        for i in 0..3 {
            for j in 0..3 {
                n[i][j] = 0.5 * (x[i][j] + c(i, j) / det);
            }
        }
        x = n;
    }
    x
}
/// angle between two rotations
pub fn angle_between(a: &M3, b: &M3) -> f64 {
    norm(log_of(&mm(a, &tr(b))))
}

// ---- limiter ---------------------------------------------------------------------------------
fn clamp(x: f64, lo: f64, hi: f64) -> f64 {
    if x > hi {
        hi
    } else if x < lo {
        lo
    } else {
        x
    }
}
/// scalar velocity limiter; returns (limited, did it change anything)
pub fn limit_scalar(l: Lim, v: f64, v0: f64, a0: f64) -> (f64, bool) {
    let j = ((v - v0) / DT - a0) / DT;
    let jc = clamp(j, -l.j, l.j);
    let a = a0 + jc * DT;
    let hi = (l.j / l.a * (l.v - v0)).min(l.a);
    let lo = (l.j / l.a * (-l.v - v0)).max(-l.a);
    let mut ac = a;
    if ac > hi {
        ac = hi;
    }
    if ac < lo {
        ac = lo;
    }
    (v0 + ac * DT, jc != j || ac != a)
}
pub fn limit_position(l: Lim, x: f64, x0: f64, v0: f64, a0: f64) -> (f64, bool) {
    let (v, c) = limit_scalar(l, (x - x0) / DT, v0, a0);
    (x0 + v * DT, c)
}
/// vector velocity limiter
pub fn limit_vector(l: Lim, v: V3, v0: V3, a0: V3) -> (V3, bool) {
    let j = scale(sub(scale(sub(v, v0), 1.0 / DT), a0), 1.0 / DT);
    let jn = norm(j);
    let mut changed = false;
    let mut a = a0;
    if jn > f64::EPSILON {
        let jc = if jn > l.j {
            changed = true;
            l.j
        } else {
            jn
        };
        a = add(a, scale(j, jc / jn * DT));
    }
    let an = norm(a);
    if an <= f64::EPSILON {
        return (v0, changed);
    }
    let u = scale(a, 1.0 / an);
    // distance along u to the sphere |v| = vmax
    let d = dot(u, v0);
    let disc = d * d - dot(v0, v0) + l.v * l.v;
    let dist = -d + if disc > 0.0 { disc.sqrt() } else { 0.0 };
    let hi = (l.j / l.a * dist).min(l.a);
    let ac = if an > hi {
        changed = true;
        hi
    } else {
        an
    };
    (add(v0, scale(u, ac * DT)), changed)
}
pub fn limit_twist(lt: Lim, lr: Lim, v: &[f64; 6], v0: &[f64; 6], a0: &[f64; 6]) -> ([f64; 6], bool) {
    let (t, c1) = limit_vector(lt, v3(&v[..3]), v3(&v0[..3]), v3(&a0[..3]));
    let (r, c2) = limit_vector(lr, v3(&v[3..]), v3(&v0[3..]), v3(&a0[3..]));
    ([t[0], t[1], t[2], r[0], r[1], r[2]], c1 || c2)
}
/// twist that moves pose `p0` to pose `p` in one sample
pub fn twist_between(p: &[f64; 16], p0: &[f64; 16]) -> [f64; 6] {
    let r = log_of(&mm(&rot_of(p), &tr(&rot_of(p0))));
    let mut o = [0.0; 6];
    for i in 0..3 {
        o[i] = (p[12 + i] - p0[12 + i]) / DT;
        o[3 + i] = r[i] / DT;
    }
    o
}
pub fn limit_pose(p: &[f64; 16], p0: &[f64; 16], v0: &[f64; 6], a0: &[f64; 6]) -> ([f64; 16], bool) {
    let v = twist_between(p, p0);
    let (w, c) = limit_twist(trans_lim(), rot_lim().scaled(POSE_ROT_FACTOR), &v, v0, a0);
    let r = mm(&exp_of(scale(v3(&w[3..]), DT)), &rot_of(p0));
    (pose_of(&r, add(v3(&p0[12..]), scale(v3(&w[..3]), DT))), c)
}
pub fn limit_torque(t: f64, t0: f64) -> (f64, bool) {
    let d = (t - t0) / DT;
    if d > TORQUE_RATE {
        (t0 + TORQUE_RATE * DT, true)
    } else if d < -TORQUE_RATE {
        (t0 - TORQUE_RATE * DT, true)
    } else {
        (t, false)
    }
}

// ---- filter ----------------------------------------------------------------------------------
pub fn gain(dt: f64, fc: f64) -> f64 {
    let tau = 1.0 / (2.0 * std::f64::consts::PI * fc);
    dt / (dt + tau)
}
pub fn filter(dt: f64, y: f64, y0: f64, fc: f64) -> f64 {
    let g = gain(dt, fc);
    g * y + (1.0 - g) * y0
}
/// rotation: the fraction g of the way from r0 to r along the shortest arc
pub fn filter_rot(g: f64, r: &M3, r0: &M3) -> M3 {
    let w = log_of(&mm(r, &tr(r0)));
    mm(&exp_of(scale(w, g)), r0)
}
pub fn filter_pose(dt: f64, p: &[f64; 16], p0: &[f64; 16], fc: f64) -> [f64; 16] {
    let g = gain(dt, fc);
    let r = filter_rot(g, &orth(&rot_of(p)), &orth(&rot_of(p0)));
    let mut t = [0.0; 3];
    for i in 0..3 {
        t[i] = g * p[12 + i] + (1.0 - g) * p0[12 + i];
    }
    pose_of(&r, t)
}
