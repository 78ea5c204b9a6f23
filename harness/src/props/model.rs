//! C17, C18: the robot model, with a stand-in for the model library that tells what it was asked.
use super::states::handshake;
use super::tcp::*;
use crate::ctl::*;
use crate::engine::*;
use crate::net::*;
use crate::wire::*;
use franka::{Frame, Model, RealtimeConfig, Robot, RobotState};
use std::ffi::CString;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;

const SOURCE: &str = include_str!("../../assets/model.c");
const MARK: u64 = 0x5341c75f00d5a1a7;
pub const SYMBOLS: [&str; 30] = [
    "M_NE", "c_NE", "g_NE", "Ji_J_J1", "Ji_J_J2", "Ji_J_J3", "Ji_J_J4", "Ji_J_J5", "Ji_J_J6", "Ji_J_J7", "Ji_J_J8", "Ji_J_J9", "O_J_J1", "O_J_J2",
    "O_J_J3", "O_J_J4", "O_J_J5", "O_J_J6", "O_J_J7", "O_J_J8", "O_J_J9", "O_T_J1", "O_T_J2", "O_T_J3", "O_T_J4", "O_T_J5", "O_T_J6", "O_T_J7",
    "O_T_J8", "O_T_J9",
];

/// A directory of this process that is removed when the process ends normally.
struct Scratch(PathBuf);
fn scratch() -> &'static Path {
    static D: OnceLock<Scratch> = OnceLock::new();
    &D.get_or_init(|| {
        let base = std::env::var("CARGO_TARGET_DIR").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
        let d = base.join(format!("model-scratch-{}", std::process::id()));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    })
    .0
}
pub fn cleanup() {
    let base = std::env::var("CARGO_TARGET_DIR").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    let d = base.join(format!("model-scratch-{}", std::process::id()));
    if d.exists() {
        let _ = std::fs::remove_dir_all(&d);
    }
}

fn template() -> &'static Vec<u8> {
    static T: OnceLock<Vec<u8>> = OnceLock::new();
    T.get_or_init(|| {
        let c = scratch().join("model.c");
        let so = scratch().join("template.so");
        std::fs::write(&c, SOURCE).expect("write model.c");
        let ok = std::process::Command::new("gcc").args(["-O1", "-shared", "-fPIC", "-o"]).arg(&so).arg(&c).status().map(|s| s.success()).unwrap_or(false);
        if !ok {
            eprintln!("harness: cannot compile the stand-in model library");
            std::process::exit(3);
        }
        std::fs::read(&so).expect("read template")
    })
}
fn find(hay: &[u8], pat: &[u8]) -> Vec<usize> {
    hay.windows(pat.len()).enumerate().filter(|(_, w)| *w == pat).map(|(i, _)| i).collect()
}
/// The library with its own salt.
fn library(salt: u64) -> Vec<u8> {
    static AT: OnceLock<usize> = OnceLock::new();
    let mut l = template().clone();
    let at = *AT.get_or_init(|| {
        let m = MARK.to_le_bytes();
        let p = find(template(), &m);
        *p.iter().find(|p| p.len_ok(template()) && template()[**p + 16..**p + 24] == m).expect("salt")
    });
    l[at + 8..at + 16].copy_from_slice(&salt.to_le_bytes());
    l
}
trait LenOk {
    fn len_ok(&self, t: &[u8]) -> bool;
}
impl LenOk for usize {
    fn len_ok(&self, t: &[u8]) -> bool {
        self + 24 <= t.len()
    }
}
fn without(lib: &[u8], sym: &str) -> Vec<u8> {
    let mut l = lib.to_vec();
    let mut pat = vec![0u8];
    pat.extend(sym.as_bytes());
    pat.push(0);
    for p in find(lib, &pat) {
        l[p + 1] = b'Z';
    }
    l
}

fn mix1(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}
/// What function `id` of the library with this salt returns for these arguments.
fn value(salt: u64, id: u64, args: &[f64], n: usize) -> Vec<f64> {
    let mut h = mix1(salt ^ mix1(id));
    for a in args {
        h = mix1(h ^ a.to_bits());
    }
    (0..n).map(|i| (mix1(h.wrapping_add(i as u64)) >> 11) as f64 / 9007199254740992.0).collect()
}

type RecordFn = unsafe extern "C" fn(*mut u64, *mut u64, *mut f64) -> u64;
struct Lib {
    model: Model,
    salt: u64,
    record: RecordFn,
}
unsafe impl Sync for Lib {}
unsafe impl Send for Lib {}
impl Lib {
    /// number of calls on this thread, the last function called and its arguments
    fn recorded(&self) -> (u64, u64, Vec<f64>) {
        let (mut c, mut id, mut a) = (0, 0, [0.0; 64]);
        let n = unsafe { (self.record)(&mut c, &mut id, a.as_mut_ptr()) };
        (c, id, a[..n as usize].to_vec())
    }
}
/// Three libraries loaded at the same time, each with its own salt.
fn libs() -> &'static Result<Vec<Lib>, String> {
    static L: OnceLock<Result<Vec<Lib>, String>> = OnceLock::new();
    L.get_or_init(|| {
        (0..3u64)
            .map(|k| {
                let salt = 77 + k * 0x1234_5678_9abc;
                let p = scratch().join(format!("lib{}.so", k));
                std::fs::write(&p, library(salt)).expect("write library");
                let model = match Model::new(&p, None) {
                    Ok(m) => m,
                    Err(e) => return Err(format!("a valid model library is not accepted: {:?}", e)),
                };
                let c = CString::new(p.to_str().unwrap()).unwrap();
                let record: RecordFn = unsafe {
                    let h = libc::dlopen(c.as_ptr(), libc::RTLD_NOW);
                    assert!(!h.is_null());
                    let f = libc::dlsym(h, b"verif_record\0".as_ptr() as *const _);
                    assert!(!f.is_null());
                    std::mem::transmute(f)
                };
                Ok(Lib { model, salt, record })
            })
            .collect()
    })
}

const FRAMES: [Frame; 10] = [
    Frame::Joint1,
    Frame::Joint2,
    Frame::Joint3,
    Frame::Joint4,
    Frame::Joint5,
    Frame::Joint6,
    Frame::Joint7,
    Frame::Flange,
    Frame::EndEffector,
    Frame::Stiffness,
];

fn arg(s: &mut Src) -> f64 {
    s.any_bits()
}
/// A transformation whose products can be judged: whole numbers (exact) or moderate values.
fn factor(s: &mut Src, style: u64) -> [f64; 16] {
    match style {
        0 => s.arr(|s| s.below(2001) as f64 - 1000.0),
        1 => s.arr(|s| s.sym(3.0)),
        _ => {
            let mut r = super::limits::rotation(s);
            if s.bool() {
                r = crate::refmodel::I3;
            }
            crate::refmodel::pose_of(&r, [s.sym(1.0), s.sym(1.0), s.sym(1.0)])
        }
    }
}

struct Query {
    frame: usize,
    what: usize, // 0 pose, 1 body, 2 zero, 3 mass, 4 coriolis, 5 gravity
    from_state: bool,
    grav: Option<[f64; 3]>,
}
const WHAT: [&str; 6] = ["pose", "body_jacobian", "zero_jacobian", "mass", "coriolis", "gravity"];

fn c17(s: &mut Src) -> Outcome {
    let libs = match libs() {
        Ok(l) => l,
        Err(e) => return Outcome { verdict: Verdict::Fail(e.clone()), nontrivial: false, labels: vec![], sample: None },
    };
    let n = s.usize(1, 6);
    let mut j = Judge::default();
    let mut o = Outcome::pass(true);
    let mut desc = vec![];
    for _ in 0..n {
        let k = s.usize(0, libs.len() - 1);
        let lib = &libs[k];
        let what = s.weighted(&[3, 3, 3, 2, 2, 2]);
        let frame = s.usize(0, 9);
        let from_state = s.bool();
        let grav = if s.bool() { Some(s.arr(arg)) } else { None };
        let qy = Query { frame, what, from_state, grav };
        let style = s.below(3);
        let stiff = frame == 9 && what < 3;
        let (t1, t2) = if stiff { (factor(s, style), factor(s, style)) } else { (s.arr(arg), s.arr(arg)) };
        // every field of the state has values of its own
        let mut st = RobotState::default();
        let seed = s.u64();
        decoys(&mut st, seed);
        st.q = s.arr(arg);
        st.dq = s.arr(arg);
        st.F_T_EE = t1;
        st.EE_T_K = t2;
        st.I_total = s.arr(arg);
        st.m_total = arg(s);
        st.F_x_Ctotal = s.arr(arg);
        st.O_ddP_O = s.arr(arg);
        let m = &lib.model;
        let fr = &FRAMES[frame];
        let before = lib.recorded().0;
        let got: Result<Vec<f64>, String> = catch(|| match (what, from_state) {
            (0, false) => m.pose(fr, &st.q, &st.F_T_EE, &st.EE_T_K).to_vec(),
            (0, true) => m.pose_from_state(fr, &st).to_vec(),
            (1, false) => m.body_jacobian(fr, &st.q, &st.F_T_EE, &st.EE_T_K).to_vec(),
            (1, true) => m.body_jacobian_from_state(fr, &st).to_vec(),
            (2, false) => m.zero_jacobian(fr, &st.q, &st.F_T_EE, &st.EE_T_K).to_vec(),
            (2, true) => m.zero_jacobian_from_state(fr, &st).to_vec(),
            (3, false) => m.mass(&st.q, &st.I_total, st.m_total, &st.F_x_Ctotal).to_vec(),
            (3, true) => m.mass_from_state(&st).to_vec(),
            (4, false) => m.coriolis(&st.q, &st.dq, &st.I_total, st.m_total, &st.F_x_Ctotal).to_vec(),
            (4, true) => m.coriolis_from_state(&st).to_vec(),
            (5, false) => m.gravity(&st.q, st.m_total, &st.F_x_Ctotal, qy.grav.as_ref()).to_vec(),
            _ => m.gravity_from_state(&st, qy.grav.as_ref()).to_vec(),
        });
        let name = format!("{}{} frame {} (library {})", WHAT[what], if from_state { "_from_state" } else { "" }, frame, k);
        let (after, id, args) = lib.recorded();
        let _ = before;
        let got = match got {
            Ok(g) => g,
            Err(p) => {
                j.fail(format!("{} panicked: {}", name, p));
                break;
            }
        };
        j.check(after > before, || format!("{}: the library was not asked", name));
        let mut want: Vec<f64> = vec![];
        let (wid, wlen) = match what {
            0..=2 => {
                let base = [0, 10, 20][what];
                if !(frame == 0 && what > 0) {
                    want.extend(&st.q);
                }
                if frame == 8 {
                    want.extend(&st.F_T_EE);
                }
                if frame == 9 {
                    // column-major product
                    for c in 0..4 {
                        for r in 0..4 {
                            want.push((0..4).map(|x| t1[x * 4 + r] * t2[c * 4 + x]).sum());
                        }
                    }
                }
                (base + frame.min(8) as u64 + 1, if what == 0 { 16 } else { 42 })
            }
            3 => {
                want.extend(&st.q);
                want.extend(&st.I_total);
                want.push(st.m_total);
                want.extend(&st.F_x_Ctotal);
                (31, 49)
            }
            4 => {
                want.extend(&st.q);
                want.extend(&st.dq);
                want.extend(&st.I_total);
                want.push(st.m_total);
                want.extend(&st.F_x_Ctotal);
                (32, 7)
            }
            _ => {
                let g = qy.grav.unwrap_or(if from_state { st.O_ddP_O } else { [0., 0., -9.81] });
                want.extend(&st.q);
                want.extend(&g);
                want.push(st.m_total);
                want.extend(&st.F_x_Ctotal);
                (33, 7)
            }
        };
        j.check(id == wid, || format!("{}: library function {} was called instead of {}", name, id, wid));
        j.check(args.len() == want.len(), || format!("{}: {} arguments instead of {}", name, args.len(), want.len()));
        for (i, (a, b)) in args.iter().zip(&want).enumerate() {
            // the product of moderate factors may be summed in any order
            let ok = if stiff && i >= 7 && style != 0 { (a - b).abs() <= 1e-13 } else { a.to_bits() == b.to_bits() || (stiff && i >= 7 && a == b) };
            j.check(ok, || format!("{}: argument {} is {:e}, not {:e}", name, i, a, b));
        }
        j.check(bits_eq(&got, &value(lib.salt, id, &args, wlen)), || format!("{}: the value returned is not the library's: {:?}", name, got));
        o = o.label(WHAT[what], 1);
        if desc.len() < 3 {
            desc.push(name);
        }
        if j.bad() {
            break;
        }
    }
    o.sample = Some(desc.join("; "));
    o.verdict = j.verdict();
    o
}
fn decoys(st: &mut RobotState, seed: u64) {
    let mut r = Rng::new(seed);
    let mut v = || (r.next() >> 11) as f64 / (1u64 << 40) as f64 - 4000.0;
    macro_rules! fill { ($($f:ident),*) => { $( for x in st.$f.iter_mut() { *x = v(); } )* } }
    fill!(
        O_T_EE, O_T_EE_d, F_T_EE, EE_T_K, F_T_NE, NE_T_EE, I_ee, F_x_Cee, I_load, F_x_Cload, I_total, F_x_Ctotal, elbow, elbow_d, elbow_c, tau_J, tau_J_d,
        dtau_J, q, q_d, dq, dq_d, ddq_d, joint_contact, cartesian_contact, joint_collision, cartesian_collision, tau_ext_hat_filtered, O_F_ext_hat_K,
        K_F_ext_hat_K, O_dP_EE_d, O_ddP_O, O_T_EE_c, O_dP_EE_c, O_ddP_EE_c, theta, dtheta
    );
    st.m_ee = v();
    st.m_load = v();
    st.m_total = v();
    st.control_command_success_rate = v();
}

pub fn c17_prop() -> Prop {
    Prop {
        id: "C17",
        level: "exploration",
        rule: "a case with at least one model query (every case); counted once per distinct choice sequence",
        assumptions: &[
            "the model library is a stand-in that records its arguments and returns a value depending on every bit of them",
            "for the stiffness frame the factors are whole numbers (exact) or moderate values (product within 1e-13)",
        ],
        subs: vec![Sub { name: "queries", quick: 4_000_000, thorough: 20_000_000, par: 8, f: c17 }],
    }
}

// ---- C18 -------------------------------------------------------------------------------------
const STORED: &str = "/tmp/model.so";

/// The library uses a fixed path: one session at a time, and what was there is put back.
struct Guard {
    _lock: std::fs::File,
    saved: Option<Vec<u8>>,
}
static ONE: Mutex<()> = Mutex::new(());
impl Guard {
    fn new() -> Guard {
        use std::os::unix::io::AsRawFd;
        let f = std::fs::File::create(scratch().parent().unwrap().join(".model-lock")).expect("lock file");
        unsafe { libc::flock(f.as_raw_fd(), libc::LOCK_EX) };
        let saved = std::fs::read(STORED).ok();
        let _ = std::fs::remove_file(STORED);
        Guard { _lock: f, saved }
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(STORED);
        if let Some(b) = &self.saved {
            let _ = std::fs::write(STORED, b);
        }
    }
}

/// Nothing is stored, and nobody else loads a model, until this is dropped.
pub fn exclusive() -> impl Drop {
    struct Both(#[allow(dead_code)] Guard, #[allow(dead_code)] std::sync::MutexGuard<'static, ()>);
    impl Drop for Both {
        fn drop(&mut self) {}
    }
    let one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    Both(Guard::new(), one)
}
pub fn stored() -> bool {
    Path::new(STORED).exists()
}

#[derive(Clone, Debug)]
enum File {
    Good(u64, usize),
    NoSymbol(usize, usize),
    Random(u64, usize),
    Text,
    Header(usize),
    Empty,
}
impl File {
    fn gen(s: &mut Src) -> File {
        match s.weighted(&[8, 2, 2, 1, 1, 1]) {
            0 => File::Good(s.u64(), Self::pad(s)),
            1 => File::NoSymbol(s.usize(0, SYMBOLS.len() - 1), Self::pad(s)),
            2 => File::Random(s.u64(), 1 + Self::pad(s)),
            3 => File::Text,
            4 => File::Header(s.usize(1, 63)),
            _ => File::Empty,
        }
    }
    fn pad(s: &mut Src) -> usize {
        match s.below(5) {
            0 => 0,
            1 => s.usize(1, 64),
            2 => s.usize(1, 70_000),
            3 => s.usize(1, 400_000),
            _ => s.usize(400_000, 1_500_000),
        }
    }
    fn bytes(&self) -> Vec<u8> {
        let tail = |mut l: Vec<u8>, n: usize| {
            let mut r = Rng::new(n as u64);
            while n > 0 && l.len() % 8 != 0 {
                l.push(0);
            }
            for _ in 0..n / 8 {
                l.extend_from_slice(&r.next().to_le_bytes());
            }
            for _ in 0..n % 8 {
                l.push(r.next() as u8);
            }
            l
        };
        match self {
            File::Good(salt, n) => tail(library(*salt), *n),
            File::NoSymbol(k, n) => tail(without(&library(1), SYMBOLS[*k]), *n),
            File::Random(seed, n) => tail(vec![(*seed as u8) & 0x7e], *n),
            File::Text => b"#!/bin/sh\necho not a library\n".to_vec(),
            File::Header(n) => template()[..*n].to_vec(),
            File::Empty => vec![],
        }
    }
    fn valid(&self) -> bool {
        matches!(self, File::Good(..))
    }
}
#[derive(Clone, Debug)]
enum Answer {
    Send(File),
    /// an error, with data after the status
    Refuse(Option<File>),
}
#[derive(Clone, Debug)]
struct Load {
    /// what the user does to the stored copy before: nothing, remove, replace
    stored: Option<Option<File>>,
    persistent: bool,
    answer: Answer,
    delivery: Delivery,
    /// the file system refuses to store more than this many bytes
    limit: Option<usize>,
}

fn fsize(limit: Option<usize>) {
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let mut r: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut r);
        r.rlim_cur = match limit {
            Some(l) => l as libc::rlim_t,
            None => r.rlim_max,
        };
        libc::setrlimit(libc::RLIMIT_FSIZE, &r);
    }
}

fn probe(m: &Model, salt: u64, seed: u64) -> Result<(), String> {
    let mut r = Rng::new(seed);
    let mut q = [0.0; 7];
    for x in q.iter_mut() {
        *x = (r.next() >> 11) as f64;
    }
    let v = m.pose(&Frame::Flange, &q, &IDENT16, &IDENT16);
    if !bits_eq(&v, &value(salt, 8, &q, 16)) {
        return Err("a query is not answered by the library that was sent".into());
    }
    let t = m.body_jacobian(&Frame::Joint1, &q, &IDENT16, &IDENT16);
    if !bits_eq(&t, &value(salt, 11, &[], 42)) {
        return Err("a query is not answered by the library that was sent".into());
    }
    Ok(())
}

struct Step {
    requests: Vec<Req>,
    res: Res,
    probe: Result<(), String>,
    file: Option<Vec<u8>>,
    usable: Res,
}
fn c18_loads(s: &mut Src) -> Outcome {
    let n = s.usize(1, 5);
    let mut loads = vec![];
    for _ in 0..n {
        let stored = match s.weighted(&[5, 1, 2]) {
            0 => None,
            1 => Some(None),
            _ => Some(Some(File::gen(s))),
        };
        let persistent = s.bool();
        let answer = if s.chance(1, 6) { Answer::Refuse(if s.chance(1, 3) { Some(File::gen(s)) } else { None }) } else { Answer::Send(File::gen(s)) };
        let mut delivery = Delivery::gen(s);
        if s.bool() {
            delivery.before.clear();
            delivery.after.clear();
        }
        let limit = if s.chance(1, 8) { Some(s.usize(0, 12_000)) } else { None };
        loads.push(Load { stored, persistent, answer, delivery, limit });
    }
    let what = format!("{:?}", loads.iter().map(|l| format!("stored {:?}, persistent {}, robot {:?}, file size limit {:?}, {} cuts", l.stored, l.persistent, l.answer, l.limit, l.delivery.cuts.len())).collect::<Vec<_>>());
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    let _guard = Guard::new();
    let loads = Arc::new(loads);
    let (l_s, l_c) = (loads.clone(), loads.clone());
    let reqs: Arc<Mutex<Vec<Req>>> = Arc::new(Mutex::new(vec![]));
    let (rq_s, rq_c) = (reqs.clone(), reqs.clone());
    let at = Arc::new(Mutex::new(0usize));
    let (at_s, at_c) = (at.clone(), at.clone());
    let run = session(
        1337,
        Duration::from_secs(15),
        move |srv| {
            if !handshake(srv, &St::idle(1)) {
                return;
            }
            let mut stream = Stream::default();
            let mut old = vec![];
            while !srv.gone() {
                let r = match srv.next(Duration::from_millis(5)) {
                    In::Req(r) => r,
                    In::Closed => return,
                    _ => continue,
                };
                let k = *at_s.lock().unwrap();
                rq_s.lock().unwrap().push(r.clone());
                if r.cmd == LOAD_MODEL_LIBRARY && k < l_s.len() {
                    let mut b = vec![];
                    match &l_s[k].answer {
                        Answer::Refuse(f) => {
                            b.push(1);
                            if let Some(f) = f {
                                b.extend(f.bytes());
                            }
                        }
                        Answer::Send(f) => {
                            b.push(0);
                            b.extend(f.bytes());
                        }
                    }
                    stream.deliver(srv, &l_s[k].delivery, &robot_frame(r.cmd, r.id, &b), &old, |_| {});
                } else {
                    stream.deliver(srv, &Delivery::default(), &robot_frame(r.cmd, r.id, &[0]), &old, |_| {});
                }
                old.push(r.id);
            }
        },
        move |ip| -> Result<Vec<Step>, String> {
            let mut robot = Robot::new(ip, RealtimeConfig::Ignore, None).map_err(|e| format!("connect: {:?}", e))?;
            let mut out = vec![];
            for (k, l) in l_c.iter().enumerate() {
                match &l.stored {
                    None => {}
                    Some(None) => {
                        let _ = std::fs::remove_file(STORED);
                    }
                    Some(Some(f)) => {
                        let _ = std::fs::remove_file(STORED);
                        std::fs::write(STORED, f.bytes()).map_err(|e| format!("write: {}", e))?
                    }
                }
                let salt = match std::fs::read(STORED) {
                    Ok(b) => salt_of(&b),
                    Err(_) => match &l.answer {
                        Answer::Send(File::Good(x, _)) => *x,
                        _ => 0,
                    },
                };
                *at_c.lock().unwrap() = k;
                rq_c.lock().unwrap().clear();
                fsize(l.limit);
                let r = catch(|| robot.load_model(l.persistent));
                fsize(None);
                let r = r.map_err(|p| format!("panic {}", p))?;
                let requests = rq_c.lock().unwrap().clone();
                let file = std::fs::read(STORED).ok();
                let (m, res) = res_of(r);
                let probe = match &m {
                    Some(m) => probe(m, salt, k as u64),
                    None => Ok(()),
                };
                drop(m);
                let usable = res_of(robot.set_load(1.5, [0.1, 0.2, 0.3], [0.; 9])).1;
                out.push(Step { requests, res, probe, file, usable });
            }
            Ok(out)
        },
    );
    let steps = match run.client {
        ClientEnd::Done(Ok(x)) => x,
        ClientEnd::Done(Err(e)) if e.starts_with("panic ") => {
            return Outcome { verdict: Verdict::Fail(format!("load_model panicked: {}\n{}", &e[6..], what)), nontrivial: false, labels: vec![], sample: None }
        }
        ClientEnd::Done(Err(e)) => return timing(format!("{} ({})", e, what)),
        ClientEnd::Panic(p) => return Outcome { verdict: Verdict::Fail(format!("panicked: {}\n{}", p, what)), nontrivial: false, labels: vec![], sample: None },
        ClientEnd::Hang => return timing(format!("load_model did not return\n{}", what)),
    };
    let mut j = Judge::default();
    let mut file: Option<Vec<u8>> = None;
    let mut o = Outcome::pass(loads.len() > 1 || loads[0].stored.is_none());
    for (k, (l, st)) in loads.iter().zip(&steps).enumerate() {
        match &l.stored {
            None => {}
            Some(None) => file = None,
            Some(Some(f)) => file = Some(f.bytes()),
        }
        let had = file.is_some();
        let loads_seen = st.requests.iter().filter(|r| r.cmd == LOAD_MODEL_LIBRARY).count();
        j.check(st.requests.len() == loads_seen && loads_seen == !had as usize, || {
            format!("load {}: {} model requests of {} although the stored copy {}\n{}", k, loads_seen, st.requests.len(), if had { "exists" } else { "does not exist" }, what)
        });
        for r in &st.requests {
            j.check(r.body == [0, 0], || format!("load {}: the request asks for architecture/system {:?}\n{}", k, r.body, what));
        }
        let mut ok = true;
        if !had {
            match &l.answer {
                Answer::Refuse(_) | Answer::Send(File::Empty) => ok = false,
                Answer::Send(f) => {
                    let b = f.bytes();
                    if l.limit.map(|x| x < b.len()).unwrap_or(false) {
                        ok = false;
                        o = o.label("disk full", 1);
                    } else {
                        ok = f.valid();
                        file = Some(b);
                    }
                }
            }
        } else {
            o = o.label("stored copy used", 1);
            ok = valid(file.as_ref().unwrap());
        }
        if !l.persistent {
            file = None;
        }
        if ok {
            j.check(st.res.kind() == "ok" || matches!(st.res, Res::Ok), || format!("load {} of a valid library returned {}\n{}", k, st.res.brief(), what));
        } else {
            j.check(matches!(st.res, Res::Model(_)), || format!("load {} returned {} instead of a model error\n{}", k, st.res.brief(), what));
            o = o.label("failing loads", 1);
        }
        if let Err(e) = &st.probe {
            j.fail(format!("load {}: {}\n{}", k, e, what));
        }
        j.check(st.file.is_some() == file.is_some(), || {
            format!("load {}: the file {} although persistent is {}\n{}", k, if st.file.is_some() { "stays behind" } else { "is gone" }, l.persistent, what)
        });
        if let (Some(a), Some(b)) = (&st.file, &file) {
            j.check(a == b, || format!("load {}: the stored file ({} bytes) is not what the robot sent ({} bytes)\n{}", k, a.len(), b.len(), what));
        }
        j.check(matches!(st.usable, Res::Ok), || format!("after load {} a command returned {}\n{}", k, st.usable.brief(), what));
        o = o.label("loads", 1);
        if j.bad() {
            break;
        }
    }
    o = o.sample(what);
    o.verdict = j.verdict();
    o
}
fn valid(b: &[u8]) -> bool {
    // a stored copy is one of the files made here: valid if it is a library with every function
    b.len() > 64 && b[..4] == [0x7f, b'E', b'L', b'F'] && SYMBOLS.iter().all(|s| {
        let mut p = vec![0u8];
        p.extend(s.as_bytes());
        p.push(0);
        b[..template().len()].windows(p.len()).any(|w| w == &p[..])
    })
}
fn salt_of(b: &[u8]) -> u64 {
    let m = MARK.to_le_bytes();
    if b.len() < template().len() {
        return 0;
    }
    for p in find(&template()[..], &m) {
        if p + 24 <= b.len() && b[p + 16..p + 24] == m {
            return u64::from_le_bytes(b[p + 8..p + 16].try_into().unwrap());
        }
    }
    0
}

/// Is this defect recorded in known-findings.txt?
fn listed(tag: &str) -> bool {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    std::fs::read_to_string(Path::new(&root).join("known-findings.txt"))
        .map(|t| t.lines().any(|l| l.starts_with("KNOWN-FINDING: property=C18 ") && l.contains(tag)))
        .unwrap_or(false)
}
/// Loads while an earlier model is still in use (e.g. of another robot).
fn c18_alive(s: &mut Src) -> Outcome {
    let n = s.usize(2, 4);
    let salts: Vec<u64> = (0..n).map(|k| s.u64() | 1 << k | 0x100).collect();
    let drop_first = s.bool();
    let what = format!("{} models loaded and kept, the first dropped before the last query: {}", n, drop_first);
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    let _guard = Guard::new();
    let (sa, sb) = (salts.clone(), salts.clone());
    let run = session(
        1337,
        Duration::from_secs(15),
        move |srv| {
            if !handshake(srv, &St::idle(1)) {
                return;
            }
            let mut k = 0;
            while !srv.gone() {
                match srv.next(Duration::from_millis(5)) {
                    In::Req(r) => {
                        let mut b = vec![0];
                        if r.cmd == LOAD_MODEL_LIBRARY {
                            b.extend(library(sa[k.min(sa.len() - 1)]));
                            k += 1;
                        }
                        srv.send_tcp(&robot_frame(r.cmd, r.id, &b));
                    }
                    In::Closed => return,
                    _ => {}
                }
            }
        },
        move |ip| -> Result<Vec<(usize, bool, bool)>, String> {
            let mut robot = Robot::new(ip, RealtimeConfig::Ignore, None).map_err(|e| format!("connect: {:?}", e))?;
            let mut models = vec![];
            for _ in 0..sb.len() {
                models.push(Some(robot.load_model(false).map_err(|e| format!("load_model: {:?}", e))?));
            }
            if drop_first {
                models[0] = None;
            }
            let mut out = vec![];
            for (k, m) in models.iter().enumerate() {
                if let Some(m) = m {
                    let first = probe(m, sb[0], 3).is_ok();
                    out.push((k, probe(m, sb[k], 3).is_ok(), first));
                }
            }
            Ok(out)
        },
    );
    let out = match run.client {
        ClientEnd::Done(Ok(x)) => x,
        ClientEnd::Done(Err(e)) => return timing(format!("{} ({})", e, what)),
        ClientEnd::Panic(p) => return Outcome { verdict: Verdict::Fail(format!("panicked: {}\n{}", p, what)), nontrivial: false, labels: vec![], sample: None },
        ClientEnd::Hang => return timing(format!("load_model did not return\n{}", what)),
    };
    let mut j = Judge::default();
    let mut known = 0;
    for (k, own, first) in out {
        if !own && first && k > 0 && listed("[model-of-the-first-load]") {
            known += 1;
            continue;
        }
        j.check(own, || format!("model {} does not answer as the library that was sent for it{}\n{}", k, if first { ", but as the first one that is still loaded" } else { "" }, what));
    }
    let mut o = Outcome::pass(true).label("models that answer as the first one (known finding)", known).sample(what);
    o.verdict = j.verdict();
    o
}

/// Files opened directly by the user.
fn c18_open(s: &mut Src) -> Outcome {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let f = File::gen(s);
    let libm = s.weighted(&[4, 1, 1, 1]);
    let missing = s.chance(1, 8);
    let k = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let p = scratch().join(format!("open{}.so", k));
    if !missing {
        std::fs::write(&p, f.bytes()).expect("write");
    }
    let bad = scratch().join("no-such-libm.so");
    let libm_path = match libm {
        0 => None,
        1 => Some(Path::new("libm.so.6")),
        2 => Some(bad.as_path()),
        _ => Some(Path::new("/dev/null")),
    };
    let r = catch(|| Model::new(&p, libm_path));
    let what = format!("{:?}, missing {}, libm {:?}", f, missing, libm_path);
    let mut j = Judge::default();
    match r {
        Err(e) => j.fail(format!("Model::new panicked: {} ({})", e, what)),
        Ok(r) => {
            let (m, res) = res_of(r);
            if !missing && f.valid() && libm < 2 {
                j.check(matches!(res, Res::Ok), || format!("Model::new returned {} for a valid library ({})", res.brief(), what));
            } else {
                j.check(matches!(res, Res::Model(_)), || format!("Model::new returned {} instead of a model error ({})", res.brief(), what));
            }
            if let (Some(m), File::Good(salt, _)) = (m, &f) {
                if let Err(e) = probe(&m, *salt, k) {
                    j.fail(format!("{} ({})", e, what));
                }
            }
            j.check(p.exists() != missing, || format!("Model::new removed the file ({})", what));
        }
    }
    let _ = std::fs::remove_file(&p);
    let mut o = Outcome::pass(true).label(if f.valid() && !missing && libm < 2 { "valid" } else { "invalid" }, 1).sample(what);
    o.verdict = j.verdict();
    o
}

pub fn c18_prop() -> Prop {
    Prop {
        id: "C18",
        level: "exploration",
        rule: "a session with several loads or with at least one download, or one opened file; counted once per distinct choice sequence",
        assumptions: &[
            "the model library is a stand-in; invalid files are random bytes, text, a cut ELF header, nothing, or a library that lacks one function (an ELF file cut behind its header is left out: opening it may crash the dynamic linker)",
            "in the generator 'loads' earlier models are dropped before the next load; loading while they are in use is the generator 'alive', where the recorded finding [model-of-the-first-load] is counted and not reported",
            "a full disk is simulated by a file size limit",
            "an existing /tmp/model.so is put back after every case",
        ],
        subs: vec![
            Sub { name: "loads", quick: 1500, thorough: 30_000, par: 1, f: c18_loads },
            Sub { name: "alive", quick: 150, thorough: 3000, par: 1, f: c18_alive },
            Sub { name: "open", quick: 8000, thorough: 200_000, par: 8, f: c18_open },
        ],
    }
}
