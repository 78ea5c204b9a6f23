//! C26: several robots and grippers used by one program.
use super::tcp::*;
use crate::ctl::*;
use crate::engine::*;
use crate::net::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Clone)]
struct Conn {
    gripper: bool,
    version: u16,
    marker: f64,
    /// id of its first state
    first: u64,
    plan: Arc<Vec<Planned>>,
    cur: Arc<AtomicUsize>,
    /// dropped as soon as its calls are done
    drop_early: bool,
}

type Body = Box<dyn FnOnce(Vec<String>) -> Vec<Slot> + Send>;

/// Servers for all connections; `body` gets their addresses and runs on one thread.
fn nest(mut conns: VecDeque<Conn>, mut addrs: Vec<String>, body: Body) -> Result<(Vec<Slot>, VecDeque<Seen>), String> {
    let c = match conns.pop_front() {
        Some(c) => c,
        None => return Ok((body(addrs), VecDeque::new())),
    };
    let s = session(
        if c.gripper { 1338 } else { 1337 },
        Duration::from_secs(20),
        {
            let c = c.clone();
            move |srv| serve_calls(srv, &c.plan, &c.cur, c.gripper, c.version, &Delivery::default(), c.marker, c.first)
        },
        move |addr| {
            addrs.push(addr.to_string());
            nest(conns, addrs, body)
        },
    );
    let (slots, mut seen) = match s.client {
        ClientEnd::Done(r) => r?,
        ClientEnd::Panic(p) => return Err(format!("!a call panicked: {}", p)),
        ClientEnd::Hang => return Err("a call did not return within 20 s although its response was sent".into()),
    };
    seen.push_front(s.server.ok_or(format!("harness server failed: {:?}", s.server_panic))?);
    Ok((slots, seen))
}

struct Slot {
    c: Conn,
    addr: String,
    client: Option<Client>,
    connected: bool,
    next: usize,
    done: Done,
    odd: Vec<String>,
    nested: u64,
}

struct World {
    slots: RefCell<Vec<Slot>>,
    sched: RefCell<VecDeque<u64>>,
}
impl World {
    /// The next step of one of the connections that are not busy; false if there is none.
    fn step(&self, depth: usize) -> bool {
        let want = self.sched.borrow_mut().pop_front().unwrap_or(0);
        let n = self.slots.borrow().len();
        let i = {
            let s = self.slots.borrow();
            let free = |x: &Slot| !x.connected || (x.client.is_some() && x.next < x.c.plan.len());
            match (0..n).map(|k| (want as usize + k) % n).find(|k| free(&s[*k])) {
                Some(i) => i,
                None => return false,
            }
        };
        let connected = self.slots.borrow()[i].connected;
        if !connected {
            let (addr, gripper) = {
                let mut s = self.slots.borrow_mut();
                s[i].connected = true;
                (s[i].addr.clone(), s[i].c.gripper)
            };
            let mut d = Done { results: vec![], connect: Res::Ok, version: 0 };
            let c = connect_calls(&addr, gripper, &mut d);
            let mut s = self.slots.borrow_mut();
            s[i].done = d;
            s[i].client = c;
            return true;
        }
        let (mut client, call, k, marker) = {
            let mut s = self.slots.borrow_mut();
            let k = s[i].next;
            s[i].next += 1;
            s[i].c.cur.store(k, Ordering::SeqCst);
            (s[i].client.take().unwrap(), s[i].c.plan[k].call.clone(), k, s[i].c.marker)
        };
        let mut odd = vec![];
        let mut nested = 0;
        let (g, r) = call.run_with(&mut client, &mut |st, motion| {
            if st.q != [marker; 7] {
                odd.push(format!("connection {}, call {}: state with q {:?}, the states of this robot have {}", i, k, st.q, marker));
            }
            if motion && depth < 2 {
                let m = self.sched.borrow_mut().pop_front().unwrap_or(0) % 3;
                for _ in 0..m {
                    if self.step(depth + 1) {
                        nested += 1;
                    }
                }
            }
        });
        let mut s = self.slots.borrow_mut();
        let x = &mut s[i];
        x.done.results.push((g, r, Instant::now()));
        x.odd.append(&mut odd);
        x.nested += nested;
        x.client = if x.next == x.c.plan.len() && x.c.drop_early { None } else { Some(client) };
        true
    }
}

fn case(s: &mut Src) -> Outcome {
    let n = s.usize(2, 4);
    let mut conns = VecDeque::new();
    for i in 0..n {
        let gripper = s.chance(1, 3);
        let calls = s.usize(1, 6);
        let mut plan = vec![];
        for _ in 0..calls {
            let mut p = Planned::gen(s, gripper, false);
            if !gripper && s.chance(1, 3) {
                p.call = Call::Motion(s.below(4) as u8);
                p.status = vec![0; p.call.requests().len()];
            }
            plan.push(p);
        }
        conns.push_back(Conn {
            gripper,
            version: s.below(100) as u16,
            marker: 0.25 * (i + 1) as f64,
            first: if s.bool() { 1 } else { 1 + s.below(1 << 40) },
            plan: Arc::new(plan),
            cur: Arc::new(AtomicUsize::new(usize::MAX)),
            drop_early: s.chance(1, 3),
        });
    }
    let sched: VecDeque<u64> = (0..60).map(|_| s.below(12)).collect();
    let what = format!(
        "connections {:?}, order {:?}",
        conns.iter().map(|c| (if c.gripper { "gripper" } else { "robot" }, c.plan.iter().map(|p| format!("{:?}", p.call).chars().take(14).collect::<String>()).collect::<Vec<_>>())).collect::<Vec<_>>(),
        sched
    );
    let all: Vec<Conn> = conns.iter().cloned().collect();
    let c2 = all.clone();
    let r = nest(
        conns,
        vec![],
        Box::new(move |addrs| {
            let slots = c2
                .into_iter()
                .zip(addrs)
                .map(|(c, addr)| Slot { c, addr, client: None, connected: false, next: 0, done: Done { results: vec![], connect: Res::Ok, version: 0 }, odd: vec![], nested: 0 })
                .collect();
            let w = World { slots: RefCell::new(slots), sched: RefCell::new(sched) };
            while w.step(0) {}
            let mut v = w.slots.into_inner();
            for x in v.iter_mut() {
                x.client = None;
            }
            v
        }),
    );
    let (slots, seen) = match r {
        Ok(x) => x,
        Err(e) => {
            return match e.strip_prefix('!') {
                Some(p) => Outcome { verdict: Verdict::Fail(format!("{}\ncase: {}", p, what)), nontrivial: false, labels: vec![], sample: Some(what) },
                None => timing(format!("{}\ncase: {}", e, what)),
            }
        }
    };
    let mut j = Judge::default();
    let mut nested = 0;
    let mut cmds = 0;
    for (i, (x, seen)) in slots.iter().zip(&seen).enumerate() {
        let mut one = Judge::default();
        judge_calls(&mut one, &x.c.plan, &x.done, seen, x.c.gripper, x.c.version);
        match one.verdict() {
            Verdict::Fail(m) => j.fail(format!("connection {}: {}\ncase: {}", i, m, what)),
            Verdict::FailTiming(m) => j.timing(format!("connection {}: {}\ncase: {}", i, m, what)),
            _ => {}
        }
        for o in &x.odd {
            j.fail(format!("{}\ncase: {}", o, what));
        }
        let mut last = 0;
        for c in &seen.cmds {
            // the callback returns the desired position of the state it sees
            if c.q.iter().any(|q| (q - x.c.marker).abs() > 1e-9) {
                j.fail(format!("connection {}: command with q {:?}, the motion of this robot is at {}\ncase: {}", i, c.q, x.c.marker, what));
            }
            j.check(c.id >= last, || format!("connection {}: command id {} after {}\ncase: {}", i, c.id, last, what));
            last = c.id;
        }
        nested += x.nested;
        cmds += seen.cmds.len() as u64;
    }
    let mut o = Outcome::pass(true)
        .label("connections", slots.len() as u64)
        .label("steps of another connection inside a motion callback", nested)
        .label("motion commands", cmds)
        .label("calls", slots.iter().map(|x| x.done.results.len() as u64).sum())
        .sample(what);
    o.verdict = j.verdict();
    o
}

pub fn c26() -> Prop {
    Prop {
        id: "C26",
        level: "exploration",
        rule: "one thread uses two to four robots and grippers: connecting, commands, reads and motions in a generated order, among them steps of other connections inside the callbacks of a motion (nested up to two deep), connections dropped while others go on. Every connection is judged on its own as in C12 and C16; states and commands carry a mark of their robot. Non-trivial: every case.",
        assumptions: &["each simulated robot answers promptly"],
        subs: vec![Sub { name: "interleaved", quick: 15_000, thorough: 400_000, par: 8, f: case }],
    }
}
