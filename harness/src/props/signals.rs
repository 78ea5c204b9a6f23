//! C24: signals that the process handles interrupt system calls of the library at any moment.
//! Sessions of the other properties, with their oracles, while signals hit the calling thread.
use super::{faults, motion, states, tcp};
use crate::engine::*;
use crate::net::*;

fn stormy(s: &mut Src, f: CaseFn) -> Outcome {
    let (lo, hi) = s.pick(&[(20, 100), (50, 500), (200, 4000)]);
    let st = Storm { seed: s.below(1 << 32), lo, hi };
    set_storm(Some(st));
    let mut o = f(s);
    let hits = set_storm(None);
    let pre = |m: String| format!("with a signal every {} to {} us: {}", lo, hi, m);
    o.verdict = match o.verdict {
        Verdict::Fail(m) => Verdict::Fail(pre(m)),
        Verdict::FailTiming(m) => Verdict::FailTiming(pre(m)),
        v => v,
    };
    o.labels = vec![("signals", hits)];
    o.nontrivial = hits > 0;
    o.sample = o.sample.map(pre);
    o
}

pub fn c24() -> Prop {
    fn nth(p: Prop, name: &str) -> CaseFn {
        p.subs.into_iter().find(|s| s.name == name).expect("sub").f
    }
    // plain functions, so that a replay file names them
    fn motions(s: &mut Src) -> Outcome {
        stormy(s, nth(motion::c09(), "sessions"))
    }
    fn aborts(s: &mut Src) -> Outcome {
        stormy(s, nth(motion::c10(), "sessions"))
    }
    fn histories(s: &mut Src) -> Outcome {
        stormy(s, nth(states::c07(), "histories"))
    }
    fn robot(s: &mut Src) -> Outcome {
        stormy(s, nth(tcp::c13(), "robot"))
    }
    fn gripper(s: &mut Src) -> Outcome {
        stormy(s, nth(tcp::c13(), "gripper"))
    }
    fn connect(s: &mut Src) -> Outcome {
        let f = if s.bool() { nth(tcp::c15(), "robot") } else { nth(tcp::c15(), "gripper") };
        stormy(s, f)
    }
    fn gripper_states(s: &mut Src) -> Outcome {
        stormy(s, nth(tcp::c16(), "states"))
    }
    fn slow(s: &mut Src) -> Outcome {
        stormy(s, nth(tcp::c13(), "slow"))
    }
    fn lost(s: &mut Src) -> Outcome {
        stormy(s, nth(faults::c14(), "commands"))
    }
    fn silence(s: &mut Src) -> Outcome {
        stormy(s, nth(states::c07(), "silence"))
    }
    Prop {
        id: "C24",
        level: "fault_enumeration",
        rule: "sessions of C07, C09, C10, C13, C14, C15 and C16 while a signal with a handler that does nothing hits the calling thread every few ten to few thousand microseconds. Non-trivial: at least one signal was delivered during the session.",
        assumptions: &["signals are directed at the thread that uses the library, and their handler returns"],
        subs: vec![
            Sub { name: "motions", quick: 12_000, thorough: 150_000, par: 8, f: motions },
            Sub { name: "aborts", quick: 3000, thorough: 100_000, par: 8, f: aborts },
            Sub { name: "states", quick: 10_000, thorough: 120_000, par: 8, f: histories },
            Sub { name: "robot", quick: 3000, thorough: 60_000, par: 24, f: robot },
            Sub { name: "gripper", quick: 2000, thorough: 40_000, par: 24, f: gripper },
            Sub { name: "connect", quick: 8000, thorough: 60_000, par: 16, f: connect },
            Sub { name: "gripper_states", quick: 2000, thorough: 40_000, par: 16, f: gripper_states },
            Sub { name: "lost", quick: 8000, thorough: 60_000, par: 32, f: lost },
            Sub { name: "slow", quick: 64, thorough: 3000, par: 64, f: slow },
            Sub { name: "silence", quick: 96, thorough: 1500, par: 48, f: silence },
        ],
    }
}
