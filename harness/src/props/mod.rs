pub mod cadence;
pub mod faults;
pub mod garbage;
pub mod limits;
pub mod model;
pub mod motion;
pub mod pure;
pub mod several;
pub mod signals;
pub mod states;
pub mod steady;
pub mod tcp;
use crate::engine::Prop;

pub fn all() -> Vec<Prop> {
    vec![
        limits::c01(),
        limits::c02(),
        limits::c03(),
        limits::c04(),
        motion::c05(),
        states::c06(),
        states::c07(),
        motion::c08(),
        motion::c09(),
        motion::c10(),
        motion::c11(),
        tcp::c12(),
        tcp::c13(),
        faults::c14(),
        tcp::c15(),
        tcp::c16(),
        model::c17_prop(),
        model::c18_prop(),
        pure::c19(),
        pure::c20(),
        motion::c21(),
        states::c22(),
        motion::c23(),
        signals::c24(),
        garbage::c25(),
        several::c26(),
        cadence::c27(),
        steady::c28(),
    ]
}
