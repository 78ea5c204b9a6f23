//! Independent implementation of the FCI wire format (little endian, packed), written from the
//! protocol description, not from the library's types.
#![allow(non_snake_case)]
use franka::RobotState;

pub struct W(pub Vec<u8>);
impl W {
    pub fn new() -> W {
        W(vec![])
    }
    pub fn u8(&mut self, v: u8) -> &mut W {
        self.0.push(v);
        self
    }
    pub fn u16(&mut self, v: u16) -> &mut W {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn u32(&mut self, v: u32) -> &mut W {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn u64(&mut self, v: u64) -> &mut W {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn f64(&mut self, v: f64) -> &mut W {
        self.0.extend_from_slice(&v.to_bits().to_le_bytes());
        self
    }
    pub fn f64s(&mut self, v: &[f64]) -> &mut W {
        for x in v {
            self.f64(*x);
        }
        self
    }
}
pub struct R<'a>(pub &'a [u8]);
impl<'a> R<'a> {
    fn take(&mut self, n: usize) -> &'a [u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    pub fn u8(&mut self) -> u8 {
        self.take(1)[0]
    }
    pub fn u16(&mut self) -> u16 {
        u16::from_le_bytes(self.take(2).try_into().unwrap())
    }
    pub fn u32(&mut self) -> u32 {
        u32::from_le_bytes(self.take(4).try_into().unwrap())
    }
    pub fn u64(&mut self) -> u64 {
        u64::from_le_bytes(self.take(8).try_into().unwrap())
    }
    pub fn f64(&mut self) -> f64 {
        f64::from_bits(u64::from_le_bytes(self.take(8).try_into().unwrap()))
    }
    pub fn arr<const N: usize>(&mut self) -> [f64; N] {
        let mut a = [0.; N];
        for x in a.iter_mut() {
            *x = self.f64();
        }
        a
    }
    pub fn left(&self) -> usize {
        self.0.len()
    }
}

// ---- robot command numbers -------------------------------------------------------------------
pub const CONNECT: u32 = 0;
pub const MOVE: u32 = 1;
pub const STOP_MOVE: u32 = 2;
pub const GET_CARTESIAN_LIMIT: u32 = 3;
pub const SET_COLLISION_BEHAVIOR: u32 = 4;
pub const SET_JOINT_IMPEDANCE: u32 = 5;
pub const SET_CARTESIAN_IMPEDANCE: u32 = 6;
pub const SET_GUIDING_MODE: u32 = 7;
pub const SET_EE_TO_K: u32 = 8;
pub const SET_NE_TO_EE: u32 = 9;
pub const SET_LOAD: u32 = 10;
pub const SET_FILTERS: u32 = 11;
pub const AUTOMATIC_ERROR_RECOVERY: u32 = 12;
pub const LOAD_MODEL_LIBRARY: u32 = 13;

pub const MG_IDLE: u8 = 0;
pub const MG_JP: u8 = 1;
pub const MG_JV: u8 = 2;
pub const MG_CP: u8 = 3;
pub const MG_CV: u8 = 4;
pub const CM_JI: u8 = 0;
pub const CM_CI: u8 = 1;
pub const CM_EXT: u8 = 2;
pub const CM_OTHER: u8 = 3;
pub const RM_OTHER: u8 = 0;
pub const RM_IDLE: u8 = 1;
pub const RM_MOVE: u8 = 2;
pub const RM_GUIDING: u8 = 3;
pub const RM_REFLEX: u8 = 4;
pub const RM_USERSTOPPED: u8 = 5;
pub const RM_AER: u8 = 6;
pub const RM_NAMES: [&str; 7] =
    ["Other", "Idle", "Move", "Guiding", "Reflex", "UserStopped", "AutomaticErrorRecovery"];

pub const MS_SUCCESS: u8 = 0;
pub const MS_STARTED: u8 = 1;
pub const MS_REFLEX: u8 = 6;

pub const ERROR_NAMES: [&str; 41] = [
    "JointPositionLimitsViolation",
    "CartesianPositionLimitsViolation",
    "SelfCollisionAvoidanceViolation",
    "JointVelocityViolation",
    "CartesianVelocityViolation",
    "ForceControlSafetyViolation",
    "JointReflex",
    "CartesianReflex",
    "MaxGoalPoseDeviationViolation",
    "MaxPathPoseDeviationViolation",
    "CartesianVelocityProfileSafetyViolation",
    "JointPositionMotionGeneratorStartPoseInvalid",
    "JointMotionGeneratorPositionLimitsViolation",
    "JointMotionGeneratorVelocityLimitsViolation",
    "JointMotionGeneratorVelocityDiscontinuity",
    "JointMotionGeneratorAccelerationDiscontinuity",
    "CartesianPositionMotionGeneratorStartPoseInvalid",
    "CartesianMotionGeneratorElbowLimitViolation",
    "CartesianMotionGeneratorVelocityLimitsViolation",
    "CartesianMotionGeneratorVelocityDiscontinuity",
    "CartesianMotionGeneratorAccelerationDiscontinuity",
    "CartesianMotionGeneratorElbowSignInconsistent",
    "CartesianMotionGeneratorStartElbowInvalid",
    "ForceControllerDesiredForceToleranceViolation",
    "StartElbowSignInconsistent",
    "CommunicationConstraintsViolation",
    "PowerLimitViolation",
    "CartesianMotionGeneratorJointPositionLimitsViolation",
    "CartesianMotionGeneratorJointVelocityLimitsViolation",
    "CartesianMotionGeneratorJointVelocityDiscontinuity",
    "CartesianMotionGeneratorJointAccelerationDiscontinuity",
    "CartesianPositionMotionGeneratorInvalidFrame",
    "ControllerTorqueDiscontinuity",
    "JointP2PInsufficientTorqueForPlanning",
    "TauJRangeViolation",
    "InstabilityDetection",
    "JointMoveInWrongDirection",
    "CartesianSplineViolation",
    "JointViaPlanLimitViolation",
    "BaseAccelerationInitializationTimeout",
    "BaseAccelerationInvalidReading",
];

macro_rules! state_def {
    ( $( $kind:ident $name:ident $n:expr ; )* ) => {
        /// One robot state datagram.
        #[derive(Clone, Debug)]
        pub struct St {
            pub id: u64,
            $( pub $name: [f64; $n], )*
            pub mg: u8,
            pub cm: u8,
            pub errors: [bool; 41],
            pub reflex: [bool; 41],
            pub rm: u8,
            pub rate: f64,
        }
        impl St {
            pub fn zero(id: u64) -> St {
                St { id, $( $name: [0.0; $n], )* mg: MG_IDLE, cm: CM_OTHER, errors: [false; 41],
                     reflex: [false; 41], rm: RM_IDLE, rate: 0.0 }
            }
            pub fn encode(&self) -> Vec<u8> {
                let mut w = W::new();
                w.u64(self.id);
                $( w.f64s(&self.$name); )*
                w.u8(self.mg).u8(self.cm);
                for b in self.errors.iter() { w.u8(*b as u8); }
                for b in self.reflex.iter() { w.u8(*b as u8); }
                w.u8(self.rm).f64(self.rate);
                w.0
            }
            pub fn fill(&mut self, mut f: impl FnMut(&'static str) -> f64) {
                $( for x in self.$name.iter_mut() { *x = f(stringify!($name)); } )*
            }
            /// Compares everything the state type exposes directly, bit by bit.
            pub fn diff_fields(&self, s: &RobotState) -> Result<(), String> {
                $( state_def!(@cmp $kind $name self s); )*
                Ok(())
            }
        }
        pub const STATE_F64_FIELDS: &[(&str, usize)] = &[ $( (stringify!($name), $n) ),* ];
    };
    (@cmp a $name:ident $me:ident $s:ident) => {
        for i in 0..$me.$name.len() {
            if $me.$name[i].to_bits() != $s.$name[i].to_bits() {
                return Err(format!("{}[{}]: robot sent {:?} ({:#x}), state has {:?} ({:#x})", stringify!($name), i,
                    $me.$name[i], $me.$name[i].to_bits(), $s.$name[i], $s.$name[i].to_bits()));
            }
        }
    };
    (@cmp s $name:ident $me:ident $s:ident) => {
        if $me.$name[0].to_bits() != $s.$name.to_bits() {
            return Err(format!("{}: robot sent {:?}, state has {:?}", stringify!($name), $me.$name[0], $s.$name));
        }
    };
}
state_def! {
    a O_T_EE 16; a O_T_EE_d 16; a F_T_EE 16; a EE_T_K 16; a F_T_NE 16; a NE_T_EE 16;
    s m_ee 1; a I_ee 9; a F_x_Cee 3; s m_load 1; a I_load 9; a F_x_Cload 3;
    a elbow 2; a elbow_d 2; a tau_J 7; a tau_J_d 7; a dtau_J 7; a q 7; a q_d 7; a dq 7; a dq_d 7; a ddq_d 7;
    a joint_contact 7; a cartesian_contact 6; a joint_collision 7; a cartesian_collision 6;
    a tau_ext_hat_filtered 7; a O_F_ext_hat_K 6; a K_F_ext_hat_K 6; a O_dP_EE_d 6; a O_ddP_O 3;
    a elbow_c 2; a delbow_c 2; a ddelbow_c 2; a O_T_EE_c 16; a O_dP_EE_c 6; a O_ddP_EE_c 6;
    a theta 7; a dtheta 7;
}

pub const IDENT16: [f64; 16] = [1., 0., 0., 0., 0., 1., 0., 0., 0., 0., 1., 0., 0., 0., 0., 1.];

impl St {
    pub fn idle(id: u64) -> St {
        let mut s = St::zero(id);
        for m in [&mut s.O_T_EE, &mut s.O_T_EE_d, &mut s.F_T_EE, &mut s.EE_T_K, &mut s.F_T_NE, &mut s.NE_T_EE, &mut s.O_T_EE_c] {
            *m = IDENT16;
        }
        s.elbow_c = [0.0, 1.0];
        s
    }
    pub fn modes(mut self, mg: u8, cm: u8, rm: u8) -> St {
        self.mg = mg;
        self.cm = cm;
        self.rm = rm;
        self
    }
    /// Everything a delivered state shows except the derived mass properties.
    pub fn diff(&self, s: &RobotState) -> Result<(), String> {
        if s.time != std::time::Duration::from_millis(self.id) {
            return Err(format!("time: robot sent id {}, state has {:?}", self.id, s.time));
        }
        self.diff_fields(s)?;
        if format!("{:?}", s.robot_mode) != RM_NAMES[self.rm as usize] {
            return Err(format!("robot_mode: sent {}, state has {:?}", RM_NAMES[self.rm as usize], s.robot_mode));
        }
        if s.control_command_success_rate.to_bits() != self.rate.to_bits() {
            return Err(format!("control_command_success_rate: sent {}, got {}", self.rate, s.control_command_success_rate));
        }
        let names = |f: &[bool; 41]| -> Vec<String> {
            f.iter().enumerate().filter(|(_, b)| **b).map(|(i, _)| ERROR_NAMES[i].to_string()).collect()
        };
        let got = |e: &franka::robot::errors::FrankaErrors| -> Vec<String> {
            e.franka_errors.iter().map(|x| format!("{:?}", x)).collect()
        };
        let (mut a, mut b) = (names(&self.errors), got(&s.current_errors));
        a.sort();
        b.sort();
        if a != b {
            return Err(format!("current_errors: robot sent {:?}, state has {:?}", a, b));
        }
        let (mut a, mut b) = (names(&self.reflex), got(&s.last_motion_errors));
        a.sort();
        b.sort();
        if a != b {
            return Err(format!("last_motion_errors: robot sent {:?}, state has {:?}", a, b));
        }
        Ok(())
    }
}

/// One command datagram.
#[derive(Clone, Debug, PartialEq)]
pub struct Cmd {
    pub id: u64,
    pub q: [f64; 7],
    pub dq: [f64; 7],
    pub pose: [f64; 16],
    pub twist: [f64; 6],
    pub elbow: [f64; 2],
    pub valid_elbow: bool,
    pub finished: bool,
    pub tau: [f64; 7],
}
pub const CMD_SIZE: usize = 8 + 8 * (7 + 7 + 16 + 6 + 2) + 2 + 56;
impl Cmd {
    pub fn decode(b: &[u8]) -> Result<Cmd, String> {
        if b.len() != CMD_SIZE {
            return Err(format!("command datagram has {} bytes, expected {}", b.len(), CMD_SIZE));
        }
        let mut r = R(b);
        let id = r.u64();
        let q = r.arr();
        let dq = r.arr();
        let pose = r.arr();
        let twist = r.arr();
        let elbow = r.arr();
        let ve = r.u8();
        let fin = r.u8();
        let tau = r.arr();
        if ve > 1 || fin > 1 {
            return Err(format!("command datagram flags not boolean: {} {}", ve, fin));
        }
        Ok(Cmd { id, q, dq, pose, twist, elbow, valid_elbow: ve == 1, finished: fin == 1, tau })
    }
}

/// A request frame as received by the server.
#[derive(Clone, Debug, PartialEq)]
pub struct Req {
    pub cmd: u32,
    pub id: u32,
    pub size: u32,
    pub body: Vec<u8>,
}

pub fn robot_frame(cmd: u32, id: u32, body: &[u8]) -> Vec<u8> {
    let mut w = W::new();
    w.u32(cmd).u32(id).u32(12 + body.len() as u32);
    w.0.extend_from_slice(body);
    w.0
}
pub fn gripper_frame(cmd: u16, id: u32, body: &[u8]) -> Vec<u8> {
    let mut w = W::new();
    w.u16(cmd).u32(id).u32(10 + body.len() as u32);
    w.0.extend_from_slice(body);
    w.0
}

pub fn bits_eq(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits())
}
/// Numerically equal, with -0.0 == 0.0
pub fn num_eq(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y)
}
pub fn max_abs_diff(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| (x - y).abs()).fold(0.0, |m, d| if d > m || d.is_nan() { d } else { m })
}
