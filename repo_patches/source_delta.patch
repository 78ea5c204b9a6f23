From 790cbfbe810e9a754a538c7f67be28689e592ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:22 +0000
Subject: [PATCH 01/25] fix: keep the control log in chronological order and
 drop it on flush

After the ring buffer had wrapped, flush() returned the records rotated, it
kept stale records for the next motion, and a log size of zero panicked.
---
 src/robot/logger.rs | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/src/robot/logger.rs b/src/robot/logger.rs
index db4fb76..f918a89 100644
--- a/src/robot/logger.rs
+++ b/src/robot/logger.rs
@@ -49,8 +49,6 @@ impl Record {
 pub(crate) struct Logger {
     states: VecDeque<RobotState>,
     commands: VecDeque<RobotCommand>,
-    ring_front: usize,
-    ring_size: usize,
     log_size: usize,
 }
 
@@ -59,26 +57,20 @@ impl Logger {
         Logger {
             states: VecDeque::with_capacity(log_size),
             commands: VecDeque::with_capacity(log_size),
-            ring_front: 0,
-            ring_size: 0,
             log_size,
         }
     }
     pub fn log(&mut self, state: &RobotState, command: &RobotCommand) {
         self.states.push_back(state.clone());
         self.commands.push_back(*command);
-        self.ring_front = (self.ring_front + 1) % self.log_size;
-        if self.ring_size == self.log_size {
+        if self.states.len() > self.log_size {
             self.states.pop_front();
             self.commands.pop_front();
         }
-        self.ring_size = usize::min(self.log_size, self.ring_size + 1);
     }
     pub fn flush(&mut self) -> Vec<Record> {
         let mut out: Vec<Record> = Vec::new();
-        for i in 0..self.ring_size {
-            let index = (self.ring_front + i) % self.ring_size;
-            let cmd = self.commands.get(index).unwrap();
+        for (state, cmd) in self.states.drain(..).zip(self.commands.drain(..)) {
             let command = RobotCommandLog {
                 joint_positions: JointPositions::new(cmd.motion.q_c),
                 joint_velocities: JointVelocities::new(cmd.motion.dq_c),
@@ -86,14 +78,8 @@ impl Logger {
                 cartesian_velocities: CartesianVelocities::new(cmd.motion.O_dP_EE_c, None),
                 torques: Torques::new(cmd.control.tau_J_d),
             };
-            let record = Record {
-                state: self.states.get(index).unwrap().clone(),
-                command,
-            };
-            out.push(record);
+            out.push(Record { state, command });
         }
-        self.ring_front = 0;
-        self.ring_size = 0;
         out
     }
 }
-- 
2.43.0


From 6753918c25d8874dac7557b4917c0f316793566a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:22 +0000
Subject: [PATCH 02/25] fix: use the total inertia in
 Model::coriolis_from_state

---
 src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.rs b/src/model.rs
index 191fc13..b561c95 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -347,7 +347,7 @@ impl Model {
         self.coriolis(
             &robot_state.q,
             &robot_state.dq,
-            &robot_state.I_load,
+            &robot_state.I_total,
             robot_state.m_total,
             &robot_state.F_x_Ctotal,
         )
-- 
2.43.0


From ad315e44b0595d4c8be0bb5226453e4616a4e98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:22 +0000
Subject: [PATCH 03/25] fix: do not leave a downloaded model behind if it
 should not be persistent

---
 src/robot/robot_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index 1db48ad..02eb0f6 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -237,7 +237,7 @@ impl RobotImpl {
             LibraryDownloader::download(&mut self.network, model_file)?;
         }
         let model = Model::new(model_file, None)?;
-        if !persistent && model_already_downloaded {
+        if !persistent {
             remove_file(model_file).expect("Could not delete file");
         }
         Ok(model)
-- 
2.43.0


From a05321ed5e629c035f341ef98b21b91a81879f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:22 +0000
Subject: [PATCH 04/25] fix: close the bracket when displaying an empty error
 list

---
 src/robot/errors.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/robot/errors.rs b/src/robot/errors.rs
index 8b2d077..f45b9cd 100644
--- a/src/robot/errors.rs
+++ b/src/robot/errors.rs
@@ -56,10 +56,10 @@ impl fmt::Display for FrankaErrors {
                     write!(f, "\"{}\", ", error)?;
                 }
                 None => {
-                    return write!(f, "\"{}\"]", error);
+                    write!(f, "\"{}\"", error)?;
                 }
             }
         }
-        Ok(())
+        write!(f, "]")
     }
 }
-- 
2.43.0


From 1013fb865d7c216d58d5aff9d81594318cacca3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:22 +0000
Subject: [PATCH 05/25] fix: reject a cutoff frequency of zero as documented

---
 src/robot/low_pass_filter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/robot/low_pass_filter.rs b/src/robot/low_pass_filter.rs
index 8c3ab5f..88b3b11 100644
--- a/src/robot/low_pass_filter.rs
+++ b/src/robot/low_pass_filter.rs
@@ -28,7 +28,7 @@ pub static DEFAULT_CUTOFF_FREQUENCY: f64 = 100.0;
 /// Filtered value.
 pub fn low_pass_filter(sample_time: f64, y: f64, y_last: f64, cutoff_frequency: f64) -> f64 {
     assert!(sample_time.is_sign_positive() && sample_time.is_finite());
-    assert!(cutoff_frequency.is_sign_positive() && cutoff_frequency.is_finite());
+    assert!(cutoff_frequency > 0. && cutoff_frequency.is_finite());
     assert!(y.is_finite() && y_last.is_finite());
     let gain = sample_time / (sample_time + (1.0 / (2.0 * PI * cutoff_frequency)));
     gain * y + (1. - gain) * y_last
@@ -57,7 +57,7 @@ pub fn cartesian_low_pass_filter(
     cutoff_frequency: f64,
 ) -> [f64; 16] {
     assert!(sample_time.is_sign_positive() && sample_time.is_finite());
-    assert!(cutoff_frequency.is_sign_positive() && cutoff_frequency.is_finite());
+    assert!(cutoff_frequency > 0. && cutoff_frequency.is_finite());
     y.iter()
         .zip(y_last.iter())
         .for_each(|(i, j)| assert!(i.is_finite() && j.is_finite()));
-- 
2.43.0


From 925c7fa3adc55cc12aac65ffb1d3aa61c3120907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:22 +0000
Subject: [PATCH 06/25] fix: convert rotations by exactly 180 degrees correctly

---
 src/utils.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index a6136ae..c61aefa 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -9,11 +9,14 @@ use std::time::Duration;
 
 /// converts a 4x4 column-major homogenous matrix to an Isometry
 pub fn array_to_isometry(array: &[f64; 16]) -> Isometry3<f64> {
-    let rot = Rotation3::from_matrix(
-        &Matrix4::from_column_slice(array)
+    let mut rot = Rotation3::from_matrix_unchecked(
+        Matrix4::from_column_slice(array)
             .remove_column(3)
             .remove_row(3),
     );
+    // Rotation3::from_matrix starts at the identity and does not leave it for some rotations by
+    // 180 degrees
+    rot.renormalize();
     Isometry3::from_parts(
         Vector3::new(array[12], array[13], array[14]).into(),
         rot.into(),
-- 
2.43.0


From bdd729e1b73a924bbcb909a4b5deee2727e792fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:22 +0000
Subject: [PATCH 07/25] fix: return a ControlException instead of panicking if
 a motion is already running

---
 src/robot/robot_impl.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index 02eb0f6..ea776ce 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -292,7 +292,10 @@ impl RobotControl for RobotImpl {
         maximum_goal_deviation: &MoveDeviation,
     ) -> FrankaResult<u32> {
         if self.motion_generator_running() || self.controller_running() {
-            panic!("libfranka-rs robot: Attempted to start multiple motions!");
+            return Err(FrankaException::ControlException {
+                log: None,
+                error: String::from("libfranka-rs robot: Attempted to start multiple motions!"),
+            });
         }
         self.current_move_motion_generator_mode = match motion_generator_mode {
             MoveMotionGeneratorMode::JointPosition => MotionGeneratorMode::JointPosition,
-- 
2.43.0


From aaadbbae937221d34b3e45a7972e6ad8ad8ddf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:22 +0000
Subject: [PATCH 08/25] fix: return a NetworkException if no robot state
 arrives after connecting

---
 src/robot/robot_impl.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index ea776ce..da69270 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -112,8 +112,7 @@ impl RobotImpl {
         robot_impl.connect_robot()?;
         let state = robot_impl
             .network
-            .udp_blocking_receive::<RobotStateIntern>()
-            .unwrap();
+            .udp_blocking_receive::<RobotStateIntern>()?;
         robot_impl.update_state_with(&state);
         Ok(robot_impl)
     }
-- 
2.43.0


From 0d9fd9aeb67c0b96436654c30133e225d4ec025b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:22 +0000
Subject: [PATCH 09/25] fix: return a NetworkException if the address cannot be
 resolved

---
 src/network.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/network.rs b/src/network.rs
index ec999ea..68e7879 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -69,7 +69,10 @@ impl Network {
         franka_port: u16,
     ) -> Result<Network, Box<dyn Error>> {
         let address_str: String = format!("{}:{}", franka_address, franka_port);
-        let sock_address = address_str.to_socket_addrs().unwrap().next().unwrap();
+        let sock_address = address_str
+            .to_socket_addrs()?
+            .next()
+            .ok_or("address could not be resolved")?;
         let mut tcp_socket = TcpStream::from_std(StdTcpStream::connect(sock_address)?);
         let fd = tcp_socket.as_raw_fd();
 
-- 
2.43.0


From 5997b2a36fd3d530cdbfe01ca67f3bfe80326600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:50 +0000
Subject: [PATCH 10/25] fix: deliver UDP datagrams one at a time

udp_blocking_receive() emptied the socket into the buffer of the datagram it
returned, so a state was replaced by (or mixed with) later datagrams.
---
 src/network.rs | 57 +++++++++++++++++++++++---------------------------
 1 file changed, 26 insertions(+), 31 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index 68e7879..f353fb8 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -8,13 +8,13 @@ extern crate nix;
 use std::collections::HashMap;
 use std::error::Error;
 use std::fmt::Debug;
-use std::io::{Read, Write};
+use std::io::{ErrorKind, Read, Write};
 use std::mem::size_of;
 use std::net::TcpStream as StdTcpStream;
 use std::net::{IpAddr, SocketAddr, ToSocketAddrs};
 use std::os::unix::io::AsRawFd;
 use std::str::FromStr;
-use std::time::Duration;
+use std::time::{Duration, Instant};
 
 use mio::net::{TcpStream, UdpSocket};
 use mio::{Events, Interest, Poll, Token};
@@ -266,39 +266,34 @@ impl Network {
     pub fn udp_blocking_receive<T: Debug + Serialize + DeserializeOwned + 'static>(
         &mut self,
     ) -> FrankaResult<T> {
-        self.poll_read_udp
-            .poll(&mut self.events_udp, Some(self.udp_timeout))
-            .unwrap();
-        for event in self.events_udp.iter() {
-            match event.token() {
-                CLIENT => {
-                    if event.is_readable() {
-                        let mut buffer: Vec<u8> = vec![0; size_of::<T>()];
-                        let read_bytes_and_address = self.udp_socket.recv_from(&mut buffer);
-                        while self.udp_socket.recv_from(&mut buffer).is_ok() {}
-                        let read_bytes = match read_bytes_and_address {
-                            Ok(res) => {
-                                self.udp_server_address = res.1;
-                                res.0
-                            }
-                            Err(e) => {
-                                return Err(FrankaException::NetworkException {
-                                    message: e.to_string(),
-                                });
-                            }
-                        };
-                        if read_bytes != size_of::<T>() {
-                            return Err(FrankaException::NetworkException { message: format!("UDP object could not be received: object has {} bytes but it should have {} bytes", read_bytes, size_of::<T>()) });
-                        }
-                        return Ok(deserialize(&buffer));
+        let deadline = Instant::now() + self.udp_timeout;
+        let mut buffer: Vec<u8> = vec![0; size_of::<T>()];
+        loop {
+            match self.udp_socket.recv_from(&mut buffer) {
+                Ok((read_bytes, address)) => {
+                    self.udp_server_address = address;
+                    if read_bytes != size_of::<T>() {
+                        return Err(FrankaException::NetworkException { message: format!("UDP object could not be received: object has {} bytes but it should have {} bytes", read_bytes, size_of::<T>()) });
                     }
+                    return Ok(deserialize(&buffer));
+                }
+                Err(e) if e.kind() == ErrorKind::WouldBlock => {}
+                Err(e) => {
+                    return Err(FrankaException::NetworkException {
+                        message: e.to_string(),
+                    });
                 }
-                _ => unreachable!(),
             }
+            let now = Instant::now();
+            if now >= deadline {
+                return Err(FrankaException::NetworkException {
+                    message: "libfranka-rs: UDP receive: timeout".to_string(),
+                });
+            }
+            self.poll_read_udp
+                .poll(&mut self.events_udp, Some(deadline - now))
+                .unwrap();
         }
-        Err(FrankaException::NetworkException {
-            message: "libfranka-rs: UDP receive: timeout".to_string(),
-        })
     }
     pub fn udp_send<T: Debug + Serialize + DeserializeOwned>(
         &mut self,
-- 
2.43.0


From 914936c03db429a9513cca9c170ed54074ccacf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:52 +0000
Subject: [PATCH 11/25] fix: receive TCP responses however they are fragmented
 or coalesced

A response behind another one in the receive buffer was not read until more
data arrived, and a fragment ending behind the header panicked.
---
 src/network.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index f353fb8..c7ea79c 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -314,6 +314,12 @@ impl Network {
     }
 
     fn tcp_read_from_buffer(&mut self, timeout: Duration) {
+        // Events are edge-triggered, but only one message is read per event. Re-arm the socket so
+        // that data which is still there is reported again.
+        self.poll_read
+            .registry()
+            .reregister(&mut self.tcp_socket, CLIENT, Interest::READABLE)
+            .unwrap();
         self.poll_read
             .poll(&mut self.events, Some(timeout))
             .unwrap();
@@ -323,7 +329,7 @@ impl Network {
                     if event.is_readable() {
                         let mut buffer = [0_u8; 70000];
                         let available_bytes = self.tcp_socket.peek(&mut buffer);
-                        let available_bytes = match available_bytes {
+                        let mut available_bytes = match available_bytes {
                             Ok(a) => a,
                             Err(e) => {
                                 eprintln!("{}", e);
@@ -341,6 +347,7 @@ impl Network {
                                 self.tcp_socket.read_exact(&mut header_bytes).unwrap();
                                 self.pending_response.append(&mut header_bytes.clone());
                                 self.pending_response_offset = header_mem_size as usize;
+                                available_bytes -= header_mem_size;
                                 match self.network_type {
                                     NetworkType::Gripper => {
                                         let header: CommandHeader = deserialize(&header_bytes);
@@ -355,7 +362,7 @@ impl Network {
                                 };
                             }
                         }
-                        if !self.pending_response.is_empty() && available_bytes > 0 {
+                        if !self.pending_response.is_empty() {
                             let number_of_bytes_to_read = usize::min(
                                 available_bytes,
                                 self.pending_response_len - self.pending_response_offset as usize,
-- 
2.43.0


From 8f5af6483ffd1e4163a1a7063754424e852fa05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:53 +0000
Subject: [PATCH 12/25] fix: return a NetworkException when the TCP connection
 is lost

A connection closed or reset by the robot made every pending command panic or
wait forever.
---
 src/gripper.rs                  | 20 ++++++------
 src/model/library_downloader.rs |  2 +-
 src/network.rs                  | 57 ++++++++++++++++++++-------------
 src/robot.rs                    | 44 ++++++++++++-------------
 src/robot/robot_impl.rs         | 20 ++++++------
 5 files changed, 77 insertions(+), 66 deletions(-)

diff --git a/src/gripper.rs b/src/gripper.rs
index ae99df1..22117d4 100644
--- a/src/gripper.rs
+++ b/src/gripper.rs
@@ -51,9 +51,9 @@ impl Gripper {
                 .create_header_for_gripper(Command::Connect, size_of::<ConnectRequestWithHeader>()),
             request: ConnectRequest::new(self.network.get_udp_port()),
         };
-        let command_id: u32 = self.network.tcp_send_request(connect_command);
+        let command_id: u32 = self.network.tcp_send_request(connect_command)?;
         let connect_response: ConnectResponse =
-            self.network.tcp_blocking_receive_response(command_id);
+            self.network.tcp_blocking_receive_response(command_id)?;
         match connect_response.status {
             Status::Success => {
                 self.ri_version = Some(connect_response.version);
@@ -81,8 +81,8 @@ impl Gripper {
                 .create_header_for_gripper(Command::Move, size_of::<MoveRequestWithHeader>()),
             request: MoveRequest::new(width, speed),
         };
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: MoveResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: MoveResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_response_status(&response.status)
     }
     /// Performs homing of the gripper.
@@ -99,8 +99,8 @@ impl Gripper {
         let command: HomingRequestWithHeader = self
             .network
             .create_header_for_gripper(Command::Homing, size_of::<HomingRequestWithHeader>());
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: HomingResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: HomingResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_response_status(&response.status)
     }
 
@@ -114,8 +114,8 @@ impl Gripper {
         let command: StopRequestWithHeader = self
             .network
             .create_header_for_gripper(Command::Stop, size_of::<StopRequestWithHeader>());
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: StopResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: StopResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_response_status(&response.status)
     }
 
@@ -152,8 +152,8 @@ impl Gripper {
                 .create_header_for_gripper(Command::Grasp, size_of::<GraspRequestWithHeader>()),
             request: GraspRequest::new(width, speed, force, epsilon_inner, epsilon_outer),
         };
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: GraspResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: GraspResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_response_status(&response.status)
     }
     /// Waits for a gripper state update and returns it.
diff --git a/src/model/library_downloader.rs b/src/model/library_downloader.rs
index 5a7b99d..89f3f6e 100644
--- a/src/model/library_downloader.rs
+++ b/src/model/library_downloader.rs
@@ -30,7 +30,7 @@ impl LibraryDownloader {
                     system: LoadModelLibrarySystem::Linux,
                 },
             };
-            let command_id: u32 = network.tcp_send_request(command);
+            let command_id: u32 = network.tcp_send_request(command)?;
             let mut buffer = Vec::<u8>::new();
             let _response: LoadModelLibraryResponse =
                 network.tcp_blocking_receive_load_library_response(command_id, &mut buffer)?;
diff --git a/src/network.rs b/src/network.rs
index c7ea79c..8fcf5c0 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -144,10 +144,12 @@ impl Network {
     pub fn tcp_send_request<T: Serialize + DeserializeOwned + MessageCommand + Debug>(
         &mut self,
         request: T,
-    ) -> u32 {
+    ) -> FrankaResult<u32> {
         let encoded_request = serialize(&request);
-        self.tcp_socket.write_all(&encoded_request).unwrap();
-        request.get_command_message_id()
+        self.tcp_socket
+            .write_all(&encoded_request)
+            .map_err(tcp_exception)?;
+        Ok(request.get_command_message_id())
     }
     /// Blocks until a Response message with the given command ID has been received and returns this
     /// response.
@@ -157,9 +159,9 @@ impl Network {
     pub fn tcp_blocking_receive_response<T: DeserializeOwned + Debug + 'static>(
         &mut self,
         command_id: u32,
-    ) -> T {
-        let response_bytes = self.wait_for_response_to_arrive(&command_id);
-        deserialize(&response_bytes)
+    ) -> FrankaResult<T> {
+        let response_bytes = self.wait_for_response_to_arrive(&command_id)?;
+        Ok(deserialize(&response_bytes))
     }
     /// Blocks until a LoadModelLibraryResponse message with the given command ID has been received
     /// and returns this LoadModelLibraryResponse.
@@ -177,7 +179,7 @@ impl Network {
         command_id: u32,
         buffer: &mut Vec<u8>,
     ) -> FrankaResult<LoadModelLibraryResponse> {
-        let response_bytes = self.wait_for_response_to_arrive(&command_id);
+        let response_bytes = self.wait_for_response_to_arrive(&command_id)?;
         let lib_response: LoadModelLibraryResponse =
             deserialize(&response_bytes[0..size_of::<LoadModelLibraryResponse>()]);
         match lib_response.status {
@@ -210,6 +212,7 @@ impl Network {
     ///
     /// # Error
     /// * [`FrankaException`](`crate::exception::FrankaException`) - if the handler returns an exception
+    /// or the connection is lost
     pub fn tcp_receive_response<T, F>(
         &mut self,
         command_id: u32,
@@ -219,7 +222,7 @@ impl Network {
         F: FnOnce(T) -> Result<(), FrankaException>,
         T: DeserializeOwned + Debug + 'static,
     {
-        self.tcp_read_from_buffer(Duration::from_micros(0));
+        self.tcp_read_from_buffer(Duration::from_micros(0))?;
         let message = self.received_responses.get(&command_id);
         if message.is_none() {
             return Ok(false);
@@ -238,16 +241,14 @@ impl Network {
         }
     }
 
-    fn wait_for_response_to_arrive(&mut self, command_id: &u32) -> Vec<u8> {
-        let mut response_bytes: Option<Vec<u8>> = None;
-        while response_bytes == None {
-            {
-                self.tcp_read_from_buffer(Duration::from_millis(10));
-                response_bytes = self.received_responses.remove(command_id);
+    fn wait_for_response_to_arrive(&mut self, command_id: &u32) -> FrankaResult<Vec<u8>> {
+        loop {
+            if let Some(response_bytes) = self.received_responses.remove(command_id) {
+                return Ok(response_bytes);
             }
+            self.tcp_read_from_buffer(Duration::from_millis(10))?;
             std::thread::yield_now();
         }
-        response_bytes.unwrap()
     }
     pub fn udp_receive<T: Debug + Serialize + DeserializeOwned + 'static>(&mut self) -> Option<T> {
         // TODO replace Vec<u8> with array when https://github.com/rust-lang/rust/issues/43408
@@ -313,7 +314,7 @@ impl Network {
         Ok(())
     }
 
-    fn tcp_read_from_buffer(&mut self, timeout: Duration) {
+    fn tcp_read_from_buffer(&mut self, timeout: Duration) -> FrankaResult<()> {
         // Events are edge-triggered, but only one message is read per event. Re-arm the socket so
         // that data which is still there is reported again.
         self.poll_read
@@ -330,11 +331,10 @@ impl Network {
                         let mut buffer = [0_u8; 70000];
                         let available_bytes = self.tcp_socket.peek(&mut buffer);
                         let mut available_bytes = match available_bytes {
+                            Ok(0) => return Err(tcp_exception(ErrorKind::UnexpectedEof.into())),
                             Ok(a) => a,
-                            Err(e) => {
-                                eprintln!("{}", e);
-                                return;
-                            }
+                            Err(e) if e.kind() == ErrorKind::WouldBlock => return Ok(()),
+                            Err(e) => return Err(tcp_exception(e)),
                         };
 
                         if self.pending_response.is_empty() {
@@ -344,7 +344,9 @@ impl Network {
                             };
                             if available_bytes >= header_mem_size {
                                 let mut header_bytes: Vec<u8> = vec![0; header_mem_size];
-                                self.tcp_socket.read_exact(&mut header_bytes).unwrap();
+                                self.tcp_socket
+                                    .read_exact(&mut header_bytes)
+                                    .map_err(tcp_exception)?;
                                 self.pending_response.append(&mut header_bytes.clone());
                                 self.pending_response_offset = header_mem_size as usize;
                                 available_bytes -= header_mem_size;
@@ -360,6 +362,8 @@ impl Network {
                                         self.pending_command_id = header.command_id;
                                     }
                                 };
+                            } else if event.is_read_closed() {
+                                return Err(tcp_exception(ErrorKind::UnexpectedEof.into()));
                             }
                         }
                         if !self.pending_response.is_empty() {
@@ -368,7 +372,9 @@ impl Network {
                                 self.pending_response_len - self.pending_response_offset as usize,
                             );
                             let mut response_buffer: Vec<u8> = vec![0; number_of_bytes_to_read];
-                            self.tcp_socket.read_exact(&mut response_buffer).unwrap();
+                            self.tcp_socket
+                                .read_exact(&mut response_buffer)
+                                .map_err(tcp_exception)?;
                             self.pending_response.append(&mut response_buffer);
                             self.pending_response_offset += number_of_bytes_to_read;
                             if self.pending_response_offset == self.pending_response_len as usize {
@@ -388,12 +394,19 @@ impl Network {
                 _ => unreachable!(),
             }
         }
+        Ok(())
     }
     pub fn get_udp_port(&self) -> u16 {
         self.udp_port
     }
 }
 
+fn tcp_exception(error: std::io::Error) -> FrankaException {
+    FrankaException::NetworkException {
+        message: format!("libfranka-rs: TCP connection lost: {}", error),
+    }
+}
+
 fn serialize<T: Serialize>(s: &T) -> Vec<u8> {
     bincode::serialize(s).unwrap()
 }
diff --git a/src/robot.rs b/src/robot.rs
index 05986bf..de89a1e 100644
--- a/src/robot.rs
+++ b/src/robot.rs
@@ -256,11 +256,11 @@ impl Robot {
                 upper_force_thresholds_nominal,
             ),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetCollisionBehaviorResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -281,11 +281,11 @@ impl Robot {
             ),
             request: SetJointImpedanceRequest::new(K_theta),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetJointImpedanceResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -308,11 +308,11 @@ impl Robot {
             ),
             request: SetCartesianImpedanceRequest::new(K_x),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetCartesianImpedanceResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
     /// Locks or unlocks guiding mode movement in (x, y, z, roll, pitch, yaw).
@@ -334,11 +334,11 @@ impl Robot {
             ),
             request: SetGuidingModeRequest::new(guiding_mode, elbow),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetGuidingModeResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -361,11 +361,11 @@ impl Robot {
             ),
             request: SetEeToKRequest::new(EE_T_K),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetEeToKResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -392,11 +392,11 @@ impl Robot {
             ),
             request: SetNeToEeRequest::new(NE_T_EE),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetNeToEeResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
     /// Sets dynamic parameters of a payload.
@@ -427,11 +427,11 @@ impl Robot {
             ),
             request: SetLoadRequest::new(load_mass, F_x_Cload, load_inertia),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetLoadResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
     /// Sets the cut off frequency for the given motion generator or controller.
@@ -473,11 +473,11 @@ impl Robot {
                 controller_filter_frequency,
             ),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: SetFiltersResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         handle_getter_setter_status(response.status)
     }
 
@@ -492,11 +492,11 @@ impl Robot {
             RobotCommandEnum::AutomaticErrorRecovery,
             size_of::<AutomaticErrorRecoveryRequestWithHeader>(),
         );
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: AutomaticErrorRecoveryResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         match &response.status {
             AutomaticErrorRecoveryStatus::Success => Ok(()),
             AutomaticErrorRecoveryStatus::EmergencyAborted => Err(create_command_exception(
@@ -535,11 +535,11 @@ impl Robot {
                 size_of::<StopMoveRequestWithHeader>(),
             ),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: StopMoveResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         match response.status {
             StopMoveStatus::Success => Ok(()),
             StopMoveStatus::CommandNotPossibleRejected | StopMoveStatus::Aborted => {
@@ -571,11 +571,11 @@ impl Robot {
             ),
             request: GetCartesianLimitRequest::new(id),
         };
-        let command_id: u32 = self.robimpl.network.tcp_send_request(command);
+        let command_id: u32 = self.robimpl.network.tcp_send_request(command)?;
         let response: GetCartesianLimitResponse = self
             .robimpl
             .network
-            .tcp_blocking_receive_response(command_id);
+            .tcp_blocking_receive_response(command_id)?;
         match &response.status {
             GetterSetterStatus::Success => Ok(VirtualWallCuboid::new(id, response)),
             GetterSetterStatus::CommandNotPossibleRejected => Err(create_command_exception(
diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index da69270..cd8f12c 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -124,9 +124,9 @@ impl RobotImpl {
             ),
             request: ConnectRequest::new(self.network.get_udp_port()),
         };
-        let command_id: u32 = self.network.tcp_send_request(connect_command);
+        let command_id: u32 = self.network.tcp_send_request(connect_command)?;
         let connect_response: ConnectResponse =
-            self.network.tcp_blocking_receive_response(command_id);
+            self.network.tcp_blocking_receive_response(command_id)?;
         match connect_response.status {
             ConnectStatus::Success => {
                 self.ri_version = Some(connect_response.version);
@@ -263,8 +263,8 @@ impl RobotImpl {
                 *maximum_goal_deviation,
             ),
         };
-        let command_id: u32 = self.network.tcp_send_request(connect_command);
-        let response: MoveResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(connect_command)?;
+        let response: MoveResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_command_response_move(&response)?;
         Ok(command_id)
     }
@@ -275,8 +275,8 @@ impl RobotImpl {
                 size_of::<StopMoveRequestWithHeader>(),
             ),
         };
-        let command_id: u32 = self.network.tcp_send_request(command);
-        let response: StopMoveResponse = self.network.tcp_blocking_receive_response(command_id);
+        let command_id: u32 = self.network.tcp_send_request(command)?;
+        let response: StopMoveResponse = self.network.tcp_blocking_receive_response(command_id)?;
         handle_command_response_stop(&response)?;
         Ok(command_id)
     }
@@ -332,9 +332,7 @@ impl RobotControl for RobotImpl {
                         error: message,
                     });
                 }
-                _ => {
-                    panic!("this should be an command exception but it is not")
-                }
+                Err(error) => return Err(error),
             }
 
             let _robot_state = self.update(None, None)?;
@@ -367,7 +365,7 @@ impl RobotControl for RobotImpl {
             robot_state = Some(self.update(Some(&motion_finished_command), control_command)?);
         }
         let robot_state = robot_state.unwrap();
-        let response: MoveResponse = self.network.tcp_blocking_receive_response(motion_id);
+        let response: MoveResponse = self.network.tcp_blocking_receive_response(motion_id)?;
         if response.status == MoveStatus::ReflexAborted {
             return Err(create_control_exception(
                 String::from("Motion finished commanded, but the robot is still moving!"),
@@ -441,7 +439,7 @@ impl RobotControl for RobotImpl {
             || self.motion_generator_mode.unwrap() != self.current_move_motion_generator_mode
             || self.controller_mode != self.current_move_controller_mode.unwrap()
         {
-            let response = self.network.tcp_blocking_receive_response(motion_id);
+            let response = self.network.tcp_blocking_receive_response(motion_id)?;
             let result = handle_command_response_move(&response);
             return match result {
                 Err(error) => Err(create_control_exception(
-- 
2.43.0


From 66add1db2e5dc630f0b562f028c72ce00b14ea9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:55 +0000
Subject: [PATCH 13/25] fix: report the error of a failed motion even if
 stopping fails

After an error in a motion, a rejected Stop command panicked and a lost
connection made the call wait forever instead of returning the error.
---
 src/robot/robot_impl.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index cd8f12c..67051a5 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -395,20 +395,21 @@ impl RobotControl for RobotImpl {
 
     // TODO exception handling
     fn cancel_motion(&mut self, motion_id: u32) {
-        self.execute_stop_command()
-            .expect("error while canceling motion"); //todo handle Network exception. But it is not that important since we already have an error anyways
-        let mut _robot_state = self.receive_robot_state();
-        while self.motion_generator_running() || self.controller_running() {
-            _robot_state = self.receive_robot_state();
+        // Errors are ignored here since the motion already failed with an error anyways
+        let _ = self.execute_stop_command();
+        let mut robot_state = self.receive_robot_state();
+        while robot_state.is_ok() && (self.motion_generator_running() || self.controller_running())
+        {
+            robot_state = self.receive_robot_state();
         }
 
         // comment from libfranka devs:
         // Ignore Move response.
         // TODO (FWA): It is not guaranteed that the Move response won't come later
 
-        self.network
-            .tcp_receive_response(motion_id, |_x: MoveResponse| Ok(()))
-            .expect("This should be impossible as the handler always returns Ok(())");
+        let _ = self
+            .network
+            .tcp_receive_response(motion_id, |_x: MoveResponse| Ok(()));
         self.current_move_motion_generator_mode = MotionGeneratorMode::Idle;
         self.current_move_controller_mode = Some(ControllerMode::Other);
     }
-- 
2.43.0


From 742a74c46f77bfa8a96a7c8ae89daa8cdf65894d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:28 +0000
Subject: [PATCH 14/25] fix: keep Cartesian velocities limited when already at
 the maximum velocity

If the last commanded velocity exceeds the maximum velocity by a rounding
error and the commanded acceleration is perpendicular to it, the distance to
the maximum velocity was NaN, which disabled the velocity limit.
---
 src/robot/rate_limiting.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/robot/rate_limiting.rs b/src/robot/rate_limiting.rs
index a621576..3d0357d 100644
--- a/src/robot/rate_limiting.rs
+++ b/src/robot/rate_limiting.rs
@@ -446,10 +446,11 @@ fn limit_rate_single_cartesian_velocity(
     let unit_commanded_acceleration: Matrix3x1<f64> = commanded_acceleration.normalize();
     let dot_product = unit_commanded_acceleration.dot(last_commanded_velocity);
     let distance_to_max_velocity = -dot_product
-        + f64::sqrt(
+        + f64::sqrt(f64::max(
             f64::powf(dot_product, 2.) - last_commanded_velocity.norm_squared()
                 + f64::powf(max_velocity, 2.),
-        );
+            0.,
+        ));
     let safe_max_acceleration = f64::min(
         (max_jerk / max_acceleration) * distance_to_max_velocity,
         max_acceleration,
-- 
2.43.0


From a638c28f0a7e16b1cced373c0af2b17ea651cbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:35 +0000
Subject: [PATCH 15/25] fix: limit the rate of rotations by 180 degrees
 correctly

limit_rate_cartesian_pose returned the identity orientation if the limited
orientation is a rotation by 180 degrees, e.g. while turning a gripper which
points downwards around the vertical axis.
---
 src/robot/rate_limiting.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/robot/rate_limiting.rs b/src/robot/rate_limiting.rs
index 3d0357d..5c73923 100644
--- a/src/robot/rate_limiting.rs
+++ b/src/robot/rate_limiting.rs
@@ -356,8 +356,11 @@ pub fn limit_rate_cartesian_pose(
         let R = Matrix3::identity()
             + f64::sin(theta) * omega_skew
             + (1. - f64::cos(theta)) * (omega_skew * omega_skew);
+        // UnitQuaternion::from_matrix starts at the identity and does not leave it for some
+        // rotations by 180 degrees
         limited_commanded_pose.rotation =
-            UnitQuaternion::from_matrix(&(R * last_commanded_pose.rotation.to_rotation_matrix()));
+            UnitQuaternion::from_rotation_matrix(&Rotation3::from_matrix_unchecked(R))
+                * last_commanded_pose.rotation;
     }
     let mut limited_values = [0.; 16];
     for (i, &x) in limited_commanded_pose.to_homogeneous().iter().enumerate() {
-- 
2.43.0


From e86d2e2c5819c1230809fcc80d250c6581d7cda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:38 +0000
Subject: [PATCH 16/25] fix: do not loop forever when converting a matrix that
 is no transformation

Rotation3::renormalize iterates until it converges, which never happens for some
matrices. A control call with such a matrix and the low-pass filter blocked forever.
---
 src/utils.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index c61aefa..d3ac88a 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -4,19 +4,22 @@
 //! contains useful type definitions and conversion functions.
 use crate::robot::control_types::{Finishable, JointPositions};
 use crate::robot::robot_state::RobotState;
-use nalgebra::{Isometry3, Matrix4, MatrixMN, MatrixN, Rotation3, Vector3, VectorN, U6, U7};
+use nalgebra::{
+    Isometry3, Matrix4, MatrixMN, MatrixN, Rotation3, UnitQuaternion, Vector3, VectorN, U6, U7,
+};
 use std::time::Duration;
 
 /// converts a 4x4 column-major homogenous matrix to an Isometry
 pub fn array_to_isometry(array: &[f64; 16]) -> Isometry3<f64> {
-    let mut rot = Rotation3::from_matrix_unchecked(
-        Matrix4::from_column_slice(array)
-            .remove_column(3)
-            .remove_row(3),
-    );
+    let matrix = Matrix4::from_column_slice(array)
+        .remove_column(3)
+        .remove_row(3);
     // Rotation3::from_matrix starts at the identity and does not leave it for some rotations by
     // 180 degrees
-    rot.renormalize();
+    let mut guess = UnitQuaternion::from_rotation_matrix(&Rotation3::from_matrix_unchecked(matrix));
+    guess.renormalize();
+    // The number of iterations is limited since it does not converge for every matrix
+    let rot = Rotation3::from_matrix_eps(&matrix, f64::EPSILON, 100, guess.to_rotation_matrix());
     Isometry3::from_parts(
         Vector3::new(array[12], array[13], array[14]).into(),
         rot.into(),
-- 
2.43.0


From e80a21739c4f299b575d88a334c37fe7df63b7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:38 +0000
Subject: [PATCH 17/25] fix: allow a new motion after one was aborted while
 starting

When the robot aborted a motion before its modes were active, the last state of that
motion was kept and the next control call failed with 'Attempted to start multiple
motions' although the robot was idle.
---
 src/robot/robot_impl.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index 67051a5..dd8a8fc 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -327,6 +327,10 @@ impl RobotControl for RobotImpl {
                     }
                 }
                 Err(FrankaException::CommandException { message }) => {
+                    // do not keep a state of the aborted motion, the next one could not be started
+                    while (self.motion_generator_running() || self.controller_running())
+                        && self.receive_robot_state().is_ok()
+                    {}
                     return Err(FrankaException::ControlException {
                         log: None,
                         error: message,
-- 
2.43.0


From 9836a913abfd014048aa55cf223d95cdcfd52435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:53 +0000
Subject: [PATCH 18/25] fix: do not keep a model that could not be loaded
 unless persistence is requested

---
 src/robot/robot_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index dd8a8fc..ecdd208 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -235,11 +235,11 @@ impl RobotImpl {
         if !model_already_downloaded {
             LibraryDownloader::download(&mut self.network, model_file)?;
         }
-        let model = Model::new(model_file, None)?;
+        let model = Model::new(model_file, None);
         if !persistent {
             remove_file(model_file).expect("Could not delete file");
         }
-        Ok(model)
+        model
     }
     pub fn server_version(&self) -> u16 {
         self.ri_version.unwrap()
-- 
2.43.0


From 75bf05c176c8e84d781d5e4ee1d561f7381bdef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:34 +0000
Subject: [PATCH 19/25] fix: report an empty model library as a model error
 instead of panicking

---
 src/network.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index 8fcf5c0..7051a41 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -191,10 +191,11 @@ impl Network {
                 });
             }
         }
-        assert_ne!(
-            lib_response.header.size as usize,
-            size_of::<LoadModelLibraryResponse>()
-        );
+        if response_bytes.len() == size_of::<LoadModelLibraryResponse>() {
+            return Err(FrankaException::ModelException {
+                message: "libfranka-rs: Server sent an empty model library.".to_string(),
+            });
+        }
         buffer.append(&mut Vec::from(
             &response_bytes[size_of::<LoadModelLibraryResponse>()..],
         ));
-- 
2.43.0


From f0a2f5d0ccc8f68fb7567b15eb684bae566415af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:19 +0000
Subject: [PATCH 20/25] fix: do not leave an incompletely written model behind
 or load it

---
 src/model/library_downloader.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/model/library_downloader.rs b/src/model/library_downloader.rs
index 89f3f6e..3205c40 100644
--- a/src/model/library_downloader.rs
+++ b/src/model/library_downloader.rs
@@ -10,7 +10,7 @@ use crate::FrankaResult;
 use std::fmt;
 use std::fmt::Display;
 use std::fmt::Formatter;
-use std::fs::File;
+use std::fs::{remove_file, File};
 use std::io::Write;
 use std::mem::size_of;
 use std::path::Path;
@@ -34,13 +34,15 @@ impl LibraryDownloader {
             let mut buffer = Vec::<u8>::new();
             let _response: LoadModelLibraryResponse =
                 network.tcp_blocking_receive_load_library_response(command_id, &mut buffer)?;
-            let mut file = File::create(download_path).map_err(|_| ModelException {
-                message: "Error writing model to disk:".to_string(),
-            })?;
-            file.write(&buffer).map_err(|_| ModelException {
-                message: "Error writing model to disk:".to_string(),
-            })?;
-            Ok(())
+            File::create(download_path)
+                .and_then(|mut file| file.write_all(&buffer))
+                .map_err(|_| {
+                    // an incomplete file would be taken for a stored model by the next download
+                    let _ = remove_file(download_path);
+                    ModelException {
+                        message: "Error writing model to disk:".to_string(),
+                    }
+                })
         } else {
             Err(ModelException {
                 message:
-- 
2.43.0


From 31bb528455a2a0177a5a4cc31e20ce2f35ecae46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:40 +0000
Subject: [PATCH 21/25] fix: give up on a peer that no longer acknowledges
 requests

Keepalive probes are suspended while data is in flight, so a request sent to a
robot that lost power blocked for the retransmission limit of the operating
system (about a quarter of an hour).
---
 src/network.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/network.rs b/src/network.rs
index 7051a41..9660b00 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -12,7 +12,7 @@ use std::io::{ErrorKind, Read, Write};
 use std::mem::size_of;
 use std::net::TcpStream as StdTcpStream;
 use std::net::{IpAddr, SocketAddr, ToSocketAddrs};
-use std::os::unix::io::AsRawFd;
+use std::os::unix::io::{AsRawFd, RawFd};
 use std::str::FromStr;
 use std::time::{Duration, Instant};
 
@@ -34,6 +34,24 @@ use crate::robot::service_types::{
 
 const CLIENT: Token = Token(1);
 
+/// Limits how long sent data may stay unacknowledged before the connection is given up.
+fn set_tcp_user_timeout(fd: RawFd, timeout: Duration) -> std::io::Result<()> {
+    let milliseconds = timeout.as_millis() as libc::c_uint;
+    let result = unsafe {
+        libc::setsockopt(
+            fd,
+            libc::IPPROTO_TCP,
+            libc::TCP_USER_TIMEOUT,
+            &milliseconds as *const libc::c_uint as *const libc::c_void,
+            size_of::<libc::c_uint>() as libc::socklen_t,
+        )
+    };
+    if result != 0 {
+        return Err(std::io::Error::last_os_error());
+    }
+    Ok(())
+}
+
 pub enum NetworkType {
     Robot,
     Gripper,
@@ -80,6 +98,8 @@ impl Network {
         setsockopt(fd, TcpKeepIdle, &1)?;
         setsockopt(fd, TcpKeepCount, &3)?;
         setsockopt(fd, TcpKeepInterval, &1)?;
+        // Keepalive probes are not sent while a request is still unacknowledged.
+        set_tcp_user_timeout(fd, Duration::from_secs(4))?;
 
         let udp_timeout = Duration::from_secs(1); // TODO: offer in constructor
         let ip_addr = IpAddr::from_str("0.0.0.0")?;
-- 
2.43.0


From 87306a2e86f4b7caa242744f34d23c90f877506d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:38 +0000
Subject: [PATCH 22/25] fix: do not panic when a signal interrupts waiting

epoll_wait returns EINTR whenever the thread handles a signal (or the process is stopped and
continued), which made every call of the library panic.
---
 src/network.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index 9660b00..4578f5b 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -34,6 +34,14 @@ use crate::robot::service_types::{
 
 const CLIENT: Token = Token(1);
 
+/// Waits for events. Being interrupted by a signal is the same as having waited without an event.
+fn poll_once(poll: &mut Poll, events: &mut Events, timeout: Duration) {
+    match poll.poll(events, Some(timeout)) {
+        Err(e) if e.kind() == ErrorKind::Interrupted => events.clear(),
+        result => result.unwrap(),
+    }
+}
+
 /// Limits how long sent data may stay unacknowledged before the connection is given up.
 fn set_tcp_user_timeout(fd: RawFd, timeout: Duration) -> std::io::Result<()> {
     let milliseconds = timeout.as_millis() as libc::c_uint;
@@ -312,9 +320,11 @@ impl Network {
                     message: "libfranka-rs: UDP receive: timeout".to_string(),
                 });
             }
-            self.poll_read_udp
-                .poll(&mut self.events_udp, Some(deadline - now))
-                .unwrap();
+            poll_once(
+                &mut self.poll_read_udp,
+                &mut self.events_udp,
+                deadline - now,
+            );
         }
     }
     pub fn udp_send<T: Debug + Serialize + DeserializeOwned>(
@@ -342,9 +352,7 @@ impl Network {
             .registry()
             .reregister(&mut self.tcp_socket, CLIENT, Interest::READABLE)
             .unwrap();
-        self.poll_read
-            .poll(&mut self.events, Some(timeout))
-            .unwrap();
+        poll_once(&mut self.poll_read, &mut self.events, timeout);
         for event in self.events.iter() {
             match event.token() {
                 CLIENT => {
-- 
2.43.0


From fa88f77e358b1351c1f650806c87b499c50ece54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:46 +0000
Subject: [PATCH 23/25] fix: report malformed messages as network errors
 instead of panicking

---
 src/network.rs | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index 4578f5b..012d0ec 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -189,7 +189,7 @@ impl Network {
         command_id: u32,
     ) -> FrankaResult<T> {
         let response_bytes = self.wait_for_response_to_arrive(&command_id)?;
-        Ok(deserialize(&response_bytes))
+        try_deserialize(&response_bytes)
     }
     /// Blocks until a LoadModelLibraryResponse message with the given command ID has been received
     /// and returns this LoadModelLibraryResponse.
@@ -208,8 +208,7 @@ impl Network {
         buffer: &mut Vec<u8>,
     ) -> FrankaResult<LoadModelLibraryResponse> {
         let response_bytes = self.wait_for_response_to_arrive(&command_id)?;
-        let lib_response: LoadModelLibraryResponse =
-            deserialize(&response_bytes[0..size_of::<LoadModelLibraryResponse>()]);
+        let lib_response: LoadModelLibraryResponse = try_deserialize(&response_bytes)?;
         match lib_response.status {
             LoadModelLibraryStatus::Success => {}
             LoadModelLibraryStatus::Error => {
@@ -257,9 +256,11 @@ impl Network {
             return Ok(false);
         }
         if message.unwrap().len() != size_of::<T>() {
-            panic!("libfranka-rs: Incorrect TCP message size.");
+            return Err(FrankaException::NetworkException {
+                message: "libfranka-rs: Incorrect TCP message size.".to_string(),
+            });
         }
-        let message: T = deserialize(message.unwrap());
+        let message: T = try_deserialize(message.unwrap())?;
         let result = handler(message);
         match result {
             Ok(_) => {
@@ -305,7 +306,7 @@ impl Network {
                     if read_bytes != size_of::<T>() {
                         return Err(FrankaException::NetworkException { message: format!("UDP object could not be received: object has {} bytes but it should have {} bytes", read_bytes, size_of::<T>()) });
                     }
-                    return Ok(deserialize(&buffer));
+                    return try_deserialize(&buffer);
                 }
                 Err(e) if e.kind() == ErrorKind::WouldBlock => {}
                 Err(e) => {
@@ -376,21 +377,28 @@ impl Network {
                                 self.tcp_socket
                                     .read_exact(&mut header_bytes)
                                     .map_err(tcp_exception)?;
-                                self.pending_response.append(&mut header_bytes.clone());
-                                self.pending_response_offset = header_mem_size as usize;
-                                available_bytes -= header_mem_size;
                                 match self.network_type {
                                     NetworkType::Gripper => {
-                                        let header: CommandHeader = deserialize(&header_bytes);
+                                        let header: CommandHeader = try_deserialize(&header_bytes)?;
                                         self.pending_response_len = header.size as usize;
                                         self.pending_command_id = header.command_id;
                                     }
                                     NetworkType::Robot => {
-                                        let header: RobotCommandHeader = deserialize(&header_bytes);
+                                        let header: RobotCommandHeader =
+                                            try_deserialize(&header_bytes)?;
                                         self.pending_response_len = header.size as usize;
                                         self.pending_command_id = header.command_id;
                                     }
                                 };
+                                if self.pending_response_len < header_mem_size {
+                                    return Err(FrankaException::NetworkException {
+                                        message: "libfranka-rs: Incorrect TCP message size."
+                                            .to_string(),
+                                    });
+                                }
+                                self.pending_response.append(&mut header_bytes.clone());
+                                self.pending_response_offset = header_mem_size as usize;
+                                available_bytes -= header_mem_size;
                             } else if event.is_read_closed() {
                                 return Err(tcp_exception(ErrorKind::UnexpectedEof.into()));
                             }
@@ -440,10 +448,18 @@ fn serialize<T: Serialize>(s: &T) -> Vec<u8> {
     bincode::serialize(s).unwrap()
 }
 
+#[cfg(test)]
 fn deserialize<T: Debug + DeserializeOwned + 'static>(encoded: &[u8]) -> T {
     bincode::deserialize(encoded).unwrap()
 }
 
+/// Decodes what was received. A peer must not be able to crash the program with a bad message.
+fn try_deserialize<T: Debug + DeserializeOwned + 'static>(encoded: &[u8]) -> FrankaResult<T> {
+    bincode::deserialize(encoded).map_err(|e| FrankaException::NetworkException {
+        message: format!("libfranka-rs: Malformed message received: {}", e),
+    })
+}
+
 #[cfg(test)]
 mod tests {
     use crate::network::{deserialize, serialize};
-- 
2.43.0


From 4ab35842d8ecae1e77be956020bdc4a9f29ba1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:46 +0000
Subject: [PATCH 24/25] fix: report an unexpected reply to a Move command as an
 error instead of panicking

---
 src/robot/robot_impl.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index ecdd208..225a6ee 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -453,7 +453,12 @@ impl RobotControl for RobotImpl {
                     &robot_state.last_motion_errors,
                     self.logger.flush(),
                 )),
-                Ok(_) => panic!("Unexpected reply to a Move command"),
+                Ok(_) => Err(create_control_exception(
+                    String::from("libfranka-rs: Unexpected reply to a Move command"),
+                    &response.status,
+                    &robot_state.last_motion_errors,
+                    self.logger.flush(),
+                )),
             };
         }
         Ok(())
-- 
2.43.0


From 9ef9734c79cfdc1345423131ba2cb95ff1c65661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:49 +0000
Subject: [PATCH 25/25] fix: do not keep the response of a motion that was
 aborted while starting

---
 src/network.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index 012d0ec..ed64536 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -251,24 +251,18 @@ impl Network {
         T: DeserializeOwned + Debug + 'static,
     {
         self.tcp_read_from_buffer(Duration::from_micros(0))?;
-        let message = self.received_responses.get(&command_id);
-        if message.is_none() {
-            return Ok(false);
-        }
-        if message.unwrap().len() != size_of::<T>() {
+        let message = match self.received_responses.remove(&command_id) {
+            Some(message) => message,
+            None => return Ok(false),
+        };
+        if message.len() != size_of::<T>() {
             return Err(FrankaException::NetworkException {
                 message: "libfranka-rs: Incorrect TCP message size.".to_string(),
             });
         }
-        let message: T = try_deserialize(message.unwrap())?;
-        let result = handler(message);
-        match result {
-            Ok(_) => {
-                self.received_responses.remove(&command_id);
-                Ok(true)
-            }
-            Err(e) => Err(e),
-        }
+        let message: T = try_deserialize(&message)?;
+        handler(message)?;
+        Ok(true)
     }
 
     fn wait_for_response_to_arrive(&mut self, command_id: &u32) -> FrankaResult<Vec<u8>> {
-- 
2.43.0

