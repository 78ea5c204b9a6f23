#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here because it is easier to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
R="src/robot/"
p("C01","Rate-limited joint commands always respect the joint limits",
  "With rate limiting on, for every joint of every joint position or joint velocity command sent to the robot, the velocity and acceleration it implies relative to the robot's last desired values stay within the documented per-joint limits whatever the user's callback returns, and along any motion started at rest the implied jerk does too. A user command that already respects the limits (including the braking margin before the velocity limit) is sent unchanged up to rounding; any other is replaced by the one the limiter's definition prescribes (acceleration change clamped to the jerk limit, acceleration clamped to the acceleration limit and to the distance to the velocity limit), independently per joint.",
  ["inputs","histories","configurations"],"all sequences of user commands (jumps, ramps, noise, commands at the limits), all robot states within limits, joint position/velocity with internal or torque controller, any filter setting",
  "The unit tests cover Cartesian pose limiting only, with a handful of fixed single steps; joint limiting and multi-step histories have no test at all.",
  [R+"rate_limiting.rs",R+"control_types.rs",R+"control_loop.rs"],[("joint limiter",R+"rate_limiting.rs"),("conversion of user commands",R+"control_types.rs")],["command datagrams on the UDP socket of a simulated robot"])
p("C02","Rate-limited Cartesian and elbow commands always respect the Cartesian limits",
  "With rate limiting on, every Cartesian pose or Cartesian velocity command sent implies a translational and a rotational velocity and acceleration (relative to the robot's last commanded pose and twist) within the documented limits, every elbow angle sent implies an elbow velocity and acceleration within the elbow limits, and the elbow sign chosen by the user is sent unchanged. A user command that already respects the limits is sent unchanged up to rounding; any other is replaced by the one the limiter's definition prescribes: translation and rotation are limited as vectors, so that the direction of the clamped change is kept, and the elbow like a joint.",
  ["inputs","histories","configurations"],"all sequences of user poses/twists/elbows and all commanded robot states within limits, with internal or torque controller, any filter setting",
  "Existing tests check single steps from fixed states for poses only; velocity mode, elbow and long histories (drift, saturation, braking) are not reached.",
  [R+"rate_limiting.rs",R+"control_types.rs"],[("Cartesian limiter",R+"rate_limiting.rs"),("conversion of user commands",R+"control_types.rs")],["command datagrams on the UDP socket of a simulated robot"])
p("C03","Rate-limited torques never change faster than the torque rate limit",
  "With rate limiting on, every joint torque sent differs from the robot's last desired torque of that joint by at most the maximum torque rate times one millisecond, whatever the user's callback returns. A torque within that range is sent unchanged up to rounding, any other is moved exactly to the nearer end of the range, independently per joint.",
  ["inputs","histories","configurations"],"all torque sequences and desired-torque states, all five torque interfaces, any filter setting",
  "No existing test runs a torque control loop or calls the torque limiter.",
  [R+"rate_limiting.rs",R+"control_loop.rs"],[("torque limiter",R+"rate_limiting.rs"),("torque part of the control loop",R+"control_loop.rs")],["command datagrams on the UDP socket of a simulated robot"])
p("C04","Low-pass filtering follows the first-order filter and can be switched off",
  "With a cutoff frequency f below 1000 Hz, what is sent (before rate limiting) is last + g*(command-last) with g = dt/(dt+1/(2*pi*f)) and dt = 1 ms, applied to every component against the robot's last desired/commanded value and as spherical interpolation for orientations; with f >= 1000 Hz and rate limiting off, the user's values are sent bit for bit. Without explicit arguments a control call filters at 100 Hz and limits rates. The public filter functions compute the same formulas for every valid argument and panic for every non-finite value, non-positive cutoff frequency or negative sample time.",
  ["inputs","configurations","histories"],"all signal values, states, cutoff frequencies (also next to 0 and 1000 Hz), sample times, interfaces",
  "Tests sample six scalar values and print one Cartesian result without checking it; the wiring of the filter in the nine control interfaces is untested.",
  [R+"low_pass_filter.rs",R+"control_types.rs",R+"control_loop.rs","src/robot.rs"],[("filters",R+"low_pass_filter.rs"),("defaults","src/robot.rs")],["return values of the public filter functions","command datagrams of a simulated robot"])
p("C05","No invalid command ever reaches the robot",
  "Whatever values user callbacks return and whatever values the robot's state contains (NaN, infinities, matrices that are not homogeneous transformations, elbow signs other than +1/-1), every command datagram sent contains only finite numbers, and for Cartesian motions a homogeneous transformation (last row 0,0,0,1; unit-length rotation rows and columns) and a +1/-1 elbow sign when an elbow is given. A non-finite value or an invalid elbow sign from a callback, and with filtering and limiting off a matrix that is no transformation, ends the motion with a panic or an error.",
  ["inputs","histories","configurations"],"all bit patterns in user commands and states, at any point of a motion, all interfaces, filter and limiter on or off",
  "Two unit tests feed a NaN to the pose limiter function; none looks at what is sent or covers the other interfaces.",
  [R+"control_types.rs",R+"control_loop.rs",R+"control_tools.rs",R+"rate_limiting.rs",R+"low_pass_filter.rs"],[("final validation before sending",R+"control_types.rs"),("transformation check",R+"control_tools.rs")],["command datagrams of a simulated robot"])
p("C06","A delivered robot state is exactly one received datagram",
  "Every robot state handed to a user (single read, read loop, motion and torque callbacks, error logs) equals field by field, bit for bit, one state datagram the robot sent during this connection; values of different datagrams are never mixed, swapped or altered, and a datagram that was cut short is never delivered. Its time is the datagram's message id in milliseconds, and its total mass, centre of mass and inertia are the rigid-body combination of end effector and load contained in that same datagram (zero centre of mass without mass; inertia of a massless part ignored).",
  ["inputs","schedules"],"all field contents (all bit patterns for plain fields) and all arrival patterns, including several datagrams waiting",
  "Tests use one all-zero state and never compare a field; the mixing of datagrams depends on arrival timing.",
  ["src/network.rs",R+"types.rs",R+"robot_state.rs",R+"robot_impl.rs"],[("datagram decoding","src/network.rs"),("wire layout",R+"types.rs"),("derived quantities",R+"robot_state.rs")],["robot states returned by the public API"])
p("C07","Delivered robot states are fresh and strictly newer than the previous one",
  "Over one connection the times of the states delivered to the user are strictly increasing, whatever datagrams are lost, duplicated, delayed or reordered. When several datagrams are waiting, a read loop or control loop delivers the newest of them, discarding the others and never returning a stale one; the single read ignores what was already waiting and delivers the first state that arrives after the call. If nothing arrives for one second, the call fails with a network error.",
  ["schedules","fault_sequences","histories"],"all arrival orders, duplications, losses and batchings of state datagrams, ids over the full 64-bit range",
  "The mock server sends an ordered stream; reordering, duplication and backlog never occur in tests.",
  [R+"robot_impl.rs","src/network.rs"],[("state selection",R+"robot_impl.rs"),("datagram reception","src/network.rs")],["states returned by read_once/read and seen by callbacks"])
p("C08","Each command answers the state it was computed from",
  "In a running motion each callback invocation produces exactly one command datagram, which carries the message id of the state the callbacks saw and the values they returned in the fields of their interface (zero elsewhere, no elbow unless given), in order. Both callbacks of a combined motion see the same state, the motion callback first, and the time step passed to them is the difference between that state's time and the previous one's, zero at the first invocation.",
  ["histories","schedules","configurations"],"all nine interfaces, all command values, all message-id gaps between consecutive states, any start id",
  "The tests run one joint position motion and check only that it ends.",
  [R+"control_loop.rs",R+"robot_impl.rs",R+"types.rs","src/robot.rs"],[("control loop",R+"control_loop.rs"),("command assembly",R+"robot_impl.rs")],["callback arguments","command datagrams of a simulated robot"])
p("C09","A motion starts and ends in step with the robot",
  "A control call sends exactly one Move request with the controller mode and motion generator mode of its interface, does not invoke a callback or send a command before the robot reports these modes, and invokes no callback after one returned a finished command. From then on every command is the last one marked as finished, sent once per received state until the robot reports that it is idle; the call returns success only after the robot's final success response, and afterwards further motions of any kind work on the same connection.",
  ["histories","schedules","configurations"],"all interfaces and controller modes, any delay and mode sequence at start, any number of running states after the finish command, response before or after the idle state, any sequence of motions on one connection",
  "The existing test does one motion against a mock whose modes match at once and whose responses are canned.",
  [R+"robot_impl.rs",R+"control_loop.rs","src/robot.rs"],[("start/finish handshake",R+"robot_impl.rs"),("loop",R+"control_loop.rs")],["TCP requests and UDP commands at a simulated robot","return value","callback log"])
p("C10","An aborted motion is stopped and reported with its reason",
  "If the robot rejects a motion, the call returns a command error with the reason; if it aborts a motion at any later point (while starting, running or finishing), the call returns a control error naming the reason, for reflexes with the robot's reflex reasons, and no callback runs after the state that reported the abort. A motion aborted while running is followed by exactly one Stop request whose outcome does not change the reported error, and the call returns once the robot is idle. The connection stays usable: error recovery and new motions work afterwards.",
  ["fault_sequences","schedules","histories"],"every Move and Stop status, every abort point, response before or after the state change, any reflex reasons, any interface, sequences of aborted and normal motions",
  "No test aborts a motion.",
  [R+"robot_impl.rs",R+"control_loop.rs",R+"errors.rs"],[("abort detection",R+"robot_impl.rs"),("cancel",R+"control_loop.rs")],["return value","requests and commands at a simulated robot"])
p("C11","A control error carries the last N states and commands of its motion",
  "When the robot aborts a motion, the control error's log contains, in chronological order, exactly the most recent state/command pairs of that motion: as many as were exchanged, but at most the log size given at construction (50 by default, zero allowed). Each record pairs a command that was sent (values as on the wire, after filtering and limiting) with the state received in answer to it, and nothing of an earlier motion appears.",
  ["histories","configurations"],"all log sizes, motion lengths below, at and above the log size, any number of preceding motions that succeeded or failed, all interfaces",
  "No test looks at a log; wrap-around needs motions longer than the log.",
  [R+"logger.rs",R+"robot_impl.rs","src/robot.rs"],[("log buffer",R+"logger.rs")],["log of the returned control error compared with the robot-side trace"])
p("C12","Robot commands are encoded exactly and their outcome reported faithfully",
  "Every non-realtime robot command sends exactly one request whose command number, size field, unique command id and payload encode the arguments bit for bit in the documented order (composite commands one request per part, stopping at the first failure). It returns success only if the robot answers this request with success, a command error describing the reported status otherwise, and returned data (virtual walls, server version) is what the robot sent for that request.",
  ["inputs","histories"],"all argument values, all response statuses, arbitrary sequences of commands on one connection",
  "Only set_collision_behavior is tested, with one set of values; statuses and the other ten commands are not.",
  ["src/robot.rs",R+"service_types.rs","src/network.rs",R+"virtual_wall_cuboid.rs"],[("request types",R+"service_types.rs"),("commands","src/robot.rs")],["TCP byte stream at a simulated robot","return values"])
p("C13","TCP responses are understood however the stream is cut and joined",
  "A response is matched to its request by command id and decoded correctly for every way its bytes are split into or merged across network segments, including several responses arriving together, unrelated responses in between and responses of any size. Nothing is lost, duplicated or given to another request. As long as the connection lives, a command waits for its response, however late it comes, and returns promptly once it is complete.",
  ["schedules","inputs"],"all segmentations and coalescings of the response stream with arbitrary pauses, large and small messages, robot and gripper connection",
  "The mock servers write every response in one piece, one at a time.",
  ["src/network.rs"],[("stream reassembly","src/network.rs"),("response table","src/network.rs")],["return values of commands against a server that fragments its answers"])
p("C14","Losing the connection yields a network error, never a hang or panic",
  "If the connection cannot be established, or is closed or reset by the peer, or the peer vanishes without a word, or robot states stop arriving, at any point (before, during or after a request, in the middle of a response, while starting, running or finishing a motion), the affected call returns a network error (or the motion's own error) within a bounded time. It neither panics, nor blocks forever, nor reports success for a command the peer did not confirm.",
  ["crash_points","fault_sequences","schedules"],"all points at which the peer closes, resets, vanishes or falls silent on UDP, for every kind of call on robot and gripper",
  "No test closes a connection.",
  ["src/network.rs",R+"robot_impl.rs",R+"control_loop.rs","src/gripper.rs"],[("socket error handling","src/network.rs"),("cancel after error",R+"robot_impl.rs")],["result and duration of public calls"])
p("C15","Connecting succeeds exactly when the versions are compatible",
  "Connecting to a robot or gripper announces the library's protocol version and a UDP port on which states are really received, and succeeds exactly when the server accepts. If the server reports an incompatible version, connecting fails with the incompatible-version error carrying the server's and the library's version; otherwise the server version available afterwards is the one the server reported. A connection that is dropped or could not be made is closed and leaves nothing open, so the same address can be connected any number of times.",
  ["inputs","configurations"],"all server versions and connect statuses, all sequences of connections, robot and gripper",
  "One success and one failure are tested with fixed versions.",
  [R+"robot_impl.rs","src/gripper.rs",R+"service_types.rs","src/gripper/types.rs"],[("connect handshake",R+"robot_impl.rs"),("connect handshake","src/gripper.rs")],["connect request bytes","result of the constructors"])
p("C16","Gripper commands, outcomes and states are transferred exactly",
  "Every gripper command sends one request encoding its arguments bit for bit (documented defaults for omitted grasp tolerances), and returns true, false or a command error exactly according to the status of the response to that request. A gripper state read after the call started equals one state datagram that arrived after that, field by field, with its message id in milliseconds as time.",
  ["inputs","histories","schedules"],"all argument values, statuses, command sequences, state contents and backlogs of state datagrams",
  "The gripper tests are unreliable here (excluded from the stable set) and use fixed values; read_once content is never compared.",
  ["src/gripper.rs","src/gripper/types.rs","src/gripper/gripper_state.rs","src/network.rs"],[("gripper commands","src/gripper.rs"),("wire types","src/gripper/types.rs")],["TCP bytes at a simulated gripper","return values"])
p("C17","Model queries call the right library function with the right data",
  "Each model query (pose, body Jacobian, zero Jacobian for every frame; mass; Coriolis; gravity) returns the value of the corresponding function of the loaded model library for exactly the given arguments, where the stiffness frame uses the product of the flange-to-end-effector and end-effector-to-stiffness transformations and gravity defaults to (0,0,-9.81). Every variant taking a robot state equals the explicit variant applied to that state's joint positions and velocities, frames, total load data, and for gravity its base acceleration.",
  ["inputs"],"all frames, joint configurations, transformations, load parameters and states",
  "There is no model test: the real library is not distributable, and no fake one is used.",
  ["src/model.rs","src/model/model_library.rs"],[("dispatch by frame","src/model.rs"),("symbol binding","src/model/model_library.rs")],["return values with a model library that records its arguments"])
p("C18","The downloaded model is the one the robot sent",
  "Loading the model requests it from the robot unless a stored copy exists, uses exactly the bytes the robot sent, and leaves the file behind if and only if persistence was requested. A refused download, bytes that are no library, a library without a required function, or a disk that cannot hold it make it fail with a model error, without affecting the connection and without leaving an incomplete copy behind.",
  ["inputs","histories","fault_sequences"],"library contents of any size and segmentation, persistent or not, sequences of loads, refusals, damaged libraries",
  "There is no test for model loading.",
  ["src/model/library_downloader.rs",R+"robot_impl.rs","src/network.rs","src/model/model_library.rs"],[("download","src/model/library_downloader.rs"),("persistence",R+"robot_impl.rs")],["LoadModelLibrary requests","/tmp/model.so before and after","results of queries"])
p("C19","The joint motion generator reaches its goal smoothly, in sync and within limits",
  "For every start and goal and every practical speed factor (0.0001 to 1), the generated joint trajectory starts at the robot's desired position, moves every joint monotonically to the goal without overshoot, within the scaled velocity and acceleration limits, all moving joints finishing together in the time that the slowest of them needs at its limits, and signals the end exactly when every joint has arrived at the goal (within the generator's one-microradian resolution). Its value at a given elapsed time does not depend on how that time was divided into steps.",
  ["inputs","schedules"],"all start/goal pairs (zero, tiny, small, large and mixed distances, every joint), speed factors, and time step sequences including lost packets",
  "One trajectory with seven equal joints at one step size is compared with recorded values.",
  ["src/utils.rs","src/robot.rs"],[("trajectory generation","src/utils.rs")],["outputs of the public generator","commands of a joint motion at a simulated robot"])
p("C20","Pose conversions lose nothing",
  "Converting a column-major homogeneous transformation to an isometry yields that rotation and translation for every rotation, including every half turn, and converting back yields the same 16 numbers up to rounding. Command types built from vectors, arrays or isometries hold exactly these values, are not finished, and are finished after being marked so, with their values unchanged.",
  ["inputs"],"all rotations (random, near identity, exact and near half turns about any axis, noisy), translations, values",
  "One rotation is tested.",
  ["src/utils.rs",R+"control_types.rs"],[("conversion","src/utils.rs"),("From implementations",R+"control_types.rs")],["return values of the public conversions"])
p("C21","A motion that may not start leaves the robot untouched",
  "If real-time scheduling is enforced (the default) but unavailable (no real-time kernel, or no permission to raise the priority or to lock memory), every control call fails with the real-time error, and if the robot is already executing a motion, with a control error: in both cases without sending a Move request or a command and without invoking a callback. The connection remains usable for everything else. Where real-time scheduling is enforced and available, the callbacks run with real-time priority and locked memory; where it is ignored, the caller's scheduling is left alone.",
  ["configurations","histories"],"all interfaces, both configurations, systems that grant or refuse each part of real-time scheduling, any robot state at the time of the call",
  "Tests always ignore real-time and start from an idle robot.",
  [R+"control_loop.rs",R+"robot_impl.rs",R+"control_tools.rs"],[("real-time check",R+"control_loop.rs"),("running-motion check",R+"robot_impl.rs")],["requests and commands at a simulated robot","return value"])
p("C22","Robot error flags are reported by their right names",
  "For every combination of error flags in a state datagram, the current errors and the last motion errors contain exactly the errors whose flags are set, each identified by its own name, answer membership queries accordingly, and are displayed as a bracketed list of exactly these names.",
  ["inputs"],"all combinations of the 41 error and 41 reflex flags",
  "No test decodes a flag.",
  [R+"error.rs",R+"errors.rs",R+"types.rs",R+"robot_state.rs"],[("flag decoding",R+"errors.rs"),("flag layout",R+"types.rs")],["error lists of delivered states","messages of control errors"])
p("C23","A reflex error tells how well the commands arrived",
  "When a motion is aborted by a reflex and at least two of its exchanges were logged, the error text reports the control command success rate of the second to last logged state, scaled down by one percent for every state message missing between it and the last one, and the number of missing messages if there were any. In all other cases the error reports no such numbers.",
  ["histories","configurations"],"all success rates, gaps between the last two states, log sizes, motion lengths, interfaces, reflexes while running or finishing",
  "No test aborts a motion, let alone with lost packets.",
  [R+"robot_impl.rs",R+"logger.rs"],[("error text",R+"robot_impl.rs")],["text of the returned control error compared with the robot-side trace"])
p("C24","Signals do not disturb a call",
  "A signal that the process handles may hit the thread that uses the library at any moment of any call on robot or gripper (connecting, commands, reading, every phase of a motion), any number of times: no call panics, fails, returns early, loses or repeats anything, or waits longer because of it. Every other guarantee holds as without signals.",
  ["schedules","fault_sequences"],"all points in time at which waiting in a system call is interrupted, for all calls",
  "No test delivers a signal.",
  ["src/network.rs",R+"robot_impl.rs","src/gripper.rs"],[("waiting for messages","src/network.rs")],["the sessions and oracles of C07, C09, C10, C13, C14, C15 and C16 under a storm of signals"])
p("C25","No message can crash the caller or be mistaken for another",
  "Whatever bytes the robot or the gripper sends (responses with an unknown status, an unknown command number, a size or a body that does not fit, random bytes, an answer that makes no sense for the phase of a motion; states with flag or mode bytes the protocol does not define), no call panics, none reports success unless a complete response with its own id and a defined status says so, and no state is delivered that the bytes of one valid datagram do not contain. A call that cannot make sense of what it received fails with an error; it may go on waiting only while a message is incomplete.",
  ["inputs","fault_sequences"],"all byte sequences on the connection and all datagrams of the state's size, at every call of robot and gripper and every phase of a motion",
  "Every test peer sends well-formed messages only.",
  ["src/network.rs",R+"robot_impl.rs","src/robot.rs","src/gripper.rs",R+"types.rs",R+"service_types.rs"],[("decoding what was received","src/network.rs"),("judging Move responses",R+"robot_impl.rs")],["results of public calls and delivered states, against a walk over the bytes that were sent"])
p("C26","Robots and grippers used together do not influence each other",
  "A program may use any number of robots and grippers at the same time, in any order and from the same thread, also using one inside the callbacks of a motion of another: every connection behaves exactly as if it were the only one. Its requests, command ids, responses, states, commands and errors are its own, its calls return what its own peer answered, and connecting, dropping or stopping one leaves the others alone.",
  ["schedules","histories"],"all numbers and kinds of connections and all interleavings and nestings of their calls",
  "Every test uses a single connection.",
  ["src/network.rs",R+"robot_impl.rs","src/robot.rs","src/gripper.rs",R+"control_loop.rs"],[("state of a connection","src/network.rs"),("state of a robot",R+"robot_impl.rs")],["requests, states and commands of every connection, each judged against its own plan"])
p("C27","The control loop keeps the robot's cycle of one millisecond",
  "From the first command of a motion to its end the library answers every state as soon as the callbacks return: it waits for nothing else (no timer, no further state, no response), so that what it adds between receiving a state and sending the command stays far below the robot's cycle of one millisecond, for every interface, with filter and limiter, whatever the log size, however long the motion and whatever responses arrive in between. The read loop hands out each state as soon as it arrives, and a call returns promptly once all it waits for has arrived.",
  ["schedules","configurations","histories"],"all interfaces, settings, motion lengths, points of a motion and responses in between",
  "No test measures how long an answer takes; a control loop that waits ten milliseconds per cycle passes all of them.",
  ["src/network.rs",R+"robot_impl.rs",R+"control_loop.rs",R+"logger.rs"],[("waiting for states and responses","src/network.rs"),("control cycle",R+"control_loop.rs")],["time between a state and the command that answers it, as the robot sees it"])
p("C28","A connection can be used without end: nothing accumulates in it",
  "However many commands, motions, reads and recoveries go over one connection, and whatever their outcome (success, refusal, abortion before or during the motion), the memory that a robot or gripper object holds does not grow with their number; within a motion it does not grow with the number of control cycles once the log of the configured size is full. A response that arrived during the call it belongs to is not kept after that call.",
  ["histories","inputs"],"all repeated sequences of commands, motions and outcomes, of any length",
  "Tests issue a handful of commands; a controller that runs for weeks issues millions.",
  ["src/network.rs",R+"robot_impl.rs",R+"logger.rs",R+"control_loop.rs","src/gripper.rs"],[("store of received responses","src/network.rs"),("log of the last exchanges",R+"logger.rs")],["memory held by the thread that uses the object, after a number of repetitions"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
