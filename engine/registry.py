"""property id -> harness files, the library sources it links, stated bounds and assumptions"""
LKF = ["linear-kalman-filter", "kalman-filter-base", "zero-delay-observer", "observer-base", "state-vector-arithmetics", "definitions"]
EKF = ["extended-kalman-filter", "dynamical-system-functor-base"] + LKF[1:]
SENS = ["accelerometer-gyrometer-magnetometer", "accelerometer-gyrometer", "algebraic-sensor", "sensor-base", "linear-acceleration", "rotation-velocity",
        "magnetic-field", "gaussian-white-noise", "probability-law-simulation", "state-vector-arithmetics", "definitions"]
REG = {
    "C01": dict(harness=["p_rot.cpp"], need=[],
                bounds="one call chain per scenario; rotation vectors with 1e-4 <= |v| <= pi - margin on the generic branch, "
                       "|v| below the small-angle threshold on the linearised branch; arbitrary unit quaternions"),
    "C02": dict(harness=["p_rpy.cpp"], need=["state-vector-arithmetics"],
                bounds="one call chain per scenario; roll, yaw in (-pi,pi), pitch in (-pi/2,pi/2) with stated margins"),
    "C03": dict(harness=["p_tilt_merge.cpp"], need=["state-vector-arithmetics"],
                bounds="one call per scenario; arbitrary unit vectors/rotations, split over component-wise "
                       "non-degeneracy cases"),
    "C04": dict(harness=["p_homog.cpp"], need=[],
                bounds="one call chain per scenario; rotation angles in (0,pi) with margin; arbitrary translations and derivatives"),
    "C05": dict(harness=["p_integ.cpp"], need=[],
                bounds="one integration or difference step, trajectories of 3 samples at start index 0,1,2; relative angles below pi; "
                       "two-component relative rotations in the general matrix difference (three in the thorough tier)"),
    "C06": dict(harness=["p_orient.cpp"], need=[],
                bounds="sequences of one or two operations on every combination of held representations; arbitrary unit quaternions"),
    "C07": dict(harness=["p_kine.cpp"], need=[],
                bounds="products of two or three kinematics; every subset of set fields, every representation of the orientations"),
    "C08": dict(harness=["p_kinevec.cpp"], need=[], bounds="all 64 flag sets, one export/load per object"),
    "C09": dict(harness=["p_update.cpp"], need=[],
                bounds="one update or integration; all subsets of held, received and requested fields of the linear and of the angular part"),
    "C10": dict(harness=["p_arrays.cpp"], need=["definitions"],
                bounds="initial sizes 0..3, first index in {0,1,5}, every sequence of 3 operations; symbolic element values"),
    "C11": dict(harness=["p_zerodelay.cpp"], need=["zero-delay-observer", "observer-base"],
                bounds="every history of 4 operations, state/measurement/input of dimension 1, with and without inputs; one-step estimation is an uninterpreted-like linear recursion"),
    "C12": dict(harness=["p_lkf.cpp"], need=LKF,
                bounds="state, measurement and input dimensions up to 3; one step with arbitrary symbolic A,B,C,D,Q,R,P, scalar time-varying systems over 3 steps; "
                       "innovation covariance assumed positive definite"),
    "C13": dict(harness=["p_ekf.cpp"], need=EKF,
                bounds="quadratic dynamics of dimension 1 and 2 with input and time dependence, one and two steps, arbitrary symbolic P,Q,R, "
                       "every way (and pair of queries) of changing state, input or functor between two predictions; redundant tangent representation of dimension 1/2"),
    "C14": dict(harness=["p_tilt_est.cpp"], need=["tilt-estimator", "zero-delay-observer", "observer-base", "definitions"],
                bounds="one step with arbitrary symbolic gains, state and measurements, with and without the control-point kinematics; histories of 3 steps"),
    "C15": dict(harness=["p_dcm.cpp"], need=["lipm-dcm-estimator", "unidim-lipm-dcm-estimator"] + LKF,
                bounds="constructors, every setter and one step with symbolic values; planar histories of 3 inputs with or without updates in between; the Kalman step is the reference of C12"),
    "C16": dict(harness=["p_sensors.cpp"], need=SENS,
                bounds="one sensor, state vectors and inputs of the sizes the sensors declare (concatenated inputs of 1..3 components), histories of up to 3 operations; "
                       "noise of dimension up to 3; rotation given by an arbitrary unit quaternion or any rotation matrix"),
    "C17": dict(harness=["p_imu.cpp"], need=["imu-dynamical-system", "imu-magnetometer-dynamical-system", "imu-mltpctive-dynamical-system", "dynamical-system-functor-base"] + SENS,
                oracle="rigid-body integration and sensor formulas written in the harness, noises replaced by recording stand-ins",
                bounds="one prediction and one measurement (asked again or not) of each of the three IMU systems with arbitrary symbolic states and inputs; rotation of one step with 1e-6 < angle^2 < 9.8 on the generic branch, "
                       "sum, difference and Jacobians of the multiplicative system at one state"),
    "C18": dict(harness=["p_kobs_layout.cpp"], need=["kinetics-observer"] + EKF,
                oracle="components placed by the published index getters, whose values are checked to tile the vector",
                bounds="up to 3 contacts and 3 IMUs in the layout, 2 and 2 in the arithmetics, every set of present contacts, with and without biases and unmodeled wrench; one sum or difference with rotations of 1e-6 < angle^2 < 9.8"),
    "C19": dict(harness=["p_kobs_sensors.cpp"], need=["kinetics-observer"] + EKF,
                oracle="a list of contacts and of given signals kept by the harness",
                bounds="2 contacts and 2 IMUs; every history of 4 contact operations; two iterations with every combination of given sensors and default or given covariances; update() runs on concrete numbers with moderate covariances "
                       "(the default variance 1e100 leaves no significant digit in double precision), signals are symbolic"),
    "C20": dict(harness=["p_kobs_dyn.cpp"], need=["kinetics-observer"] + EKF,
                oracle="Newton-Euler equations about the center of mass, visco-elastic contact model and sensor formulas written in the harness; the integration of C09 for the rotating prediction",
                bounds="one prediction of the state and of the measurements on an arbitrary symbolic state inside update(), up to 2 contacts and 1 IMU, symmetric positive definite inertia; finite differences over up to 3 iterations; the EKF itself is given concrete answers; "
                       "contact rotations on the hemisphere w > 0.001"),
    "C21": dict(harness=["p_kobs_cov.cpp"], need=["kinetics-observer"] + EKF,
                oracle="expected covariances kept by the harness, one block replaced at a time, at the tangent index computed from the numbers of contacts and IMUs",
                bounds="1 to 3 contacts, 1 or 2 IMUs; arbitrary symbolic full covariances, then one operation (histories of up to 5 for the contacts)"),
    "C22": dict(harness=["p_simulator.cpp"], need=["dynamical-system-simulator", "bidim-elastic-inv-pendulum-dyn-sys", "dynamical-system-functor-base", "definitions"],
                oracle="a list of states and a map of inputs kept by the harness, iterating the same symbolic dynamics; the pendulum and controller equations",
                bounds="every history of 3 (thorough: 4) operations after the initial state, starting at time 0 or 3, then all the measurements; affine time-dependent dynamics with symbolic coefficients; vectors of up to 3 components in the controller; "
                       "inputs are set for the current or a future time, |x| and the distance to the sliding surface above 0.01"),
    "C23": dict(harness=["p_fixed.cpp"], need=["imu-fixed-contact-dynamical-system", "stable-imu-fixed-contact-dynamical-system", "dynamical-system-functor-base"] + SENS,
                oracle="constant-acceleration integration, contact constraint and sensor formulas written in the harness, noises replaced by recording stand-ins",
                bounds="one prediction and one measurement of each of the two systems with arbitrary symbolic states and inputs, 0 to 3 contacts (positions symbolic) changed between calls; "
                       "rotations of 1e-4 < angle^2 on the generic branch"),
    "C24": dict(harness=["p_flexekf.cpp"], need=["fixed-contact-ekf-flex-estimator-imu", "ekf-flexibility-estimator-base", "flexibility-estimator-base", "imu-fixed-contact-dynamical-system",
                                                 "dynamical-system-functor-base"] + EKF + SENS,
                oracle="the extended Kalman filter of C13 and the fixed contact system of C23, driven by the harness with the covariances and sizes which were configured",
                bounds="a scalar model with symbolic coefficients over several steps, with any set of invalid (NaN) measurements; the fixed contact estimator with 0 to 3 contacts, every order of configuration, "
                       "every form of the guess, one prediction with symbolic state and input, whole steps with symbolic measurements around concrete states"),
    "C25": dict(harness=["p_elastic.cpp"], need=["imu-elastic-local-frame-dynamical-system", "dynamical-system-functor-base"] + SENS,
                oracle="Newton-Euler equations of the whole robot, visco-elastic contact and rope models, integration and sensor formulas written in the harness; finite differences taken by a second object",
                bounds="one evaluation on an arbitrary symbolic state and input (inertia symmetric positive definite at the center of mass), 0 to 2 contacts; in the dynamics the flexibility starts unrotated and turns about one axis by less than 3 rad; "
                       "orientations about one axis in the ropes, momenta and measurements; Jacobians at states with symbolic velocities, drift and contact velocities; 4 operations on the sizes"),
    "C26": dict(harness=["p_modelbase.cpp"], need=["model-base-ekf-flex-estimator-imu", "ekf-flexibility-estimator-base", "flexibility-estimator-base", "imu-elastic-local-frame-dynamical-system", "extended-kalman-filter",
                                                   "kalman-filter-base", "zero-delay-observer", "observer-base", "dynamical-system-functor-base"] + SENS,
                oracle="covariance blocks of the configured sensors kept by the harness; steps are compared with an extended Kalman filter (C13) run on the elastic model (C25) by the harness; saturation written out",
                bounds="every history of 3 (thorough: 4) configuration operations with symbolic variances and covariances; symbolic guesses; one and two filter steps with symbolic measurements around concrete states, 0 to 2 contacts, 5 option sets; "
                       "one symbolic contact force or moment and limit; NaN in any component of a measurement"),
    "C27": dict(harness=["p_logger.cpp"], need=["logger", "definitions"],
                oracle="lists of the pushed values kept by the harness; files are memory files, the conversion of numbers to text is replaced by an exact one",
                bounds="every supported type recorded by reference or by address; two variables and every history of 3 (thorough: 4) operations among push, push of one variable, change of address, clear and save; symbolic values"),
    "C28": dict(harness=["p_files.cpp"], need=["definitions"],
                oracle="the list of the written values and their indexes; files are memory files, the conversion of numbers to text is replaced by an exact one (printed precision is out of scope)",
                bounds="0 to 3 elements of 5 sizes, first index in {0,1,12}, reading array new or reused, with or without time stamps, by name or by path string; symbolic element values"),
    "C29": dict(harness=["p_kobs_step.cpp"], need=["kinetics-observer"] + EKF,
                oracle="an extended Kalman filter (C13) run by the harness on the functor and the arithmetics of the observer (C18, C19, C20)",
                bounds="1 or 2 contacts, 1 IMU, 4 sets of options and sensors, with or without a previous iteration; one symbolic component of one signal (accelerometer, gyrometer, force or position) or one symbolic initial variance, the rest at a concrete working point"),
}
