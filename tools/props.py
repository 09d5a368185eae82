"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
def prop(id, title, statement, text, why, files, mech, over=("inputs",), state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=list(over), text=" ".join(text.split())),
                  why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files, state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                               mechanism=[dict(zip(("name", "where"), m)) for m in mech],
                               observe_at=list(observe), hook_needed=None)))
def na(id, reason):
    NA.append(dict(property=id, reason=" ".join(reason.split())))

RBK = "include/state-observation/tools/rigid-body-kinematics.hpp"
RBX = "include/state-observation/tools/rigid-body-kinematics.hxx"
DEFH = "include/state-observation/tools/definitions.hpp"
DEFX = "include/state-observation/tools/definitions.hxx"

prop("C01", "Rotation exponential, logarithm and skew operators are the exact SO(3) maps",
     """The conversions from a rotation vector to a quaternion, angle-axis or rotation matrix return the rotation about
     that axis by its norm (right-handed, unit quaternion, orthonormal matrix with determinant 1), and the conversions
     back return a rotation vector of norm at most pi giving the same rotation. Each pair of conversions is mutually inverse on
     the open ball of radius pi, quaternions q and -q give the same result, and the skew-symmetric operators realise the cross
     product; regulating a rotation vector keeps the rotation and brings the angle into the principal range; a matrix is recognised as a
     rotation exactly when it is orthonormal and right-handed.""",
     "every real 3-vector in the stated ball and every unit quaternion, both the generic and the small-angle branch",
     "The unit tests convert a few random orientations; an error confined to one branch (small angle, negative w, one sign) or one component is not sampled.",
     [RBK, RBX, DEFX], [("rotationVectorToQuaternion / rotationVectorToRotationMatrix / quaternionToRotationVector / rotationMatrixToRotationVector", RBX), ("skewSymmetric, skewSymmetric2", RBX)])
prop("C02", "Roll-pitch-yaw, yaw extraction and rotation-about-an-axis conventions agree",
     """Roll, pitch and yaw are read and written with one convention R = Rz(yaw) Ry(pitch) Rx(roll): matrix and
     angles convert into each other without loss away from gimbal lock. The yaw of a pure rotation about the vertical is its angle,
     and the angle extracted about an axis is the angle of a rotation about that axis.""",
     "all roll, yaw in (-pi,pi) and pitch in (-pi/2,pi/2), all rotations about a given unit axis",
     "Tests sample a handful of angles; sign or order mistakes that cancel on these samples pass.",
     [RBK, RBX], [("rollPitchYawToRotationMatrix, rotationMatrixToRollPitchYaw, rotationMatrixToYaw, rotationMatrixToAngle", RBX)])
prop("C03", "Tilt/yaw merging keeps the tilt of one rotation and the yaw of the other",
     """The rotation built from two vectors maps the direction of the first onto the second. Merging the roll and pitch of one rotation
     (given as a rotation or as its tilt vector) with the yaw of another (or a yaw angle) gives a rotation
     matrix whose tilt is exactly that of the first and which preserves the heading of the second on the chosen reference axis;
     the axis-agnostic version agrees and is defined for every tilt.""",
     "all unit tilt vectors and rotations, split over every non-degeneracy case",
     "Tests try single random rotations with tolerance; degenerate directions and the other branch of the axis choice are not hit.",
     [RBK, RBX], [("mergeTiltWithYaw*, mergeRoll1Pitch1WithYaw2*, twoVectorsToRotationMatrix, getInvariantHorizontalVector", RBX)])
prop("C04", "Homogeneous transforms and 6D poses are one group representation",
     """A 6D pose (position, rotation vector) and a 4x4 homogeneous matrix convert into each other and describe the same
     rigid motion. Inverting the matrix, or inverting a full kinematic state vector, gives the inverse motion (position, orientation, velocities and accelerations),
     and the pose that keeps a given point fixed under a rotation does keep it fixed.""",
     "all poses with angle in (0,pi), all points, all velocities and accelerations",
     "Tests use a few random poses, so an error in a term that vanishes or is small there passes.",
     [RBK, RBX], [("vector6ToHomogeneousMatrix, homogeneousMatrixToVector6, invertHomoMatrix, invertState, fixedPointRotationToTranslation, derivateHomogeneousMatrixFD", RBX)])
prop("C05", "Kinematic integration, finite differences and their Jacobians are consistent",
     """Integrating position, velocity, rotation and angular velocity over dt applies the constant-acceleration formula and the
     exponential of the integrated angular displacement in the global frame, identically for matrix and quaternion orientations. Finite differences of orientations and poses recover the
     velocity whose integration links the two samples, also along a whole indexed trajectory, and the multiplicative Jacobians are the derivatives of the maps they name.""",
     "all positions, velocities, accelerations, dt and rotations within angle below pi; trajectories of bounded length and any start index",
     "Tests integrate one random trajectory; dropped second-order terms are below their tolerance, Jacobians are not tested.",
     [RBK, RBX], [("integrateKinematics, derivateRotationFD, derivatePoseThetaUFD, reconstructStateTrajectory, derivateRotationMultiplicative, derivateRtvMultiplicative", RBX)])
prop("C06", "An orientation object is one rotation whatever representation it holds",
     """Product, inverse, action on vectors, integration, differentiation, rotation-vector, angle-axis and roll-pitch-yaw reads of an orientation give the
     result of the rotation it represents, whichever of its representations (matrix, quaternion, both) are currently held and whichever way it was built or assigned. Reading one representation
     never changes the rotation, and the two representations never disagree.""",
     "all unit quaternions and vectors, every combination of held representations and every way of building or assigning",
     "Unit tests visit one order of accesses; stale cached representations appear only for particular sequences.",
     [RBK, RBX], [("kine::Orientation", RBX)], over=("inputs", "histories"),
     state=[("isMatrixCached", "matrix representation valid", RBK), ("isQuaternionCached", "quaternion representation valid", RBK)])
prop("C07", "Kinematics compose and invert as rigid frames, exact velocities/accelerations",
     """Composing the kinematics of frame B in A with those of C in B gives position, orientation, linear and angular velocity and acceleration of C in A
     (centripetal, Coriolis and Euler terms included), and inversion gives the kinematics of A in B, so that composing with
     the inverse is the identity and composition is associative. When fields are missing, the result sets
     exactly the fields that can be computed from those present, with the same values.""",
     "all values of the six fields, all subsets of set fields, every orientation representation, fresh or reused output objects",
     "Tests compose random full kinematics numerically; of the 64x64 subsets of set fields they visit a few.",
     [RBK, RBX], [("Kinematics::operator*, setToProductNoAlias, getInverse", RBX)], over=("inputs", "configurations"))
prop("C08", "Kinematics to/from vectors, flags and zero/reset lose nothing",
     """Exporting kinematics to a vector with a set of flags and loading it back with the same flags restores exactly the flagged fields,
     in a documented fixed order, sets them and leaves the other fields unset (or untouched on a partial load). Zeroing and resetting act on exactly
     the flagged fields and give the identity kinematics.""",
     "all 64 flag sets and all values",
     "Tests use the full flag set.", [RBK, RBX], [("Kinematics::fromVector, toVector, toVectorPartial, setZero, reset", RBX)],
     over=("inputs", "configurations"))
prop("C09", "Kinematics update and integration deduce every missing derivative consistently",
     """Integrating kinematics over dt applies exactly the constant-acceleration model to the fields present and leaves absent fields absent. Updating with a new
     partial measurement sets every field requested by the flags to the measured value where it is measured, and otherwise to the value deduced
     from the measured and previous fields by the finite-difference or integration relation over dt, and never alters what it cannot know.""",
     "all values, all subsets of fields held, fields received and fields requested, dt > 0",
     "512 combinations per axis of which the test visits a few, with random values only.",
     [RBK, RBX], [("Kinematics::integrate, Kinematics::update", RBX)], over=("inputs", "configurations"))
prop("C10", "Indexed vector/matrix arrays keep exactly the elements of their time window",
     """After any sequence of operations (set, push, pop front or back, truncate, clear, resize, index changes) an indexed array holds a contiguous window of time indices, and each index
     in the window reads back exactly the last value written for it; size, first and next index always describe that window.
     Copies are independent, and checked items report being set exactly after being assigned and until being reset.""",
     "all operation sequences up to the stated depth, all values, several start indexes",
     "Tests use arrays only as append-only logs; truncation and index changes are not exercised.",
     [DEFH, DEFX, "src/definitions.cpp"], [("IndexedMatrixArrayT, IndexedMatrixT, CheckedItem", DEFX)], over=("inputs", "histories"),
     state=[("k_", "time index of the first element", DEFH), ("v_", "elements", DEFH)])
prop("C11", "A zero-delay observer consumes each measurement and input exactly once, in order",
     """Whatever the order in which measurements, inputs, states and estimation requests come, the estimate at time k is obtained from the last set
     state by applying the one-step estimation once per time index, with the measurement of that index and the inputs its configuration calls for. Asking for
     intermediate estimates or asking in one go gives the same result, times reported for state, measurements and inputs are the real ones, and setting or clearing state, measurements
     or inputs discards exactly what is documented.""",
     "all histories up to the stated depth with symbolic measurement, input and state values",
     "Existing tests feed one measurement per step in one fixed order.",
     ["include/state-observation/observer/zero-delay-observer.hpp", "src/zero-delay-observer.cpp", "src/observer-base.cpp"],
     [("ZeroDelayObserver::getEstimatedState, setMeasurement, setInput, setState, clear*", "src/zero-delay-observer.cpp")], over=("inputs", "histories"),
     state=[("x_, y_, u_", "current state and pending measurements and inputs", "include/state-observation/observer/zero-delay-observer.hpp")])
prop("C12", "The linear Kalman filter step is exactly the textbook predict/update",
     """For every well-sized set of matrices, one step of the linear Kalman filter gives the state A x + B u + K (y - C (A x + B u) - D u) and the covariance (I - K C)(A P A^T + Q), made symmetric, with
     K the optimal gain of the innovation covariance C P C^T + R; innovation, predicted state, predicted measurement and simulated measurement agree with it. With time-varying matrices each step uses the matrices
     set at that time. Matrices of the wrong size are recognised, resets forget exactly what they name, and resizing drops whatever depends on the changed size.""",
     "all symbolic matrices with a positive definite innovation covariance, states, inputs and measurements; dimensions up to the bound; with and without input and feed-through",
     "The test checks that the estimation error on one random system becomes small; a slightly wrong gain or covariance still converges.",
     ["include/state-observation/observer/kalman-filter-base.hpp", "src/kalman-filter-base.cpp", "include/state-observation/observer/linear-kalman-filter.hpp", "src/linear-kalman-filter.cpp"],
     [("KalmanFilterBase::oneStepEstimation_", "src/kalman-filter-base.cpp"), ("LinearKalmanFilter::prediction_, predictSensor_, setB, setD", "src/linear-kalman-filter.cpp")],
     over=("inputs", "histories"), state=[("pr_", "covariance", "include/state-observation/observer/kalman-filter-base.hpp")])
prop("C13", "The extended Kalman filter linearises and updates the user's real dynamics",
     """One step of the extended Kalman filter evaluates the user's functor at the current estimate, input and time, and applies the Kalman update with
     the given Jacobians; every prediction it reports or uses is that of the current state, input, functor and time, never one computed before they changed. Finite-difference Jacobians approximate the derivatives of the functor
     column by column in the tangent space of state and measurement, leave the filter unchanged, and state and measurement arithmetics (sum, difference) supplied by the user are used wherever vectors are added or subtracted.""",
     "all states, inputs, measurements, covariances and all histories of queries and changes up to the bound",
     "Cached predictions are a matter of history: the tests call the operations in one fixed order.",
     ["include/state-observation/observer/extended-kalman-filter.hpp", "src/extended-kalman-filter.cpp", "src/kalman-filter-base.cpp", "src/state-vector-arithmetics.cpp"],
     [("ExtendedKalmanFilter::prediction_, predictSensor_, getAMatrixFD, getCMatrixFD", "src/extended-kalman-filter.cpp"), ("KalmanFilterBase::oneStepEstimation_, getInnovation, updateStatePrediction", "src/kalman-filter-base.cpp")],
     over=("inputs", "histories"))
prop("C14", "The tilt estimator is the complementary filter of its definition",
     """One step of the tilt estimator moves the velocity and the two tilt estimates by dt times the published filter equations with the gains alpha, beta and gamma, the gyrometer, the accelerometer
     and the yaw-free velocity measurement built from the control-point kinematics, and keeps tilts on the unit sphere. When the estimate is exact and the sensors perfect it moves with the
     exact derivative of the true motion. The result does not depend on when intermediate estimates are asked or at which index the observer starts.""",
     "all gains, states, measurements and control-point kinematics",
     "There is no test of the tilt estimator in the suite; a sign error only appears for moving control points.",
     ["include/state-observation/observer/tilt-estimator.hpp", "src/tilt-estimator.cpp"],
     [("TiltEstimator::setMeasurement, oneStepEstimation_", "src/tilt-estimator.cpp")], over=("inputs", "histories"))
prop("C15", "The DCM bias estimators filter exactly the LIPM model they are configured with",
     """The planar and one-dimensional DCM estimators run a Kalman filter whose transition is the linear inverted pendulum with the configured frequency and sampling time and a bias carried along with the rotation of the robot, and whose
     noise and initial uncertainties are the configured ones; every setter reaches the filter and no setter undoes another. Unbiased DCM and bias sum to the same measured DCM, biases are reported in the local and global frames
     consistently, the local bias stays within its limits on each limited axis, and inputs are never lost when updates are skipped.""",
     "all settings, measurements, orientations and limits, all histories up to the bound",
     "The tests check the convergence of the bias in one simulation with fixed settings.",
     ["include/state-observation/dynamics-estimators/lipm-dcm-estimator.hpp", "src/lipm-dcm-estimator.cpp", "include/state-observation/dynamics-estimators/unidim-lipm-dcm-estimator.hpp", "src/unidim-lipm-dcm-estimator.cpp"],
     [("LipmDcmEstimator::setInputs, update, updateMatricesABQ_", "src/lipm-dcm-estimator.cpp"), ("UnidimLipmDcmEstimator", "src/unidim-lipm-dcm-estimator.cpp")], over=("inputs", "histories", "configurations"))
prop("C16", "Sensors return the physics of their definition, noisy or not, cached or not",
     """The accelerometer, gyrometer and magnetometer return gravity plus acceleration, angular velocity and the magnetic field in the frame of the sensor, whether the orientation is given as a quaternion or as
     a matrix, and pass concatenated inputs through unchanged. Noise is exactly added when it was asked for and never otherwise, a measurement asked again for the same state and time is the same one, and a new state or time gives a new one.
     Gaussian white noise is bias plus standard deviation times normalised draws (through the tangent space when one is given).""",
     "all orientations, accelerations, angular velocities, concatenated inputs and noises, all short histories of operations",
     "No test looks at a sensor by itself; stored measurements only matter for particular sequences of calls.",
     ["include/state-observation/sensors-simulation/algebraic-sensor.hpp", "src/algebraic-sensor.cpp", "src/accelerometer-gyrometer.cpp", "src/accelerometer-gyrometer-magnetometer.cpp", "src/gaussian-white-noise.cpp"],
     [("AlgebraicSensor::getMeasurements, setState", "src/algebraic-sensor.cpp"), ("AccelerometerGyrometer::computeNoiselessMeasurement_", "src/accelerometer-gyrometer.cpp"),
      ("GaussianWhiteNoise::getNoisy, addNoise", "src/gaussian-white-noise.cpp")], over=("inputs", "histories"))
prop("C17", "IMU systems predict the motion and the signals of a moving IMU",
     """The IMU dynamical systems (with and without magnetometer, vector or multiplicative orientation) integrate position, velocity, orientation and angular velocity over the sampling period with the accelerations of the state
     or of the input, give the noiseless signals the sensor model gives for that motion, add exactly the process and measurement noises which were set, and publish state, measurement and input sizes matching their vectors. The multiplicative system adds and subtracts orientations
     on the manifold (difference undoes sum) and its analytic Jacobians are those of its prediction and of its measurement.""",
     "all states, inputs, sampling periods and noises",
     "The tests run one trajectory through a filter and look at the final error.",
     ["src/imu-dynamical-system.cpp", "src/imu-magnetometer-dynamical-system.cpp", "src/imu-mltpctive-dynamical-system.cpp"],
     [("IMUDynamicalSystem::stateDynamics, measureDynamics", "src/imu-dynamical-system.cpp"), ("IMUMagnetometerDynamicalSystem", "src/imu-magnetometer-dynamical-system.cpp"),
      ("IMUMltpctiveDynamicalSystem::getAMatrix, getCMatrix, stateSum, stateDifference", "src/imu-mltpctive-dynamical-system.cpp")])
prop("C18", "The kinetics observer's state vector has one place for each component",
     """In the kinetics observer the published indices of position, orientation, velocities, gyrometer biases, unmodeled wrench and contact poses and wrenches tile the state vector and its tangent space without overlap or hole, whatever the
     numbers of contacts and IMUs. Adding a tangent vector to a state moves each estimated component only, orientations on the manifold, and the difference of two states is the tangent vector which moves one to the other, null for what is not estimated.""",
     "all numbers of contacts and IMUs up to the bound, all sets of present contacts, all states and tangent vectors",
     "The tests look at one configuration and at the norm of the error.",
     ["include/state-observation/dynamics-estimators/kinetics-observer.hpp", "include/state-observation/dynamics-estimators/kinetics-observer.hxx", "src/kinetics-observer.cpp"],
     [("KineticsObserver index getters", "include/state-observation/dynamics-estimators/kinetics-observer.hxx"), ("KineticsObserver::stateSum, stateDifference", "src/kinetics-observer.cpp")], over=("inputs", "configurations"))
prop("C19", "The kinetics observer uses exactly the contacts and sensors it was given",
     """Contacts are added, removed, cleared and numbered consistently: a number is given to one contact at a time, removed numbers are free again, the list and the number of contacts agree. The measurement vector of an iteration is made of exactly the signals given
     in that iteration (IMUs, contact wrenches, absolute pose, in that order), with the covariance given for each sensor or its default; signals of previous iterations or reset inputs are never used again, and the innovation compares measured and predicted orientations on the manifold.""",
     "all histories of contact operations and of given sensors up to the bound, all signals",
     "The tests add the same contacts and sensors once at each iteration.",
     ["include/state-observation/dynamics-estimators/kinetics-observer.hpp", "src/kinetics-observer.cpp"],
     [("KineticsObserver::addContact, removeContact, clearContacts, updateContactWithWrenchSensor, setIMU, setAbsolutePoseSensor, update, getMeasurementVector, measurementDifference", "src/kinetics-observer.cpp")],
     over=("inputs", "histories"))
prop("C20", "The kinetics observer predicts motion, contact wrenches and signals physically",
     """The accelerations estimated by the kinetics observer satisfy the Newton-Euler equations of a body with a moving center of mass, varying inertia and internal angular momentum under gravity, additional, unmodeled and contact wrenches. The predicted state integrates them over the
     sampling period and gives each contact the wrench of its stiffness and damping about its rest pose; predicted signals are those of IMUs (with biases), wrench and pose sensors in that motion; the noises set are added. Inputs and sensor kinematics given without derivatives get the finite
     differences over the elapsed time, null the first time a sensor is seen.""",
     "all states, masses, inertias, wrenches, local kinematics and noises, all subsets of given derivatives",
     "The tests compare a rigid body at a few instants, without rotation of the contacts, missed iterations or biases.",
     ["include/state-observation/dynamics-estimators/kinetics-observer.hpp", "src/kinetics-observer.cpp"],
     [("KineticsObserver::computeAccelerations_, computeContactForces_, stateDynamics, measureDynamics, estimateAccelerations", "src/kinetics-observer.cpp"),
      ("KineticsObserver::setCenterOfMass, setInertiaMatrix, setAngularMomentum, setIMU", "src/kinetics-observer.cpp")], over=("inputs", "histories"))
prop("C21", "Each covariance of the kinetics observer is set and reset on its own",
     """Setting or resetting the uncertainty, or the process noise, of one component of the kinetics observer (kinematics, a gyrometer bias, the unmodeled wrench, a contact) replaces exactly the block of that component in the state or process covariance, forgets its correlations and changes nothing
     else. Resets use the defaults given last, or the published ones; new contacts get the given or default covariances; setting a component of the state changes its value in the filter and resets its covariance only when asked.""",
     "all covariance matrices, all numbers of contacts and IMUs up to the bound",
     "No test reads a covariance of the kinetics observer.",
     ["include/state-observation/dynamics-estimators/kinetics-observer.hpp", "src/kinetics-observer.cpp"],
     [("KineticsObserver::setContactStateCovMat, setContactProcessCovMat, resetStateCovarianceMat, resetProcessCovarianceMat, setStateKinematics, setGyroBias, setStateUnmodeledWrench, addContact", "src/kinetics-observer.cpp")],
     over=("inputs", "configurations"))
prop("C22", "The simulator replays the dynamics and inputs it was given, at any time asked",
     """States, inputs and measurements given by the dynamical system simulator are those of iterating the functor from the state which was set with the last input given for each time (the previous one where none is), whatever the order in which states and measurements are asked,
     simulated, replaced or reset. The elastic inverted pendulum follows its equation of motion with the parameters set (none left undefined), and the scalar tools (clamping, sign, finite difference, lazy normalisation, finite-time control) satisfy their definitions on every component.""",
     "all histories of operations up to the bound, all states, inputs and parameters",
     "The tests simulate once from the beginning to the end and read the stored values.",
     ["src/dynamical-system-simulator.cpp", "src/bidim-elastic-inv-pendulum-dyn-sys.cpp", "include/state-observation/tools/miscellaneous-algorithms.hpp"],
     [("DynamicalSystemSimulator::getMeasurement, getState, simulateDynamics, setState, setInput", "src/dynamical-system-simulator.cpp"), ("BidimElasticInvPendulum::stateDynamics", "src/bidim-elastic-inv-pendulum-dyn-sys.cpp"),
      ("clampScalar, signum, finiteTimeAccControl, normalizedLazy", "include/state-observation/tools/miscellaneous-algorithms.hpp")], over=("inputs", "histories"))
prop("C23", "Fixed-contact flexibility models predict motion and contact measurements",
     """The next state of the fixed contact models is the integration of the state over one sampling period (rotations composed, not added), with accelerations kept (or damped in the stable version); the measurement is the accelerometer and gyrometer signals of the
     IMU carried by the flexibility, followed for each contact by the displacement which the flexibility would impose to it. Sizes follow the number of contacts at any time, and process and measurement noises act once each on what is returned.""",
     "all states, inputs, sampling periods and contact positions; all sequences of configuration up to the bound",
     "The tests run one filter on a recorded or simulated trajectory and look at the final error.",
     ["src/imu-fixed-contact-dynamical-system.cpp", "src/stable-imu-fixed-contact-dynamical-system.cpp"],
     [("IMUFixedContactDynamicalSystem::stateDynamics, measureDynamics, setContactPosition, setContactsNumber", "src/imu-fixed-contact-dynamical-system.cpp"),
      ("StableIMUFixedContactDynamicalSystem::stateDynamics, measureDynamics", "src/stable-imu-fixed-contact-dynamical-system.cpp")], over=("inputs", "configurations"))
prop("C24", "The fixed-contact flexibility estimator is the EKF of its configured model",
     """An EKF-based flexibility estimator gives, at each step, the estimate of the extended Kalman filter of its own model (same sampling period, number of contacts, inputs and covariances as were set, whatever the order in which they were set), with the virtual measurements of the contacts;
     a guess is accepted as a state, a six-dimensional vector or a homogeneous matrix and sets exactly the corresponding part of the state; estimates which are not numbers are replaced by the previous valid ones; the flexibility is given as the vector and as the homogeneous matrix of the same estimate.""",
     "all orders of configuration up to the bound, all guesses, states, inputs and measurements",
     "The tests configure the estimator in one order and check the error at the end of one trajectory.",
     ["src/fixed-contact-ekf-flex-estimator-imu.cpp", "src/ekf-flexibility-estimator-base.cpp", "src/flexibility-estimator-base.cpp"],
     [("FixedContactEKFFlexEstimatorIMU::setFlexibilityGuess, setContactsNumber, setSamplingPeriod, getFlexibilityVector", "src/fixed-contact-ekf-flex-estimator-imu.cpp"),
      ("EKFFlexibilityEstimatorBase::getFlexibilityVector, setMeasurement, setInput", "src/ekf-flexibility-estimator-base.cpp")], over=("inputs", "configurations"))
prop("C25", "The elastic contact model obeys Newton-Euler mechanics and its contact laws",
     """Accelerations of the flexibility satisfy the Newton and Euler equations of the whole robot under the contact wrenches, unmodeled and additional wrenches, whatever the mass, inertia, motion of the center of mass and internal momentum; contact wrenches follow the visco-elastic (or rope) law of the coefficients set;
     the next state is the integration of these accelerations; the momenta derivatives from forces and from kinematics agree; measurements are the IMU signals, contact wrenches and absolute pose of this motion, in the announced sizes; Jacobians are the finite differences of these functions and do not disturb the current values.""",
     "all states, inputs, masses, inertias and coefficients; all configurations and sequences of options up to the bound",
     "The tests run the complete estimator on logged trajectories and compare one final error with a threshold.",
     ["src/imu-elastic-local-frame-dynamical-system.cpp"],
     [("IMUElasticLocalFrameDynamicalSystem::computeAccelerations, getForcesAndMoments, getMomentaDotFromForces, getMomentaDotFromKinematics, stateDynamics, measureDynamics, stateDynamicsJacobian, measureDynamicsJacobian", "src/imu-elastic-local-frame-dynamical-system.cpp")],
     over=("inputs", "configurations"))
prop("C26", "The model-based flexibility estimator runs its filter on the configured model",
     """Whatever the order in which contacts, sensors and their variances are configured, the measurement covariance, the sizes and the process and state covariances are those of the sensors and options in use, each initialised and none of another sensor; a guess of any form is the estimate until the first measurement;
     each step is that of the extended Kalman filter on the elastic model, once, with the measurement's input and sampling period given; contact forces and moments are saturated at their own limits when limits are on and untouched otherwise; switched off, the estimate is null and nothing is estimated; an invalid measurement never corrupts the estimate.""",
     "all variances, guesses, measurements and limits; all sequences of configuration operations up to the bound",
     "The test runs one configuration on a logged trajectory and compares the final error with a threshold.",
     ["src/model-base-ekf-flex-estimator-imu.cpp", "src/ekf-flexibility-estimator-base.cpp"],
     [("ModelBaseEKFFlexEstimatorIMU", "src/model-base-ekf-flex-estimator-imu.cpp"), ("EKFFlexibilityEstimatorBase", "src/ekf-flexibility-estimator-base.cpp")],
     over=("inputs", "histories"))
prop("C27", "The logger keeps exactly the value of each recorded variable at each time",
     """Each push appends to each recorded variable (or to the one which was named) the value it has at that time, of every supported type and whether it is named by reference or by address; a change of address keeps the previous records and continues from the new address; clearing removes all the records and nothing else;
     the file of a variable contains its records with their indexes, and no other variable writes in it. Recording a variable again loses none of its records; what happens to one variable has no effect on the others.""",
     "all histories of operations up to the bound, all values", "No test uses the logger.",
     ["include/state-observation/tools/logger.hpp", "include/state-observation/tools/logger.hxx", "src/logger.cpp"],
     [("Logger::record, push, update_, updateAddress, clearLogs, clearTracking, save, getRecord", "src/logger.cpp")], over=("histories", "inputs"))
prop("C28", "Arrays written to files are read back with the same values and times",
     """An array of matrices or vectors written in a file (with its time stamps, with or without clearing or appending as asked) and read back, in a new array or in one which was in use, has the same number of elements, the same values at the same rows and columns and the same time indexes; a matrix or vector written in a string is read back with the same components; a file without time stamps is read with the number of elements it has,
     from the first index; a file which cannot be opened leaves no element of the previous content mixed with a new one.""",
     "all numbers of elements, sizes and first indexes up to the bound, all values", "The tests read one recorded file and do not look at the values.",
     ["include/state-observation/tools/definitions.hxx"],
     [("IndexedMatrixArray::readFromFile, readVectorsFromFile, writeInFile, clearAndResize", "include/state-observation/tools/definitions.hxx")], over=("inputs", "histories"))
#MORE

prop("C29", "Each iteration of the kinetics observer is one filter step on its own model",
     """An update of the kinetics observer is one step of the extended Kalman filter on the observer's own state and measurement models, with the signals, covariances and finite-difference steps given: its state, covariance, Jacobians and time are those of that filter, once per iteration;
     without any signal the estimate is the prediction. The kinematics, contact wrenches, contact poses and, when asked, the accelerations which it returns are those of the estimate, and updating again without new data changes nothing.""",
     "all values of each signal about a working point, all sets of contacts, options and signals up to the bound, after an iteration or not",
     "The test runs one sequence of all sensors and looks at the final error.",
     ["src/kinetics-observer.cpp", "src/extended-kalman-filter.cpp", "src/kalman-filter-base.cpp"],
     [("KineticsObserver::update, updateKine_, computeAMatrix_, computeCMatrix_", "src/kinetics-observer.cpp")],
     over=("inputs", "histories"))
def main():
    import sys
    sys.path.insert(0, os.path.join(V, "engine"))
    from registry import REG
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in P:
        if p["id"] not in REG:
            assert p["id"] in [n["property"] for n in NA], p["id"]
            continue
        r = REG[p["id"]]
        checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"],
                           thorough_cmd="python3 check.py %s thorough" % p["id"],
                           technique="bounded symbolic execution of the real code's LLVM IR, assertions decided by SMT (z3) over the reals, counterexamples replayed natively",
                           level="model_checking",
                           level_note="Every path of every scenario within the bounds is encoded from /repo's current source and every assertion decided for all real values: "
                                      + r["bounds"] + ". Doubles are reasoned about as reals; libm functions are axiomatised; Eigen is executed symbolically as it is. "
                                      "Trusted: clang front end, the instrumentation pass and runtime (cross-checked by replaying a witness of each path natively), z3, GMP."))
    m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=NA,
             notes="No hooks in /repo. Repairs of genuine defects are the fix: commits listed in known_findings.json.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    design(REG)


# id -> (oracle, quick seconds, why beyond the tests is taken from why_tests_cant); results of the last measurement in caught.json
def design(REG):
    t = open(os.path.join(V, "tools", "design.md.in")).read()
    rows = []
    for p in P:
        i = p["id"]
        rows.append("### %s %s\n\n%s\n" % (i, p["title"], p["statement"]))
        if i not in REG:
            rows.append("Not claimed, see section 3.\n")
            continue
        r = REG[i]
        rows.append("* Harness `%s`; scenarios and oracle: %s." % (", ".join("harness/" + h for h in r["harness"]), r.get("oracle", "reference formulas written in the harness")))
        rows.append("* Quantified over: %s." % p["quantifier"]["text"])
        rows.append("* Bounds: %s." % r["bounds"])
        if r.get("cost"):
            rows.append("* Cost: %s." % r["cost"])
        rows.append("* Beyond the tests: %s\n" % p["why_tests_cant"])
    t = t.replace("@@TABLE@@", "\n".join(rows))
    t = t.replace("@@NA@@", "\n".join("* **%s**: %s" % (n["property"], n["reason"]) for n in NA) or "None of the properties written down is left unclaimed.")
    c = {}
    cp = os.path.join(V, "tools", "caught.json")
    if os.path.exists(cp):
        c = json.load(open(cp))
    sd = os.path.join(V, "seeded")
    if os.path.isdir(sd):
        rows = ["| planted bug | property | caught by the quick check | what it breaks |", "|---|---|---|---|"]
        for d in sorted(os.listdir(sd)):
            m = json.load(open(os.path.join(sd, d, "meta.json")))
            rows.append("| %s | %s | %s | %s |" % (d, m["property"], c.get(d, "not measured"), m["what_it_breaks"]))
        with open(os.path.join(V, "DESIGN.md"), "w") as f:
            f.write(t.replace("@@SEEDED@@", "\n".join(rows)))


main()
