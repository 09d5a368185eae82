// KineticsObserver: contacts, sensors, measurement vector and its covariance, over several iterations.
#include "p_kobs_run.hpp"
#include <set>
static void poseIs(const Kin & k, const Pose & p, const std::string & l)
{
  sx::eqm(k.position(), p.p, l + " position");
  sx::eqm(k.orientation.toVector4(), p.q, l + " orientation");
}
struct Contacts // the contacts the observer should hold
{
  std::map<int, Motion> held;
  void check(KineticsObserver & o)
  {
    sx::eqi(o.getNumberOfContacts(), held.size(), "number of contacts");
    std::vector<int> l = o.getListOfContacts();
    std::set<int> s(l.begin(), l.end());
    bool same = l.size() == held.size() && s.size() == held.size();
    for(auto & c : held) same = same && s.count(c.first);
    sx::yes(same, "list of contacts");
    for(auto & c : held)
    {
      poseIs(o.getContactPosition(c.first), c.second, "contact");
      sx::eqm(o.getContactWrench(c.first), Vector::Zero(6), "wrench of a new contact");
      sx::eqm(o.getCurrentStateVector().segment(o.contactPosIndex(c.first), 3), c.second.p, "contact in the state");
    }
    // the filter starts from the state of the observer
    sx::eqm(o.getEKF().getCurrentEstimatedState(), o.getCurrentStateVector(), "state of the filter");
  }
};
SX_SCENARIO(contacts)
{
  const int C = 3;
  KineticsObserver o(C, 1);
  Motion base = motion("base");
  Vector x = Vector::Zero(o.getStateSize());
  x.segment(o.oriIndex(), 4) = base.q;
  x.segment(o.posIndex(), 3) = base.p;
  o.setStateVector(x);
  Contacts ref;
  ref.check(o);
  for(int step = 0; step < 4; ++step)
  {
    int op = sx_choice("operation", 3);
    std::string n = "c" + std::to_string(step);
    if(op == 0)
    {
      if(ref.held.size() == C) return;
      Motion m = motion(n);
      int want = sx_choice("number", C + 1) - 1;
      if(want >= 0 && ref.held.count(want)) return; // not allowed
      int got = (want < 0 && sx_choice("default number", 2)) ? o.addContact(m.kin(0)) : o.addContact(m.kin(0), want);
      if(want < 0)
      {
        sx::yes(got >= 0 && got < C && !ref.held.count(got), "a free number");
        want = got;
        if(ref.held.count(got)) return;
      }
      else
        sx::eqi(got, want, "requested number");
      ref.held[got] = m;
    }
    else if(op == 1)
    {
      int i = sx_choice("which", C);
      if(!ref.held.count(i)) return; // not allowed
      o.removeContact(i);
      ref.held.erase(i);
    }
    else
    {
      o.clearContacts();
      ref.held.clear();
    }
    ref.check(o);
    poseIs(o.getKinematics(), base, "base");
  }
}
static Vector6 wrenchOf(const std::string & n) { return Vector6(sx::vec(n, 6)); }
// what one iteration received
struct Inputs
{
  std::map<int, Vector6> imu, wrench;
  bool withPose;
  Motion pose;
  Vector vec() const
  {
    Vector y(6 * (imu.size() + wrench.size()) + (withPose ? 7 : 0));
    int at = 0;
    for(auto & i : imu)
    {
      y.segment(at, 6) = i.second;
      at += 6;
    }
    for(auto & i : wrench)
    {
      y.segment(at, 6) = i.second;
      at += 6;
    }
    if(withPose)
    {
      y.segment(at, 3) = pose.p;
      y.segment(at + 3, 4) = pose.q;
    }
    return y;
  }
};
SX_SCENARIO(measurements)
{
  sx_mode_native_concrete(1);
  const int C = 2, N = 2;
  KineticsObserver o(C, N);
  start(o, C);
  sx::eqi(o.getMeasurementSize(), 0, "no measurement yet");
  int before = sx_choice("previous iteration", 5);
  if(before > 0)
  {
    concreteIteration(o, C, before - 1, true, before == 2);
    sx::eqi(o.getStateVectorTimeIndex(), 1, "time of the estimate");
    sx::eqi(o.getMeasurementSize(), 0, "the measurements were consumed");
    sx::eqi(o.getMeasurementVector().size(), 0, "no measurement left");
  }
  Inputs in;
  int imus = sx_choice("imus", 4);
  std::vector<int> order;
  if(imus == 1) order = {-1};
  if(imus == 2) order = {-1, -1};
  if(imus == 3) order = {1};
  for(int i : order)
  {
    Vector6 v = wrenchOf("imu" + std::to_string(in.imu.size()));
    Vector3 acc = v.head(3), gyr = v.tail(3);
    int got = (i < 0) ? o.setIMU(acc, gyr, someMotion(2).kin(2)) : o.setIMU(acc, gyr, someMotion(2).kin(2), i);
    if(i >= 0) sx::eqi(got, i, "requested imu");
    sx::yes(got >= 0 && got < N && !in.imu.count(got), "a free imu");
    in.imu[got] = v;
    in.withPose = false;
    sx::eqm(o.getMeasurementVector(), in.vec(), "measurements so far");
  }
  in.withPose = sx_choice("pose", 2);
  if(in.withPose)
  {
    in.pose = motion("pose");
    o.setAbsolutePoseSensor(in.pose.kin(sx_choice("pose with velocities", 2)));
    sx::eqm(o.getMeasurementVector(), in.vec(), "measurements with the pose");
  }
  int last = sx_choice("contacts", 8);
  for(int j = 0; j < C; ++j)
  {
    int i = (last & 4) ? C - 1 - j : j;
    if((last >> i) & 1)
    {
      in.wrench[i] = wrenchOf("w" + std::to_string(i));
      o.updateContactWithWrenchSensor(in.wrench[i], someMotion(i).kin(1), i);
    }
    else
      o.updateContactWithNoSensor(someMotion(i).kin(1), i);
    sx::eqi(o.getMeasurementSize(), in.vec().size(), "size of the measurements");
    sx::eqm(o.getMeasurementVector(), in.vec(), "measurements");
  }
  // lost contacts do not give any measurement
  if(sx_choice("lost", 2))
  {
    int i = sx_choice("lost contact", C);
    o.removeContact(i);
    in.wrench.erase(i);
    sx::eqm(o.getMeasurementVector(), in.vec(), "measurements without the lost contact");
    // and found again, with or without its sensor
    int again = sx_choice("found again", 3);
    if(again)
    {
      sx::eqi(o.addContact(contactPose(i), i), i, "number of the contact found again");
      sx::eqm(o.getMeasurementVector(), in.vec(), "measurements with a contact just found again");
      if(again == 2)
      {
        in.wrench[i] = wrenchOf("again");
        o.updateContactWithWrenchSensor(in.wrench[i], someMotion(i).kin(1), i);
      }
      else
        o.updateContactWithNoSensor(someMotion(i).kin(1), i);
      sx::eqm(o.getMeasurementVector(), in.vec(), "measurements with the contact found again");
      sx::eqi(o.getMeasurementSize(), in.vec().size(), "size of the measurements with the contact found again");
    }
  }
}
// the inputs of an iteration can be dropped and given again
SX_SCENARIO(reset_inputs)
{
  sx_mode_native_concrete(1);
  const int C = 2, N = 2;
  KineticsObserver o(C, N);
  start(o, C);
  int before = sx_choice("previous iterations", 3);
  for(int i = 0; i < before; ++i) concreteIteration(o, C, i + 1, true, true);
  int given = sx_choice("given", 16);
  if(given & 1) o.setIMU(Vector3(1, 2, 3), Vector3(4, 5, 6), someMotion(2).kin(2), 0);
  if(given & 2) o.setAbsolutePoseSensor(someMotion(2).kin(0));
  for(int i = 0; i < C; ++i)
    if(given & (4 << i)) o.updateContactWithWrenchSensor(wrenchOf("dropped"), someMotion(i).kin(1), i);
  o.resetInputs();
  sx::eqi(o.getMeasurementSize(), 0, "no measurement after the reset");
  sx::eqi(o.getMeasurementVector().size(), 0, "empty measurement vector after the reset");
  sx::eqi(o.getNumberOfContacts(), C, "the contacts are kept");
  Inputs in;
  in.withPose = sx_choice("pose", 2);
  if(in.withPose)
  {
    in.pose = motion("pose");
    o.setAbsolutePoseSensor(in.pose.kin(0));
  }
  int again = sx_choice("again", 2);
  for(int i = 0; i < N; ++i)
    if(again || i)
    {
      in.imu[i] = wrenchOf("imu" + std::to_string(i));
      o.setIMU(Vector3(in.imu[i].head(3)), Vector3(in.imu[i].tail(3)), someMotion(2).kin(2), i);
    }
  for(int i = 0; i < C; ++i)
  {
    if(again == i)
    {
      in.wrench[i] = wrenchOf("w" + std::to_string(i));
      o.updateContactWithWrenchSensor(in.wrench[i], someMotion(i).kin(1), i);
    }
    else
      o.updateContactWithNoSensor(someMotion(i).kin(1), i);
    sx::eqm(o.getMeasurementVector(), in.vec(), "measurements after the reset");
  }
}
// covariance of the measurements, and of the ones of the next iteration
static Matrix diag(double a, int n)
{
  Matrix m = Matrix::Zero(n, n);
  for(int i = 0; i < n; ++i) m(i, i) = a + 0.25 * i;
  if(n > 1) m(0, 1) = m(1, 0) = 0.125 * a;
  return m;
}
struct Cov
{
  std::vector<Matrix> blocks;
  Matrix mat() const
  {
    long n = 0;
    for(auto & b : blocks) n += b.rows();
    Matrix r = Matrix::Zero(n, n);
    n = 0;
    for(auto & b : blocks)
    {
      r.block(n, n, b.rows(), b.rows()) = b;
      n += b.rows();
    }
    return r;
  }
};
SX_SCENARIO(covariances)
{
  sx_mode_native_concrete(1);
  const int C = 2, N = 2;
  KineticsObserver o(C, N);
  start(o, C);
  o.setIMUDefaultCovarianceMatrix(Matrix3(diag(3, 3)), Matrix3(diag(5, 3)));
  o.setContactWrenchSensorDefaultCovarianceMatrix(Matrix6(diag(7, 6)));
  o.setAbsolutePoseSensorDefaultCovarianceMatrix(Matrix6(diag(9, 6)));
  for(int k = 0; k < 2; ++k)
  {
    body(o);
    Cov cov;
    int what = sx_choice("what", 4);
    std::vector<Matrix> imu(N), wrench(C), pose(1);
    // 0: all the sensors with their default covariances, 1: all with given ones, 2: the first ones, 3: the last ones, mixed
    for(int i = N - 1; i >= 0; --i)
    {
      Vector3 acc(0.5, 1, 9), gyr(0.25, 0, 1);
      Kin kin = someMotion(2).kin(2);
      if(what == 0 || (what == 2 && i == 0))
      {
        o.setIMU(acc, gyr, kin, i);
        if(k == 0) imu[i] = Cov{{diag(3, 3), diag(5, 3)}}.mat();
      }
      else if(what == 1 || (what == 3 && i == N - 1))
      {
        o.setIMU(acc, gyr, Matrix3(diag(11 + i, 3)), Matrix3(diag(13 + i, 3)), kin, i);
        imu[i] = Cov{{diag(11 + i, 3), diag(13 + i, 3)}}.mat();
      }
    }
    for(int i = C - 1; i >= 0; --i)
    {
      Vector6 w;
      w << 1, 2, 16 + i, 0.5, 0.25, -0.125;
      if(what == 0 || (what == 3 && i == 0))
      {
        o.updateContactWithWrenchSensor(w, someMotion(i).kin(1), i);
        if(k == 0) wrench[i] = diag(7, 6);
      }
      else if(what == 1 || (what == 2 && i == C - 1))
      {
        o.updateContactWithWrenchSensor(w, Matrix6(diag(17 + i, 6)), someMotion(i).kin(1), i);
        wrench[i] = diag(17 + i, 6);
      }
      else
        o.updateContactWithNoSensor(someMotion(i).kin(1), i);
    }
    if(what == 0 || what == 3)
    {
      o.setAbsolutePoseSensor(someMotion(1).kin(0));
      if(k == 0) pose[0] = diag(9, 6);
    }
    else if(what == 1)
    {
      o.setAbsolutePoseSensor(someMotion(1).kin(0), Matrix6(diag(21, 6)));
      pose[0] = diag(21, 6);
    }
    o.update();
    if(k == 1 && what != 1) return; // default covariances are those of the first time the sensor was used
    for(auto & m : imu)
      if(m.rows()) cov.blocks.push_back(m);
    for(auto & m : wrench)
      if(m.rows()) cov.blocks.push_back(m);
    for(auto & m : pose)
      if(m.rows()) cov.blocks.push_back(m);
    sx::eqm(o.getEKF().getR(), cov.mat(), "covariance of the measurements");
  }
}
// innovation: the orientations of the pose sensor are compared on the manifold, the other signals are subtracted
SX_SCENARIO(innovation)
{
  sx_mode_native_concrete(1);
  const int C = 2, N = 2;
  KineticsObserver o(C, N);
  start(o, C);
  if(sx_choice("previous iteration", 2)) concreteIteration(o, C, 1, true, true);
  body(o);
  int imus = sx_choice("imus", 3), wrenches = sx_choice("wrenches", 3);
  bool pose = sx_choice("pose", 2);
  if(!pose && imus + wrenches == 0) return;
  for(int i = 0; i < imus; ++i) o.setIMU(Vector3(0.5, 1, 9), Vector3(0.25, 0, 1), someMotion(2).kin(2));
  for(int i = 0; i < C; ++i)
  {
    Vector6 w;
    w << 1, 2, 16 + i, 0.5, 0.25, -0.125;
    if(i < wrenches) o.updateContactWithWrenchSensor(w, someMotion(i).kin(1), i);
    else o.updateContactWithNoSensor(someMotion(i).kin(1), i);
  }
  if(pose) o.setAbsolutePoseSensor(someMotion(1).kin(0));
  o.update();
  int n = 6 * (imus + wrenches), m = pose ? 7 : 0, t = pose ? 6 : 0;
  Vector a = sx::vec("a", n + m), b = sx::vec("b", n + m), e(n + t), d;
  e.head(n) = a.head(n) - b.head(n);
  if(pose)
  {
    V4 q = unitQuat("q");
    V3 v = rotVec("rot", 1e-6, 9.8);
    b.segment(n + 3, 4) = q;
    a.segment(n + 3, 4) = quatMul(expQuat(v), q);
    e.segment(n, 3) = a.segment(n, 3) - b.segment(n, 3);
    e.segment(n + 3, 3) = v;
  }
  o.measurementDifference(a, b, d);
  sx::eqm(d, e, "difference of measurements");
}
