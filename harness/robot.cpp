// B01 (FOCUS 1): robot frames and functions; B02 (FOCUS 2): equation of motion and contacts; B03 (FOCUS 3): state of the robot.
// The robot part of the library is compiled with stand-ins for SpaceVecAlg, RBDyn and sch-core (mocks/robot).
#include "vt.h"
#include <tvm/ControlProblem.h>
#include <tvm/graph/CallGraph.h>
#include "Robot.cpp"
#include "robot/CoMFunction.cpp"
#include "robot/CoMInConvexFunction.cpp"
#include "robot/CollisionFunction.cpp"
#include "robot/Contact.cpp"
#include "robot/ConvexHull.cpp"
#include "robot/DynamicFunction.cpp"
#include "robot/Frame.cpp"
#include "robot/FrictionCone.cpp"
#include "robot/GeometricContactFunction.cpp"
#include "robot/JointsSelector.cpp"
#include "robot/OrientationFunction.cpp"
#include "robot/PositionFunction.cpp"
#include "robot/PostureFunction.cpp"
#include "robot/utils.cpp"
#include "utils/sch.cpp"
#include <filesystem>
#include <unistd.h>

using namespace vt;
using namespace tvm;
using namespace tvm::robot;
using tvm::robot::internal::DynamicFunction;
using tvm::robot::internal::GeometricContactFunction;
using Eigen::Matrix3d;
using Eigen::MatrixXd;
using Eigen::Vector3d;
using Eigen::VectorXd;
using FOut = function::abstract::Function::Output;

namespace
{
Vector3d v3(Rng & r, double s = 1) { return Vector3d(r.vec(3)) * s; }
Eigen::Quaterniond quat(Rng & r)
{
  Eigen::Quaterniond q(r.d(0.1), r.d(), r.d(), r.d());
  q.normalize();
  return q;
}
sva::PTransformd transform(Rng & r) { return {Matrix3d(quat(r).matrix()), v3(r)}; }

struct Model
{
  rbd::MultiBody mb;
  rbd::MultiBodyConfig mbc;
  rbd::MultiBodyGraph mbg;
  rbd::parsers::Limits limits;
};
enum Root
{
  ANY,
  FREE,
  FIXED,
  STILL // no degree of freedom
};
/** A random tree. */
Model model(Rng & r, Root root, const std::string & prefix = "")
{
  using rbd::Joint;
  int n = root == STILL ? r.i(1, 2) : r.i(1, 6);
  std::vector<rbd::Body> bodies;
  std::vector<Joint> joints;
  std::vector<int> pred;
  std::vector<sva::PTransformd> X;
  Model m;
  std::string shape;
  for(int i = 0; i < n; ++i)
  {
    double mass = i > 0 && r.b(0.2) ? 0 : r.d(0.5, 3);
    Vector3d c = v3(r, 0.3);
    MatrixXd L = r.mat(3, 3);
    Matrix3d I = 0.1 * mass * (L * L.transpose() + Matrix3d::Identity());
    Matrix3d C = sva::vector3ToCrossMatrix(c);
    bodies.emplace_back(sva::RBInertiad(mass, mass * c, I + mass * C * C.transpose()), prefix + "b" + std::to_string(i));
    auto t = Joint::Fixed;
    if(root != STILL)
    {
      if(i == 0)
        t = root == FREE || (root == ANY && r.b()) ? Joint::Free : root == FIXED || r.b(0.7) ? Joint::Fixed : Joint::Rev;
      else
        t = r.pick(std::vector<Joint::Type>{Joint::Rev, Joint::Rev, Joint::Rev, Joint::Prism, Joint::Spherical, Joint::Fixed});
      if(i == 0 && n == 1 && t == Joint::Fixed)
        t = Joint::Rev;
      if(i == n - 1 && i > 0 && t == Joint::Fixed)
        t = Joint::Rev;
    }
    joints.emplace_back(t, v3(r).normalized(), r.b(0.8), prefix + "j" + std::to_string(i));
    pred.push_back(i == 0 ? -1 : r.i(0, i - 1));
    X.push_back(i == 0 ? sva::PTransformd::Identity() : transform(r));
    m.mbg.base[bodies.back().name()] = transform(r);
    shape += "rpsxxff"[t];
    mix(static_cast<uint64_t>(pred.back() + 1));
  }
  op("robot", prefix, shape);
  m.mb = rbd::MultiBody(bodies, joints, pred, X);
  m.mbc = rbd::MultiBodyConfig(m.mb);
  return m;
}
void randomConfig(Rng & r, const rbd::MultiBody & mb, rbd::MultiBodyConfig & mbc)
{
  for(int i = 0; i < mb.nrJoints(); ++i)
  {
    auto & q = mbc.q[static_cast<size_t>(i)];
    for(auto & d : q)
      d = r.d();
    if(mb.joint(i).params() != mb.joint(i).dof())
    {
      auto o = quat(r);
      q[0] = o.w();
      q[1] = o.x();
      q[2] = o.y();
      q[3] = o.z();
    }
  }
}
/** A configuration and its velocity. */
struct State
{
  std::vector<std::vector<double>> q, alpha, alphaD;
};
State randomState(Rng & r, const Robot & robot)
{
  rbd::MultiBodyConfig c = robot.mbc();
  randomConfig(r, robot.mb(), c);
  for(auto & a : c.alpha)
    for(auto & d : a)
      d = r.d();
  for(auto & a : c.alphaD)
    for(auto & d : a)
      d = r.d();
  return {c.q, c.alpha, c.alphaD};
}
VectorXd flat(const std::vector<std::vector<double>> & v)
{
  std::vector<double> f;
  for(auto & a : v)
    f.insert(f.end(), a.begin(), a.end());
  return Eigen::Map<VectorXd>(f.data(), static_cast<Eigen::DenseIndex>(f.size()));
}
void put(Robot & robot, const State & s)
{
  robot.mbc().q = s.q;
  robot.mbc().alpha = s.alpha;
  robot.mbc().alphaD = s.alphaD;
  robot.q().set(flat(s.q));
  dot(robot.q(), 1).set(flat(s.alpha));
  dot(robot.q(), 2).set(flat(s.alphaD));
}
/** The state after a time h with a constant velocity v (by default its own). */
State moved(const Robot & robot, const State & s, double h, const std::vector<std::vector<double>> * v = nullptr)
{
  State t = s;
  for(int i = 0; i < robot.mb().nrJoints(); ++i)
    rbd::moveJoint(robot.mb().joint(i), (v ? *v : s.alpha)[static_cast<size_t>(i)], h, t.q[static_cast<size_t>(i)]);
  return t;
}
/** What a user of a node does to read its outputs. */
struct Reader
{
  graph::CallGraph g;
  template<typename T, typename... E>
  Reader(std::shared_ptr<T> node, E... outputs)
  {
    auto in = std::make_shared<graph::internal::Inputs>();
    (in->addInput(node, outputs), ...);
    g.add(in);
    g.update();
  }
  void run() { g.execute(); }
};
const double H = 1e-4, TOL = 2e-5;
bool near(const MatrixXd & a, const MatrixXd & b, double scale = 1)
{
  if(a.rows() != b.rows() || a.cols() != b.cols() || !a.allFinite() || !b.allFinite())
    return false;
  return a.size() == 0 || (a - b).cwiseAbs().maxCoeff() <= TOL * (scale + a.cwiseAbs().maxCoeff());
}
#define NEAR(a, b, key, ...)                                                                             \
  do                                                                                                     \
  {                                                                                                      \
    MatrixXd A_ = (a), B_ = (b);                                                                         \
    VT_CHECK(near(A_, B_), key, __VA_ARGS__, ": ", A_, " instead of ", B_);                              \
    count("compared");                                                                                   \
  } while(0)

/** Fourth-order central difference. */
template<typename F>
MatrixXd derivative(F && f)
{
  MatrixXd a = f(-2 * H), b = f(-H), c = f(H), d = f(2 * H);
  return (a - 8 * b + 8 * c - d) / (12 * H);
}
/** Derivative of a rotation, as an angular velocity in the world, R(t) being the axes of the moving frame. */
template<typename F>
Vector3d angular(F && R)
{
  Matrix3d W = derivative([&](double h) -> MatrixXd { return R(h); }) * Matrix3d(R(0)).transpose();
  return {W(2, 1), W(0, 2), W(1, 0)};
}

/** Sum of J_i v_i. */
VectorXd timesJ(const function::abstract::Function & f, const std::vector<std::pair<VariablePtr, VectorXd>> & v, bool jdot = false)
{
  VectorXd s = VectorXd::Zero(f.imageSpace().tSize());
  for(const auto & x : f.variables())
    for(const auto & p : v)
      if(p.first == x)
        s += jdot ? VectorXd(MatrixXd(f.JDot(*x)) * p.second) : VectorXd(MatrixXd(f.jacobian(*x)) * p.second);
  return s;
}
std::vector<std::pair<VariablePtr, VectorXd>> velocities(const std::vector<RobotPtr> & robots)
{
  std::vector<std::pair<VariablePtr, VectorXd>> v;
  for(const auto & r : robots)
    for(const auto & x : r->q())
      v.push_back({x, VectorXd(dot(x)->value())});
  return v;
}
struct World
{
  Clock clock{0.01};
  std::vector<RobotPtr> robots;
  std::vector<State> states;
  RobotPtr add(Rng & r, Root root, const std::string & name)
  {
    Model m = model(r, root, name);
    if(r.b())
      randomConfig(r, m.mb, m.mbc);
    robots.push_back(std::make_shared<Robot>(clock, name, m.mbg, m.mb, m.mbc, m.limits));
    states.push_back({m.mbc.q, m.mbc.alpha, m.mbc.alphaD});
    return robots.back();
  }
  void randomize(Rng & r)
  {
    for(size_t i = 0; i < robots.size(); ++i)
      put(*robots[i], states[i] = randomState(r, *robots[i]));
  }
  /** All robots move for h at their own speed, or only one of them in a direction. */
  void move(double h)
  {
    for(size_t i = 0; i < robots.size(); ++i)
      put(*robots[i], moved(*robots[i], states[i], h));
  }
};
FramePtr frame(Rng & r, RobotPtr robot, const std::string & name = "f")
{
  auto X = r.b(0.3) ? sva::PTransformd::Identity() : r.b(0.3) ? sva::PTransformd(v3(r)) : transform(r);
  auto b = robot->mb().body(r.i(0, robot->mb().nrBodies() - 1)).name();
  op("frame");
  return std::make_shared<Frame>(name, robot, b, X);
}
/** The Jacobian, column by column, and the velocity, from the values read at the moved states. */
template<typename Value>
void differentiate(Rng & r, World & w, Reader & reader, const function::abstract::Function & f, const char * what, Value && value,
                   bool normal = true, bool perColumn = true)
{
  w.move(0);
  reader.run();
  VectorXd v = f.velocity();
  auto u = velocities(w.robots);
  NEAR(timesJ(f, u), v, "B01-velocity", what, ": J dq and velocity");
  VectorXd a = normal ? VectorXd(f.normalAcceleration()) : VectorXd();
  std::vector<std::pair<VariablePtr, MatrixXd>> J;
  for(const auto & x : f.variables())
    J.push_back({x, MatrixXd(f.jacobian(*x))});
  VectorXd dv = derivative([&](double h) -> MatrixXd {
    w.move(h);
    reader.run();
    return value();
  });
  NEAR(v, dv, "B01-derivative", what, ": velocity and derivative of the value");
  if(normal)
  {
    VectorXd da = derivative([&](double h) -> MatrixXd {
      w.move(h);
      reader.run();
      return f.velocity();
    });
    NEAR(a, da, "B01-normal-acceleration", what);
  }
  if(perColumn)
    for(size_t k = 0; k < w.robots.size(); ++k)
    {
      auto & robot = *w.robots[k];
      if(robot.mb().nrDof() == 0)
        continue;
      int c = r.i(0, robot.mb().nrDof() - 1), n = 0;
      auto dir = w.states[k].alpha;
      for(auto & s : dir)
        for(auto & d : s)
          d = n++ == c ? 1. : 0.;
      w.move(0);
      VectorXd col = derivative([&](double h) -> MatrixXd {
        put(robot, moved(robot, w.states[k], h, &dir));
        reader.run();
        return value();
      });
      int ff = robot.qFreeFlyer()->space().tSize();
      auto & x = c < ff ? robot.qFreeFlyer() : robot.qJoints();
      VectorXd got = VectorXd::Zero(col.size());
      for(auto & j : J)
        if(j.first == x)
          got = j.second.col(c < ff ? c : c - ff);
      NEAR(got, col, "B01-jacobian", what, " column ", c);
    }
  w.move(0);
  reader.run();
}

// ------------------------------------------------------------------------------------------------------------ B01
void frameCase(Rng & r)
{
  World w;
  auto robot = w.add(r, ANY, "r");
  auto f = frame(r, robot);
  if(r.b())
    w.randomize(r);
  Reader all(f, Frame::Output::Position, Frame::Output::Jacobian, Frame::Output::Velocity, Frame::Output::NormalAcceleration);
  if(r.b(0.8))
    w.randomize(r);
  w.move(0);
  all.run();
  VectorXd v = f->velocity().vector(), a = f->normalAcceleration().vector();
  MatrixXd J = f->jacobian();
  VectorXd alpha = flat(w.states[0].alpha);
  NEAR(J * alpha, v, "B01-frame", "J dq and velocity of a frame");
  auto at = [&](double h) {
    w.move(h);
    all.run();
  };
  Vector3d dp = derivative([&](double h) -> MatrixXd { at(h); return f->position().translation(); });
  Vector3d om = angular([&](double h) -> Matrix3d { at(h); return f->position().rotation().transpose(); });
  NEAR(v.tail<3>(), dp, "B01-frame", "linear velocity of a frame");
  NEAR(v.head<3>(), om, "B01-frame", "angular velocity of a frame");
  VectorXd da = derivative([&](double h) -> MatrixXd { at(h); return f->velocity().vector(); });
  NEAR(a, da, "B01-frame", "normal acceleration of a frame");
  count("frames");
}
void pointCase(Rng & r)
{
  World w;
  auto robot = w.add(r, ANY, "r");
  auto f = frame(r, robot);
  auto fn = std::make_shared<PositionFunction>(f);
  Reader all(fn, FOut::Value, FOut::Velocity, FOut::Jacobian, FOut::NormalAcceleration);
  Vector3d ref = f->position().translation();
  VT_CHECK(same(VectorXd(fn->position()), VectorXd(ref)), "B01-value", "default target of position");
  for(int k = r.i(1, 2); k > 0; --k)
  {
    w.randomize(r);
    if(r.b())
      fn->position(ref = v3(r));
    else if(r.b())
    {
      all.run();
      fn->reset();
      ref = f->position().translation();
    }
    differentiate(r, w, all, *fn, "position", [&] { return VectorXd(fn->value()); });
    NEAR(fn->value(), f->position().translation() - ref, "B01-value", "position");
  }
  count("positions");
}
void orientationCase(Rng & r)
{
  World w;
  auto robot = w.add(r, ANY, "r");
  auto f = frame(r, robot);
  auto fn = std::make_shared<OrientationFunction>(f);
  Reader all(fn, FOut::Value, FOut::Velocity, FOut::Jacobian, FOut::NormalAcceleration);
  w.randomize(r);
  w.move(0);
  all.run();
  // far from the target
  Matrix3d ref = fn->orientation();
  if(r.b())
    fn->orientation(ref = quat(r).matrix());
  all.run();
  Vector3d e = fn->value();
  Matrix3d R = f->position().rotation().transpose();
  Matrix3d E = e.norm() > 0 ? Matrix3d(Eigen::AngleAxisd(e.norm(), e.normalized()).toRotationMatrix()) : Matrix3d(Matrix3d::Identity());
  NEAR(E * ref.transpose(), R, "B01-value", "orientation");
  // at the target
  fn->reset();
  differentiate(r, w, all, *fn, "orientation", [&] { return VectorXd(fn->value()); }, true);
  count("orientations");
}
void comCase(Rng & r)
{
  World w;
  auto robot = w.add(r, ANY, "r");
  auto fn = std::make_shared<CoMFunction>(robot);
  Reader all(fn, FOut::Value, FOut::Velocity, FOut::Jacobian, FOut::NormalAcceleration, FOut::JDot);
  for(int k = r.i(1, 2); k > 0; --k)
  {
    w.randomize(r);
    if(r.b(0.3))
      fn->com(v3(r));
    if(r.b(0.3))
      fn->reset();
    differentiate(r, w, all, *fn, "center of mass", [&] { return VectorXd(fn->value()); });
    Vector3d c = Vector3d::Zero();
    double m = 0;
    for(int i = 0; i < robot->mb().nrBodies(); ++i)
    {
      auto & b = robot->mb().body(i).inertia();
      auto & X = robot->mbc().bodyPosW[static_cast<size_t>(i)];
      c += b.mass() * X.translation() + X.rotation().transpose() * b.momentum();
      m += b.mass();
    }
    VT_CHECK(close(m, robot->mass()), "B01-value", "mass");
    NEAR(fn->value() + fn->com(), c / m, "B01-value", "center of mass");
    NEAR(timesJ(*fn, velocities(w.robots), true), fn->normalAcceleration(), "B01-jdot", "center of mass");
  }
  count("coms");
}
void convexCase(Rng & r)
{
  World w;
  auto robot = w.add(r, ANY, "r");
  auto fn = std::make_shared<CoMInConvexFunction>(robot);
  struct Face
  {
    geometry::PlanePtr p;
    Vector3d n0, w, x0, v, a; // rotating at constant speed, accelerating
    void at(double t)
    {
      Eigen::AngleAxisd R(w.norm() * t, w.norm() > 0 ? Vector3d(w.normalized()) : Vector3d::UnitX());
      Vector3d n = R * n0;
      Vector3d nd = w.cross(n);
      Vector3d ndd = w.cross(nd);
      p->position(n, x0 + v * t + 0.5 * a * t * t);
      p->velocity(nd, v + a * t);
      p->acceleration(ndd, a);
    }
  };
  std::vector<Face> faces;
  auto addFace = [&] {
    bool still = r.b(0.3);
    Vector3d z = Vector3d::Zero();
    Face f{nullptr, v3(r).normalized(), still ? z : v3(r), v3(r), still ? z : v3(r), still ? z : v3(r)};
    f.p = std::make_shared<geometry::Plane>(f.n0, f.x0);
    f.at(0);
    faces.push_back(f);
    fn->addPlane(f.p);
  };
  for(int k = r.i(1, 3); k > 0; --k)
    addFace();
  if(r.b(0.2))
  {
    fn->reset();
    faces.clear();
    VT_CHECK(fn->size() == 0, "B01-value", "no plane");
    for(int k = r.i(1, 2); k > 0; --k)
      addFace();
  }
  Reader all(fn, FOut::Value, FOut::Velocity, FOut::Jacobian, FOut::NormalAcceleration);
  w.randomize(r);
  auto at = [&](double h) {
    w.move(h);
    for(auto & f : faces)
      f.at(h);
    all.run();
  };
  at(0);
  VectorXd v = fn->velocity(), a = fn->normalAcceleration(), x = fn->value();
  auto n = static_cast<Eigen::DenseIndex>(faces.size());
  VT_CHECK(x.size() == n && v.size() == n && a.size() == n, "B01-value", "number of planes");
  VectorXd Ju = timesJ(*fn, velocities(w.robots));
  for(Eigen::DenseIndex i = 0; i < n; ++i)
  {
    auto & f = faces[static_cast<size_t>(i)];
    Vector3d c = robot->com();
    VT_CHECK(close(x[i], f.n0.dot(c - f.x0), 1e-7), "B01-value", "distance to a plane");
    double own = f.w.cross(f.n0).dot(c - f.x0) - f.n0.dot(f.v); // due to the plane
    VT_CHECK(std::abs(v[i] - Ju[i] - own) < 1e-6 * (1 + std::abs(v[i])), "B01-velocity", "plane: J dq and velocity");
  }
  VectorXd dx = derivative([&](double h) -> MatrixXd { at(h); return fn->value(); });
  NEAR(v, dx, "B01-derivative", "CoM in convex: velocity");
  VectorXd dv = derivative([&](double h) -> MatrixXd { at(h); return fn->velocity(); });
  NEAR(a, dv, "B01-normal-acceleration", "CoM in convex");
  count("convex");
}
void postureCase(Rng & r)
{
  World w;
  auto robot = w.add(r, ANY, "r");
  auto & mb = robot->mb();
  if(mb.nrDof() == (mb.joint(0).type() == rbd::Joint::Free ? 6 : 0))
    return;
  if(r.b())
    w.randomize(r);
  auto fn = std::make_shared<PostureFunction>(robot);
  Reader all(fn, FOut::Value, FOut::Velocity, FOut::Jacobian, FOut::NormalAcceleration, FOut::JDot);
  auto target = w.states[0].q;
  w.randomize(r);
  if(r.b())
  {
    rbd::MultiBodyConfig c = robot->mbc();
    randomConfig(r, mb, c);
    if(r.b())
      fn->posture(target = c.q);
    else
    {
      int j = r.i(0, mb.nrJoints() - 1);
      target[static_cast<size_t>(j)] = c.q[static_cast<size_t>(j)];
      fn->posture(mb.joint(j).name(), target[static_cast<size_t>(j)]);
    }
  }
  w.move(0);
  all.run();
  int pos = 0;
  VectorXd e = fn->value();
  for(int j = mb.joint(0).type() == rbd::Joint::Free ? 1 : 0; j < mb.nrJoints(); ++j)
  {
    auto k = static_cast<size_t>(j);
    if(mb.joint(j).type() == rbd::Joint::Spherical)
    {
      auto rot = [](const std::vector<double> & q) { return Eigen::Quaterniond(q[0], q[1], q[2], q[3]).toRotationMatrix(); };
      double angle = Eigen::AngleAxisd(Matrix3d(rot(target[k]).transpose() * rot(w.states[0].q[k]))).angle();
      VT_CHECK(close(e.segment(pos, 3).norm(), angle, 1e-6), "B01-value", "posture of a spherical joint");
      count("spherical");
    }
    else if(mb.joint(j).dof() == 1)
      VT_CHECK(close(e[pos], w.states[0].q[k][0] - target[k][0]), "B01-value", "posture of joint ", j);
    pos += mb.joint(j).dof();
  }
  VT_CHECK(pos == e.size(), "B01-value", "size of a posture");
  fn->reset();
  differentiate(r, w, all, *fn, "posture", [&] { return VectorXd(fn->value()); });
  NEAR(timesJ(*fn, velocities(w.robots), true), VectorXd::Zero(e.size()), "B01-jdot", "posture");
  count("postures");
}
void selectorCase(Rng & r)
{
  World w;
  auto robot = w.add(r, ANY, "r");
  auto & mb = robot->mb();
  FunctionPtr f = std::make_shared<CoMFunction>(robot);
  bool dots = true;
  if(r.b(0.3))
  {
    f = std::make_shared<PositionFunction>(frame(r, robot));
    dots = false;
  }
  std::vector<std::string> names, other;
  std::vector<bool> active(static_cast<size_t>(mb.nrDof()), false);
  for(int j = 0; j < mb.nrJoints(); ++j)
  {
    bool a = r.b(0.6);
    (a ? names : other).push_back(mb.joint(j).name());
    for(int k = 0; k < mb.joint(j).dof(); ++k)
      active[static_cast<size_t>(mb.jointPosInDof(j) + k)] = a;
  }
  r.shuffle(names);
  r.shuffle(other);
  bool inactive = r.b();
  std::shared_ptr<JointsSelector> s =
      inactive ? JointsSelector::InactiveJoints(f, robot, other) : JointsSelector::ActiveJoints(f, robot, names);
  op("selector", names.size(), other.size());
  bool none = std::find(active.begin(), active.end(), true) == active.end();
  if(none)
  {
    VT_CHECK(s->variables().totalSize() == 0, "B01-selector", "nothing selected");
    return;
  }
  std::unique_ptr<Reader> all;
  if(dots)
    all = std::make_unique<Reader>(s, FOut::Value, FOut::Velocity, FOut::Jacobian, FOut::NormalAcceleration, FOut::JDot);
  else
    all = std::make_unique<Reader>(s, FOut::Value, FOut::Velocity, FOut::Jacobian, FOut::NormalAcceleration);
  Reader ref(f, FOut::Value, FOut::Jacobian);
  for(int k = 0; k < 2; ++k)
  {
    w.randomize(r);
    all->run();
    ref.run();
    VT_CHECK(same(VectorXd(s->value()), VectorXd(f->value())) && same(VectorXd(s->velocity()), VectorXd(f->velocity()))
                 && same(VectorXd(s->normalAcceleration()), VectorXd(f->normalAcceleration())),
             "B01-selector", "values of a selection");
    for(const auto & x : robot->q())
    {
      int n = x->space().tSize(), off = x == robot->qFreeFlyer() ? 0 : robot->qFreeFlyer()->space().tSize();
      bool any = false;
      for(int c = 0; c < n; ++c)
        any = any || active[static_cast<size_t>(off + c)];
      VT_CHECK(s->variables().contains(*x) == any || n == 0, "B01-selector", "variables of a selection");
      if(!any)
        continue;
      MatrixXd J = f->jacobian(*x), S = s->jacobian(*x), D, T;
      if(dots)
      {
        D = f->JDot(*x);
        T = s->JDot(*x);
      }
      for(int c = 0; c < n; ++c)
      {
        bool a = active[static_cast<size_t>(off + c)];
        VT_CHECK(same(VectorXd(S.col(c)), VectorXd(a ? VectorXd(J.col(c)) : VectorXd::Zero(J.rows()))), "B01-selector",
                 "column of a selection");
        if(dots)
          VT_CHECK(same(VectorXd(T.col(c)), VectorXd(a ? VectorXd(D.col(c)) : VectorXd::Zero(J.rows()))), "B01-selector-jdot",
                   "column of the derivative of a selection");
      }
    }
  }
  // joints of nobody
  auto wrong = names;
  wrong.push_back("nobody");
  bool refused = false;
  try
  {
    JointsSelector::ActiveJoints(f, robot, wrong);
  }
  catch(const rbd::Undefined &)
  {
    fail("B01-unknown-joint", "the joint of an unknown name was used");
  }
  catch(const std::exception &)
  {
    refused = true;
  }
  VT_CHECK(refused, "B01-unknown-joint", "selection of an unknown joint");
  refused = false;
  try
  {
    Frame f("f", robot, "nobody", sva::PTransformd::Identity());
  }
  catch(const rbd::Undefined &)
  {
    fail("B01-unknown-body", "the body of an unknown name was used");
  }
  catch(const std::exception &)
  {
    refused = true;
  }
  VT_CHECK(refused, "B01-unknown-body", "frame of an unknown body");
  World o;
  auto alien = o.add(r, ANY, "alien");
  refused = false;
  try
  {
    JointsSelector::ActiveJoints(f, alien, {});
  }
  catch(const std::exception &)
  {
    refused = true;
  }
  VT_CHECK(refused, "B01-selector", "selection for another robot");
  count("selectors");
}
void collisionCase(Rng & r)
{
  World w;
  std::vector<RobotPtr> who{w.add(r, ANY, "r")};
  if(r.b(0.7))
    who.push_back(w.add(r, r.b(0.3) ? STILL : ANY, "s"));
  auto fn = std::make_shared<CollisionFunction>(w.clock);
  struct Ball
  {
    std::shared_ptr<sch::S_Polyhedron> o;
    FramePtr f;
    sva::PTransformd X;
    ConvexHullPtr hull;
    Vector3d center() const
    {
      Vector3d l(o->local[0], o->local[1], o->local[2]);
      sva::PTransformd P = sva::PTransformd(l) * X * f->position();
      return P.translation();
    }
  };
  auto ball = [&](RobotPtr robot) {
    Ball b;
    b.o = std::make_shared<sch::S_Polyhedron>();
    for(unsigned int i = 0; i < 3; ++i)
      b.o->local[i] = r.d();
    b.o->radius = r.b(0.2) ? 0 : r.d(0, 0.5);
    b.f = frame(r, robot);
    b.X = r.b() ? sva::PTransformd::Identity() : transform(r);
    b.hull = std::make_shared<ConvexHull>(b.o, b.f, b.X);
    return b;
  };
  std::vector<std::pair<Ball, Ball>> pairs;
  auto addPair = [&] {
    auto a = ball(r.pick(who)), b = ball(r.pick(who));
    if(&a.f->robot() == &b.f->robot() && a.f->body() == b.f->body())
      return;
    fn->addCollision(a.hull, b.hull);
    pairs.push_back({a, b});
  };
  for(int k = r.i(1, 4); k > 0; --k)
    addPair();
  if(r.b(0.15))
  {
    fn->reset();
    pairs.clear();
    for(int k = r.i(1, 2); k > 0; --k)
      addPair();
  }
  if(pairs.empty())
    return;
  op("pairs", pairs.size());
  Reader all(fn, FOut::Value, FOut::Velocity, FOut::Jacobian);
  for(int k = r.i(1, 2); k > 0; --k)
  {
    w.randomize(r);
    w.move(0);
    all.run();
    VT_CHECK(fn->value().size() == static_cast<Eigen::DenseIndex>(pairs.size()), "B01-value", "number of collisions");
    bool ok = true;
    for(size_t i = 0; i < pairs.size(); ++i)
    {
      auto & p = pairs[i];
      double c = (p.first.center() - p.second.center()).norm(), d = c - p.first.o->radius - p.second.o->radius;
      VT_CHECK(close(fn->value()[static_cast<Eigen::DenseIndex>(i)], d, 1e-6), "B01-value", "distance");
      ok = ok && c > 0.1 && std::abs(d) > 0.01;
    }
    if(ok) // differentiable enough
      differentiate(r, w, all, *fn, "collision", [&] { return VectorXd(fn->value()); }, false);
  }
  count("collisions");
}
void contactCase(Rng & r)
{
  World w;
  auto a = w.add(r, ANY, "r");
  RobotPtr b = a;
  if(r.b(0.8))
    b = w.add(r, r.b() ? STILL : ANY, "s");
  auto f1 = frame(r, a, "f1"), f2 = frame(r, b, "f2");
  if(r.b())
    std::swap(f1, f2);
  auto c = std::make_shared<Contact>(f1, f2, std::vector<sva::PTransformd>{transform(r), transform(r)});
  NEAR((c->X_f1_f2() * f1->position()).translation(), f2->position().translation(), "B01-contact", "transformation from f1 to f2");
  for(size_t i = 0; i < 2; ++i)
  {
    auto P = c->f1Points()[i] * f1->position(), Q = c->f2Points()[i] * f2->position();
    NEAR(P.translation(), Q.translation(), "B01-contact", "points of a contact");
    NEAR(P.rotation(), Q.rotation(), "B01-contact", "axes of a contact");
  }
  MatrixXd D = r.b() ? MatrixXd(MatrixXd::Identity(6, 6)) : r.mat(6, 6);
  if(r.b(0.3))
    D.row(r.i(0, 5)).setZero();
  auto fn = std::make_shared<GeometricContactFunction>(c, Eigen::Matrix6d(D));
  Reader all(fn, FOut::Value, FOut::Velocity, FOut::Jacobian, FOut::NormalAcceleration);
  if(r.b())
    w.randomize(r);
  all.run();
  VT_CHECK(fn->value().norm() < 1e-6, "B01-value", "a contact is at its initial position first");
  auto X0 = f2->position() * f1->position().inv();
  for(int k = 0; k < 2; ++k)
  {
    w.randomize(r);
    all.run();
    auto X = f2->position() * f1->position().inv();
    NEAR(fn->value(), D * sva::transformError(X, X0).vector(), "B01-value", "contact");
    bool m1 = f1->robot().mb().nrDof() > 0, m2 = f2->robot().mb().nrDof() > 0;
    Reader fr(f1, Frame::Output::Velocity, Frame::Output::NormalAcceleration), fs(f2, Frame::Output::Velocity, Frame::Output::NormalAcceleration);
    fr.run();
    fs.run();
    Eigen::Vector6d v = Eigen::Vector6d::Zero(), n = v;
    if(m1)
    {
      v += f1->velocity().vector();
      n += f1->normalAcceleration().vector();
    }
    if(m2)
    {
      v -= f2->velocity().vector();
      n -= f2->normalAcceleration().vector();
    }
    NEAR(fn->velocity(), D * v, "B01-velocity", "contact");
    NEAR(fn->normalAcceleration(), D * n, "B01-normal-acceleration", "contact");
    NEAR(timesJ(*fn, velocities(w.robots)), D * v, "B01-jacobian", a == b ? "contact of a robot with itself" : "contact");
  }
  count(a == b ? "self_contacts" : "contacts");
}
void idCase(Rng & r)
{
  std::vector<Contact::Id> ids;
  for(int i = 0; i < 6; ++i)
    ids.push_back({r.b() ? "a" : "b", r.b() ? "a" : "b", r.b() ? "a" : "b", r.b() ? "a" : "b", r.i(0, 2)});
  for(auto & x : ids)
    for(auto & y : ids)
    {
      bool eq = std::tie(x.r1, x.f1, x.r2, x.f2, x.ambiguityId) == std::tie(y.r1, y.f1, y.r2, y.f2, y.ambiguityId);
      VT_CHECK((x == y) == eq, "B01-id", "equality of identifiers of contacts");
      VT_CHECK((x < y || y < x) == !eq && !(x < y && y < x), "B01-id", "order of identifiers of contacts");
      for(auto & z : ids)
        VT_CHECK(!(x < y && y < z) || x < z, "B01-id", "transitivity");
    }
  count("ids");
}
void b01(Rng & r)
{
  nontrivial();
  static const std::vector<std::pair<const char *, void (*)(Rng &)>> all{
      {"frame", frameCase}, {"frame", frameCase}, {"position", pointCase}, {"orientation", orientationCase}, {"com", comCase},
      {"convex", convexCase}, {"posture", postureCase}, {"selector", selectorCase}, {"collision", collisionCase},
      {"collision", collisionCase}, {"contact", contactCase}, {"id", idCase}};
  auto & c = r.pick(all);
  op(c.first);
  c.second(r);
}

// ------------------------------------------------------------------------------------------------------------ B02
void b02(Rng & r)
{
  nontrivial();
  World w;
  auto robot = w.add(r, ANY, "r");
  auto other = w.add(r, r.b() ? STILL : ANY, "s");
  auto fn = std::make_shared<DynamicFunction>(robot);
  std::unique_ptr<Reader> all;
  struct C
  {
    ContactPtr c;
    bool linear;
    double mu;
    int gen;
    bool first;
    std::vector<VariablePtr> forces;
  };
  std::vector<C> contacts;
  int nId = 0;
  auto known = [&] {
    std::vector<VariablePtr> v;
    for(auto & c : contacts)
      v.insert(v.end(), c.forces.begin(), c.forces.end());
    return v;
  };
  auto isForce = [&](const VariablePtr & x) { return x != robot->tau() && x->derivativeNumber() == 0 && !(dot(robot->q(), 2).contains(*x)); };
  auto forcesOf = [&] {
    std::vector<VariablePtr> v;
    for(const auto & x : fn->variables())
      if(isForce(x))
        v.push_back(x);
    return v;
  };
  int rounds = r.i(2, 6);
  for(int k = 0; k < rounds; ++k)
  {
    int what = r.i(0, 3);
    if(what <= 1 && contacts.size() < 3)
    {
      C c;
      auto mine = frame(r, robot, "m"), its = frame(r, r.b(0.8) ? other : w.add(r, STILL, "t" + std::to_string(nId)), "o");
      c.first = r.b();
      std::vector<sva::PTransformd> pts;
      for(int i = r.i(1, 3); i > 0; --i)
        pts.push_back(r.b() ? sva::PTransformd(v3(r)) : transform(r));
      c.c = c.first ? std::make_shared<Contact>(mine, its, pts, nId++) : std::make_shared<Contact>(its, mine, pts, nId++);
      c.linear = r.b();
      c.mu = r.d(0.1, 1);
      c.gen = r.i(3, 5);
      op("add", c.linear, c.first, pts.size());
      auto before = known();
      bool added = fn->addContact(c.c, c.linear, c.mu, static_cast<unsigned int>(c.gen));
      VT_CHECK(added, "B02-added", "a contact of the robot");
      auto now = forcesOf();
      for(auto & x : now)
        if(std::find(before.begin(), before.end(), x) == before.end())
          c.forces.push_back(x);
      VT_CHECK(c.forces.size() == pts.size() && now.size() == before.size() + pts.size(), "B02-variables", "one force per point");
      for(auto & x : c.forces)
        VT_CHECK(x->size() == (c.linear ? c.gen : 3), "B02-variables", "size of a force");
      VT_CHECK(!fn->addContact(c.c, c.linear, c.mu, static_cast<unsigned int>(c.gen)), "B02-added", "twice");
      contacts.push_back(c);
      count("added");
    }
    else if(what == 2 && !contacts.empty())
    {
      size_t i = static_cast<size_t>(r.i(0, static_cast<int>(contacts.size()) - 1));
      op("remove", i);
      fn->removeContact(contacts[i].c->id());
      auto id = contacts[i].c->id();
      VT_CHECK(fn->contactForce(id).vector().isZero(0), "B02-removed", "force of a removed contact");
      contacts.erase(contacts.begin() + static_cast<long>(i));
      fn->removeContact(id);
      count("removed");
    }
    else
    {
      // a contact of others
      auto t = w.add(r, STILL, "u" + std::to_string(nId));
      auto c = std::make_shared<Contact>(frame(r, t, "a"), frame(r, other, "b"), std::vector<sva::PTransformd>{transform(r)}, nId++);
      VT_CHECK(!fn->addContact(c, r.b(), 0.5, 4), "B02-added", "a contact of other robots");
      VT_CHECK(fn->contactForce(c->id()).vector().isZero(0), "B02-removed", "force of a contact of others");
    }
    all.reset();
    all = std::make_unique<Reader>(fn, FOut::Jacobian, function::abstract::LinearFunction::Output::B, FOut::Value);
    w.randomize(r);
    robot->tau()->set(r.vec(robot->mb().nrDof()));
    for(auto & x : known())
      x->set(r.vec(x->size()));
    w.move(0);
    all->run();
    auto fv = forcesOf();
    VT_CHECK(fv.size() == known().size(), "B02-variables", "forces of the contacts only");
    // the expected equation
    auto & mb = robot->mb();
    auto & mbc = robot->mbc();
    VectorXd alphaD = flat(w.states[0].alphaD);
    VectorXd res = VectorXd::Zero(mb.nrDof());
    for(int i = 0; i < mb.nrBodies(); ++i)
    {
      // force of inertia and weight, by the accelerations
      auto b = static_cast<size_t>(i);
      rbd::MultiBodyConfig c = mbc;
      rbd::forwardAcceleration(mb, c);
      sva::MotionVecd acc = c.bodyAccB[b] + sva::MotionVecd(Vector3d::Zero(), c.bodyPosW[b].rotation() * c.gravity);
      auto & I = mb.body(i).inertia();
      sva::ForceVecd f = I * acc + c.bodyVelB[b].crossDual(I * c.bodyVelB[b]);
      rbd::Jacobian J(mb, mb.body(i).name());
      MatrixXd full(6, mb.nrDof());
      J.fullJacobian(mb, J.bodyJacobian(mb, c), full);
      res += full.transpose() * f.vector();
    }
    res -= robot->tau()->value();
    VectorXd left = res;
    for(auto & c : contacts)
    {
      const Frame & f = c.first ? c.c->f1() : c.c->f2();
      Reader fr(std::shared_ptr<Frame>(c.c, const_cast<Frame *>(&f)), Frame::Output::Position, Frame::Output::Jacobian);
      fr.run();
      // wrench at the frame, in its axes, then in those of the world
      sva::ForceVecd W = fn->contactForce(c.c->id());
      Matrix3d R = f.position().rotation().transpose();
      Eigen::Vector6d g;
      g << R * W.couple(), R * W.force();
      VectorXd gen = MatrixXd(f.jacobian()).transpose() * g;
      left -= gen;
      VectorXd own = VectorXd::Zero(mb.nrDof());
      for(auto & x : c.forces)
        own -= MatrixXd(fn->jacobian(*x)) * x->value();
      NEAR(own, gen, "B02-force", c.linear ? "linearized" : "force", c.first ? " first" : " second", ": force of a contact and equation of motion");
      if(c.linear)
      {
        // generators in the cone: force of each lambda
        auto & pts = c.first ? c.c->f1Points() : c.c->f2Points();
        size_t p = static_cast<size_t>(r.i(0, static_cast<int>(c.forces.size()) - 1));
        for(auto & x : c.forces)
          x->setZero();
        VectorXd l = VectorXd::Zero(c.gen);
        l[r.i(0, c.gen - 1)] = 1;
        c.forces[p]->set(l);
        Vector3d F = pts[p].rotation() * fn->contactForce(c.c->id()).force() * (c.first ? 1 : -1);
        VT_CHECK(close(F.norm(), 1, 1e-7) && close(F.head<2>().norm(), c.mu * F.z(), 1e-7), "B02-cone", "generator ", F.transpose());
        l.setOnes();
        c.forces[p]->set(l);
        F = pts[p].rotation() * fn->contactForce(c.c->id()).force();
        VT_CHECK(F.head<2>().norm() < 1e-7, "B02-cone", "generators are spread around the normal");
        count("cones");
        for(auto & x : c.forces)
          x->set(r.vec(x->size()));
        all->run();
        left.setConstant(NAN);
      }
    }
    // total
    VectorXd sum = res;
    for(auto & x : known())
      sum += MatrixXd(fn->jacobian(*x)) * x->value();
    NEAR(fn->value(), sum, "B02-equation", "equation of motion");
    if(left.allFinite())
      NEAR(fn->value(), left, "B02-equation", "equation of motion with the forces of the contacts");
    count("equations");
  }
  if(r.b(0.3))
  {
    ControlProblem pb;
    fn->addPositiveLambdaToProblem(pb);
    size_t n = 0;
    for(auto & c : contacts)
      n += c.linear ? c.forces.size() : 0;
    VT_CHECK(pb.tasks().size() == n, "B02-positive", "one constraint for each linearized force");
    for(auto & t : pb.tasks())
      VT_CHECK(t->task.type() == constraint::Type::GREATER_THAN && t->requirements.priorityLevel().value() == 0, "B02-positive", "kind");
  }
}

// ------------------------------------------------------------------------------------------------------------ B03
void timeCase(Rng & r)
{
  World w;
  auto robot = w.add(r, ANY, "r");
  auto & mb = robot->mb();
  auto sameState = [&](const rbd::MultiBodyConfig & c, const char * what) {
    VT_CHECK(near(flat(robot->mbc().q), flat(c.q)) && near(flat(robot->mbc().alpha), flat(c.alpha)), "B03-state", what, ": configuration");
    VT_CHECK(near(robot->q().value(), flat(c.q)), "B03-state", what, ": variables");
    VT_CHECK(near(dot(robot->q()).value(), flat(c.alpha)), "B03-state", what, ": velocities");
    rbd::MultiBodyConfig d = c;
    rbd::forwardKinematics(mb, d);
    for(size_t i = 0; i < d.bodyPosW.size(); ++i)
      VT_CHECK(near(d.bodyPosW[i].translation(), robot->mbc().bodyPosW[i].translation())
                   && near(d.bodyPosW[i].rotation(), robot->mbc().bodyPosW[i].rotation()),
               "B03-state", what, ": bodies");
    count("states_compared");
  };
  VT_CHECK(robot->qFreeFlyer()->space().tSize() + robot->qJoints()->space().tSize() == mb.nrDof()
               && robot->q().totalSize() == mb.nrParams() && robot->tau()->size() == mb.nrDof(),
           "B03-variables", "sizes");
  VT_CHECK(robot->tau()->value().isZero(0) && dot(robot->q(), 2).value().isZero(0), "B03-variables", "initial values");
  rbd::MultiBodyConfig mine = robot->mbc();
  mine.q = w.states[0].q;
  sameState(mine, "initial");
  auto f = frame(r, robot);
  auto com = std::make_shared<CoMFunction>(robot);
  auto posture = std::make_shared<PostureFunction>(robot);
  graph::CallGraph g;
  auto in = std::make_shared<graph::internal::Inputs>();
  in->addInput(f, Frame::Output::Position, Frame::Output::Velocity);
  bool many = r.b();
  if(many)
  {
    in->addInput(com, FOut::Value, FOut::Velocity);
    in->addInput(robot, Robot::Output::H, Robot::Output::C, Robot::Output::FA, Robot::Output::CoM);
  }
  g.add(in);
  g.update();
  for(int k = r.i(2, 6); k > 0; --k)
  {
    VectorXd a = r.vec(mb.nrDof());
    dot(robot->q(), 2).set(a);
    int ticks = r.pick(std::vector<int>{0, 1, 1, 1, 2});
    op("ticks", ticks);
    for(int t = 0; t < ticks; ++t)
      w.clock.advance();
    rbd::calls() = {};
    int runs = r.i(1, 3);
    for(int t = 0; t < runs; ++t)
      g.execute();
    VT_CHECK(rbd::calls().integrations == (ticks > 0 ? 1 : 0), "B03-integrations", rbd::calls().integrations, " integrations after ", ticks,
             " ticks and ", runs, " updates");
    if(ticks > 0)
    {
      VT_CHECK(rbd::calls().step == w.clock.dt(), "B03-integrations", "time step");
      rbd::vectorToParam(a, mine.alphaD);
      rbd::eulerIntegration(mb, mine, w.clock.dt());
    }
    sameState(mine, "update");
    // all that was asked belongs to this state
    rbd::MultiBodyConfig d = mine;
    rbd::forwardKinematics(mb, d);
    rbd::forwardVelocity(mb, d);
    for(size_t i = 0; i < d.bodyPosW.size(); ++i)
      VT_CHECK(near(d.bodyVelW[i].vector(), robot->mbc().bodyVelW[i].vector()), "B03-state", "velocity of bodies");
    if(many)
    {
      VT_CHECK(near(rbd::computeCoM(mb, d), robot->com()), "B03-state", "center of mass");
      rbd::ForwardDynamics fd(mb);
      fd.computeH(mb, d);
      fd.computeC(mb, d);
      VT_CHECK(near(fd.H(), robot->H()) && near(fd.C(), robot->C()), "B03-state", "dynamics");
      rbd::forwardAcceleration(mb, d);
      if(ticks > 0)
        for(size_t i = 0; i < d.bodyPosW.size(); ++i)
          VT_CHECK(near(d.bodyAccB[i].vector(), robot->mbc().bodyAccB[i].vector()), "B03-state", "acceleration of bodies");
    }
  }
  count("times");
}
void limitsCase(Rng & r)
{
  Clock clock(0.01);
  Model m = model(r, ANY, "r");
  if(r.b())
    randomConfig(r, m.mb, m.mbc);
  bool ff = m.mb.joint(0).type() == rbd::Joint::Free;
  auto fill = [&](std::map<std::string, std::vector<double>> & l, bool params) {
    for(int j = ff ? 1 : 0; j < m.mb.nrJoints(); ++j)
      if(r.b(0.6))
        for(int k = params ? m.mb.joint(j).params() : m.mb.joint(j).dof(); k > 0; --k)
          l[m.mb.joint(j).name()].push_back(r.d(0.1, 2));
    if(r.b(0.3))
      l["nobody"] = {1.};
  };
  fill(m.limits.lower, true);
  fill(m.limits.upper, true);
  fill(m.limits.velocity, false);
  fill(m.limits.torque, false);
  std::unique_ptr<Robot> robot;
  std::map<std::string, std::vector<double>> q0;
  bool file = r.b();
  std::string name = "robot" + std::to_string(r.i(0, 9));
  if(file)
  {
    static const std::string dir = [] {
      std::string d = (std::filesystem::temp_directory_path() / ("vt_robot_" + std::to_string(::getpid()))).string();
      std::filesystem::create_directories(d);
      return d;
    }();
    struct Clean
    {
      std::string d;
      ~Clean()
      {
        std::error_code e;
        std::filesystem::remove_all(d, e);
      }
    };
    static const Clean clean{dir};
    std::string path = dir + "/robot.urdf", text = "<robot name=\"" + name + "\"/>\n  with spaces\n";
    {
      std::ofstream(path) << text;
    }
    rbd::parsers::parsed() = {m.mb, m.mbc, m.mbg, m.limits, name};
    rbd::parsers::parsed().mbc.gravity = Vector3d(7, 7, 7);
    for(int j = 0; j < m.mb.nrJoints(); ++j)
      if(r.b())
      {
        auto & q = m.mbc.q[static_cast<size_t>(j)];
        if(r.b(0.2))
          q0[m.mb.joint(j).name()] = std::vector<double>(q.size() + 1, 0.); // ignored
        else
        {
          for(auto & d : q)
            d = r.d();
          q0[m.mb.joint(j).name()] = q;
        }
      }
    if(r.b(0.3))
      q0["nobody"] = {1.};
    bool fixed = r.b();
    std::vector<std::string> filtered(static_cast<size_t>(r.i(0, 2)), "x");
    std::stringbuf quiet;
    auto * old = std::cerr.rdbuf(&quiet);
    try
    {
      robot = fromURDF(clock, name, path, fixed, filtered, q0);
    }
    catch(...)
    {
      std::cerr.rdbuf(old);
      throw;
    }
    std::cerr.rdbuf(old);
    VT_CHECK(rbd::parsers::asked().content == text && rbd::parsers::asked().fixed == fixed && rbd::parsers::asked().filtered == filtered,
             "B03-urdf", "what is parsed");
    VT_CHECK(same(VectorXd(robot->mbc().gravity), VectorXd(tvm::constant::gravity)), "B03-urdf", "gravity");
    bool refused = false;
    try
    {
      fromURDF(clock, name, dir + "/absent.urdf", fixed, filtered, q0);
    }
    catch(const tvm::exception::DataException &)
    {
      refused = true;
    }
    VT_CHECK(refused, "B03-urdf", "absent file");
    count("urdf");
  }
  else
    robot = std::make_unique<Robot>(clock, name, m.mbg, m.mb, m.mbc, m.limits);
  VT_CHECK(robot->name() == name, "B03-variables", "name");
  VT_CHECK(near(robot->q().value(), flat(m.mbc.q)), "B03-variables", "initial configuration");
  for(auto & b : m.mbg.base)
    VT_CHECK(same(MatrixXd(robot->bodyTransform(b.first).rotation()), MatrixXd(b.second.rotation())), "B03-variables", "base transform");
  auto check = [&](const VectorXd & b, const std::map<std::string, std::vector<double>> & l, double sign, bool params, bool torque, const char * what) {
    double big = tvm::constant::big_number;
    int n = params ? m.mb.nrParams() - (ff ? 7 : 0) : m.mb.nrDof() - (ff && !torque ? 6 : 0);
    VectorXd e = VectorXd::Constant(n, sign * big);
    if(torque && ff)
      e.head(6).setZero();
    for(int j = ff ? 1 : 0; j < m.mb.nrJoints(); ++j)
    {
      auto it = l.find(m.mb.joint(j).name());
      if(it == l.end())
        continue;
      int pos = params ? m.mb.jointPosInParam(j) - (ff ? 7 : 0) : m.mb.jointPosInDof(j) - (ff && !torque ? 6 : 0);
      for(size_t k = 0; k < it->second.size(); ++k)
        e[pos + static_cast<int>(k)] = (params ? 1 : sign) * it->second[k];
    }
    VT_CHECK(b.size() == e.size(), "B03-limits-size", what, ": ", b.size(), " limits for ", e.size(), " coordinates");
    VT_CHECK(same(b, e), "B03-limits", what, ": ", b.transpose(), " instead of ", e.transpose());
    count("limits_compared");
  };
  check(robot->lQBound(), m.limits.lower, -1, true, false, "lower");
  check(robot->uQBound(), m.limits.upper, 1, true, false, "upper");
  check(robot->lVelBound(), m.limits.velocity, -1, false, false, "lower velocity");
  check(robot->uVelBound(), m.limits.velocity, 1, false, false, "upper velocity");
  check(robot->lTauBound(), m.limits.torque, -1, false, true, "lower torque");
  check(robot->uTauBound(), m.limits.torque, 1, false, true, "upper torque");
}
void b03(Rng & r)
{
  nontrivial();
  if(r.b(0.6))
    timeCase(r);
  else
    limitsCase(r);
}
} // namespace

int main(int argc, char ** argv)
{
  return vt::run(argc, argv, [](Rng & r) {
    std::srand(static_cast<unsigned>(r.next()));
    std::stringbuf quiet;
    struct Quiet
    {
      std::streambuf * old;
      ~Quiet() { std::cout.rdbuf(old); }
    } q{std::cout.rdbuf(&quiet)};
#if FOCUS == 1
    b01(r);
#elif FOCUS == 2
    b02(r);
#else
    b03(r);
#endif
  });
}
