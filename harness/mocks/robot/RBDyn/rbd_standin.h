// Stand-in for the part of RBDyn that TVM uses, with its conventions (see the documentation of RBDyn).
#pragma once
#include <SpaceVecAlg/SpaceVecAlg>
#include <Eigen/Dense>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>

namespace rbd
{
using Eigen::MatrixXd;
using Eigen::Vector3d;
using Eigen::VectorXd;

/** Thrown where RBDyn would read something that does not exist. */
struct Undefined : std::logic_error
{
  using std::logic_error::logic_error;
};

class Body
{
public:
  Body(const sva::RBInertiad & i, std::string name) : i_(i), name_(std::move(name)) {}
  const sva::RBInertiad & inertia() const { return i_; }
  const std::string & name() const { return name_; }

private:
  sva::RBInertiad i_;
  std::string name_;
};

class Joint
{
public:
  enum Type
  {
    Rev,
    Prism,
    Spherical,
    Planar,
    Cylindrical,
    Free,
    Fixed
  };
  Joint(Type t, const Vector3d & axis, bool forward, std::string name) : t_(t), name_(std::move(name))
  {
    Vector3d a = forward ? axis : Vector3d(-axis);
    switch(t)
    {
      case Rev:
        S_.resize(6, 1);
        S_ << a, Vector3d::Zero();
        break;
      case Prism:
        S_.resize(6, 1);
        S_ << Vector3d::Zero(), a;
        break;
      case Spherical:
        S_ = MatrixXd::Identity(6, 3);
        break;
      case Free:
        S_ = MatrixXd::Identity(6, 6);
        break;
      case Fixed:
        S_.resize(6, 0);
        break;
      default:
        throw std::runtime_error("stand-in: type of joint");
    }
  }
  Type type() const { return t_; }
  int dof() const { return static_cast<int>(S_.cols()); }
  int params() const { return t_ == Spherical ? 4 : t_ == Free ? 7 : dof(); }
  const std::string & name() const { return name_; }
  const MatrixXd & motionSubspace() const { return S_; }
  sva::PTransformd pose(const std::vector<double> & q) const
  {
    switch(t_)
    {
      case Rev:
        return {Eigen::AngleAxisd(-q[0], S_.block<3, 1>(0, 0)).toRotationMatrix()};
      case Prism:
        return {Vector3d(S_.block<3, 1>(3, 0) * q[0])};
      case Spherical:
        return {Eigen::Matrix3d(Eigen::Quaterniond(q[0], q[1], q[2], q[3]).matrix().transpose())};
      case Free:
        return {Eigen::Matrix3d(Eigen::Quaterniond(q[0], q[1], q[2], q[3]).matrix().transpose()), Vector3d(q[4], q[5], q[6])};
      default:
        return sva::PTransformd::Identity();
    }
  }
  sva::MotionVecd motion(const std::vector<double> & alpha) const
  {
    Eigen::Vector6d m = Eigen::Vector6d::Zero();
    for(int i = 0; i < dof(); ++i)
      m += S_.col(i) * alpha[static_cast<size_t>(i)];
    return {m};
  }
  std::vector<double> zeroParam() const
  {
    std::vector<double> q(static_cast<size_t>(params()), 0.);
    if(t_ == Spherical || t_ == Free)
      q[0] = 1;
    return q;
  }

private:
  Type t_;
  std::string name_;
  MatrixXd S_;
};

class MultiBody
{
public:
  MultiBody() {}
  /** Joint i links body pred[i] to body succ[i] = i. */
  MultiBody(std::vector<Body> bodies, std::vector<Joint> joints, std::vector<int> pred, std::vector<sva::PTransformd> Xto)
  : bodies_(std::move(bodies)), joints_(std::move(joints)), pred_(std::move(pred)), Xt_(std::move(Xto))
  {
    for(size_t i = 0; i < joints_.size(); ++i)
    {
      succ_.push_back(static_cast<int>(i));
      posParam_.push_back(nrParams_);
      posDof_.push_back(nrDof_);
      nrParams_ += joints_[i].params();
      nrDof_ += joints_[i].dof();
      bodyIndex_[bodies_[i].name()] = static_cast<int>(i);
      jointIndex_[joints_[i].name()] = static_cast<int>(i);
    }
  }
  int nrBodies() const { return static_cast<int>(bodies_.size()); }
  int nrJoints() const { return static_cast<int>(joints_.size()); }
  int nrParams() const { return nrParams_; }
  int nrDof() const { return nrDof_; }
  const std::vector<Body> & bodies() const { return bodies_; }
  const Body & body(int i) const { return bodies_.at(static_cast<size_t>(i)); }
  const std::vector<Joint> & joints() const { return joints_; }
  const Joint & joint(int i) const { return joints_.at(static_cast<size_t>(i)); }
  const std::vector<int> & predecessors() const { return pred_; }
  const std::vector<int> & parents() const { return pred_; }
  int parent(int i) const { return pred_.at(static_cast<size_t>(i)); }
  const std::vector<int> & successors() const { return succ_; }
  const std::vector<sva::PTransformd> & transforms() const { return Xt_; }
  int jointPosInParam(int i) const { return posParam_.at(static_cast<size_t>(i)); }
  int jointPosInDof(int i) const { return posDof_.at(static_cast<size_t>(i)); }
  int bodyIndexByName(const std::string & n) const { return unsafe(bodyIndex_, n); }
  int sBodyIndexByName(const std::string & n) const { return bodyIndex_.at(n); }
  int jointIndexByName(const std::string & n) const { return unsafe(jointIndex_, n); }
  int sJointIndexByName(const std::string & n) const { return jointIndex_.at(n); }
  const std::unordered_map<std::string, int> & bodyIndexByName() const { return bodyIndex_; }
  const std::unordered_map<std::string, int> & jointIndexByName() const { return jointIndex_; }

private:
  static int unsafe(const std::unordered_map<std::string, int> & m, const std::string & n)
  {
    auto it = m.find(n);
    if(it == m.end())
      throw Undefined("unknown name " + n);
    return it->second;
  }
  std::vector<Body> bodies_;
  std::vector<Joint> joints_;
  std::vector<int> pred_, succ_, posParam_, posDof_;
  std::vector<sva::PTransformd> Xt_;
  std::unordered_map<std::string, int> bodyIndex_, jointIndex_;
  int nrParams_ = 0, nrDof_ = 0;
};

struct MultiBodyConfig
{
  MultiBodyConfig() {}
  explicit MultiBodyConfig(const MultiBody & mb)
  {
    auto n = static_cast<size_t>(mb.nrJoints());
    for(const auto & j : mb.joints())
    {
      q.push_back(j.zeroParam());
      alpha.emplace_back(static_cast<size_t>(j.dof()), 0.);
      alphaD.emplace_back(static_cast<size_t>(j.dof()), 0.);
    }
    jointConfig.resize(n);
    jointVelocity.resize(n);
    parentToSon.resize(n);
    bodyPosW.resize(n);
    bodyVelW.resize(n);
    bodyVelB.resize(n);
    bodyAccB.resize(n);
    gravity = Vector3d(0, 0, 9.81);
  }
  std::vector<std::vector<double>> q, alpha, alphaD;
  std::vector<sva::PTransformd> jointConfig, parentToSon, bodyPosW;
  std::vector<sva::MotionVecd> jointVelocity, bodyVelW, bodyVelB, bodyAccB;
  Vector3d gravity;
};

inline void paramToVector(const std::vector<std::vector<double>> & v, Eigen::Ref<VectorXd> e)
{
  Eigen::DenseIndex k = 0;
  for(const auto & a : v)
    for(double d : a)
      e(k++) = d;
  if(k != e.size())
    throw std::out_of_range("paramToVector: size");
}
inline void vectorToParam(const Eigen::Ref<const VectorXd> & e, std::vector<std::vector<double>> & v)
{
  Eigen::DenseIndex k = 0;
  for(auto & a : v)
    for(double & d : a)
      d = e(k++);
  if(k != e.size())
    throw std::out_of_range("vectorToParam: size");
}

/** What the algorithms were asked to do. */
struct Calls
{
  int fk = 0, fv = 0, fa = 0, h = 0, c = 0, com = 0, integrations = 0;
  double step = 0;
};
inline Calls & calls()
{
  static thread_local Calls c;
  return c;
}

inline void forwardKinematics(const MultiBody & mb, MultiBodyConfig & mbc)
{
  ++calls().fk;
  for(size_t i = 0; i < mb.joints().size(); ++i)
  {
    mbc.jointConfig[i] = mb.joints()[i].pose(mbc.q[i]);
    mbc.parentToSon[i] = mbc.jointConfig[i] * mb.transforms()[i];
    int p = mb.predecessors()[i];
    mbc.bodyPosW[i] = p < 0 ? mbc.parentToSon[i] : mbc.parentToSon[i] * mbc.bodyPosW[static_cast<size_t>(p)];
  }
}
inline void forwardVelocity(const MultiBody & mb, MultiBodyConfig & mbc)
{
  ++calls().fv;
  for(size_t i = 0; i < mb.joints().size(); ++i)
  {
    mbc.jointVelocity[i] = mb.joints()[i].motion(mbc.alpha[i]);
    int p = mb.predecessors()[i];
    mbc.bodyVelB[i] =
        p < 0 ? mbc.jointVelocity[i] : mbc.parentToSon[i] * mbc.bodyVelB[static_cast<size_t>(p)] + mbc.jointVelocity[i];
    mbc.bodyVelW[i] = sva::PTransformd(mbc.bodyPosW[i].rotation()).invMul(mbc.bodyVelB[i]);
  }
}
inline void forwardAcceleration(const MultiBody & mb, MultiBodyConfig & mbc)
{
  ++calls().fa;
  for(size_t i = 0; i < mb.joints().size(); ++i)
  {
    int p = mb.predecessors()[i];
    sva::MotionVecd a = mb.joints()[i].motion(mbc.alphaD[i]) + mbc.bodyVelB[i].cross(mbc.jointVelocity[i]);
    mbc.bodyAccB[i] = p < 0 ? a : mbc.parentToSon[i] * mbc.bodyAccB[static_cast<size_t>(p)] + a;
  }
}

/** Exact motion of a joint with constant velocity. */
inline void moveJoint(const Joint & j, const std::vector<double> & alpha, double t, std::vector<double> & q)
{
  if(j.type() == Joint::Spherical || j.type() == Joint::Free)
  {
    Eigen::Quaterniond o(q[0], q[1], q[2], q[3]);
    Vector3d w = Vector3d(alpha[0], alpha[1], alpha[2]) * t;
    double a = w.norm();
    Eigen::Quaterniond d = a > 0 ? Eigen::Quaterniond(Eigen::AngleAxisd(a, w / a)) : Eigen::Quaterniond::Identity();
    if(j.type() == Joint::Free)
    {
      Vector3d v = Vector3d(alpha[3], alpha[4], alpha[5]) * t, s = v;
      if(a > 1e-9)
      {
        Eigen::Matrix3d W = sva::vector3ToCrossMatrix(w);
        s = v + (1 - std::cos(a)) / (a * a) * (W * v) + (a - std::sin(a)) / (a * a * a) * (W * W * v);
      }
      else
        s = v + 0.5 * w.cross(v);
      s = o * s;
      for(int i = 0; i < 3; ++i)
        q[static_cast<size_t>(4 + i)] += s[i];
    }
    o = o * d;
    o.normalize();
    q[0] = o.w();
    q[1] = o.x();
    q[2] = o.y();
    q[3] = o.z();
  }
  else
    for(size_t i = 0; i < q.size(); ++i)
      q[i] += alpha[i] * t;
}
inline void eulerIntegration(const MultiBody & mb, MultiBodyConfig & mbc, double step, double = 1e-12)
{
  ++calls().integrations;
  calls().step = step;
  for(size_t i = 0; i < mb.joints().size(); ++i)
  {
    std::vector<double> mean = mbc.alpha[i];
    for(size_t k = 0; k < mean.size(); ++k)
      mean[k] += 0.5 * step * mbc.alphaD[i][k];
    moveJoint(mb.joints()[i], mean, step, mbc.q[i]);
    for(size_t k = 0; k < mean.size(); ++k)
      mbc.alpha[i][k] += step * mbc.alphaD[i][k];
  }
}

class Jacobian
{
public:
  Jacobian() {}
  Jacobian(const MultiBody & mb, const std::string & body, const Vector3d & point = Vector3d::Zero()) : point_(point)
  {
    for(int i = body_ = mb.sBodyIndexByName(body); i >= 0; i = mb.parent(i))
      path_.insert(path_.begin(), i);
    for(int i : path_)
      dof_ += mb.joint(i).dof();
    jac_.setZero(6, dof_);
    jacDot_.setZero(6, dof_);
  }
  int dof() const { return dof_; }
  const std::vector<int> & jointsPath() const { return path_; }
  const Vector3d & point() const { return point_; }
  void point(const Vector3d & p) { point_ = p; }
  /** Axes of the world, at the point. */
  const MatrixXd & jacobian(const MultiBody & mb, const MultiBodyConfig & mbc)
  {
    fill(mb, mbc, world(mbc), jac_);
    return jac_;
  }
  /** Axes of the body, at the point. */
  const MatrixXd & bodyJacobian(const MultiBody & mb, const MultiBodyConfig & mbc)
  {
    fill(mb, mbc, sva::PTransformd(point_) * mbc.bodyPosW[idx()], jac_);
    return jac_;
  }
  const MatrixXd & jacobianDot(const MultiBody & mb, const MultiBodyConfig & mbc)
  {
    // derivative of the columns: they are attached to bodies, seen from a point moving with the last body and fixed axes
    sva::PTransformd X = world(mbc);
    Vector3d w = mbc.bodyPosW[idx()].rotation().transpose() * mbc.bodyVelB[idx()].angular();
    sva::MotionVecd vp = X * (mbc.bodyPosW[idx()].inv() * mbc.bodyVelB[idx()]);
    (void)w;
    int c = 0;
    for(int i : path_)
    {
      auto k = static_cast<size_t>(i);
      sva::PTransformd Xi = X * mbc.bodyPosW[k].inv();
      sva::MotionVecd vi = Xi * mbc.bodyVelB[k];
      // seen in the fixed axes, at the moving point: the point moves at vp.linear, the axes do not rotate
      sva::MotionVecd rel = vi - sva::MotionVecd(Vector3d::Zero(), vp.linear());
      for(int j = 0; j < mb.joint(i).dof(); ++j)
        jacDot_.col(c++) = rel.cross(Xi * sva::MotionVecd(Eigen::Vector6d(mb.joint(i).motionSubspace().col(j)))).vector();
    }
    return jacDot_;
  }
  void translateBodyJacobian(const Eigen::Ref<const MatrixXd> & jac,
                             const MultiBodyConfig &,
                             const Vector3d & point,
                             MatrixXd & res)
  {
    if(res.rows() != jac.rows() || res.cols() != jac.cols())
      throw std::out_of_range("translateBodyJacobian: size");
    for(Eigen::DenseIndex i = 0; i < jac.cols(); ++i)
      res.col(i) = (sva::PTransformd(point) * sva::MotionVecd(Eigen::Vector6d(jac.col(i)))).vector();
  }
  void fullJacobian(const MultiBody & mb, const Eigen::Ref<const MatrixXd> & jac, MatrixXd & res) const
  {
    if(res.rows() < jac.rows() || res.cols() < mb.nrDof() || jac.cols() != dof_)
      throw std::out_of_range("fullJacobian: size");
    res.setZero();
    int c = 0;
    for(int i : path_)
    {
      int d = mb.joint(i).dof();
      res.block(0, mb.jointPosInDof(i), jac.rows(), d) = jac.block(0, c, jac.rows(), d);
      c += d;
    }
  }
  sva::MotionVecd velocity(const MultiBody &, const MultiBodyConfig & mbc) const
  { return axes(mbc) * mbc.bodyVelB[idx()]; }
  sva::MotionVecd normalAcceleration(const MultiBody &,
                                     const MultiBodyConfig & mbc,
                                     const std::vector<sva::MotionVecd> & normalAccB) const
  {
    sva::MotionVecd v = axes(mbc) * mbc.bodyVelB[idx()];
    return axes(mbc) * normalAccB.at(idx()) + sva::MotionVecd(Vector3d::Zero(), v.angular().cross(v.linear()));
  }

private:
  size_t idx() const { return static_cast<size_t>(body_); }
  /** from the body to the axes of the world at the point */
  sva::PTransformd axes(const MultiBodyConfig & mbc) const
  { return sva::PTransformd(Eigen::Matrix3d(mbc.bodyPosW[idx()].rotation().transpose())) * sva::PTransformd(point_); }
  sva::PTransformd world(const MultiBodyConfig & mbc) const { return axes(mbc) * mbc.bodyPosW[idx()]; }
  void fill(const MultiBody & mb, const MultiBodyConfig & mbc, const sva::PTransformd & X_0_p, MatrixXd & J) const
  {
    int c = 0;
    for(int i : path_)
    {
      sva::PTransformd X_i_p = X_0_p * mbc.bodyPosW[static_cast<size_t>(i)].inv();
      for(int j = 0; j < mb.joint(i).dof(); ++j)
        J.col(c++) = (X_i_p * sva::MotionVecd(Eigen::Vector6d(mb.joint(i).motionSubspace().col(j)))).vector();
    }
  }
  std::vector<int> path_;
  int body_ = 0, dof_ = 0;
  Vector3d point_ = Vector3d::Zero();
  MatrixXd jac_, jacDot_;
};

inline Vector3d computeCoM(const MultiBody & mb, const MultiBodyConfig & mbc)
{
  ++calls().com;
  Vector3d c = Vector3d::Zero();
  double m = 0;
  for(size_t i = 0; i < mb.bodies().size(); ++i)
  {
    const auto & I = mb.bodies()[i].inertia();
    c += I.mass() * mbc.bodyPosW[i].translation() + mbc.bodyPosW[i].rotation().transpose() * I.momentum();
    m += I.mass();
  }
  if(!(m > 0))
    throw std::runtime_error("computeCoM: no mass");
  return c / m;
}
class CoMJacobian
{
public:
  CoMJacobian() {}
  CoMJacobian(const MultiBody & mb)
  {
    for(const auto & b : mb.bodies())
    {
      double m = b.inertia().mass();
      mass_ += m;
      weights_.push_back(m);
      jacs_.emplace_back(mb, b.name(), m > 0 ? Vector3d(b.inertia().momentum() / m) : Vector3d::Zero());
    }
    jac_.resize(3, mb.nrDof());
    jacDot_.resize(3, mb.nrDof());
  }
  const MatrixXd & jacobian(const MultiBody & mb, const MultiBodyConfig & mbc)
  { return sum(jac_, mb, [&](Jacobian & j) -> const MatrixXd & { return j.jacobian(mb, mbc); }); }
  const MatrixXd & jacobianDot(const MultiBody & mb, const MultiBodyConfig & mbc)
  { return sum(jacDot_, mb, [&](Jacobian & j) -> const MatrixXd & { return j.jacobianDot(mb, mbc); }); }
  Vector3d velocity(const MultiBody & mb, const MultiBodyConfig & mbc) const
  {
    Vector3d v = Vector3d::Zero();
    for(size_t i = 0; i < jacs_.size(); ++i)
      v += weights_[i] / mass_ * jacs_[i].velocity(mb, mbc).linear();
    return v;
  }
  Vector3d normalAcceleration(const MultiBody & mb, const MultiBodyConfig & mbc) const
  {
    std::vector<sva::MotionVecd> n(static_cast<size_t>(mb.nrBodies()));
    for(size_t i = 0; i < n.size(); ++i)
    {
      int p = mb.predecessors()[i];
      n[i] = mbc.bodyVelB[i].cross(mbc.jointVelocity[i]);
      if(p >= 0)
        n[i] += mbc.parentToSon[i] * n[static_cast<size_t>(p)];
    }
    return normalAcceleration(mb, mbc, n);
  }
  Vector3d normalAcceleration(const MultiBody & mb,
                              const MultiBodyConfig & mbc,
                              const std::vector<sva::MotionVecd> & normalAccB) const
  {
    Vector3d v = Vector3d::Zero();
    for(size_t i = 0; i < jacs_.size(); ++i)
      v += weights_[i] / mass_ * jacs_[i].normalAcceleration(mb, mbc, normalAccB).linear();
    return v;
  }

private:
  template<typename F>
  const MatrixXd & sum(MatrixXd & out, const MultiBody & mb, F && f)
  {
    out.setZero();
    MatrixXd full(6, mb.nrDof());
    for(size_t i = 0; i < jacs_.size(); ++i)
    {
      jacs_[i].fullJacobian(mb, f(jacs_[i]), full);
      out += weights_[i] / mass_ * full.bottomRows(3);
    }
    return out;
  }
  std::vector<Jacobian> jacs_;
  std::vector<double> weights_;
  double mass_ = 0;
  MatrixXd jac_, jacDot_;
};

/** H and C of H alphaD + C = torques, gravity included. */
class ForwardDynamics
{
public:
  ForwardDynamics() {}
  ForwardDynamics(const MultiBody & mb)
  : H_(MatrixXd::Constant(mb.nrDof(), mb.nrDof(), std::numeric_limits<double>::quiet_NaN())),
    C_(VectorXd::Constant(mb.nrDof(), std::numeric_limits<double>::quiet_NaN()))
  {}
  void computeH(const MultiBody & mb, const MultiBodyConfig & mbc)
  {
    ++calls().h;
    H_.setZero();
    MatrixXd full(6, mb.nrDof());
    for(const auto & b : mb.bodies())
    {
      Jacobian j(mb, b.name());
      j.fullJacobian(mb, j.bodyJacobian(mb, mbc), full);
      MatrixXd IJ(6, mb.nrDof());
      for(int c = 0; c < mb.nrDof(); ++c)
        IJ.col(c) = (b.inertia() * sva::MotionVecd(Eigen::Vector6d(full.col(c)))).vector();
      H_ += full.transpose() * IJ;
    }
  }
  void computeC(const MultiBody & mb, const MultiBodyConfig & mbc)
  {
    ++calls().c;
    C_.setZero();
    MatrixXd full(6, mb.nrDof());
    std::vector<sva::MotionVecd> n(static_cast<size_t>(mb.nrBodies()));
    for(size_t i = 0; i < n.size(); ++i)
    {
      int p = mb.predecessors()[i];
      n[i] = mbc.bodyVelB[i].cross(mbc.jointVelocity[i]);
      if(p >= 0)
        n[i] += mbc.parentToSon[i] * n[static_cast<size_t>(p)];
      const auto & I = mb.bodies()[i].inertia();
      const auto & v = mbc.bodyVelB[i];
      sva::MotionVecd a = n[i] + sva::MotionVecd(Vector3d::Zero(), mbc.bodyPosW[i].rotation() * mbc.gravity);
      sva::ForceVecd f = I * a + v.crossDual(I * v);
      Jacobian j(mb, mb.bodies()[i].name());
      j.fullJacobian(mb, j.bodyJacobian(mb, mbc), full);
      C_ += full.transpose() * f.vector();
    }
  }
  const MatrixXd & H() const { return H_; }
  const VectorXd & C() const { return C_; }

private:
  MatrixXd H_;
  VectorXd C_;
};

struct MultiBodyGraph
{
  std::map<std::string, sva::PTransformd> base;
  std::map<std::string, sva::PTransformd> bodiesBaseTransform(const std::string &, const sva::PTransformd & = sva::PTransformd::Identity())
  { return base; }
};

namespace parsers
{
struct Limits
{
  std::map<std::string, std::vector<double>> lower, upper, velocity, torque;
};
struct ParserResult
{
  MultiBody mb;
  MultiBodyConfig mbc;
  MultiBodyGraph mbg;
  Limits limits;
  std::string name;
};
/** What from_urdf returns, and what it was asked. */
inline ParserResult & parsed()
{
  static thread_local ParserResult r;
  return r;
}
struct Asked
{
  std::string content;
  bool fixed = false;
  std::vector<std::string> filtered;
};
inline Asked & asked()
{
  static thread_local Asked a;
  return a;
}
inline ParserResult from_urdf(const std::string & content, bool fixed = true, const std::vector<std::string> & filtered = {})
{
  asked() = {content, fixed, filtered};
  return parsed();
}
} // namespace parsers
} // namespace rbd
