From 8166c88d6ac65afe3423d57c6f08f9835013dd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:41 +0000
Subject: [PATCH 01/81] fix: deriving a subvariable must not reset the
 derivative of its supervariable

---
 src/Variable.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Variable.cpp b/src/Variable.cpp
index c0e1965..7be3ed7 100644
--- a/src/Variable.cpp
+++ b/src/Variable.cpp
@@ -223,7 +223,9 @@ Variable::Variable(Variable * var, bool autoName)
     ss << "[" << shift_.tSize() << ":" << shift_.tSize() + size() - 1 << "]";
   }
   name_ = ss.str();
-  value_.setZero();
+  // The memory of a subvariable belongs to its supervariable, whose values must not be altered.
+  if(!isSubvariable())
+    value_.setZero();
 }
 
 VariablePtr Variable::subvariable(Space space, std::string_view baseName, Space shift, bool autoName) const
-- 
2.43.0


From 57fe76faa30e0d736c5ec10bb402ded46fed8a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:41 +0000
Subject: [PATCH 02/81] fix: pointers obtained from a subvariable must keep the
 subvariable alive

---
 include/tvm/Variable.h | 11 ++++++-----
 src/Variable.cpp       | 16 ++++------------
 2 files changed, 10 insertions(+), 17 deletions(-)

diff --git a/include/tvm/Variable.h b/include/tvm/Variable.h
index 74e0c41..4c0626c 100644
--- a/include/tvm/Variable.h
+++ b/include/tvm/Variable.h
@@ -40,8 +40,9 @@ VariablePtr TVM_DLLAPI dot(VariablePtr var, int ndiff = 1, bool autoName = false
  *
  * \internal A note on memory management for variables: Variable instances can
  * only be created through factory function returning shared_ptr (unique_ptr for
- * initial variables created from Space). Derived variables and subvariables
- * share the same reference counter, through the aliasing mechanism of shared_ptr.
+ * initial variables created from Space). Derived variables share the reference
+ * counter of their base primitive, through the aliasing mechanism of shared_ptr,
+ * and subvariables keep a reference on their supervariable.
  * This ensure that the lifetime of a variable, and in particular the original
  * variable always exceed that of a variable constructed from it.
  */
@@ -203,9 +204,9 @@ public:
 
   /** Overload of enable_shared_from_this::shared_from_this, for technical purpose.
    *
-   * \internal This is necessary because all derivative and subvariables are
-   * sharing the same ref counter as the primitive supervariable, while the
-   * default shared_from_this use the variable own (and unused) ref counter.
+   * \internal This is necessary because all derivatives are sharing the same
+   * ref counter as their base primitive, while the default shared_from_this
+   * use the variable own (and unused) ref counter.
    */
   [[nodiscard]] VariablePtr shared_from_this();
 
diff --git a/src/Variable.cpp b/src/Variable.cpp
index 7be3ed7..e63c108 100644
--- a/src/Variable.cpp
+++ b/src/Variable.cpp
@@ -267,20 +267,12 @@ Variable::Variable(make_shared_token, VariablePtr var, const Space & space, std:
 
 VariablePtr Variable::shared_from_this()
 {
+  // A base primitive (be it a subvariable or not) is managed by its own reference counter. Its derivatives share that
+  // counter.
   if(isBasePrimitive())
-  {
-    if(isSubvariable())
-      return {superVariable_->shared_from_this(), this};
-    else
-      return std::enable_shared_from_this<Variable>::shared_from_this();
-  }
+    return std::enable_shared_from_this<Variable>::shared_from_this();
   else
-  {
-    if(isSubvariable())
-      return {superVariable_->basePrimitive()->shared_from_this(), this};
-    else
-      return {basePrimitive()->shared_from_this(), this};
-  }
+    return {basePrimitive(), this};
 }
 
 } // namespace tvm
-- 
2.43.0


From cec02aadf2cfd6a721566f188b1c201dba81aabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:41 +0000
Subject: [PATCH 03/81] fix: automatic name of a subvariable of a subvariable
 accounts for the whole shift

---
 src/Variable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Variable.cpp b/src/Variable.cpp
index e63c108..72cd4d3 100644
--- a/src/Variable.cpp
+++ b/src/Variable.cpp
@@ -244,7 +244,7 @@ VariablePtr Variable::subvariable(Space space, std::string_view baseName, Space
   // Create a subvariable of the supervariable base primitive
   if(autoName)
   {
-    int start = base->spaceShift().rSize() + shift.rSize();
+    int start = shift_.rSize() + shift.rSize();
     std::stringstream ss;
     ss << base->name() << "[" << start << ":" << start + space.rSize() - 1 << "]";
     sub = std::make_shared<Variable>(make_shared_token{}, base, space, ss.str(), shift_ * shift);
-- 
2.43.0


From 41b1b60082f91c3de294d690f03b9c32b49beb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:13 +0000
Subject: [PATCH 04/81] fix: split of a counted union must follow every change
 of the counts

---
 src/internal/VariableCountingVector.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/internal/VariableCountingVector.cpp b/src/internal/VariableCountingVector.cpp
index 29c09a4..29f36ef 100644
--- a/src/internal/VariableCountingVector.cpp
+++ b/src/internal/VariableCountingVector.cpp
@@ -18,7 +18,8 @@ bool VariableCountingVector::add(VariablePtr v)
   bool change = counterPair.first.add(start, dim);
   if(change)
     ++counterPair.second;
-  upToDate_ = upToDate_ && !change;
+  // When splitting, the parts depend on the counts, which change even if the union does not.
+  upToDate_ = upToDate_ && !change && !split_;
   return change;
 }
 
@@ -48,7 +49,8 @@ bool VariableCountingVector::remove(const Variable & v)
       counterPair.second += 10;
     }
   }
-  upToDate_ = upToDate_ && !change;
+  // When splitting, the parts depend on the counts, which change even if the union does not.
+  upToDate_ = upToDate_ && !change && !split_;
   return change;
 }
 
-- 
2.43.0


From 3687305d3fccf84e7fb1aa9d8a6dadfc74edf61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:29 +0000
Subject: [PATCH 05/81] fix: self-assignment and moves of VariableVector keep
 consistent content, size and mapping

---
 include/tvm/VariableVector.h |  5 +++--
 src/VariableVector.cpp       | 25 +++++++++++++++++++++++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/tvm/VariableVector.h b/include/tvm/VariableVector.h
index 2a8c460..3b1d402 100644
--- a/include/tvm/VariableVector.h
+++ b/include/tvm/VariableVector.h
@@ -58,10 +58,11 @@ public:
 
   /** Copy constructor*/
   VariableVector(const VariableVector & other);
-  VariableVector(VariableVector &&) = default;
+  /** Move constructor. \p other is left empty.*/
+  VariableVector(VariableVector && other);
 
   VariableVector & operator=(const VariableVector & other);
-  VariableVector & operator=(VariableVector &&) = default;
+  VariableVector & operator=(VariableVector && other);
 
   ~VariableVector();
 
diff --git a/src/VariableVector.cpp b/src/VariableVector.cpp
index 4081250..b66100a 100644
--- a/src/VariableVector.cpp
+++ b/src/VariableVector.cpp
@@ -12,10 +12,31 @@ VariableVector::VariableVector() : size_(0) { getNewStamp(); }
 
 VariableVector::VariableVector(const VariableVector & other) : VariableVector(other.variables()) {}
 
+VariableVector::VariableVector(VariableVector && other) : VariableVector() { *this = std::move(other); }
+
 VariableVector & VariableVector::operator=(const VariableVector & other)
 {
-  clear();
-  add(other.variables());
+  if(this != &other)
+  {
+    clear();
+    add(other.variables());
+  }
+  return *this;
+}
+
+VariableVector & VariableVector::operator=(VariableVector && other)
+{
+  if(this != &other)
+  {
+    clear();
+    // The mappings recorded in the variables are attached to the id. Swapping (rather than moving) it lets other be a
+    // valid empty vector.
+    std::swap(static_cast<tvm::internal::ObjWithId &>(*this), static_cast<tvm::internal::ObjWithId &>(other));
+    std::swap(stamp_, other.stamp_);
+    std::swap(size_, other.size_);
+    variables_.swap(other.variables_);
+    value_.swap(other.value_);
+  }
   return *this;
 }
 
-- 
2.43.0


From 6f9f3ba71a67935c19044d13e58be95b4686c813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:43 +0000
Subject: [PATCH 06/81] fix: refuse cycles not reachable from a root when
 ordering a dependency graph

---
 src/graph/DependencyGraph.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/graph/DependencyGraph.cpp b/src/graph/DependencyGraph.cpp
index 898c3f5..be7dabe 100644
--- a/src/graph/DependencyGraph.cpp
+++ b/src/graph/DependencyGraph.cpp
@@ -316,6 +316,13 @@ std::pair<std::vector<size_t>, DependencyGraph::DisjointSet> DependencyGraph::or
         "[DependencyGraph::Order] Try to order a non-empty graph with no root. It contains at least one cycle.");
   }
 
+  // Nodes that can't be reached from any root are part of, or only reachable from, a cycle.
+  if(ret.first.size() != n)
+  {
+    throw std::logic_error(
+        "[DependencyGraph::Order] Some nodes can not be reached from a root. The graph contains at least one cycle.");
+  }
+
   return ret;
 }
 
-- 
2.43.0


From c9d9593316a8ed81c573633a75284a5507b50b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:43 +0000
Subject: [PATCH 07/81] fix: CallGraph::clear releases the inputs added to the
 graph

---
 src/graph/CallGraph.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/graph/CallGraph.cpp b/src/graph/CallGraph.cpp
index c8dfdb2..8ed1ce3 100644
--- a/src/graph/CallGraph.cpp
+++ b/src/graph/CallGraph.cpp
@@ -30,6 +30,7 @@ void CallGraph::update() { plan_.build(*this); }
 
 void CallGraph::clear()
 {
+  inputs_.clear();
   callId_.clear();
   calls_.clear();
   dependencyGraph_.clear();
-- 
2.43.0


From a250042cfe20a877cf92e0d6dfa07e324ba166de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:43 +0000
Subject: [PATCH 08/81] fix: check all the outputs given to addInputDependency

---
 include/tvm/graph/abstract/Node.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tvm/graph/abstract/Node.hpp b/include/tvm/graph/abstract/Node.hpp
index 9c5a1a6..e73ebed 100644
--- a/include/tvm/graph/abstract/Node.hpp
+++ b/include/tvm/graph/abstract/Node.hpp
@@ -144,8 +144,8 @@ void Node<T>::addInputDependency(EnumU u, std::shared_ptr<S> source, EnumO i, Ar
 {
   // Make sure the call makes sense
   checkAddInputDependency<U, EnumU, S>(u);
-  // Make sure we have this input
-  addInput(source, i);
+  // Make sure we have these inputs
+  addInput(source, i, args...);
   // Add the dependency
   addInputDependency<U>(u, source.get(), i, args...);
 }
@@ -161,8 +161,8 @@ void Node<T>::addInputDependency(EnumU u, S & source, EnumO i, Args... args)
 {
   // Make sure the call makes sense
   checkAddInputDependency<U, EnumU, S>(u);
-  // Make sure we have this input
-  addInput(source, i);
+  // Make sure we have these inputs
+  addInput(source, i, args...);
   // Add the dependency
   addInputDependency<U>(u, &source, i, args...);
 }
-- 
2.43.0


From 91fc5a39f81ae7647087b1cc1879dd08f31855b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:13 +0000
Subject: [PATCH 09/81] fix: matrix property operators give valid properties
 for scaled identities, zero products and sums of definite matrices

---
 src/internal/MatrixProperties.cpp | 38 +++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/internal/MatrixProperties.cpp b/src/internal/MatrixProperties.cpp
index 6ebc6e1..0953279 100644
--- a/src/internal/MatrixProperties.cpp
+++ b/src/internal/MatrixProperties.cpp
@@ -266,12 +266,16 @@ Shape operator-(const Shape & s)
 
 Shape operator*(double d, const Shape & s)
 {
-  if(d < 0)
-    return -s;
-  else if(d > 0)
+  if(d == 0)
+    return Shape::ZERO;
+  else if(d == 1)
     return s;
+  else if(d == -1)
+    return -s;
+  else if(s == Shape::IDENTITY || s == Shape::MINUS_IDENTITY)
+    return Shape::MULTIPLE_OF_IDENTITY;
   else
-    return Shape::ZERO;
+    return s;
 }
 
 Shape operator+(const Shape & s1, const Shape & s2)
@@ -355,28 +359,38 @@ Shape operator*(const Shape & s1, const Shape & s2)
   }
 }
 
+namespace
+{
+/** Properties of the result of an operation, where \p c and \p i are the constness and invertibility obtained from the
+ * ones of the operands only. These are completed by what is necessarily true given \p s and \p p, so as not to contradict
+ * it (e.g. the product by 0 of a non-constant matrix is constant).
+ */
+MatrixProperties result(Shape s, Positiveness p, bool c, bool i)
+{ return {s, p, Constness(c || deduceConstance(s)), Invertibility(i || deduceInvertibility(s, p))}; }
+} // namespace
+
 MatrixProperties operator-(const MatrixProperties & p)
-{ return {-p.shape(), -p.positiveness(), -p.constness(), -p.invertibility()}; }
+{ return result(-p.shape(), -p.positiveness(), -p.constness(), -p.invertibility()); }
 
 MatrixProperties operator*(double d, const MatrixProperties & p)
-{ return {d * p.shape(), d * p.positiveness(), d * p.constness(), d * p.invertibility()}; }
+{ return result(d * p.shape(), d * p.positiveness(), d * p.constness(), d * p.invertibility()); }
 
 MatrixProperties operator+(const MatrixProperties & p1, const MatrixProperties & p2)
 {
-  return {p1.shape() + p2.shape(), p1.positiveness() + p2.positiveness(), p1.constness() + p2.constness(),
-          p1.invertibility() + p2.invertibility()};
+  return result(p1.shape() + p2.shape(), p1.positiveness() + p2.positiveness(), p1.constness() + p2.constness(),
+                p1.invertibility() + p2.invertibility());
 }
 
 MatrixProperties operator-(const MatrixProperties & p1, const MatrixProperties & p2)
 {
-  return {p1.shape() - p2.shape(), p1.positiveness() - p2.positiveness(), p1.constness() - p2.constness(),
-          p1.invertibility() - p2.invertibility()};
+  return result(p1.shape() - p2.shape(), p1.positiveness() - p2.positiveness(), p1.constness() - p2.constness(),
+                p1.invertibility() - p2.invertibility());
 }
 
 MatrixProperties operator*(const MatrixProperties & p1, const MatrixProperties & p2)
 {
-  return {p1.shape() * p2.shape(), p1.positiveness() * p2.positiveness(), p1.constness() * p2.constness(),
-          p1.invertibility() * p2.invertibility()};
+  return result(p1.shape() * p2.shape(), p1.positiveness() * p2.positiveness(), p1.constness() * p2.constness(),
+                p1.invertibility() * p2.invertibility());
 }
 
 } // namespace internal
-- 
2.43.0


From 9d32d59e656077f8f4494d5808a085f1be6c682e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:08 +0000
Subject: [PATCH 10/81] fix: slice JDot with tangent ranges

---
 include/tvm/function/abstract/Function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tvm/function/abstract/Function.h b/include/tvm/function/abstract/Function.h
index 81deda5..325b4b8 100644
--- a/include/tvm/function/abstract/Function.h
+++ b/include/tvm/function/abstract/Function.h
@@ -89,7 +89,7 @@ protected:
   // cache
   Eigen::VectorXd velocity_;
   Eigen::VectorXd normalAcceleration_;
-  utils::internal::MapWithVariableAsKey<Eigen::MatrixXd, slice_jdot> JDot_;
+  utils::internal::MapWithVariableAsKey<Eigen::MatrixXd, slice_jdot, true> JDot_;
 
 private:
   // we retain the variables' derivatives shared_ptr to ensure the reference is never lost
-- 
2.43.0


From c16d45f93be1517b1b4cb3eca15608fd8cfbcd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:08 +0000
Subject: [PATCH 11/81] fix: refuse to remove an absent variable, forget data
 of an equal one

---
 src/internal/FirstOrderProvider.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/internal/FirstOrderProvider.cpp b/src/internal/FirstOrderProvider.cpp
index a89497b..7ad6704 100644
--- a/src/internal/FirstOrderProvider.cpp
+++ b/src/internal/FirstOrderProvider.cpp
@@ -58,10 +58,16 @@ void FirstOrderProvider::addVariable(const VariableVector & vv, bool linear)
 
 void FirstOrderProvider::removeVariable(VariablePtr v)
 {
-  variables_.remove(*v);
-  jacobian_.erase(v.get());
-  linear_.erase(v.get());
-  removeVariable_(v);
+  int i = variables_.indexOf(*v);
+  if(i < 0)
+    throw std::runtime_error("[FirstOrderProvider::removeVariable] Variable " + v->name()
+                             + " is not one of the variables.");
+  // The data are attached to the variable that was added, which can be a different, but equal, object.
+  VariablePtr x = variables_[i];
+  variables_.remove(i);
+  jacobian_.erase(x.get());
+  linear_.erase(x.get());
+  removeVariable_(x);
 }
 
 void FirstOrderProvider::addVariable_(VariablePtr)
-- 
2.43.0


From 45d5c896fa7ff2734a9c6e918bcb080f0da0440b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:17 +0000
Subject: [PATCH 12/81] fix: sum the terms of a linear constraint on a same
 variable

---
 src/constraint/BasicLinearConstraint.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/constraint/BasicLinearConstraint.cpp b/src/constraint/BasicLinearConstraint.cpp
index 241c4f1..23b91c7 100644
--- a/src/constraint/BasicLinearConstraint.cpp
+++ b/src/constraint/BasicLinearConstraint.cpp
@@ -206,9 +206,18 @@ void BasicLinearConstraint::add(const Eigen::MatrixXd & A, VariablePtr x)
     throw std::runtime_error("Matrix A doesn't have coherent row size.");
   if(A.cols() != x->size())
     throw std::runtime_error("Matrix A doesn't have its column size coherent with its corresponding variable.");
-  addVariable(x, true);
-  jacobian_.at(x.get()) = A;
-  jacobian_.at(x.get()).properties({tvm::internal::MatrixProperties::Constness(true)});
+  if(variables().contains(*x))
+  {
+    auto J = jacobian_.at(x.get(), tvm::utils::internal::with_sub{});
+    J += A;                                                           // this erases the properties of J;
+    J.properties({tvm::internal::MatrixProperties::Constness(true)}); // We restore only this one
+  }
+  else
+  {
+    addVariable(x, true);
+    jacobian_.at(x.get()) = A;
+    jacobian_.at(x.get()).properties({tvm::internal::MatrixProperties::Constness(true)});
+  }
 }
 
 } // namespace constraint
-- 
2.43.0


From d82517f7432ddea13dd5a34b4edc0ab449b08a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:17 +0000
Subject: [PATCH 13/81] fix: no identity property for rectangular matrices

---
 include/tvm/function/BasicLinearFunction.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tvm/function/BasicLinearFunction.h b/include/tvm/function/BasicLinearFunction.h
index 9cca4a6..459063e 100644
--- a/include/tvm/function/BasicLinearFunction.h
+++ b/include/tvm/function/BasicLinearFunction.h
@@ -157,15 +157,15 @@ inline void BasicLinearFunction::add(const Eigen::MatrixBase<Derived> & A, Varia
     // and to richer diagonal case
     if constexpr(std::is_same_v<Derived, std::remove_const_t<tvm::utils::internal::IdentityType>>)
     {
-      shape = Shape::IDENTITY;
+      shape = A.rows() == A.cols() ? Shape::IDENTITY : Shape::GENERAL;
     }
     if constexpr(std::is_same_v<Derived, std::remove_const_t<tvm::utils::internal::MinusIdentityType>>)
     {
-      shape = Shape::MINUS_IDENTITY;
+      shape = A.rows() == A.cols() ? Shape::MINUS_IDENTITY : Shape::GENERAL;
     }
     if constexpr(std::is_same_v<Derived, std::remove_const_t<tvm::utils::internal::MultIdentityType>>)
     {
-      shape = Shape::MULTIPLE_OF_IDENTITY;
+      shape = A.rows() == A.cols() ? Shape::MULTIPLE_OF_IDENTITY : Shape::GENERAL;
     }
     if constexpr(std::is_same_v<Derived, std::remove_const_t<decltype(Eigen::VectorXd(1).asDiagonal())>>)
     {
-- 
2.43.0


From b9d247799982f7eb4123b7b8bdf7147897eaeb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:46 +0000
Subject: [PATCH 14/81] fix: let a linear expression own its variable

---
 include/tvm/utils/AffineExpr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tvm/utils/AffineExpr.h b/include/tvm/utils/AffineExpr.h
index b9cced1..e86bb2f 100644
--- a/include/tvm/utils/AffineExpr.h
+++ b/include/tvm/utils/AffineExpr.h
@@ -52,7 +52,7 @@ private:
   /** The matrix expression. */
   typename internal::RefSelector_t<Derived> matrix_;
   /** The variable */
-  const VariablePtr & var_;
+  VariablePtr var_;
 };
 
 /** A class representing an affine expression \f$ A_1 x_1 + A_2 x_2 + \ldots + A_k x_k + b \f$
-- 
2.43.0


From 594e4e9bd40b673530a137e7ddaa207bf614835a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:52 +0000
Subject: [PATCH 15/81] fix: check both dimensions of a matrix proportional
 gain

---
 src/task_dynamics/Proportional.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/task_dynamics/Proportional.cpp b/src/task_dynamics/Proportional.cpp
index 374d89b..14762f4 100644
--- a/src/task_dynamics/Proportional.cpp
+++ b/src/task_dynamics/Proportional.cpp
@@ -29,8 +29,9 @@ Proportional::Impl::Impl(FunctionPtr f, constraint::Type t, const Eigen::VectorX
 : TaskDynamicsImpl(Order::One, f, t, rhs), kp_(kp)
 {
   if((kp.index() == 1 && mpark::get<Eigen::VectorXd>(kp).size() != f->size())   // Diagonal gain
-     || (kp.index() == 2 && mpark::get<Eigen::MatrixXd>(kp).cols() != f->size() // Matrix gain
-         && mpark::get<Eigen::MatrixXd>(kp).rows() != f->size()))
+     || (kp.index() == 2
+         && (mpark::get<Eigen::MatrixXd>(kp).cols() != f->size() // Matrix gain
+             || mpark::get<Eigen::MatrixXd>(kp).rows() != f->size())))
   {
     throw std::runtime_error("[task_dynamics::Proportional::Impl] Gain and function have incompatible sizes.");
   }
-- 
2.43.0


From e8a4df2938c7f23a91b21b92c36a6247810c5ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:12 +0000
Subject: [PATCH 16/81] fix: refuse ill-sized proportional-derivative gains at
 construction

---
 src/task_dynamics/ProportionalDerivative.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/task_dynamics/ProportionalDerivative.cpp b/src/task_dynamics/ProportionalDerivative.cpp
index 08b62f1..882a2c2 100644
--- a/src/task_dynamics/ProportionalDerivative.cpp
+++ b/src/task_dynamics/ProportionalDerivative.cpp
@@ -68,17 +68,14 @@ ProportionalDerivative::Impl::Impl(FunctionPtr f,
                                    const Gain & kv)
 : TaskDynamicsImpl(Order::Two, f, t, rhs), kp_(kp), kv_(kv)
 {
-  assert((kp.index() == 0                                                             // Scalar gain
-          || (kp.index() == 1 && mpark::get<Eigen::VectorXd>(kp).size() == f->size()) // Diagonal gain
-          || (kp.index() == 2 && mpark::get<Eigen::MatrixXd>(kp).cols() == f->size()  // Matrix gain
-              && mpark::get<Eigen::MatrixXd>(kp).rows() == f->size()))
-         && "Gain kp and function have incompatible sizes");
-
-  assert((kv.index() == 0                                                             // Scalar gain
-          || (kv.index() == 1 && mpark::get<Eigen::VectorXd>(kv).size() == f->size()) // Diagonal gain
-          || (kv.index() == 2 && mpark::get<Eigen::MatrixXd>(kv).cols() == f->size()  // Matrix gain
-              && mpark::get<Eigen::MatrixXd>(kv).rows() == f->size()))
-         && "Gain kv and function have incompatible sizes");
+  auto check = [this](const Gain & k) {
+    if(k.index() == 1)
+      checkGainSize(mpark::get<Eigen::VectorXd>(k));
+    else if(k.index() == 2)
+      checkGainSize(mpark::get<Eigen::MatrixXd>(k));
+  };
+  check(kp);
+  check(kv);
 }
 
 void ProportionalDerivative::Impl::updateValue()
-- 
2.43.0


From a9102b7501715f0f45ea2f0182c551b3869b1396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:41 +0000
Subject: [PATCH 17/81] fix: compute the damping of critically damped matrix
 gains with the square root

---
 src/task_dynamics/ProportionalDerivative.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/task_dynamics/ProportionalDerivative.cpp b/src/task_dynamics/ProportionalDerivative.cpp
index 882a2c2..99cd704 100644
--- a/src/task_dynamics/ProportionalDerivative.cpp
+++ b/src/task_dynamics/ProportionalDerivative.cpp
@@ -51,7 +51,7 @@ ProportionalDerivative::ProportionalDerivative(const Eigen::MatrixXd & kp)
   Eigen::RealSchur<Eigen::MatrixXd> dec(kp);
   assert(dec.matrixT().isDiagonal(1e-8) && "kp is not symmetric.");
   assert((dec.matrixT().diagonal().array() >= 0).all() && "kp is indefinite.");
-  kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().asDiagonal() * dec.matrixU().transpose());
+  kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().cwiseSqrt().asDiagonal() * dec.matrixU().transpose());
 }
 
 std::unique_ptr<abstract::TaskDynamicsImpl> ProportionalDerivative::impl_(FunctionPtr f,
@@ -149,7 +149,8 @@ void ProportionalDerivative::Impl::gains(const Eigen::MatrixXd & kp)
   Eigen::RealSchur<Eigen::MatrixXd> dec(kp);
   assert(dec.matrixT().isDiagonal(1e-8) && "kp is not symmetric.");
   assert((dec.matrixT().diagonal().array() >= 0).all() && "kp is indefinite.");
-  kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().asDiagonal() * dec.matrixU().transpose());
+  kp_ = kp;
+  kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().cwiseSqrt().asDiagonal() * dec.matrixU().transpose());
 }
 
 void ProportionalDerivative::Impl::checkGainSize(double) const
-- 
2.43.0


From 385d721573c7e4ae24c03656a7946ea03f74ed3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:41 +0000
Subject: [PATCH 18/81] fix: no second bound task dynamics in a single-sided
 task

---
 include/tvm/Task.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tvm/Task.h b/include/tvm/Task.h
index d8de18c..d6f40df 100644
--- a/include/tvm/Task.h
+++ b/include/tvm/Task.h
@@ -67,7 +67,7 @@ std::shared_ptr<TDImpl> Task::taskDynamics() const
 template<typename T, typename TDImpl>
 std::shared_ptr<TDImpl> Task::secondBoundTaskDynamics() const
 {
-  if(td2_->checkType<TDImpl>())
+  if(td2_ && td2_->checkType<TDImpl>())
     return std::static_pointer_cast<TDImpl>(td2_);
   else
     throw std::runtime_error("Unable to cast the task dynamics into the desired type.");
-- 
2.43.0


From 57ea6d9f60f515e5aa45a34a155b52b120b8a949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:53 +0000
Subject: [PATCH 19/81] fix: priority levels above the strict ones are
 scalarized instead of refused

---
 include/tvm/scheme/internal/SchemeAbilities.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/tvm/scheme/internal/SchemeAbilities.h b/include/tvm/scheme/internal/SchemeAbilities.h
index b0383ea..9f925db 100644
--- a/include/tvm/scheme/internal/SchemeAbilities.h
+++ b/include/tvm/scheme/internal/SchemeAbilities.h
@@ -105,10 +105,13 @@ inline void SchemeAbilities::check(const ConstraintPtr & c, const RequirementsPt
 {
   // check priority level value
   int p = req->priorityLevel().value();
+  int level = p;
   if(numberOfLevels_ > 0 && p >= numberOfLevels_)
   {
     if(scalarization_)
     {
+      // the constraint will be handled, with a weight, at the last level
+      level = numberOfLevels_ - 1;
       if(emitWarnings)
       {
         std::cout << "Warning: required priority level (" << p
@@ -126,7 +129,7 @@ inline void SchemeAbilities::check(const ConstraintPtr & c, const RequirementsPt
   }
 
   // check abilities of the required priority level
-  auto it = abilities_.find(p);
+  auto it = abilities_.find(level);
   if(it != abilities_.end())
     it->second.check(c, req, emitWarnings);
   else
-- 
2.43.0


From b55ff6dd2f2e3214b6ba7d0c1cef0c842b71ae93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:03 +0000
Subject: [PATCH 20/81] fix: rebuild the data of WeightedLeastSquares after an
 update interrupted by an exception

---
 include/tvm/scheme/WeightedLeastSquares.h |  2 ++
 src/scheme/WeightedLeastSquares.cpp       | 20 +++++++++++++-------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/tvm/scheme/WeightedLeastSquares.h b/include/tvm/scheme/WeightedLeastSquares.h
index ab44c3e..9a9a614 100644
--- a/include/tvm/scheme/WeightedLeastSquares.h
+++ b/include/tvm/scheme/WeightedLeastSquares.h
@@ -40,6 +40,8 @@ private:
     std::unique_ptr<solver::abstract::LeastSquareSolver> solver;
 
     int maxp = 0;
+    /** True if the data need to be rebuilt from the problem (e.g. because a previous update was interrupted).*/
+    bool rebuild = false;
 
   protected:
     void setVariablesToSolution_(tvm::internal::VariableCountingVector & x) override;
diff --git a/src/scheme/WeightedLeastSquares.cpp b/src/scheme/WeightedLeastSquares.cpp
index 990a7a6..4a610a0 100644
--- a/src/scheme/WeightedLeastSquares.cpp
+++ b/src/scheme/WeightedLeastSquares.cpp
@@ -43,18 +43,23 @@ void WeightedLeastSquares::updateComputationData_(const LinearizedControlProblem
   using EventType = ProblemDefinitionEvent::Type;
   solver::internal::SolverEvents se;
 
-  if(data->hasEvents())
+  Memory * memory = static_cast<Memory *>(data);
+  if(data->hasEvents() || memory->rebuild)
   {
-    Memory * memory = static_cast<Memory *>(data);
-
     // If some events require to rebuild the data, we skip all other events.
+    bool rebuild = memory->rebuild;
     for(const auto & e : memory->events())
     {
       if(e.type() == EventType::SubstitutionAddition || e.type() == EventType::SubstitutionRemoval)
-      {
-        resetComputationData(problem, memory);
-        return;
-      }
+        rebuild = true;
+    }
+    // If what follows throws, the data are only partially updated.
+    memory->rebuild = true;
+    if(rebuild)
+    {
+      resetComputationData(problem, memory);
+      memory->rebuild = false;
+      return;
     }
     while(memory->hasEvents())
     {
@@ -92,6 +97,7 @@ void WeightedLeastSquares::updateComputationData_(const LinearizedControlProblem
 
     memory->variables(); // update variable vector if needed
     memory->solver->process(se);
+    memory->rebuild = false;
   }
 }
 
-- 
2.43.0


From a059161cb24006e45f2225101bb2dc5171f47de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:13 +0000
Subject: [PATCH 21/81] fix: autoDamping of WeightedLeastSquares works and
 follows the edits of the problem

---
 src/scheme/WeightedLeastSquares.cpp | 4 ++++
 src/solver/LeastSquareSolver.cpp    | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/scheme/WeightedLeastSquares.cpp b/src/scheme/WeightedLeastSquares.cpp
index 4a610a0..19c2121 100644
--- a/src/scheme/WeightedLeastSquares.cpp
+++ b/src/scheme/WeightedLeastSquares.cpp
@@ -52,6 +52,10 @@ void WeightedLeastSquares::updateComputationData_(const LinearizedControlProblem
     {
       if(e.type() == EventType::SubstitutionAddition || e.type() == EventType::SubstitutionRemoval)
         rebuild = true;
+      // The damping depends on the variables and on the presence of objectives.
+      if(options_.autoDamping().value()
+         && (e.type() == EventType::TaskAddition || e.type() == EventType::TaskRemoval))
+        rebuild = true;
     }
     // If what follows throws, the data are only partially updated.
     memory->rebuild = true;
diff --git a/src/solver/LeastSquareSolver.cpp b/src/solver/LeastSquareSolver.cpp
index 433a135..98004ad 100644
--- a/src/solver/LeastSquareSolver.cpp
+++ b/src/solver/LeastSquareSolver.cpp
@@ -134,6 +134,7 @@ void LeastSquareSolver::setMinimumNorm()
     throw std::runtime_error("[LeastSquareSolver]: attempting to add an objective without calling startBuild first");
   }
   setMinimumNorm_();
+  objSize_ = nObj_;
 }
 
 bool LeastSquareSolver::solve()
-- 
2.43.0


From d4ab4fd70986d21386a09dac4ee52fe7b371107a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:45 +0000
Subject: [PATCH 22/81] fix: assignments keep the subvariables they refer to
 alive

---
 include/tvm/scheme/internal/MatrixAssignment.h | 2 +-
 src/scheme/Assignment.cpp                      | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tvm/scheme/internal/MatrixAssignment.h b/include/tvm/scheme/internal/MatrixAssignment.h
index 1ac89d1..2fc31a7 100644
--- a/include/tvm/scheme/internal/MatrixAssignment.h
+++ b/include/tvm/scheme/internal/MatrixAssignment.h
@@ -25,7 +25,7 @@ public:
   using MatrixFunction = MatrixRef (AssignmentTarget::*)(int, int) const;
 
   CompiledAssignmentWrapper<Eigen::MatrixXd> assignment;
-  Variable * x;
+  VariablePtr x; // shared: x might be a subvariable not owned elsewhere
   Range colRange;
   MatrixFunction getTargetMatrix;
 
diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 70b6b5d..8324c6f 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -417,7 +417,7 @@ void Assignment::addMatrixAssignment(Variable & x, MatrixFunction M, const Range
   const MatrixRef & to = (target_.*M)(range.start, range.dim);
   auto w = createAssignment<Eigen::MatrixXd, AssignType::COPY>(from, to, flip);
 
-  matrixAssignments_.push_back({w, &x, range, M});
+  matrixAssignments_.push_back({w, x.shared_from_this(), range, M});
 }
 
 void Assignment::addMatrixSubstitutionAssignments(const VariableVector & variables,
@@ -459,7 +459,7 @@ void Assignment::addMatrixSubstitutionAssignments(const VariableVector & variabl
     // - use CUSTOM multiplications
     // - in particular use the nullspace custom multiplication for variable z
     // when appropriate.
-    matrixSubstitutionAssignments_.push_back({w, xi.get(), range, M});
+    matrixSubstitutionAssignments_.push_back({w, xi, range, M});
   }
 }
 
@@ -513,7 +513,7 @@ void Assignment::addZeroAssignment(Variable & x, MatrixFunction M, const Range &
   const MatrixRef & to = (target_.*M)(range.start, range.dim);
   auto w = CompiledAssignmentWrapper<Eigen::MatrixXd>::make<COPY, NONE, IDENTITY, ZERO>(to);
 
-  matrixAssignments_.push_back({w, &x, range, M});
+  matrixAssignments_.push_back({w, x.shared_from_this(), range, M});
 }
 
 void Assignment::addAssignments(const VariableVector & variables,
-- 
2.43.0


From ffc5c7c78dbc820650836e8fa03c58f91d411830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:03 +0000
Subject: [PATCH 23/81] fix: retargeting of bounds with a diagonal matrix

---
 src/scheme/Assignment.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 8324c6f..6b830f8 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -73,7 +73,10 @@ void Assignment::onUpdatedTarget()
   for(auto & a : matrixSubstitutionAssignments_)
     a.updateTarget(target_);
   for(auto & a : vectorAssignments_)
-    a.assignment.to((target_.*a.getTargetVector)());
+  {
+    if(a.getTargetVector) // otherwise the assignment is to an intermediate vector
+      a.assignment.to((target_.*a.getTargetVector)());
+  }
   for(auto & a : vectorSubstitutionAssignments_)
     a.assignment.to((target_.*a.getTargetVector)());
 }
-- 
2.43.0


From 01a2358b5310c285843b0a555ec70619b058f102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:14 +0000
Subject: [PATCH 24/81] fix: process weight changes once the solver data have
 been resized

---
 src/solver/LeastSquareSolver.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/solver/LeastSquareSolver.cpp b/src/solver/LeastSquareSolver.cpp
index 98004ad..6d2cb7c 100644
--- a/src/solver/LeastSquareSolver.cpp
+++ b/src/solver/LeastSquareSolver.cpp
@@ -183,7 +183,6 @@ int LeastSquareSolver::constraintSize(const constraint::abstract::LinearConstrai
 
 void LeastSquareSolver::process(const internal::SolverEvents & se)
 {
-  updateWeights(se);
   auto impactRemove = processRemovedConstraints(se);
   bool needMappingUpdate = updateVariables(se);
   auto impactAdd = previewAddedConstraints(se);
@@ -289,6 +288,8 @@ void LeastSquareSolver::process(const internal::SolverEvents & se)
       updateMapping(objectiveToAssignments_);
   }
 
+  // Changing a weight may rebuild an assignment, what requires the variables and targets to be up-to-date.
+  updateWeights(se);
   processAddedConstraints(se);
 }
 
@@ -301,9 +302,8 @@ void LeastSquareSolver::updateWeights(const internal::SolverEvents & se)
     auto [c, scalar, vector] = e;
 
     // We might have change of weights on constraints that were not added yet (because process of
-    // of weight arise before processing added constraints - if we'd process the weight after, we
-    // could have change of weight on removed constraints). Therefore we need to ignore constraints
-    // that were not found in the map.
+    // of weight arise before processing added constraints) or that were removed. Therefore we need
+    // to ignore constraints that were not found in the map.
     auto it = objectiveToAssignments_.find(c);
     if(it == objectiveToAssignments_.end())
       continue;
-- 
2.43.0


From 03fd44478786aacf6b30b610b3aa37a6a67f7481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:33 +0000
Subject: [PATCH 25/81] fix: changing the scalar weight of a task with an
 anisotropic weight

---
 src/scheme/Assignment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 6b830f8..70717d0 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -99,7 +99,7 @@ void Assignment::onUpdateWeights(bool scalar, bool vector)
     data_->scalarWeight_ = std::sqrt(requirements_->weight().value()) * scalarizationWeight_;
     data_->minusScalarWeight_ = -data_->scalarWeight_;
   }
-  if(vector)
+  if(vector || (scalar && !useDefaultAnisotropicWeight_)) // the vector weight includes the scalar one
   {
     if(!requirements_->anisotropicWeight().isDefault()
        && requirements_->anisotropicWeight().value().size() != target_.size())
-- 
2.43.0


From 616095f477bd3b95138cd4e581ab945f0a9dca9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:56 +0000
Subject: [PATCH 26/81] fix: matrices reshaped with a constant size impact the
 assignments

---
 include/tvm/solver/abstract/HierarchicalLeastSquareSolver.h | 2 +-
 include/tvm/solver/abstract/LeastSquareSolver.h             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tvm/solver/abstract/HierarchicalLeastSquareSolver.h b/include/tvm/solver/abstract/HierarchicalLeastSquareSolver.h
index 4c765ba..2d9bdb2 100644
--- a/include/tvm/solver/abstract/HierarchicalLeastSquareSolver.h
+++ b/include/tvm/solver/abstract/HierarchicalLeastSquareSolver.h
@@ -234,7 +234,7 @@ template<typename Derived>
 inline bool HierarchicalLeastSquareSolver::ImpactFromChanges::willReallocate(const Eigen::DenseBase<Derived> & M,
                                                                              int rows,
                                                                              int cols)
-{ return M.rows() * M.cols() != rows * cols; }
+{ return M.rows() != rows || M.cols() != cols; } // with the same size, the data are kept but not their layout
 
 } // namespace abstract
 
diff --git a/include/tvm/solver/abstract/LeastSquareSolver.h b/include/tvm/solver/abstract/LeastSquareSolver.h
index a153a99..36d3a7b 100644
--- a/include/tvm/solver/abstract/LeastSquareSolver.h
+++ b/include/tvm/solver/abstract/LeastSquareSolver.h
@@ -239,7 +239,7 @@ template<typename Derived>
 inline bool LeastSquareSolver::ImpactFromChanges::willReallocate(const Eigen::DenseBase<Derived> & M,
                                                                  int rows,
                                                                  int cols)
-{ return M.rows() * M.cols() != rows * cols; }
+{ return M.rows() != rows || M.cols() != cols; } // with the same size, the data are kept but not their layout
 
 } // namespace abstract
 
-- 
2.43.0


From bcdbe457b58854108701364bbf37a31096d47d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:40 +0000
Subject: [PATCH 27/81] fix: solving a problem whose tasks have all been
 removed

---
 src/scheme/HierarchicalLeastSquares.cpp | 6 +++++-
 src/scheme/WeightedLeastSquares.cpp     | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/scheme/HierarchicalLeastSquares.cpp b/src/scheme/HierarchicalLeastSquares.cpp
index e6c9db7..bb4bc66 100644
--- a/src/scheme/HierarchicalLeastSquares.cpp
+++ b/src/scheme/HierarchicalLeastSquares.cpp
@@ -214,7 +214,11 @@ void HierarchicalLeastSquares::Memory::reset(std::unique_ptr<solver::abstract::H
 }
 
 void HierarchicalLeastSquares::Memory::setVariablesToSolution_(tvm::internal::VariableCountingVector & x)
-{ x.set(solver->result()); }
+{
+  // Without variables there was nothing to solve and the result, if any, is the one of a previous problem.
+  if(x.variables().totalSize() > 0)
+    x.set(solver->result());
+}
 
 } // namespace scheme
 
diff --git a/src/scheme/WeightedLeastSquares.cpp b/src/scheme/WeightedLeastSquares.cpp
index 19c2121..f2ebe73 100644
--- a/src/scheme/WeightedLeastSquares.cpp
+++ b/src/scheme/WeightedLeastSquares.cpp
@@ -335,7 +335,11 @@ void WeightedLeastSquares::Memory::reset(std::unique_ptr<solver::abstract::Least
 }
 
 void WeightedLeastSquares::Memory::setVariablesToSolution_(tvm::internal::VariableCountingVector & x)
-{ x.set(solver->result()); }
+{
+  // Without variables there was nothing to solve and the result, if any, is the one of a previous problem.
+  if(x.variables().totalSize() > 0)
+    x.set(solver->result());
+}
 
 } // namespace scheme
 
-- 
2.43.0


From 6924f9eee5a207d18440ae7380801a6d037d62d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:24 +0000
Subject: [PATCH 28/81] fix: iteration over an empty collection of variables
 with respect to a partition

---
 include/tvm/internal/VariableVectorPartition.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/tvm/internal/VariableVectorPartition.h b/include/tvm/internal/VariableVectorPartition.h
index 1515fd4..3c91c79 100644
--- a/include/tvm/internal/VariableVectorPartition.h
+++ b/include/tvm/internal/VariableVectorPartition.h
@@ -129,7 +129,12 @@ public:
     const VariableVector & partition_;
   };
 
-  iterator begin() { return {var_, partition_, 0}; }
+  iterator begin()
+  {
+    if(var_.begin() == var_.end()) // nothing to iterate over
+      return end();
+    return {var_, partition_, 0};
+  }
   iterator end() { return {var_, partition_, partition_.numberOfVariables()}; }
 
 private:
-- 
2.43.0


From 7e38adfaa3ccfc7ce54ffdd1de3be8935326e9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:33 +0000
Subject: [PATCH 29/81] fix: refused removal of a task used by a non-simple
 substitution leaves the problem unchanged

---
 src/LinearizedControlProblem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LinearizedControlProblem.cpp b/src/LinearizedControlProblem.cpp
index 36907a5..d3ddc68 100644
--- a/src/LinearizedControlProblem.cpp
+++ b/src/LinearizedControlProblem.cpp
@@ -59,13 +59,13 @@ void LinearizedControlProblem::add(TaskWithRequirementsPtr tr)
 
 void LinearizedControlProblem::remove(const TaskWithRequirements & tr)
 {
-  ControlProblem::remove(tr);
   auto it = constraints_.find(&tr);
   if(it == constraints_.end())
   {
     return;
   }
-  removeSubstitutionFor(*it->second.constraint);
+  removeSubstitutionFor(*it->second.constraint); // might throw, so this needs to be done before changing anything
+  ControlProblem::remove(tr);
   updater_.removeInput(it->second.constraint.get());
   constraints_.erase(it);
 }
-- 
2.43.0


From 75fd19f261b005ddbe1f7899592e4ea66f792848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:33 +0000
Subject: [PATCH 30/81] fix: matrices of a substitution changed after having
 been declared constant

---
 .../abstract/SubstitutionCalculatorImpl.h     |  3 +++
 src/hint/SubstitutionCalculatorImpl.cpp       | 26 ++++++++++++-------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/include/tvm/hint/abstract/SubstitutionCalculatorImpl.h b/include/tvm/hint/abstract/SubstitutionCalculatorImpl.h
index 3ec393a..4403813 100644
--- a/include/tvm/hint/abstract/SubstitutionCalculatorImpl.h
+++ b/include/tvm/hint/abstract/SubstitutionCalculatorImpl.h
@@ -113,6 +113,9 @@ private:
     Eigen::Block<Eigen::MatrixXd> block;
   };
 
+  /** Check whether all the jacobian matrices making A are (currently) constant.*/
+  bool matricesAreConstant() const;
+
   Eigen::DenseIndex m_; // row size of A
   Eigen::DenseIndex n_; // col size of A
   Eigen::DenseIndex r_; // rank of A
diff --git a/src/hint/SubstitutionCalculatorImpl.cpp b/src/hint/SubstitutionCalculatorImpl.cpp
index d21121b..a6c1c00 100644
--- a/src/hint/SubstitutionCalculatorImpl.cpp
+++ b/src/hint/SubstitutionCalculatorImpl.cpp
@@ -23,6 +23,8 @@ namespace abstract
 
 void SubstitutionCalculatorImpl::update()
 {
+  // A matrix that was constant at construction might not be anymore.
+  constant_ = constant_ && matricesAreConstant();
   if(!constant_ || init_)
   {
     update_();
@@ -167,26 +169,30 @@ SubstitutionCalculatorImpl::SubstitutionCalculatorImpl(const std::vector<LinearC
     }
   }
 
-  // check constness
-  constant_ = true;
+  constant_ = matricesAreConstant();
+
+  N_.resize(n_, n_ - r_);
+}
+
+void SubstitutionCalculatorImpl::constant(bool c) { constant_ = c; }
+
+bool SubstitutionCalculatorImpl::constant() const { return constant_; }
+
+bool SubstitutionCalculatorImpl::matricesAreConstant() const
+{
   for(const auto & c : constraints_)
   {
     for(const auto & v : variables_.variables())
     {
-      if(c->variables().contains(*v))
+      if(c->variables().contains(*v) && !c->jacobian(*v).properties().isConstant())
       {
-        constant_ &= c->jacobian(*v).properties().isConstant();
+        return false;
       }
     }
   }
-
-  N_.resize(n_, n_ - r_);
+  return true;
 }
 
-void SubstitutionCalculatorImpl::constant(bool c) { constant_ = c; }
-
-bool SubstitutionCalculatorImpl::constant() const { return constant_; }
-
 MatrixConstRef SubstitutionCalculatorImpl::A() const
 {
   if(isSimple())
-- 
2.43.0


From f05632e673c695af2ff8115fa5b3bb7d46e81cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:49 +0000
Subject: [PATCH 31/81] fix: zero rows of a diagonal substitution with missing
 rows

---
 include/tvm/hint/internal/DiagonalCalculator.h | 1 +
 src/hint/DiagonalCalculator.cpp                | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tvm/hint/internal/DiagonalCalculator.h b/include/tvm/hint/internal/DiagonalCalculator.h
index 2212c17..ad6ca0b 100644
--- a/include/tvm/hint/internal/DiagonalCalculator.h
+++ b/include/tvm/hint/internal/DiagonalCalculator.h
@@ -54,6 +54,7 @@ public:
     std::vector<Eigen::DenseIndex> innz_;  // indices of the non-zero rows in the resulting matrix
     std::vector<Eigen::DenseIndex> cnnz_;  // complementary to nnz in [0:col-1]
     std::vector<Eigen::DenseIndex> zeros_; // indices of the zero rows
+    std::vector<Eigen::DenseIndex> izeros_; // indices of the zero rows in the resulting matrix
 
     Eigen::VectorXd inverse_;
   };
diff --git a/src/hint/DiagonalCalculator.cpp b/src/hint/DiagonalCalculator.cpp
index 88005e2..4e03662 100644
--- a/src/hint/DiagonalCalculator.cpp
+++ b/src/hint/DiagonalCalculator.cpp
@@ -223,9 +223,9 @@ void DiagonalCalculator::Impl::premultiplyByASharpAndSTranspose_(MatrixRef outA,
   }
 
   // multiplying by S^T
-  for(size_t i = 0; i < zeros_.size(); ++i)
+  for(size_t i = 0; i < izeros_.size(); ++i)
   {
-    outS.row(static_cast<DenseIndex>(i)) = in.row(zeros_[i]);
+    outS.row(static_cast<DenseIndex>(i)) = in.row(izeros_[i]);
   }
 }
 
@@ -275,6 +275,7 @@ void DiagonalCalculator::Impl::build()
     }
     else if(appearZero[i])
     {
+      izeros_.push_back(k);
       ++k;
     }
   }
-- 
2.43.0


From e1e6bb9a91e266f09d94042f09aa5580fedebb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:25 +0000
Subject: [PATCH 32/81] fix: substitutions remain the same when other tasks are
 added or removed

---
 include/tvm/hint/internal/Substitutions.h | 3 +++
 src/hint/Substitutions.cpp                | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/include/tvm/hint/internal/Substitutions.h b/include/tvm/hint/internal/Substitutions.h
index d5d96a5..71d38f7 100644
--- a/include/tvm/hint/internal/Substitutions.h
+++ b/include/tvm/hint/internal/Substitutions.h
@@ -72,6 +72,9 @@ public:
   Substitution const * getSubstitutionFor(const constraint::abstract::LinearConstraint & cstr);
 
 private:
+  /** True if the data computed by finalize() correspond to the current substitutions.*/
+  bool finalized_ = true;
+
   /** The substitutions, as added to the objects*/
   std::vector<Substitution> substitutions_;
 
diff --git a/src/hint/Substitutions.cpp b/src/hint/Substitutions.cpp
index d1f6a76..5242e39 100644
--- a/src/hint/Substitutions.cpp
+++ b/src/hint/Substitutions.cpp
@@ -29,6 +29,7 @@ void Substitutions::add(const Substitution & s)
   auto i = dependencies_.addNode();
   assert(i == substitutions_.size());
   substitutions_.push_back(s);
+  finalized_ = false;
 
   for(size_t j = 0; j < substitutions_.size(); ++j)
   {
@@ -51,6 +52,7 @@ void Substitutions::remove(const Substitution & s)
 
   dependencies_.removeNode(it - substitutions_.begin());
   substitutions_.erase(it);
+  finalized_ = false;
 }
 
 const std::vector<Substitution> & Substitutions::substitutions() const { return substitutions_; }
@@ -70,6 +72,11 @@ bool Substitutions::uses(LinearConstraintPtr c) const
 
 void Substitutions::finalize()
 {
+  // The functions, variables and constraints might already be in use: they need to remain the same as long as the
+  // substitutions do not change.
+  if(finalized_)
+    return;
+
   // Detect interdependent substitutions (this corresponds to strongly connected
   // components of the dependency graph).
   tvm::graph::internal::DependencyGraph g;
@@ -90,6 +97,7 @@ void Substitutions::finalize()
   // Retrieve all the variables, functions and constraints
   variables_.clear();
   varSubstitutions_.clear();
+  additionalVariables_.clear();
   additionalConstraints_.clear();
   otherVariables_.clear();
   for(const auto & u : units_)
@@ -123,6 +131,7 @@ void Substitutions::finalize()
       }
     }
   }
+  finalized_ = true;
 }
 
 void Substitutions::updateSubstitutions()
-- 
2.43.0


From 9a595e654493fc3cfd8889d46ea319d6e23a420d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:20 +0000
Subject: [PATCH 33/81] fix: variables of the equations left by a substitution
 are part of the problem

---
 src/scheme/HierarchicalLeastSquares.cpp | 1 +
 src/scheme/WeightedLeastSquares.cpp     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/scheme/HierarchicalLeastSquares.cpp b/src/scheme/HierarchicalLeastSquares.cpp
index bb4bc66..4f5a287 100644
--- a/src/scheme/HierarchicalLeastSquares.cpp
+++ b/src/scheme/HierarchicalLeastSquares.cpp
@@ -155,6 +155,7 @@ void HierarchicalLeastSquares::processProblem(const LinearizedControlProblem & p
   }
   for(const auto & c : subs.additionalConstraints())
   {
+    memory->addVariable(c->variables());
     nEq[0] += c->size();
     constr.push_back(
         {c, std::make_shared<requirements::SolvingRequirementsWithCallbacks>(requirements::PriorityLevel(0)), false});
diff --git a/src/scheme/WeightedLeastSquares.cpp b/src/scheme/WeightedLeastSquares.cpp
index f2ebe73..0ab1542 100644
--- a/src/scheme/WeightedLeastSquares.cpp
+++ b/src/scheme/WeightedLeastSquares.cpp
@@ -171,6 +171,7 @@ void WeightedLeastSquares::processProblem(const LinearizedControlProblem & probl
   // They are added at level 0
   for(const auto & c : subs.additionalConstraints())
   {
+    memory->addVariable(c->variables());
     nEq += c->size();
     constr.push_back(
         {c, std::make_shared<requirements::SolvingRequirementsWithCallbacks>(requirements::PriorityLevel(0)), false});
-- 
2.43.0


From 54043bc914c0cdd7ac2f1a2a72db03c50afabca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:20 +0000
Subject: [PATCH 34/81] fix: substitution of several parts of a same variable

---
 src/hint/Substitutions.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/hint/Substitutions.cpp b/src/hint/Substitutions.cpp
index 5242e39..076a8ff 100644
--- a/src/hint/Substitutions.cpp
+++ b/src/hint/Substitutions.cpp
@@ -183,8 +183,15 @@ VariableVector Substitutions::substitute(const VariablePtr & x) const
     {
       tvm::internal::VariableCountingVector vcv;
       vcv.add(x);
-      vcv.remove(*it);
-      vcv.add(f->variables());
+      // several parts of x might be substituted
+      for(size_t i = 0; i < variables_.size(); ++i)
+      {
+        if(x->contains(*variables_[i]))
+        {
+          vcv.remove(*variables_[i]);
+          vcv.add(varSubstitutions_[i]->variables());
+        }
+      }
       return vcv.variables();
     }
     else
-- 
2.43.0


From a0199d261adbd163fbe81842741352ea7345f38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:28 +0000
Subject: [PATCH 35/81] fix: substitutions into intersecting variables

---
 src/scheme/Assignment.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 70717d0..f6d2a91 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -559,7 +559,8 @@ void Assignment::addAssignments(const VariableVector & variables,
 
   // For all variables that are substituted into but are not part of the source variables,
   // we set the corresponding matrix block to zero.
-  VariableVector substitutedInto;
+  // (different substitutions can be made into intersecting variables)
+  tvm::internal::VariableCountingVector substitutedInto(true);
   for(const auto & x : xcp)
   {
     int i = xs.indexOf(*x);
@@ -568,7 +569,7 @@ void Assignment::addAssignments(const VariableVector & variables,
       substitutedInto.add(variableSubstitutions_[static_cast<int>(i)]->variables());
     }
   }
-  for(const auto & x : substitutedInto)
+  for(const auto & x : substitutedInto.variables())
   {
     if(!xc.contains(*x))
     {
-- 
2.43.0


From ac68ccc8afee1f6e2888598173d920b9c6e865a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:44 +0000
Subject: [PATCH 36/81] fix: removal of a substitution given by the object it
 was added with

---
 src/hint/Substitutions.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hint/Substitutions.cpp b/src/hint/Substitutions.cpp
index 076a8ff..599105f 100644
--- a/src/hint/Substitutions.cpp
+++ b/src/hint/Substitutions.cpp
@@ -46,7 +46,9 @@ void Substitutions::add(const Substitution & s)
 
 void Substitutions::remove(const Substitution & s)
 {
-  auto it = std::find_if(substitutions_.begin(), substitutions_.end(), [&](const auto & e) { return &e == &s; });
+  // substitutions_ contains copies of what was added, which share the calculator of the original.
+  auto it = std::find_if(substitutions_.begin(), substitutions_.end(),
+                         [&](const auto & e) { return e.calculator() == s.calculator(); });
   if(it == substitutions_.end())
     return;
 
-- 
2.43.0


From 39ef14b859119dff0cc3c6541ce8f85085821cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:26 +0000
Subject: [PATCH 37/81] fix: canBeUsedAsBound reads a destroyed temporary

---
 src/scheme/helpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scheme/helpers.cpp b/src/scheme/helpers.cpp
index 922e813..1fb231b 100644
--- a/src/scheme/helpers.cpp
+++ b/src/scheme/helpers.cpp
@@ -130,7 +130,7 @@ bool canBeUsedAsBound(const ConstraintPtr & c,
         assert(false);
     }
 
-    const auto & p = c->jacobian(*c->variables()[0]).properties();
+    const auto p = c->jacobian(*c->variables()[0]).properties(); // copy: the jacobian is returned by value
     auto it = std::find(x.begin(), x.end(), c->variables()[0]);
     if(it == x.end())
     {
-- 
2.43.0


From 67a7278e744ed687625717cb0e093d054a2e32e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:57 +0000
Subject: [PATCH 38/81] fix: Assignment of bounds to single-sided bound targets

---
 src/scheme/Assignment.cpp       | 18 +++++-------------
 src/scheme/AssignmentTarget.cpp |  2 +-
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index f6d2a91..042b03e 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -606,12 +606,7 @@ void Assignment::addBound(const VariablePtr & variable, RHSFunction f, bool firs
 {
   auto J = source_->jacobian(*variable);
   bool gt = target_.constraintType() == Type::GREATER_THAN;
-  VectorFunction v;
-
-  if(gt)
-    v = &AssignmentTarget::l;
-  else
-    v = &AssignmentTarget::u;
+  VectorFunction v = &AssignmentTarget::b;
 
   if(substitutedVariables_.contains(*variable))
   {
@@ -630,13 +625,10 @@ void Assignment::addBound(const VariablePtr & variable, RHSFunction f, bool firs
     else if(J.properties().isMinusIdentity())
     {
       assert(target_.constraintType() != source_->type());
-      if(J.properties().isIdentity())
-      {
-        if(first)
-          addVectorAssignment(f, v, true);
-        else
-          gt ? addVectorAssignment<MAX>(f, v, true) : addVectorAssignment<MIN>(f, v, true);
-      }
+      if(first)
+        addVectorAssignment(f, v, true);
+      else
+        gt ? addVectorAssignment<MAX>(f, v, true) : addVectorAssignment<MIN>(f, v, true);
     }
     else
     {
diff --git a/src/scheme/AssignmentTarget.cpp b/src/scheme/AssignmentTarget.cpp
index f2b8e9b..17a18e7 100644
--- a/src/scheme/AssignmentTarget.cpp
+++ b/src/scheme/AssignmentTarget.cpp
@@ -39,7 +39,7 @@ AssignmentTarget::AssignmentTarget(RangePtr range, VectorRef l, VectorRef u)
 {}
 
 AssignmentTarget::AssignmentTarget(RangePtr range, VectorRef lu, constraint::Type ct)
-: targetType_(TargetType::Linear), cstrType_(ct), range_(range), b_(lu)
+: targetType_(TargetType::Linear), cstrType_(ct), constraintRhs_(constraint::RHS::AS_GIVEN), range_(range), b_(lu)
 {
   if(!(ct == constraint::Type::GREATER_THAN || ct == constraint::Type::LOWER_THAN))
   {
-- 
2.43.0


From 52c17699e41a2e51f6aa41ceb5db4610cccefd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:57 +0000
Subject: [PATCH 39/81] fix: Infinite bound assigned with the wrong sign for
 RHS::OPPOSITE targets

---
 include/tvm/scheme/internal/Assignment.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/tvm/scheme/internal/Assignment.hpp b/include/tvm/scheme/internal/Assignment.hpp
index d231417..26f3cf2 100644
--- a/include/tvm/scheme/internal/Assignment.hpp
+++ b/include/tvm/scheme/internal/Assignment.hpp
@@ -242,16 +242,20 @@ inline void Assignment::addVectorAssignment(const From & f,
 }
 
 template<AssignType A, typename To>
-inline void Assignment::addVectorAssignment(double d, To v, bool flip, bool, bool)
+inline void Assignment::addVectorAssignment(double d, To v, bool flip, bool, bool useTRHS)
 {
+  if(target_.constraintRhs() == constraint::RHS::OPPOSITE && useTRHS)
+    flip = !flip;
   const VectorRef & to = retrieveTarget(target_, v);
   auto w = createAssignment<Eigen::VectorXd, A>(d, to, flip);
   vectorAssignments_.emplace_back(w, false, nullptr, nullifyIfVecRef(v));
 }
 
 template<AssignType A, typename To>
-inline void Assignment::addVectorAssignment(double d, To v, const MatrixConstRef & D, bool flip, bool, bool)
+inline void Assignment::addVectorAssignment(double d, To v, const MatrixConstRef & D, bool flip, bool, bool useTRHS)
 {
+  if(target_.constraintRhs() == constraint::RHS::OPPOSITE && useTRHS)
+    flip = !flip;
   const VectorRef & to = retrieveTarget(target_, v);
   auto w = createMultiplicationAssignment<Eigen::VectorXd, A>(d, to, D, flip);
   vectorAssignments_.emplace_back(w, false, nullptr, nullifyIfVecRef(v));
-- 
2.43.0


From 908395ab7679efe1ce4a943380d5a59f9c9f6275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:31 +0000
Subject: [PATCH 40/81] fix: Size of the anisotropic weight checked against the
 constraint

---
 src/scheme/Assignment.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 042b03e..50aa039 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -102,7 +102,7 @@ void Assignment::onUpdateWeights(bool scalar, bool vector)
   if(vector || (scalar && !useDefaultAnisotropicWeight_)) // the vector weight includes the scalar one
   {
     if(!requirements_->anisotropicWeight().isDefault()
-       && requirements_->anisotropicWeight().value().size() != target_.size())
+       && requirements_->anisotropicWeight().value().size() != source_->size())
       throw std::runtime_error("[Assignment::onUpdateWeights] Anisotropic weight has not the correct size.");
 
     if(useDefaultAnisotropicWeight_ && !requirements_->anisotropicWeight().isDefault()
@@ -397,6 +397,8 @@ void Assignment::processRequirements()
         }
         else
         {
+          if(requirements_->anisotropicWeight().value().size() != source_->size())
+            throw std::runtime_error("[Assignment::processRequirements] Anisotropic weight has not the correct size.");
           useDefaultAnisotropicWeight_ = false;
           data_->anisotropicWeight_ = requirements_->anisotropicWeight().value().cwiseSqrt();
           data_->anisotropicWeight_ *= data_->scalarWeight_;
-- 
2.43.0


From cc7e4b9e3cea453e9c74044875878adf1424c717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:25 +0000
Subject: [PATCH 41/81] fix: HierarchicalLeastSquares rebuilds its data when
 the problem changes

---
 include/tvm/scheme/HierarchicalLeastSquares.h |  3 ++
 src/scheme/HierarchicalLeastSquares.cpp       | 49 +++----------------
 2 files changed, 10 insertions(+), 42 deletions(-)

diff --git a/include/tvm/scheme/HierarchicalLeastSquares.h b/include/tvm/scheme/HierarchicalLeastSquares.h
index dace5ea..9975bbb 100644
--- a/include/tvm/scheme/HierarchicalLeastSquares.h
+++ b/include/tvm/scheme/HierarchicalLeastSquares.h
@@ -33,6 +33,9 @@ private:
 
     std::unique_ptr<solver::abstract::HierarchicalLeastSquareSolver> solver;
 
+    /** True if the data need to be rebuilt from the problem (e.g. because a previous update was interrupted).*/
+    bool rebuild = false;
+
   protected:
     void setVariablesToSolution_(tvm::internal::VariableCountingVector & x) override;
   };
diff --git a/src/scheme/HierarchicalLeastSquares.cpp b/src/scheme/HierarchicalLeastSquares.cpp
index 4f5a287..1eb3434 100644
--- a/src/scheme/HierarchicalLeastSquares.cpp
+++ b/src/scheme/HierarchicalLeastSquares.cpp
@@ -40,53 +40,18 @@ bool HierarchicalLeastSquares::solve_(const LinearizedControlProblem & problem,
 void HierarchicalLeastSquares::updateComputationData_(const LinearizedControlProblem & problem,
                                                       internal::ProblemComputationData * data) const
 {
-  using EventType = ProblemDefinitionEvent::Type;
-  solver::internal::SolverEvents se;
-
-  if(!data->hasEvents())
-  {
-    return;
-  }
-
   Memory * memory = static_cast<Memory *>(data);
 
-  // If some events require to rebuild the data, we skip all other events.
-  for(const auto & e : memory->events())
-  {
-    if(e.type() == EventType::SubstitutionAddition || e.type() == EventType::SubstitutionRemoval)
-    {
-      resetComputationData(problem, memory);
-      return;
-    }
-  }
-  while(memory->hasEvents())
+  if(!data->hasEvents() && !memory->rebuild)
   {
-    auto e = memory->popEvent();
-    switch(e.type())
-    {
-      case EventType::WeightChange: {
-        const auto & c = problem.constraintWithRequirements(e.typedEmitter<EventType::WeightChange>());
-        se.addScalarWeightEvent(c.constraint.get());
-      }
-      break;
-      case EventType::AnisotropicWeightChange: {
-        const auto & c = problem.constraintWithRequirements(e.typedEmitter<EventType::AnisotropicWeightChange>());
-        se.addVectorWeightEvent(c.constraint.get());
-      }
-      break;
-      case EventType::TaskAddition:
-        addTask(problem, memory, e.typedEmitter<EventType::TaskAddition>(), se);
-        break;
-      case EventType::TaskRemoval:
-        removeTask(problem, memory, e.typedEmitter<EventType::TaskRemoval>(), se);
-        break;
-      default:
-        throw std::runtime_error("[HierarchicalLeastSquares::updateComputationData_] Unimplemented event handling.");
-    }
+    return;
   }
 
-  memory->variables(); // update variable vector if needed
-  memory->solver->process(se);
+  // The solvers can't process events incrementally for now, so that the data are rebuilt for any event.
+  // If the rebuild is interrupted, it needs to be done again.
+  memory->rebuild = true;
+  resetComputationData(problem, memory);
+  memory->rebuild = false;
 }
 
 std::unique_ptr<HierarchicalLeastSquares::Memory> HierarchicalLeastSquares::createComputationData_(
-- 
2.43.0


From 8735385fb61db8964262741ba5a146592ea0afa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:01 +0000
Subject: [PATCH 42/81] fix: LinearizedControlProblem unchanged when the
 addition of a task throws

---
 src/LinearizedControlProblem.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/LinearizedControlProblem.cpp b/src/LinearizedControlProblem.cpp
index d3ddc68..a00fa90 100644
--- a/src/LinearizedControlProblem.cpp
+++ b/src/LinearizedControlProblem.cpp
@@ -25,8 +25,6 @@ TaskWithRequirementsPtr LinearizedControlProblem::add(const Task & task, const r
 
 void LinearizedControlProblem::add(TaskWithRequirementsPtr tr)
 {
-  ControlProblem::add(tr);
-
   // FIXME A lot of work can be done here based on the properties of the task's jacobian.
   // In particular, we could detect bounds, pairs of tasks forming a double-sided constraints...
   LinearConstraintWithRequirements lcr;
@@ -35,6 +33,9 @@ void LinearizedControlProblem::add(TaskWithRequirementsPtr tr)
   // lcr.requirements points to and doesn't outlive tr->requirements.
   lcr.requirements = std::shared_ptr<requirements::SolvingRequirementsWithCallbacks>(tr, &tr->requirements);
   lcr.bound = scheme::internal::isBound(lcr.constraint);
+
+  // The creation of the constraint might throw, so that the task is only added once it is done.
+  ControlProblem::add(tr);
   constraints_[tr.get()] = lcr;
 
   using CstrOutput = internal::FirstOrderProvider::Output;
-- 
2.43.0


From 2dc0f9155b2b55735d244f2cb2afec13c0119979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:52 +0000
Subject: [PATCH 43/81] fix: changes of priority level and violation evaluation
 processed by the schemes

---
 include/tvm/scheme/WeightedLeastSquares.h            |  4 ++++
 include/tvm/scheme/internal/ProblemDefinitionEvent.h |  2 ++
 src/ControlProblem.cpp                               |  6 ++++++
 src/scheme/WeightedLeastSquares.cpp                  | 10 +++++++++-
 4 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/tvm/scheme/WeightedLeastSquares.h b/include/tvm/scheme/WeightedLeastSquares.h
index 9a9a614..714deec 100644
--- a/include/tvm/scheme/WeightedLeastSquares.h
+++ b/include/tvm/scheme/WeightedLeastSquares.h
@@ -8,6 +8,8 @@
 #include <tvm/scheme/internal/LinearizedProblemComputationData.h>
 #include <tvm/solver/abstract/LeastSquareSolver.h>
 
+#include <map>
+
 namespace tvm
 {
 
@@ -40,6 +42,8 @@ private:
     std::unique_ptr<solver::abstract::LeastSquareSolver> solver;
 
     int maxp = 0;
+    /** Priority levels with which the tasks were processed. They might have changed since.*/
+    std::map<TaskWithRequirements const *, int> priorities;
     /** True if the data need to be rebuilt from the problem (e.g. because a previous update was interrupted).*/
     bool rebuild = false;
 
diff --git a/include/tvm/scheme/internal/ProblemDefinitionEvent.h b/include/tvm/scheme/internal/ProblemDefinitionEvent.h
index 3ec725a..76cfce1 100644
--- a/include/tvm/scheme/internal/ProblemDefinitionEvent.h
+++ b/include/tvm/scheme/internal/ProblemDefinitionEvent.h
@@ -22,6 +22,8 @@ public:
   {
     WeightChange,
     AnisotropicWeightChange,
+    PriorityLevelChange,
+    ViolationEvaluationChange,
     TaskAddition,
     TaskRemoval,
     SubstitutionAddition,
diff --git a/src/ControlProblem.cpp b/src/ControlProblem.cpp
index e263e3f..fc2e10c 100644
--- a/src/ControlProblem.cpp
+++ b/src/ControlProblem.cpp
@@ -82,6 +82,12 @@ void ControlProblem::addCallBackToTask(TaskWithRequirementsPtr tr)
   auto l2 = [this, t]() { this->notify({EventType::AnisotropicWeightChange, *t}); };
   tokens.emplace_back(tr->requirements.anisotropicWeight().registerCallback(l2));
 
+  auto l3 = [this, t]() { this->notify({EventType::PriorityLevelChange, *t}); };
+  tokens.emplace_back(tr->requirements.priorityLevel().registerCallback(l3));
+
+  auto l4 = [this, t]() { this->notify({EventType::ViolationEvaluationChange, *t}); };
+  tokens.emplace_back(tr->requirements.violationEvaluation().registerCallback(l4));
+
   callbackTokens_[t] = std::move(tokens);
 }
 
diff --git a/src/scheme/WeightedLeastSquares.cpp b/src/scheme/WeightedLeastSquares.cpp
index 0ab1542..dae2c09 100644
--- a/src/scheme/WeightedLeastSquares.cpp
+++ b/src/scheme/WeightedLeastSquares.cpp
@@ -52,6 +52,9 @@ void WeightedLeastSquares::updateComputationData_(const LinearizedControlProblem
     {
       if(e.type() == EventType::SubstitutionAddition || e.type() == EventType::SubstitutionRemoval)
         rebuild = true;
+      // The role of the constraint in the problem might be completely different.
+      if(e.type() == EventType::PriorityLevelChange || e.type() == EventType::ViolationEvaluationChange)
+        rebuild = true;
       // The damping depends on the variables and on the presence of objectives.
       if(options_.autoDamping().value()
          && (e.type() == EventType::TaskAddition || e.type() == EventType::TaskRemoval))
@@ -127,6 +130,9 @@ void WeightedLeastSquares::processProblem(const LinearizedControlProblem & probl
   const auto & constraints = problem.constraints();
   const auto & subs = problem.substitutions();
   memory->addConstraints(problem.constraintMap());
+  memory->priorities.clear();
+  for(const auto & c : problem.constraintMap())
+    memory->priorities[c.first] = c.second.requirements->priorityLevel().value();
 
   std::vector<LinearConstraintWithRequirements> constr;
   std::vector<LinearConstraintWithRequirements> bounds;
@@ -258,6 +264,7 @@ void WeightedLeastSquares::addTask(const LinearizedControlProblem & problem,
   }
 
   int p = task.requirements.priorityLevel().value();
+  memory->priorities[&task] = p;
   if((p == 0) && canBeUsedAsBound(c.constraint, subs, constraint::Type::DOUBLE_SIDED))
   {
     se.addBound(c.constraint);
@@ -305,7 +312,8 @@ void WeightedLeastSquares::removeTask(const LinearizedControlProblem & problem,
     }
   }
 
-  int p = task.requirements.priorityLevel().value();
+  int p = memory->priorities.at(&task);
+  memory->priorities.erase(&task);
   if((p == 0) && canBeUsedAsBound(c.constraint, subs, constraint::Type::DOUBLE_SIDED))
   {
     se.removeBound(c.constraint);
-- 
2.43.0


From 446415f83afcb1e4119644ecea90bb0a99e91848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:53 +0000
Subject: [PATCH 44/81] fix: big number of a scheme used when its data are
 updated

---
 src/scheme/WeightedLeastSquares.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scheme/WeightedLeastSquares.cpp b/src/scheme/WeightedLeastSquares.cpp
index dae2c09..b4ed3b7 100644
--- a/src/scheme/WeightedLeastSquares.cpp
+++ b/src/scheme/WeightedLeastSquares.cpp
@@ -103,6 +103,7 @@ void WeightedLeastSquares::updateComputationData_(const LinearizedControlProblem
     }
 
     memory->variables(); // update variable vector if needed
+    Assignment::big_ = big_number_; // might have been changed by another scheme
     memory->solver->process(se);
     memory->rebuild = false;
   }
-- 
2.43.0


From e486c01271bc260a2c844b8f544ce7c82af691ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:05 +0000
Subject: [PATCH 45/81] fix: permission to allocate restored after the building
 of the data, including on exceptions

---
 include/tvm/scheme/abstract/ResolutionScheme.h |  6 ++----
 include/tvm/utils/memoryChecks.h               | 10 ++++++++++
 src/hint/SubstitutionUnit.cpp                  |  3 +--
 src/hint/Substitutions.cpp                     |  3 +++
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/tvm/scheme/abstract/ResolutionScheme.h b/include/tvm/scheme/abstract/ResolutionScheme.h
index ea8f446..8302ea1 100644
--- a/include/tvm/scheme/abstract/ResolutionScheme.h
+++ b/include/tvm/scheme/abstract/ResolutionScheme.h
@@ -85,9 +85,8 @@ template<typename Problem>
 inline std::unique_ptr<internal::ProblemComputationData> ResolutionScheme<Derived>::createComputationData(
     const Problem & problem) const
 {
-  tvm::utils::override_is_malloc_allowed(true);
+  tvm::utils::ScopedMallocOverride allowMalloc(true);
   return derived().createComputationData_(problem);
-  tvm::utils::restore_is_malloc_allowed();
 }
 
 template<typename Derived>
@@ -95,9 +94,8 @@ template<typename Problem>
 void ResolutionScheme<Derived>::updateComputationData(const Problem & problem,
                                                       internal::ProblemComputationData * data) const
 {
-  tvm::utils::override_is_malloc_allowed(true);
+  tvm::utils::ScopedMallocOverride allowMalloc(true);
   derived().updateComputationData_(problem, data);
-  tvm::utils::restore_is_malloc_allowed();
 }
 
 template<typename Derived>
diff --git a/include/tvm/utils/memoryChecks.h b/include/tvm/utils/memoryChecks.h
index c09a117..5a16abb 100644
--- a/include/tvm/utils/memoryChecks.h
+++ b/include/tvm/utils/memoryChecks.h
@@ -82,6 +82,16 @@ inline void restore_is_malloc_allowed()
 }
 #endif
 
+/** Call override_is_malloc_allowed() at construction and restore_is_malloc_allowed() at destruction. */
+class ScopedMallocOverride
+{
+public:
+  explicit ScopedMallocOverride(bool allow) { override_is_malloc_allowed(allow); }
+  ~ScopedMallocOverride() { restore_is_malloc_allowed(); }
+  ScopedMallocOverride(const ScopedMallocOverride &) = delete;
+  ScopedMallocOverride & operator=(const ScopedMallocOverride &) = delete;
+};
+
 #define TVM_TEMPORARY_ALLOW_EIGEN_MALLOC(x)     \
   tvm::utils::override_is_malloc_allowed(true); \
   x;                                            \
diff --git a/src/hint/SubstitutionUnit.cpp b/src/hint/SubstitutionUnit.cpp
index ed52975..793d6d5 100644
--- a/src/hint/SubstitutionUnit.cpp
+++ b/src/hint/SubstitutionUnit.cpp
@@ -81,13 +81,12 @@ SubstitutionUnit::SubstitutionUnit(const std::vector<Substitution> & substitutio
                                    const std::vector<std::vector<size_t>> & groups,
                                    const std::vector<size_t> order)
 {
+  tvm::utils::ScopedMallocOverride allowMalloc(true);
   extractSubstitutions(substitutionPool, groups, order);
   scanSubstitutions();
   computeDependencies();
-  tvm::utils::override_is_malloc_allowed(true);
   initializeMatrices();
   createFunctions();
-  tvm::utils::restore_is_malloc_allowed();
 }
 
 void SubstitutionUnit::update()
diff --git a/src/hint/Substitutions.cpp b/src/hint/Substitutions.cpp
index 599105f..b995282 100644
--- a/src/hint/Substitutions.cpp
+++ b/src/hint/Substitutions.cpp
@@ -3,6 +3,7 @@
 #include <tvm/Variable.h>
 #include <tvm/constraint/abstract/LinearConstraint.h>
 #include <tvm/hint/internal/Substitutions.h>
+#include <tvm/utils/memoryChecks.h>
 
 #include <algorithm>
 
@@ -79,6 +80,8 @@ void Substitutions::finalize()
   if(finalized_)
     return;
 
+  tvm::utils::ScopedMallocOverride allowMalloc(true);
+
   // Detect interdependent substitutions (this corresponds to strongly connected
   // components of the dependency graph).
   tvm::graph::internal::DependencyGraph g;
-- 
2.43.0


From d081eafb811e81445114dd172a0d9923ffcdb0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:05 +0000
Subject: [PATCH 46/81] fix: no allocation when updating linear functions

---
 src/function/LinearFunction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/function/LinearFunction.cpp b/src/function/LinearFunction.cpp
index c302b89..99a53d7 100644
--- a/src/function/LinearFunction.cpp
+++ b/src/function/LinearFunction.cpp
@@ -39,14 +39,14 @@ void LinearFunction::updateValue_()
 {
   value_ = b_;
   for(auto v : variables())
-    value_ += jacobian(*v) * v->value();
+    value_.noalias() += jacobian(*v) * v->value();
 }
 
 void LinearFunction::updateVelocity_()
 {
   velocity_.setZero();
   for(auto v : variables())
-    velocity_ += jacobian(*v) * dot(v)->value();
+    velocity_.noalias() += jacobian(*v) * dot(v)->value();
 }
 
 void LinearFunction::setDerivativesToZero()
-- 
2.43.0


From c559f832794257c62d8767303aa4fe34b2054921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:27 +0000
Subject: [PATCH 47/81] fix: solving requirements check and notify all their
 changes

---
 include/tvm/requirements/AnisotropicWeight.h      |  8 ++++++--
 include/tvm/requirements/PriorityLevel.h          |  8 ++++++--
 include/tvm/requirements/Weight.h                 |  8 ++++++--
 .../abstract/SingleSolvingRequirement.h           | 15 ++++++++++++++-
 src/scheme/Assignment.cpp                         |  5 ++++-
 5 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/include/tvm/requirements/AnisotropicWeight.h b/include/tvm/requirements/AnisotropicWeight.h
index 0665865..00115f5 100644
--- a/include/tvm/requirements/AnisotropicWeight.h
+++ b/include/tvm/requirements/AnisotropicWeight.h
@@ -44,12 +44,16 @@ public:
   /** Constructor for a given vector of weights \p w*/
   AnisotropicWeightBase(const Eigen::VectorXd & w)
   : abstract::SingleSolvingRequirement<Eigen::VectorXd, Lightweight>(w, false)
+  { check(w); }
+
+  TVM_DEFINE_LW_NON_LW_CONVERSION_OPERATORS(AnisotropicWeightBase, Eigen::VectorXd, Lightweight)
+
+protected:
+  static void check(const Eigen::VectorXd & w)
   {
     if((w.array() < 0).any())
       throw std::runtime_error("weights must be non-negative.");
   }
-
-  TVM_DEFINE_LW_NON_LW_CONVERSION_OPERATORS(AnisotropicWeightBase, Eigen::VectorXd, Lightweight)
 };
 
 using AnisotropicWeight = AnisotropicWeightBase<true>;
diff --git a/include/tvm/requirements/PriorityLevel.h b/include/tvm/requirements/PriorityLevel.h
index 77abe17..cf887cd 100644
--- a/include/tvm/requirements/PriorityLevel.h
+++ b/include/tvm/requirements/PriorityLevel.h
@@ -22,12 +22,16 @@ public:
 
   /** Priority level p>=0*/
   PriorityLevelBase(int p) : abstract::SingleSolvingRequirement<int, Lightweight>(p, false)
+  { check(p); }
+
+  TVM_DEFINE_LW_NON_LW_CONVERSION_OPERATORS(PriorityLevelBase, int, Lightweight)
+
+protected:
+  static void check(const int & p)
   {
     if(p < 0)
       throw std::runtime_error("Priority level must be non-negative.");
   }
-
-  TVM_DEFINE_LW_NON_LW_CONVERSION_OPERATORS(PriorityLevelBase, int, Lightweight)
 };
 
 using PriorityLevel = PriorityLevelBase<true>;
diff --git a/include/tvm/requirements/Weight.h b/include/tvm/requirements/Weight.h
index b8b33d2..9f0dccf 100644
--- a/include/tvm/requirements/Weight.h
+++ b/include/tvm/requirements/Weight.h
@@ -27,12 +27,16 @@ public:
   WeightBase() : abstract::SingleSolvingRequirement<double, Lightweight>(1.0, true) {}
 
   WeightBase(double alpha) : abstract::SingleSolvingRequirement<double, Lightweight>(alpha, false)
+  { check(alpha); }
+
+  TVM_DEFINE_LW_NON_LW_CONVERSION_OPERATORS(WeightBase, double, Lightweight)
+
+protected:
+  static void check(const double & alpha)
   {
     if(alpha < 0)
       throw std::runtime_error("weight must be non negative.");
   }
-
-  TVM_DEFINE_LW_NON_LW_CONVERSION_OPERATORS(WeightBase, double, Lightweight)
 };
 
 using Weight = WeightBase<true>;
diff --git a/include/tvm/requirements/abstract/SingleSolvingRequirement.h b/include/tvm/requirements/abstract/SingleSolvingRequirement.h
index 63ce1c2..71cf959 100644
--- a/include/tvm/requirements/abstract/SingleSolvingRequirement.h
+++ b/include/tvm/requirements/abstract/SingleSolvingRequirement.h
@@ -45,6 +45,9 @@ public:
   bool isDefault() const { return default_; }
 
 protected:
+  /** Throw if \p val is not a valid value. To be redefined by derived classes for which some values are not valid.*/
+  static void check(const T & /*val*/) {}
+
   SingleSolvingRequirement(const T & val, bool isDefault) : default_(isDefault), value_(val) {}
 
   SingleSolvingRequirement(const SingleSolvingRequirement<T, !Lightweight> & other)
@@ -55,6 +58,10 @@ protected:
   {
     value_ = other.value();
     default_ = other.isDefault();
+    if constexpr(!Lightweight)
+    {
+      Base::run();
+    }
     return *this;
   }
 
@@ -85,6 +92,12 @@ protected:
   }                                                                                           \
   className & operator=(const T & val)                                                        \
   {                                                                                           \
-    abstract::SingleSolvingRequirement<T, L>::operator=(val);                                 \
+    value(val);                                                                               \
     return *this;                                                                             \
+  }                                                                                           \
+  using abstract::SingleSolvingRequirement<T, L>::value;                                      \
+  void value(const T & val)                                                                   \
+  {                                                                                           \
+    className::check(val);                                                                    \
+    abstract::SingleSolvingRequirement<T, L>::value(val);                                     \
   }
diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 50aa039..ff7bb2d 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -109,7 +109,10 @@ void Assignment::onUpdateWeights(bool scalar, bool vector)
        && !requirements_->anisotropicWeight().value().isConstant(1))
       throw std::runtime_error("[Assignment::onUpdateWeights] Can't update a default weight.");
 
-    data_->anisotropicWeight_ = requirements_->anisotropicWeight().value().cwiseSqrt();
+    if(requirements_->anisotropicWeight().isDefault())
+      data_->anisotropicWeight_.setOnes(source_->size());
+    else
+      data_->anisotropicWeight_ = requirements_->anisotropicWeight().value().cwiseSqrt();
     data_->anisotropicWeight_ *= data_->scalarWeight_;
     data_->minusAnisotropicWeight_ = -data_->anisotropicWeight_;
   }
-- 
2.43.0


From 00649302aa2afec376310f37f0435e1a5b8b6d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:27 +0000
Subject: [PATCH 48/81] fix: callbacks can register, unregister and run
 callbacks

---
 include/tvm/internal/CallbackManager.h | 51 +++++++++++++++++++-------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/include/tvm/internal/CallbackManager.h b/include/tvm/internal/CallbackManager.h
index 7905652..f267f57 100644
--- a/include/tvm/internal/CallbackManager.h
+++ b/include/tvm/internal/CallbackManager.h
@@ -5,8 +5,8 @@
 #include <tvm/internal/PairElementToken.h>
 
 #include <algorithm>
+#include <deque>
 #include <functional>
-#include <vector>
 
 namespace tvm::internal
 {
@@ -36,11 +36,33 @@ public:
 
   /** Run all callbacks. Remove the ones for which the token obtained at the
    * registration was destroyed.
+   *
+   * A callback can register or unregister callbacks (including itself), or run
+   * the manager again: a callback unregistered before its turn is not run, a
+   * callback registered is run, and the others are run as if nothing happened.
    */
   void run();
 
 private:
-  std::vector<TCPair> callbacks_;
+  /** Keep track of the nested calls to run, and remove the callbacks that are
+   * not registered anymore when leaving the outermost one.
+   */
+  struct RunGuard
+  {
+    RunGuard(CallbackManager & m) : manager(m) { ++manager.running_; }
+    ~RunGuard()
+    {
+      if(--manager.running_ == 0)
+        manager.removeUnpaired();
+    }
+    CallbackManager & manager;
+  };
+
+  void removeUnpaired();
+
+  // Adding at the end of a deque does not move the existing elements, so that a callback being run remains valid.
+  std::deque<TCPair> callbacks_;
+  int running_ = 0;
 };
 
 inline PairElementTokenHandle CallbackManager::registerCallback(std::function<void()> c)
@@ -53,26 +75,29 @@ inline void CallbackManager::unregisterCallback(const PairElementToken & t)
 {
   auto it =
       std::find_if(callbacks_.begin(), callbacks_.end(), [&](const TCPair & p) { return p.first.isPairedWith(t); });
-  if(it != callbacks_.end())
-    callbacks_.erase(it);
-  else
+  if(it == callbacks_.end())
     throw std::runtime_error("Element to unregister not found.");
+  if(running_ > 0)
+    it->first = PairElementToken(); // The callback might be the one running, its removal needs to be delayed.
+  else
+    callbacks_.erase(it);
 }
 
 inline void CallbackManager::run()
 {
-  for(size_t i = 0; i < callbacks_.size();)
+  RunGuard guard(*this);
+  for(size_t i = 0; i < callbacks_.size(); ++i)
   {
     if(callbacks_[i].first.isPaired())
-    {
       std::invoke(callbacks_[i].second);
-      ++i;
-    }
-    else
-    {
-      callbacks_.erase(callbacks_.begin() + i);
-    }
   }
 }
 
+inline void CallbackManager::removeUnpaired()
+{
+  callbacks_.erase(
+      std::remove_if(callbacks_.begin(), callbacks_.end(), [](const TCPair & p) { return !p.first.isPaired(); }),
+      callbacks_.end());
+}
+
 } // namespace tvm::internal
-- 
2.43.0


From c96357bdc2b45c557408a28e122c66ce6b8ee77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:27 +0000
Subject: [PATCH 49/81] fix: events sent only to living listeners, which can
 register in reaction

---
 src/event/Source.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/event/Source.cpp b/src/event/Source.cpp
index d4a8734..d79d4dc 100644
--- a/src/event/Source.cpp
+++ b/src/event/Source.cpp
@@ -4,6 +4,8 @@
 
 #include <tvm/event/Listener.h>
 
+#include <algorithm>
+
 namespace tvm
 {
 
@@ -14,9 +16,21 @@ void Source::regist(std::shared_ptr<Listener> user, Type evt) { registrations_[e
 
 void Source::notify(Type evt)
 {
-  const auto & list = registrations_[evt];
-  for(const auto & u : list)
-    u.lock()->receive(evt, *this);
+  auto it = registrations_.find(evt);
+  if(it == registrations_.end())
+    return;
+
+  // Forget the listeners that do not exist anymore.
+  auto & list = it->second;
+  list.erase(std::remove_if(list.begin(), list.end(), [](const auto & u) { return u.expired(); }), list.end());
+
+  // We work on a copy because a listener might register to this object, or be destroyed, in reaction to the event.
+  const auto users = list;
+  for(const auto & u : users)
+  {
+    if(auto user = u.lock())
+      user->receive(evt, *this);
+  }
 }
 
 } // namespace event
-- 
2.43.0


From cdab61787e0f636833c29ed9db7189df360f0513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:26 +0000
Subject: [PATCH 50/81] fix: arguments of a wrong size explained by
 UpdatelessFunction

---
 src/utils/UpdatelessFunction.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/utils/UpdatelessFunction.cpp b/src/utils/UpdatelessFunction.cpp
index 0ed4869..ba4b4d3 100644
--- a/src/utils/UpdatelessFunction.cpp
+++ b/src/utils/UpdatelessFunction.cpp
@@ -91,9 +91,9 @@ void UpdatelessFunction::assign(size_t i, const Eigen::VectorXd & val, bool valu
     else
     {
       std::stringstream s;
-      s << "The size provided for the " << i << "-th variable's value (" << x[i]->name() << ") is incorrect (got"
+      s << "The size provided for the " << i << "-th variable's value (" << x[i]->name() << ") is incorrect (got "
         << val.size() << ", expected " << x[i]->size() << ")." << std::endl;
-      throw std::runtime_error("");
+      throw std::runtime_error(s.str());
     }
   }
   else
@@ -106,9 +106,9 @@ void UpdatelessFunction::assign(size_t i, const Eigen::VectorXd & val, bool valu
     else
     {
       std::stringstream s;
-      s << "The size provided for the " << i << "-th variable's velocity (" << x[i]->name() << ") is incorrect (got"
+      s << "The size provided for the " << i << "-th variable's velocity (" << x[i]->name() << ") is incorrect (got "
         << val.size() << ", expected " << dxi->size() << ")." << std::endl;
-      throw std::runtime_error("");
+      throw std::runtime_error(s.str());
     }
   }
 }
@@ -135,9 +135,9 @@ void UpdatelessFunction::assign(Variable & x, const Eigen::VectorXd & val, bool
       else
       {
         std::stringstream s;
-        s << "The size provided for the value of variable " << x.name() << "is incorrect (got" << val.size()
+        s << "The size provided for the value of variable " << x.name() << " is incorrect (got " << val.size()
           << ", expected " << x.size() << ")." << std::endl;
-        throw std::runtime_error("");
+        throw std::runtime_error(s.str());
       }
     }
     else
@@ -150,9 +150,9 @@ void UpdatelessFunction::assign(Variable & x, const Eigen::VectorXd & val, bool
       else
       {
         std::stringstream s;
-        s << "The size provided for the velocity of variable " << x.name() << "is incorrect (got" << val.size()
+        s << "The size provided for the velocity of variable " << x.name() << " is incorrect (got " << val.size()
           << ", expected " << dxi->size() << ")." << std::endl;
-        throw std::runtime_error("");
+        throw std::runtime_error(s.str());
       }
     }
   }
-- 
2.43.0


From fa1031f48a8e4ed54a0f8bb5de5b56c3897fc4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:26 +0000
Subject: [PATCH 51/81] fix: all columns compared by checkJacobian

---
 src/utils/checkFunction.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/checkFunction.cpp b/src/utils/checkFunction.cpp
index 74119c3..79144d3 100644
--- a/src/utils/checkFunction.cpp
+++ b/src/utils/checkFunction.cpp
@@ -131,6 +131,7 @@ bool checkJacobian(const UpdatelessFunction & uf, const CheckOptions & opt, cons
                     << ") of the total jacobian) is not equivalent to the result of the ffd." << std::endl;
         }
       }
+      ++i;
     }
   }
 
-- 
2.43.0


From bebaad11b3ccfb1a4939a3aee8a72e068981cf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:05 +0000
Subject: [PATCH 52/81] fix: normal acceleration of linear functions and for
 large accelerations checked properly

---
 include/tvm/utils/checkFunction.h |  6 +++---
 src/utils/checkFunction.cpp       | 15 +++++++++------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/tvm/utils/checkFunction.h b/include/tvm/utils/checkFunction.h
index 93265d8..128a3e3 100644
--- a/include/tvm/utils/checkFunction.h
+++ b/include/tvm/utils/checkFunction.h
@@ -72,9 +72,9 @@ bool TVM_DLLAPI checkJacobian(FunctionPtr f, CheckOptions opt = CheckOptions());
 bool TVM_DLLAPI checkVelocity(FunctionPtr f, CheckOptions opt = CheckOptions());
 
 /** Check the normal acceleration of the function \a f.
- * Noting v=f(x), this is done by comparing it to ddot{v}-J\ddot{x}, where
- * \ddot{x} is taken constant over the interval opt.step, and ddot{v} is obtained
- * by finite differences.
+ * Noting v=f(x), this is done by comparing its sum with J\ddot{x} to ddot{v},
+ * where \ddot{x} is taken constant over the interval opt.step, and ddot{v} is
+ * obtained by finite differences.
  * Assume that the jacobian matrices and the velocity are correct.
  */
 bool TVM_DLLAPI checkNormalAcceleration(FunctionPtr f, CheckOptions opt = CheckOptions());
diff --git a/src/utils/checkFunction.cpp b/src/utils/checkFunction.cpp
index 79144d3..12b090d 100644
--- a/src/utils/checkFunction.cpp
+++ b/src/utils/checkFunction.cpp
@@ -350,27 +350,30 @@ bool checkNormalAcceleration(const UpdatelessFunction & uf,
   // we consider a constant-acceleration trajectory in variable space
   double dt = opt.step;
   VectorXd vel1 = vel0 + acc * dt;
-  VectorXd val1 = val0 + vel0 * dt + 0.5 * acc.cwiseProduct(acc) * dt * dt;
+  VectorXd val1 = val0 + vel0 * dt + 0.5 * acc * dt * dt;
 
   VectorXd v0 = uf.velocity(val0, vel0);
   VectorXd v1 = uf.velocity(val1, vel1);
   // Approximation of d2f/dt2
-  VectorXd a = (v1 - v0) / dt;
+  const VectorXd ddf = (v1 - v0) / dt;
 
   // Force computation of jacobian matrices
   uf.jacobian(*x[0], val0);
 
-  // Compute (d2f/dt2-J*dx2/dt2)
+  // Compute J*dx2/dt2
+  VectorXd Ja = VectorXd::Zero(ddf.size());
   int s = 0;
   for(const auto & xi : x)
   {
     int ni = xi->size();
-    a -= f->jacobian(*xi) * acc.segment(s, ni);
+    Ja += f->jacobian(*xi) * acc.segment(s, ni);
     s += ni;
   }
 
+  // We compare the accelerations rather than the normal accelerations, because the finite differences are
+  // only precise relatively to the former (e.g. the latter is zero for a linear function).
   const VectorXd & na = uf.normalAcceleration(val0, vel0);
-  if(na.isApprox(a, opt.prec))
+  if((na + Ja).isApprox(ddf, opt.prec))
   {
     return true;
   }
@@ -379,7 +382,7 @@ bool checkNormalAcceleration(const UpdatelessFunction & uf,
     if(opt.verbose)
     {
       std::cout << "Incorrect normal acceleration:\n"
-                << "got\t\t" << na.transpose() << "\nexpected\t" << a.transpose() << std::endl;
+                << "got\t\t" << na.transpose() << "\nexpected\t" << (ddf - Ja).transpose() << std::endl;
     }
     return false;
   }
-- 
2.43.0


From 7b8dcf2a23c8e39a887715771e3bbbcb04be109c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:06 +0000
Subject: [PATCH 53/81] fix: log of the update graph follows the removals of
 inputs and the clearing of call graphs

---
 include/tvm/graph/internal/Inputs.hpp |  7 +++++++
 include/tvm/graph/internal/Logger.h   |  6 ++++++
 src/graph/CallGraph.cpp               |  2 ++
 src/graph/Logger.cpp                  | 27 +++++++++++++++++++++++++++
 4 files changed, 42 insertions(+)

diff --git a/include/tvm/graph/internal/Inputs.hpp b/include/tvm/graph/internal/Inputs.hpp
index 1a487e1..3be407f 100644
--- a/include/tvm/graph/internal/Inputs.hpp
+++ b/include/tvm/graph/internal/Inputs.hpp
@@ -12,6 +12,8 @@
     tvm::graph::internal::Logger::logger().addInput<T, EnumI>(node, source, i); \
   }
 
+#define TVM_GRAPH_LOG_REMOVE_INPUT(node, i, source) tvm::graph::internal::Logger::logger().removeInput(node, source, i);
+
 namespace
 {
 template<typename T>
@@ -91,6 +93,10 @@ inline void Inputs::removeInput(T * source)
   }
   else
   {
+    for(auto i : it->second)
+    {
+      TVM_GRAPH_LOG_REMOVE_INPUT(this, i, source);
+    }
     removeInput(it, source);
   }
 }
@@ -112,6 +118,7 @@ inline void Inputs::removeInput(T * source, Args... args)
     {
       if(it->second.erase(i) == 0)
         throw std::runtime_error("You attempted to remove an input that was not there.");
+      TVM_GRAPH_LOG_REMOVE_INPUT(this, i, source);
     }
     if(it->second.size() == 0)
     {
diff --git a/include/tvm/graph/internal/Logger.h b/include/tvm/graph/internal/Logger.h
index 5bbb1ac..d73dd3b 100644
--- a/include/tvm/graph/internal/Logger.h
+++ b/include/tvm/graph/internal/Logger.h
@@ -41,6 +41,9 @@ public:
   template<typename S, typename EnumO>
   void addInput(Inputs * node, S * source, EnumO i);
 
+  /** Undo addInput, unless a dependency was declared on this input. */
+  void removeInput(Inputs * node, const void * source, int i);
+
   template<typename U, typename EnumO, typename EnumU>
   void addOutputDependency(U * node, EnumO o, EnumU u);
 
@@ -55,6 +58,9 @@ public:
 
   void addGraphOutput(CallGraph * g, Inputs * node);
 
+  /** Forget the outputs of \p g. */
+  void clearGraphOutputs(CallGraph * g);
+
   /** Register the type associated to a pointer. */
   template<typename U>
   void registerType(U * node);
diff --git a/src/graph/CallGraph.cpp b/src/graph/CallGraph.cpp
index 8ed1ce3..52e6a04 100644
--- a/src/graph/CallGraph.cpp
+++ b/src/graph/CallGraph.cpp
@@ -4,6 +4,7 @@
 #include <tvm/graph/internal/Logger.h>
 
 #define TVM_GRAPH_LOG_ADD_GRAPH_OUTPUTS(graph, inputs) internal::Logger::logger().addGraphOutput(graph, inputs.get());
+#define TVM_GRAPH_LOG_CLEAR_GRAPH_OUTPUTS(graph) internal::Logger::logger().clearGraphOutputs(graph);
 
 namespace tvm
 {
@@ -36,6 +37,7 @@ void CallGraph::clear()
   dependencyGraph_.clear();
   visited_.clear();
   plan_.clear();
+  TVM_GRAPH_LOG_CLEAR_GRAPH_OUTPUTS(this)
 }
 
 std::vector<int> CallGraph::addOutput(abstract::Outputs * source, int output)
diff --git a/src/graph/Logger.cpp b/src/graph/Logger.cpp
index 475d2ab..6eb854f 100644
--- a/src/graph/Logger.cpp
+++ b/src/graph/Logger.cpp
@@ -31,6 +31,33 @@ void Logger::addGraphOutput(CallGraph * g, Inputs * node)
   log_.graphOutputs_[g].push_back(node);
 }
 
+void Logger::clearGraphOutputs(CallGraph * g)
+{
+  if(disabled_)
+    return;
+
+  log_.graphOutputs_.erase(g);
+}
+
+void Logger::removeInput(Inputs * node, const void * source, int i)
+{
+  if(disabled_)
+    return;
+
+  const auto n = reinterpret_cast<std::uintptr_t>(node);
+  const auto s = reinterpret_cast<std::uintptr_t>(source);
+  auto same = [n, s](const auto & d) { return d.owner.value == n && d.source.value == s; };
+  auto sameInput = [&](const auto & d) { return same(d) && d.input.value == i; };
+  const auto & id = log_.inputDependencies_;
+  const auto & dd = log_.directDependencies_;
+  if(std::any_of(id.begin(), id.end(), sameInput) || std::any_of(dd.begin(), dd.end(), sameInput))
+    return;
+
+  auto & in = log_.inputs_;
+  in.erase(std::remove_if(in.begin(), in.end(), [&](const Log::Input & d) { return same(d) && d.id.value == i; }),
+           in.end());
+}
+
 } // namespace internal
 
 } // namespace graph
-- 
2.43.0


From b6acc88e9fb54547cf7ee4f0481dcdef17371324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:04 +0000
Subject: [PATCH 54/81] fix: stamps of variable vectors can be taken in several
 threads

---
 include/tvm/VariableVector.h | 3 ++-
 src/VariableVector.cpp       | 5 ++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tvm/VariableVector.h b/include/tvm/VariableVector.h
index 3b1d402..977afed 100644
--- a/include/tvm/VariableVector.h
+++ b/include/tvm/VariableVector.h
@@ -10,6 +10,7 @@
 
 #include <tvm/deprecated.hh>
 
+#include <atomic>
 #include <map>
 #include <memory>
 #include <set>
@@ -196,7 +197,7 @@ private:
   void remove_(std::vector<VariablePtr>::const_iterator it);
   void getNewStamp() const;
 
-  static int counter;
+  static std::atomic<int> counter;
 
   mutable int stamp_;
   int size_;
diff --git a/src/VariableVector.cpp b/src/VariableVector.cpp
index b66100a..c9b51e8 100644
--- a/src/VariableVector.cpp
+++ b/src/VariableVector.cpp
@@ -6,7 +6,7 @@
 
 namespace tvm
 {
-int VariableVector::counter = 0;
+std::atomic<int> VariableVector::counter{0};
 
 VariableVector::VariableVector() : size_(0) { getNewStamp(); }
 
@@ -247,8 +247,7 @@ void VariableVector::remove_(std::vector<VariablePtr>::const_iterator it)
 
 void VariableVector::getNewStamp() const
 {
-  stamp_ = counter;
-  counter++;
+  stamp_ = counter++;
 }
 
 VariableVector TVM_DLLAPI dot(const VariableVector & vars, int ndiff)
-- 
2.43.0


From cf17dd8b5d8cccc428c5019287a0d3d5e74050d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:04 +0000
Subject: [PATCH 55/81] fix: big number of the schemes not shared between
 threads

---
 include/tvm/scheme/internal/Assignment.h |  5 ++++-
 src/scheme/Assignment.cpp                | 14 +++++++++-----
 src/scheme/HierarchicalLeastSquares.cpp  |  2 +-
 src/scheme/WeightedLeastSquares.cpp      |  4 ++--
 4 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/tvm/scheme/internal/Assignment.h b/include/tvm/scheme/internal/Assignment.h
index 6560ae2..615a7dd 100644
--- a/include/tvm/scheme/internal/Assignment.h
+++ b/include/tvm/scheme/internal/Assignment.h
@@ -101,7 +101,10 @@ public:
   /** Perform the assignment.*/
   void run();
 
-  static double big_;
+  /** Value used for the missing bounds by the assignments built in the current
+   * thread.
+   */
+  static double & big();
 
 private:
   /** Check that the convention and size of the target are compatible with the
diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index ff7bb2d..4597d02 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -15,7 +15,11 @@ using constraint::RHS;
 using constraint::Type;
 using constraint::abstract::LinearConstraint;
 
-double Assignment::big_ = constant::big_number;
+double & Assignment::big()
+{
+  thread_local double big = constant::big_number;
+  return big;
+}
 
 Assignment::Assignment(LinearConstraintPtr source,
                        SolvingRequirementsPtr req,
@@ -285,13 +289,13 @@ void Assignment::build(const VariableVector & variables)
           {
             // case 3
             addAssignments(variables, &AssignmentTarget::A, f, &AssignmentTarget::l, false);
-            addVectorAssignment(big_, &AssignmentTarget::u);
+            addVectorAssignment(big(), &AssignmentTarget::u);
           }
           else
           {
             // case 6
             addAssignments(variables, &AssignmentTarget::A, f, &AssignmentTarget::u, false);
-            addVectorAssignment(-big_, &AssignmentTarget::l);
+            addVectorAssignment(-big(), &AssignmentTarget::l);
           }
           break;
       }
@@ -317,10 +321,10 @@ void Assignment::build(const VariablePtr & variable, bool first)
         addBounds(variable, &LinearConstraint::e, &LinearConstraint::e, first);
         break;
       case Type::GREATER_THAN:
-        addBounds(variable, &LinearConstraint::l, +big_, first);
+        addBounds(variable, &LinearConstraint::l, +big(), first);
         break;
       case Type::LOWER_THAN:
-        addBounds(variable, -big_, &LinearConstraint::u, first);
+        addBounds(variable, -big(), &LinearConstraint::u, first);
         break;
       case Type::DOUBLE_SIDED:
         addBounds(variable, &LinearConstraint::l, &LinearConstraint::u, first);
diff --git a/src/scheme/HierarchicalLeastSquares.cpp b/src/scheme/HierarchicalLeastSquares.cpp
index 1eb3434..ee88000 100644
--- a/src/scheme/HierarchicalLeastSquares.cpp
+++ b/src/scheme/HierarchicalLeastSquares.cpp
@@ -133,7 +133,7 @@ void HierarchicalLeastSquares::processProblem(const LinearizedControlProblem & p
   }
 
   // configure assignments. FIXME: can we find a better way ?
-  Assignment::big_ = big_number_;
+  Assignment::big() = big_number_;
 
   // allocating memory for the solver
   solver.startBuild(memory->variables(), nEq, nIneq, bounds.size() > 0, &subs);
diff --git a/src/scheme/WeightedLeastSquares.cpp b/src/scheme/WeightedLeastSquares.cpp
index b4ed3b7..3e81797 100644
--- a/src/scheme/WeightedLeastSquares.cpp
+++ b/src/scheme/WeightedLeastSquares.cpp
@@ -103,7 +103,7 @@ void WeightedLeastSquares::updateComputationData_(const LinearizedControlProblem
     }
 
     memory->variables(); // update variable vector if needed
-    Assignment::big_ = big_number_; // might have been changed by another scheme
+    Assignment::big() = big_number_; // might have been changed by another scheme
     memory->solver->process(se);
     memory->rebuild = false;
   }
@@ -192,7 +192,7 @@ void WeightedLeastSquares::processProblem(const LinearizedControlProblem & probl
   }
 
   // configure assignments. FIXME: can we find a better way ?
-  Assignment::big_ = big_number_;
+  Assignment::big() = big_number_;
 
   // allocating memory for the solver
   solver.startBuild(memory->variables(), nObj, nEq, nIneq, bounds.size() > 0, &subs);
-- 
2.43.0


From d1cc97ac5ca43df2c5a2ba8bfecc5855e991cc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:04 +0000
Subject: [PATCH 56/81] fix: graph log can be written by several threads

---
 include/tvm/graph/internal/Logger.h | 13 ++++++++++++-
 src/graph/Logger.cpp                |  3 +++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/tvm/graph/internal/Logger.h b/include/tvm/graph/internal/Logger.h
index d73dd3b..99dcccb 100644
--- a/include/tvm/graph/internal/Logger.h
+++ b/include/tvm/graph/internal/Logger.h
@@ -7,8 +7,10 @@
 #include <tvm/graph/internal/Log.h>
 
 #include <algorithm>
+#include <atomic>
 #include <fstream>
 #include <memory>
+#include <mutex>
 
 namespace tvm
 {
@@ -71,9 +73,11 @@ public:
 private:
   Logger() = default;
 
+  // nodes can be built in several threads
+  std::recursive_mutex mutex_;
   // raw log
   Log log_;
-  bool disabled_;
+  std::atomic<bool> disabled_{false};
 };
 
 // Helper function for pointer-to-member-function
@@ -91,6 +95,7 @@ inline void Logger::registerUpdate(U * node, EnumT u, void (U::*fn)())
 {
   if(disabled_)
     return;
+  const std::lock_guard<std::recursive_mutex> lock(mutex_);
 
   Log::Update up{Log::EnumValue(u), U::UpdateName(u), getPointerValue<U>(fn), Log::Pointer(node)};
   log_.updates_.push_back(up);
@@ -102,6 +107,7 @@ inline void Logger::addInput(Inputs * node, S * source, EnumO i)
 {
   if(disabled_)
     return;
+  const std::lock_guard<std::recursive_mutex> lock(mutex_);
 
   Log::Input in = {Log::EnumValue(i), S::OutputName(i), Log::Pointer(source), Log::Pointer(node)};
   log_.inputs_.push_back(in);
@@ -114,6 +120,7 @@ inline void Logger::addOutputDependency(U * node, EnumO o, EnumU u)
 {
   if(disabled_)
     return;
+  const std::lock_guard<std::recursive_mutex> lock(mutex_);
 
   Log::Output out = {Log::EnumValue(o), U::OutputName(o), Log::Pointer(node)};
   log_.outputs_.push_back(out);
@@ -128,6 +135,7 @@ inline void Logger::addInternalDependency(U * node, EnumU1 uDependent, EnumU2 u)
 {
   if(disabled_)
     return;
+  const std::lock_guard<std::recursive_mutex> lock(mutex_);
 
   Log::InternalDependency dep = {Log::EnumValue(u), Log::EnumValue(uDependent), Log::Pointer(node)};
   log_.internalDependencies_.push_back(dep);
@@ -139,6 +147,7 @@ inline void Logger::addInputDependency(U * node, EnumU u, S * source, EnumO i)
 {
   if(disabled_)
     return;
+  const std::lock_guard<std::recursive_mutex> lock(mutex_);
 
   Log::InputDependency dep = {Log::EnumValue(i), Log::EnumValue(u), Log::Pointer(source), Log::Pointer(node)};
   log_.inputDependencies_.push_back(dep);
@@ -151,6 +160,7 @@ inline void Logger::addDirectDependency(U * node, EnumO o, S * source, EnumI i)
 {
   if(disabled_)
     return;
+  const std::lock_guard<std::recursive_mutex> lock(mutex_);
 
   Log::Output out = {Log::EnumValue(o), U::OutputName(o), Log::Pointer(node)};
   log_.outputs_.push_back(out);
@@ -166,6 +176,7 @@ inline void Logger::registerType(U * node)
 {
   if(disabled_)
     return;
+  const std::lock_guard<std::recursive_mutex> lock(mutex_);
 
   std::type_index t(typeid(*node));
   std::uintptr_t val = reinterpret_cast<std::uintptr_t>(node);
diff --git a/src/graph/Logger.cpp b/src/graph/Logger.cpp
index 6eb854f..35409a9 100644
--- a/src/graph/Logger.cpp
+++ b/src/graph/Logger.cpp
@@ -27,6 +27,7 @@ void Logger::addGraphOutput(CallGraph * g, Inputs * node)
 {
   if(disabled_)
     return;
+  const std::lock_guard<std::recursive_mutex> lock(mutex_);
 
   log_.graphOutputs_[g].push_back(node);
 }
@@ -35,6 +36,7 @@ void Logger::clearGraphOutputs(CallGraph * g)
 {
   if(disabled_)
     return;
+  const std::lock_guard<std::recursive_mutex> lock(mutex_);
 
   log_.graphOutputs_.erase(g);
 }
@@ -43,6 +45,7 @@ void Logger::removeInput(Inputs * node, const void * source, int i)
 {
   if(disabled_)
     return;
+  const std::lock_guard<std::recursive_mutex> lock(mutex_);
 
   const auto n = reinterpret_cast<std::uintptr_t>(node);
   const auto s = reinterpret_cast<std::uintptr_t>(source);
-- 
2.43.0


From 83225f1541d63a7c590ad7503577ce3691bee5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:24 +0000
Subject: [PATCH 57/81] fix: use the flag of the right substitution when
 deducing that a right-hand side is zero

---
 include/tvm/hint/internal/SubstitutionUnit.h | 2 +-
 src/hint/SubstitutionUnit.cpp                | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tvm/hint/internal/SubstitutionUnit.h b/include/tvm/hint/internal/SubstitutionUnit.h
index f8be8d0..fe1a9a6 100644
--- a/include/tvm/hint/internal/SubstitutionUnit.h
+++ b/include/tvm/hint/internal/SubstitutionUnit.h
@@ -146,7 +146,7 @@ private:
    * in \p constraints_.
    */
   Eigen::VectorXd c_;
-  /** cIsZero_[i] is true if the value of u corresponding to x_[i] is zero.*/
+  /** cIsZero_[i] is true if the vector c corresponding to constraints_[i] is zero.*/
   std::vector<bool> cIsZero_;
   /** All the matrices M_{i,j} assembled, where \p i corresponds to the i-th
    * variables in \p x_ and \p j corresponds to the j-th variable in \p y_.
diff --git a/src/hint/SubstitutionUnit.cpp b/src/hint/SubstitutionUnit.cpp
index 793d6d5..49ae98f 100644
--- a/src/hint/SubstitutionUnit.cpp
+++ b/src/hint/SubstitutionUnit.cpp
@@ -179,7 +179,7 @@ void SubstitutionUnit::update()
 
         // c_i -= A{il}*u_l
         c_.segment(m + mk, mki).noalias() -= A * u_.segment(rx.start, rx.dim);
-        cIsZero_[i] = cIsZero_[i] && uIsZero_[l];
+        cIsZero_[i] = cIsZero_[i] && uIsZero_[x2sub_[l]];
       }
       cZero = cZero && cIsZero_[i];
       mk += mki;
@@ -317,7 +317,6 @@ void SubstitutionUnit::scanSubstitutions()
       ni += v->size();
       XYdependencies_.push_back({});
       XZdependencies_.push_back({});
-      cIsZero_.push_back(false);
     }
     int mi = 0;
     for(const auto & c : s.constraints())
@@ -326,6 +325,7 @@ void SubstitutionUnit::scanSubstitutions()
       constraints_.push_back(c);
       constraintsY_.push_back({});
       CXdependencies_.push_back({});
+      cIsZero_.push_back(false);
       mi += c->size();
       for(const auto & v : tvm::internal::VariableVectorPartition(c->variables(), partition))
       {
-- 
2.43.0


From aa8c65f36811386aa86cede904cd454c0cec0b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:09 +0000
Subject: [PATCH 58/81] fix: sign of a substituted bound deduced from the
 jacobian of its own substitution

---
 src/scheme/helpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scheme/helpers.cpp b/src/scheme/helpers.cpp
index 1fb231b..d839863 100644
--- a/src/scheme/helpers.cpp
+++ b/src/scheme/helpers.cpp
@@ -142,7 +142,7 @@ bool canBeUsedAsBound(const ConstraintPtr & c,
     else
     {
       const auto & sub = xsub[static_cast<size_t>(it - x.begin())];
-      auto ps = sub->jacobian(*x[0]).properties();
+      auto ps = sub->jacobian(*sub->variables()[0]).properties();
       if(case1)
         return (p * ps).isPositiveDefinite();
       else
-- 
2.43.0


From 5af9cbe767b961ad42a39ce158aa865b285f6b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:53 +0000
Subject: [PATCH 59/81] fix: Reset the row counters of
 HierarchicalLeastSquareSolver when building again

---
 src/solver/HierarchicalLeastSquareSolver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/HierarchicalLeastSquareSolver.cpp b/src/solver/HierarchicalLeastSquareSolver.cpp
index cee065a..56190a3 100644
--- a/src/solver/HierarchicalLeastSquareSolver.cpp
+++ b/src/solver/HierarchicalLeastSquareSolver.cpp
@@ -71,8 +71,8 @@ void HierarchicalLeastSquareSolver::startBuild(const VariableVector & x,
   initializeBuild_(nEq, nIneq, useBounds);
   nEq_ = nEq;
   nIneq_ = nIneq;
-  eqSize_.resize(nEq_.size(), 0);
-  ineqSize_.resize(nEq_.size(), 0);
+  eqSize_.assign(nEq_.size(), 0);
+  ineqSize_.assign(nEq_.size(), 0);
   useBounds_ = useBounds;
 }
 
-- 
2.43.0


From ba5d774d65829439c0c03faf452e0a816eccc7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:53 +0000
Subject: [PATCH 60/81] fix: Keep a first level for the bounds in
 HierarchicalLeastSquares

---
 src/scheme/HierarchicalLeastSquares.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scheme/HierarchicalLeastSquares.cpp b/src/scheme/HierarchicalLeastSquares.cpp
index ee88000..dd06f2f 100644
--- a/src/scheme/HierarchicalLeastSquares.cpp
+++ b/src/scheme/HierarchicalLeastSquares.cpp
@@ -112,8 +112,8 @@ void HierarchicalLeastSquares::processProblem(const LinearizedControlProblem & p
     }
   }
   // we need to add the additional constraints due to the substitutions.
-  // They are added at level 0.
-  if(subs.additionalConstraints().size() > 0 && nEq.size() == 0)
+  // They are added at level 0, which also needs to exist for the bounds.
+  if((subs.additionalConstraints().size() > 0 || bounds.size() > 0) && nEq.size() == 0)
   {
     nEq.push_back(0);
     nIneq.push_back(0);
-- 
2.43.0


From 96163402cb22ed0458756e4a09909fe3445f3750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:53 +0000
Subject: [PATCH 61/81] fix: Minimum norm with the Cholesky option of QLD and
 Quadprog

---
 src/solver/QLDLeastSquareSolver.cpp      | 4 ++--
 src/solver/QuadprogLeastSquareSolver.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/solver/QLDLeastSquareSolver.cpp b/src/solver/QLDLeastSquareSolver.cpp
index 48ce27a..9a75a8c 100644
--- a/src/solver/QLDLeastSquareSolver.cpp
+++ b/src/solver/QLDLeastSquareSolver.cpp
@@ -104,7 +104,7 @@ void QLDLeastSquareSolver::addObjective_(LinearConstraintPtr cstr, SolvingRequir
 void QLDLeastSquareSolver::setMinimumNorm_()
 {
   autoMinNorm_ = true;
-  Q_.setIdentity();
+  Q_.setIdentity(variables().totalSize(), variables().totalSize()); // not allocated yet when using cholesky
   c_.setZero();
 }
 
@@ -190,7 +190,7 @@ void QLDLeastSquareSolver::applyImpactLogic(ImpactFromChanges & impact)
 
 void QLDLeastSquareSolver::printProblemData_() const
 {
-  if(cholesky_)
+  if(cholesky_ && !autoMinNorm_)
   {
     int n = variables().totalSize();
     std::cout << "R =\n"
diff --git a/src/solver/QuadprogLeastSquareSolver.cpp b/src/solver/QuadprogLeastSquareSolver.cpp
index b4b5d68..ab3b655 100644
--- a/src/solver/QuadprogLeastSquareSolver.cpp
+++ b/src/solver/QuadprogLeastSquareSolver.cpp
@@ -136,7 +136,7 @@ void QuadprogLeastSquareSolver::addObjective_(LinearConstraintPtr cstr,
 void QuadprogLeastSquareSolver::setMinimumNorm_()
 {
   autoMinNorm_ = true;
-  Q_.setIdentity();
+  Q_.setIdentity(variables().totalSize(), variables().totalSize()); // not allocated yet when using cholesky
   c_.setZero();
 }
 
@@ -253,7 +253,7 @@ void QuadprogLeastSquareSolver::applyImpactLogic(ImpactFromChanges & impact)
 
 void QuadprogLeastSquareSolver::printProblemData_() const
 {
-  if(cholesky_)
+  if(cholesky_ && !autoMinNorm_)
   {
     int n = variables().totalSize();
     std::cout << "R =\n"
-- 
2.43.0


From 1a2a7ba382c3e5aac78cbbb31a92c307e5a99baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:53 +0000
Subject: [PATCH 62/81] fix: Reset b as well as A for the minimum norm with
 LSSOL

---
 src/solver/LSSOLLeastSquareSolver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/LSSOLLeastSquareSolver.cpp b/src/solver/LSSOLLeastSquareSolver.cpp
index 1b01850..c2650cf 100644
--- a/src/solver/LSSOLLeastSquareSolver.cpp
+++ b/src/solver/LSSOLLeastSquareSolver.cpp
@@ -142,8 +142,12 @@ void LSSOLLeastSquareSolver::preAssignmentProcess_()
 
 void LSSOLLeastSquareSolver::postAssignmentProcess_()
 {
+  // LSSOL is overwriting A and b during the resolution.
   if(autoMinNorm_)
+  {
     A_.setIdentity();
+    b_.setZero();
+  }
 }
 
 bool LSSOLLeastSquareSolver::solve_()
-- 
2.43.0


From 578179ee4e76e8e4a7949acbf791a7822c0b1d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:37 +0000
Subject: [PATCH 63/81] fix: Refuse a reference function of wrong size in task
 dynamics

---
 src/task_dynamics/Reference.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task_dynamics/Reference.cpp b/src/task_dynamics/Reference.cpp
index 49f888e..92ddf54 100644
--- a/src/task_dynamics/Reference.cpp
+++ b/src/task_dynamics/Reference.cpp
@@ -37,6 +37,11 @@ void Reference::Impl::setReference(const FunctionPtr & ref)
   {
     throw std::runtime_error("[task_dynamics::Reference::Impl] You cannot pass a nullptr as reference function.");
   }
+  if(ref->size() != function().size())
+  {
+    throw std::runtime_error("[task_dynamics::Reference::Impl] The reference function and the function of the task must "
+                             "have the same size.");
+  }
 
   ref_ = ref;
   addInput(ref, internal::FirstOrderProvider::Output::Value);
-- 
2.43.0


From b6f829db59b696de7a77d0a1fc03408b9f7515cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:37 +0000
Subject: [PATCH 64/81] fix: Refuse diagonal blocks beyond the variable in
 DiagonalCalculator

---
 src/hint/DiagonalCalculator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hint/DiagonalCalculator.cpp b/src/hint/DiagonalCalculator.cpp
index 4e03662..c37b7fd 100644
--- a/src/hint/DiagonalCalculator.cpp
+++ b/src/hint/DiagonalCalculator.cpp
@@ -127,6 +127,10 @@ DiagonalCalculator::Impl::Impl(const std::vector<LinearConstraintPtr> & cstr,
   {
     throw std::runtime_error("The number of non-zero rows is not consistent with the rank.");
   }
+  if(first + size_ > n())
+  {
+    throw std::runtime_error("Some indices are too large for the substitution considered");
+  }
 
   DenseIndex i = 0;
   for(; i < first; ++i)
-- 
2.43.0


From 4fff640c96b200237419ac37af29b0a008c41dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:37 +0000
Subject: [PATCH 65/81] fix: Refuse substitutions of rank greater than the
 number of equations

---
 src/hint/Substitution.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hint/Substitution.cpp b/src/hint/Substitution.cpp
index 5f33699..4af1c5a 100644
--- a/src/hint/Substitution.cpp
+++ b/src/hint/Substitution.cpp
@@ -148,6 +148,12 @@ void Substitution::check() const
   {
     throw std::runtime_error("Substitution is not feasible: too many equations.");
   }
+
+  // nor greater than the number of equations
+  if(rank_ > m_)
+  {
+    throw std::runtime_error("Substitution is not feasible: the rank is greater than the number of equations.");
+  }
 }
 
 } // namespace hint
-- 
2.43.0


From 1fcd1828d96e4715932e1d7cd90a360879427509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:29 +0000
Subject: [PATCH 66/81] fix: Move the velocity and acceleration of a body to
 the frame

---
 src/robot/Frame.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/robot/Frame.cpp b/src/robot/Frame.cpp
index 81cf7db..c4bc68c 100644
--- a/src/robot/Frame.cpp
+++ b/src/robot/Frame.cpp
@@ -61,14 +61,24 @@ void Frame::updateJacobian()
   auto partialJac = jac_.jacobian(robot_->mb(), robot_->mbc());
   jacTmp_ = partialJac;
   Eigen::Matrix3d h = -hat(robot_->mbc().bodyPosW[bodyId_].rotation().transpose() * X_b_f_.translation());
-  jacTmp_.block(3, 0, 3, jac_.dof()).noalias() += h * partialJac.block(3, 0, 3, jac_.dof());
+  jacTmp_.block(3, 0, 3, jac_.dof()).noalias() += h * partialJac.block(0, 0, 3, jac_.dof());
   jac_.fullJacobian(robot_->mb(), jacTmp_, jacobian_);
 }
 
-void Frame::updateVelocity() { velocity_ = X_b_f_ * robot_->mbc().bodyVelW[bodyId_]; }
+void Frame::updateVelocity()
+{
+  Eigen::Vector3d r = robot_->mbc().bodyPosW[bodyId_].rotation().transpose() * X_b_f_.translation();
+  velocity_ = sva::PTransformd(r) * robot_->mbc().bodyVelW[bodyId_];
+}
 
 void Frame::updateNormalAcceleration()
-{ normalAcceleration_ = X_b_f_ * jac_.normalAcceleration(robot_->mb(), robot_->mbc(), robot_->normalAccB()); }
+{
+  Eigen::Vector3d r = robot_->mbc().bodyPosW[bodyId_].rotation().transpose() * X_b_f_.translation();
+  Eigen::Vector3d w = robot_->mbc().bodyVelW[bodyId_].angular();
+  normalAcceleration_ =
+      sva::PTransformd(r) * jac_.normalAcceleration(robot_->mb(), robot_->mbc(), robot_->normalAccB());
+  normalAcceleration_.linear() += w.cross(w.cross(r));
+}
 
 const std::string & Frame::body() const { return robot_->mb().body(bodyId_).name(); }
 
-- 
2.43.0


From 1043174f0be08ef286f0423771e5e8d359373ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:29 +0000
Subject: [PATCH 67/81] fix: Refuse frames of unknown bodies

---
 src/robot/Frame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/robot/Frame.cpp b/src/robot/Frame.cpp
index c4bc68c..92507dc 100644
--- a/src/robot/Frame.cpp
+++ b/src/robot/Frame.cpp
@@ -21,7 +21,7 @@ namespace robot
 {
 
 Frame::Frame(std::string name, RobotPtr robot, const std::string & body, sva::PTransformd X_b_f)
-: name_(std::move(name)), robot_(robot), bodyId_(robot->mb().bodyIndexByName(body)), jac_(robot->mb(), body),
+: name_(std::move(name)), robot_(robot), bodyId_(robot->mb().sBodyIndexByName(body)), jac_(robot->mb(), body),
   X_b_f_(std::move(X_b_f)), jacTmp_(6, jac_.dof()),
   jacobian_(6, robot->mb().nrDof()) // FIXME Don't allocate until needed?
 {
-- 
2.43.0


From 26b2f1712e07f3a4b65c3fd536dd641208f67170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:29 +0000
Subject: [PATCH 68/81] fix: Express the points of a contact in the second
 frame

---
 src/robot/Contact.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/robot/Contact.cpp b/src/robot/Contact.cpp
index 16dd35b..30ca152 100644
--- a/src/robot/Contact.cpp
+++ b/src/robot/Contact.cpp
@@ -19,7 +19,7 @@ Contact::Contact(FramePtr f1, FramePtr f2, std::vector<sva::PTransformd> points,
   X_f2_f1_ = X_f1_f2_.inv();
   for(const auto & X_f1_p : f1Points_)
   {
-    f2Points_.emplace_back(X_f2_f1_ * X_f1_p);
+    f2Points_.emplace_back(X_f1_p * X_f2_f1_);
   }
   addDirectDependency(Output::F1Position, f1, Frame::Output::Position);
   addDirectDependency(Output::F1Jacobian, f1, Frame::Output::Jacobian);
-- 
2.43.0


From 4adab49450e2f2c05b1c973a1e40bc2270da012d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:29 +0000
Subject: [PATCH 69/81] fix: Compare the second robots in the order of contact
 identifiers

---
 include/tvm/robot/Contact.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tvm/robot/Contact.h b/include/tvm/robot/Contact.h
index b87df98..a0ba6aa 100644
--- a/include/tvm/robot/Contact.h
+++ b/include/tvm/robot/Contact.h
@@ -48,7 +48,7 @@ public:
           ( r1 == rhs.r1 && f1 < rhs.f1 ) ||
           ( r1 == rhs.r1 && f1 == rhs.f1 && r2 < rhs.r2 ) ||
           ( r1 == rhs.r1 && f1 == rhs.f1 && r2 == rhs.r2 && f2 < rhs.f2 ) ||
-          ( r1 == rhs.r1 && f1 == rhs.f1 && r2 == rhs.f2 && f2 == rhs.f2 && ambiguityId < rhs.ambiguityId );
+          ( r1 == rhs.r1 && f1 == rhs.f1 && r2 == rhs.r2 && f2 == rhs.f2 && ambiguityId < rhs.ambiguityId );
       // clang-format on
     }
     inline bool operator==(const Id & rhs) const
-- 
2.43.0


From 40e207cdc3a2f4f615534f526a0e9bb2856192bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:29 +0000
Subject: [PATCH 70/81] fix: Put the nearest points of a collision in the axes
 of the body

---
 include/tvm/robot/Frame.h       | 3 +++
 src/robot/CollisionFunction.cpp | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/tvm/robot/Frame.h b/include/tvm/robot/Frame.h
index 940eb48..6a69322 100644
--- a/include/tvm/robot/Frame.h
+++ b/include/tvm/robot/Frame.h
@@ -61,6 +61,9 @@ public:
   /** Access the internal Jacobian object to perform extra-computation (const) */
   inline const rbd::Jacobian & rbdJacobian() const { return jac_; }
 
+  /** The transformation from the body to the frame */
+  inline const sva::PTransformd & X_b_f() const { return X_b_f_; }
+
   /** The frame's name */
   inline const std::string & name() const { return name_; }
   /** The frame's position in world coordinates */
diff --git a/src/robot/CollisionFunction.cpp b/src/robot/CollisionFunction.cpp
index 4c9968f..b900d88 100644
--- a/src/robot/CollisionFunction.cpp
+++ b/src/robot/CollisionFunction.cpp
@@ -85,7 +85,9 @@ void CollisionFunction::updateValue()
     for(size_t j = 0; j < col.objects_.size(); ++j)
     {
       auto & o = col.objects_[j];
-      o.nearestPoint_ = (sva::PTransformd(closestPoints_[i]) * col.ch_[j]->frame().position().inv()).translation();
+      const auto & f = col.ch_[j]->frame();
+      // X_b_p = X_0_p * X_0_b.inv(), with X_0_b.inv() = X_0_f.inv() * X_b_f
+      o.nearestPoint_ = (sva::PTransformd(closestPoints_[j]) * f.position().inv() * f.X_b_f()).translation();
       o.jac_.point(o.nearestPoint_);
     }
 
-- 
2.43.0


From 5e4e53adeb17331fc38ac3e9c3a49627f9fc172a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:29 +0000
Subject: [PATCH 71/81] fix: Keep the inputs of robot functions after a reset

---
 src/robot/CoMInConvexFunction.cpp | 6 +++---
 src/robot/CollisionFunction.cpp   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/robot/CoMInConvexFunction.cpp b/src/robot/CoMInConvexFunction.cpp
index 4141d72..376b818 100644
--- a/src/robot/CoMInConvexFunction.cpp
+++ b/src/robot/CoMInConvexFunction.cpp
@@ -30,9 +30,9 @@ CoMInConvexFunction::CoMInConvexFunction(RobotPtr robot) : robot_(robot), jac_(r
 void CoMInConvexFunction::addPlane(geometry::PlanePtr plane)
 {
   planes_.push_back(plane);
-  addInputDependency<CoMInConvexFunction>(Update::Value, *plane, geometry::Plane::Output::Position);
-  addInputDependency<CoMInConvexFunction>(Update::Velocity, *plane, geometry::Plane::Output::Velocity);
-  addInputDependency<CoMInConvexFunction>(Update::NormalAcceleration, *plane, geometry::Plane::Output::Acceleration);
+  addInputDependency<CoMInConvexFunction>(Update::Value, plane, geometry::Plane::Output::Position);
+  addInputDependency<CoMInConvexFunction>(Update::Velocity, plane, geometry::Plane::Output::Velocity);
+  addInputDependency<CoMInConvexFunction>(Update::NormalAcceleration, plane, geometry::Plane::Output::Acceleration);
   resize(static_cast<int>(planes_.size()));
 }
 
diff --git a/src/robot/CollisionFunction.cpp b/src/robot/CollisionFunction.cpp
index b900d88..382619a 100644
--- a/src/robot/CollisionFunction.cpp
+++ b/src/robot/CollisionFunction.cpp
@@ -60,7 +60,7 @@ CollisionFunction::CollisionData::CollisionData(CollisionFunction & fn, ConvexHu
     int rDof = r.mb().nrDof();
     if(rDof > 0)
     {
-      fn.addInputDependency<CollisionFunction>(Update::Value, *ch_[i], ConvexHull::Output::Position);
+      fn.addInputDependency<CollisionFunction>(Update::Value, ch_[i], ConvexHull::Output::Position);
       fn.addInputDependency<CollisionFunction>(Update::Jacobian, r, Robot::Output::FV);
       fn.addInputDependency<CollisionFunction>(Update::NormalAcceleration, r, Robot::Output::NormalAcceleration);
       objects_.push_back({Eigen::Vector3d::Zero(), ch_[i]->frame().rbdJacobian()});
-- 
2.43.0


From 3795d299cd18af6ca11aeaa1c2a99392c78ef62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:29 +0000
Subject: [PATCH 72/81] fix: Make the contact forces and the equation of motion
 agree

---
 src/robot/DynamicFunction.cpp | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/robot/DynamicFunction.cpp b/src/robot/DynamicFunction.cpp
index 5462afe..73b7af5 100644
--- a/src/robot/DynamicFunction.cpp
+++ b/src/robot/DynamicFunction.cpp
@@ -78,6 +78,13 @@ void DynamicFunction::addContact_(const Contact::View & contact,
   fc.full_jac_.resize(6, contact.f->robot().mb().nrDof());
   FramePtr f = contact.f;
   size_t nrP = cPoints.size();
+  // Points of the contact and axes of the frame in the body
+  std::vector<Eigen::Vector3d> bPoints;
+  for(const auto & p : cPoints)
+  {
+    bPoints.push_back((p * f->X_b_f()).translation());
+  }
+  const Eigen::Matrix3d E_b_f = f->X_b_f().rotation();
   if(!linearize)
   {
     for(size_t i = 0; i < nrP; ++i)
@@ -85,24 +92,24 @@ void DynamicFunction::addContact_(const Contact::View & contact,
       fc.forces_.push_back(tvm::Space(3).createVariable("force"));
       fc.forces_.back()->value(Eigen::Vector3d::Zero());
     }
-    fc.updateJacobians_ = [f, cPoints, dir](ForceContact & self, DynamicFunction & df) {
+    fc.updateJacobians_ = [f, bPoints, E_b_f, dir](ForceContact & self, DynamicFunction & df) {
       const auto & bodyJac = f->rbdJacobian().bodyJacobian(df.robot_->mb(), df.robot_->mbc());
       for(size_t i = 0; i < self.forces_.size(); ++i)
       {
         const auto & v = self.forces_[i];
-        const auto & p = cPoints[i];
-        f->rbdJacobian().translateBodyJacobian(bodyJac, df.robot_->mbc(), p.translation(), self.force_jac_);
+        f->rbdJacobian().translateBodyJacobian(bodyJac, df.robot_->mbc(), bPoints[i], self.force_jac_);
         f->rbdJacobian().fullJacobian(df.robot_->mb(), self.force_jac_, self.full_jac_);
-        df.jacobian_[v.get()].noalias() = dir * self.full_jac_.block(3, 0, 3, f->robot().mb().nrDof()).transpose();
+        df.jacobian_[v.get()].noalias() =
+            -dir * self.full_jac_.block(3, 0, 3, f->robot().mb().nrDof()).transpose() * E_b_f.transpose();
       }
     };
-    fc.force_ = [cPoints](const ForceContact & self) {
+    fc.force_ = [cPoints, dir](const ForceContact & self) {
       sva::ForceVecd ret{Eigen::Vector6d::Zero()};
       for(size_t i = 0; i < self.forces_.size(); ++i)
       {
         const auto & f = self.forces_[i];
-        const auto & p = cPoints[i];
-        sva::ForceVecd f_p{Eigen::Vector3d::Zero(), f->value()};
+        sva::PTransformd p(cPoints[i].translation());
+        sva::ForceVecd f_p{Eigen::Vector3d::Zero(), dir * f->value()};
         ret += p.transMul(f_p);
       }
       return ret;
@@ -126,25 +133,24 @@ void DynamicFunction::addContact_(const Contact::View & contact,
       }
       nrPoints++;
     }
-    fc.updateJacobians_ = [f, cPoints, generators, nrGen](ForceContact & self, DynamicFunction & df) {
+    fc.updateJacobians_ = [f, bPoints, E_b_f, generators, nrGen](ForceContact & self, DynamicFunction & df) {
       const auto & bodyJac = f->rbdJacobian().bodyJacobian(df.robot_->mb(), df.robot_->mbc());
-      for(size_t i = 0; i < cPoints.size(); ++i)
+      for(size_t i = 0; i < bPoints.size(); ++i)
       {
-        const auto & p = cPoints[i];
-        f->rbdJacobian().translateBodyJacobian(bodyJac, df.robot_->mbc(), p.translation(), self.force_jac_);
+        f->rbdJacobian().translateBodyJacobian(bodyJac, df.robot_->mbc(), bPoints[i], self.force_jac_);
         const auto & lambda = self.forces_[i];
         const auto & generator = generators.middleCols(nrGen * i, nrGen);
         f->rbdJacobian().fullJacobian(df.robot_->mb(), self.force_jac_, self.full_jac_);
         df.jacobian_[lambda.get()].noalias() =
-            (generator.transpose() * self.full_jac_.block(3, 0, 3, f->robot().mb().nrDof())).transpose();
+            (generator.transpose() * E_b_f * self.full_jac_.block(3, 0, 3, f->robot().mb().nrDof())).transpose();
       }
     };
     fc.force_ = [cPoints, generators, nrGen](const ForceContact & self) {
       sva::ForceVecd ret{Eigen::Vector6d::Zero()};
       for(size_t i = 0; i < cPoints.size(); ++i)
       {
-        const auto & p = cPoints[i];
-        const auto & lambda = self.forces_[nrGen * i];
+        sva::PTransformd p(cPoints[i].translation());
+        const auto & lambda = self.forces_[i];
         const auto & generator = -generators.middleCols(nrGen * i, nrGen);
         sva::ForceVecd f_p{Eigen::Vector3d::Zero(), generator * lambda->value()};
         ret += p.transMul(f_p);
-- 
2.43.0


From b90119e85564dc1b57fc6283808447300cb74894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:29 +0000
Subject: [PATCH 73/81] fix: Remove the forces of removed contacts

---
 src/robot/DynamicFunction.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/robot/DynamicFunction.cpp b/src/robot/DynamicFunction.cpp
index 73b7af5..bd09c2c 100644
--- a/src/robot/DynamicFunction.cpp
+++ b/src/robot/DynamicFunction.cpp
@@ -169,9 +169,15 @@ void DynamicFunction::addContact_(const Contact::View & contact,
 void DynamicFunction::removeContact(const Contact::Id & id)
 {
   auto it = getContact(id);
-  if(it != contacts_.end())
+  // A contact between two frames of the robot appears twice
+  while(it != contacts_.end())
   {
+    for(const auto & var : it->forces_)
+    {
+      removeVariable(var);
+    }
     contacts_.erase(it);
+    it = getContact(id);
   }
 }
 
-- 
2.43.0


From 64290b776267f6a7a8cc44e57b4e684c0d4cc9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:29 +0000
Subject: [PATCH 74/81] fix: Sum the Jacobians of a contact between two frames
 of a robot

---
 src/robot/GeometricContactFunction.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/robot/GeometricContactFunction.cpp b/src/robot/GeometricContactFunction.cpp
index a3c1b0c..46bf055 100644
--- a/src/robot/GeometricContactFunction.cpp
+++ b/src/robot/GeometricContactFunction.cpp
@@ -102,16 +102,21 @@ void GeometricContactFunction::updateNormalAcceleration()
 
 void GeometricContactFunction::updateJacobian()
 {
+  const auto & f1 = contact_->f1();
+  const auto & f2 = contact_->f2();
+  const auto & r1 = f1.robot();
+  const auto & r2 = f2.robot();
+  if(has_f1_ && &r1 == &r2)
+  {
+    splitJacobian(dof_ * (f1.jacobian() - f2.jacobian()), r1.q());
+    return;
+  }
   if(has_f1_)
   {
-    const auto & f1 = contact_->f1();
-    const auto & r1 = f1.robot();
     splitJacobian(dof_ * f1.jacobian(), r1.q());
   }
   if(has_f2_)
   {
-    const auto & f2 = contact_->f2();
-    const auto & r2 = f2.robot();
     splitJacobian(-dof_ * f2.jacobian(), r2.q());
   }
 }
-- 
2.43.0


From 8dae898f0d62fdfe1b44f0c5661ea21d6481fc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:29 +0000
Subject: [PATCH 75/81] fix: Compute the posture error of spherical joints

---
 src/robot/PostureFunction.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/robot/PostureFunction.cpp b/src/robot/PostureFunction.cpp
index 5a3d006..5b530c9 100644
--- a/src/robot/PostureFunction.cpp
+++ b/src/robot/PostureFunction.cpp
@@ -77,12 +77,12 @@ void PostureFunction::updateValue()
       value_(pos) = robot_->mbc().q[jI][0] - posture_[jI][0];
       pos++;
     }
-    else if(j.dof() == 4) // spherical
+    else if(j.type() == rbd::Joint::Spherical)
     {
-      Eigen::Matrix3d ori(
-          Eigen::Quaterniond(posture_[jI][0], posture_[jI][1], posture_[jI][2], posture_[jI][3]).matrix());
-      auto error = sva::rotationError(ori, robot_->mbc().jointConfig[jI].rotation());
-      value_.segment(pos, 3) = error;
+      // Error in the axes of the successor body, as the velocity of the joint
+      Eigen::Matrix3d ori = j.pose(posture_[jI]).rotation();
+      Eigen::Matrix3d error = j.pose(robot_->mbc().q[jI]).rotation() * ori.transpose();
+      value_.segment(pos, 3) = sva::rotationVelocity(error);
       pos += 3;
     }
   }
-- 
2.43.0


From a5b47e1c75b60313a08626fda7fc2806527c9ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:29 +0000
Subject: [PATCH 76/81] fix: Accept the first joint in PostureFunction

---
 src/robot/PostureFunction.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/robot/PostureFunction.cpp b/src/robot/PostureFunction.cpp
index 5b530c9..77a395a 100644
--- a/src/robot/PostureFunction.cpp
+++ b/src/robot/PostureFunction.cpp
@@ -34,9 +34,8 @@ void PostureFunction::reset() { posture_ = robot_->mbc().q; }
 
 void PostureFunction::posture(const std::string & j, const std::vector<double> & q)
 {
-  // This assert throws if j is not part of robot.mb
-  assert(robot_->mb().sJointIndexByName(j));
-  auto jIndex = robot_->mb().jointIndexByName(j);
+  // This throws if j is not part of robot.mb
+  auto jIndex = robot_->mb().sJointIndexByName(j);
   assert(posture_[jIndex].size() == q.size());
   posture_[jIndex] = q;
 }
-- 
2.43.0


From 4f84b9026d680ba25e65a84347fc8f7567463b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:29 +0000
Subject: [PATCH 77/81] fix: Size the velocity and torque limits of a robot by
 its degrees of freedom

---
 src/Robot.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Robot.cpp b/src/Robot.cpp
index 38a24b8..953cf97 100644
--- a/src/Robot.cpp
+++ b/src/Robot.cpp
@@ -37,12 +37,12 @@ Robot::Robot(Clock & clock,
   lQBound_.resize(q_joints_->size());
   lQBound_.setConstant(-tvm::constant::big_number);
   uQBound_ = -lQBound_;
-  lVelBound_.resize(q_joints_->size());
+  lVelBound_.resize(q_joints_->space().tSize());
   lVelBound_.setConstant(-tvm::constant::big_number);
   uVelBound_ = -lVelBound_;
-  lTauBound_.resize(q_joints_->size() + q_ff_->space().tSize());
+  lTauBound_.resize(q_joints_->space().tSize() + q_ff_->space().tSize());
   lTauBound_.head(q_ff_->space().tSize()).setZero();
-  lTauBound_.tail(q_joints_->size()).setConstant(-tvm::constant::big_number);
+  lTauBound_.tail(q_joints_->space().tSize()).setConstant(-tvm::constant::big_number);
   uTauBound_ = -lTauBound_;
   /** Bounds initialization based on provided limits */
   {
-- 
2.43.0


From 503f934a0a867459a0707b8346ee5e8f80356b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:29 +0000
Subject: [PATCH 78/81] fix: Initialize the normal acceleration of robots
 without degrees of freedom

---
 src/Robot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Robot.cpp b/src/Robot.cpp
index 953cf97..25c0ab1 100644
--- a/src/Robot.cpp
+++ b/src/Robot.cpp
@@ -19,7 +19,7 @@ Robot::Robot(Clock & clock,
              rbd::MultiBody mb,
              rbd::MultiBodyConfig mbc,
              const rbd::parsers::Limits & limits)
-: clock_(clock), last_tick_(clock.ticks()), name_(name), mb_(mb), mbc_(mbc), normalAccB_(mbc_.bodyAccB.size()),
+: clock_(clock), last_tick_(clock.ticks()), name_(name), mb_(mb), mbc_(mbc), normalAccB_(mbc_.bodyAccB.size(), sva::MotionVecd::Zero()),
   fd_(mb_), bodyTransforms_(mbg.bodiesBaseTransform(mb_.body(0).name())),
   tau_(tvm::Space(mb_.nrDof()).createVariable("tau"))
 {
-- 
2.43.0


From 19115a9c83136d00a226e83bdcbfa7db514d41c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:29 +0000
Subject: [PATCH 79/81] fix: Initialize JDot in JointsSelector

---
 src/robot/JointsSelector.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/robot/JointsSelector.cpp b/src/robot/JointsSelector.cpp
index e8fc273..e42560f 100644
--- a/src/robot/JointsSelector.cpp
+++ b/src/robot/JointsSelector.cpp
@@ -112,11 +112,13 @@ JointsSelector::JointsSelector(FunctionPtr f,
   {
     addVariable(robot_->qFreeFlyer(), f_->linearIn(*robot_->qFreeFlyer()));
     jacobian_.at(robot_->qFreeFlyer().get()).setZero();
+    JDot_.at(robot_->qFreeFlyer().get()).setZero();
   }
   if(activeIndex.size())
   {
     addVariable(robot_->qJoints(), f_->linearIn(*robot_->qJoints()));
     jacobian_.at(robot_->qJoints().get()).setZero();
+    JDot_.at(robot_->qJoints().get()).setZero();
   }
 }
 
-- 
2.43.0


From 33255b4691a3780b2f535bd59b8b77ae55da0c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:29 +0000
Subject: [PATCH 80/81] fix: Refuse unknown joints in JointsSelector

---
 src/robot/JointsSelector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/robot/JointsSelector.cpp b/src/robot/JointsSelector.cpp
index e42560f..3abfba0 100644
--- a/src/robot/JointsSelector.cpp
+++ b/src/robot/JointsSelector.cpp
@@ -33,7 +33,7 @@ std::unique_ptr<JointsSelector> JointsSelector::ActiveJoints(FunctionPtr f,
 
   std::vector<std::string> joints = activeJoints;
   std::sort(joints.begin(), joints.end(), [&mb](const std::string & lhs, const std::string & rhs) {
-    return mb.jointPosInDof(mb.jointIndexByName(lhs)) < mb.jointPosInDof(mb.jointIndexByName(rhs));
+    return mb.jointPosInDof(mb.sJointIndexByName(lhs)) < mb.jointPosInDof(mb.sJointIndexByName(rhs));
   });
 
   bool ffActive = joints.size() > 0 && joints[0] == mb.joint(0).name() && mb.joint(0).dof() == 6;
@@ -48,7 +48,7 @@ std::unique_ptr<JointsSelector> JointsSelector::ActiveJoints(FunctionPtr f,
   Eigen::DenseIndex size = 0;
   for(const auto & j : joints)
   {
-    auto jIndex = mb.jointIndexByName(j);
+    auto jIndex = mb.sJointIndexByName(j);
     auto jDof = mb.joint(jIndex).dof();
     Eigen::DenseIndex pos = mb.jointPosInDof(jIndex) - ffSize;
     if(pos != start + size)
-- 
2.43.0


From 569afe875c478f944880371c571353a57b97faf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:29 +0000
Subject: [PATCH 81/81] fix: Store the derivative of the CoM Jacobian in JDot

---
 src/robot/CoMFunction.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/robot/CoMFunction.cpp b/src/robot/CoMFunction.cpp
index 2a3be78..a8afa25 100644
--- a/src/robot/CoMFunction.cpp
+++ b/src/robot/CoMFunction.cpp
@@ -42,7 +42,17 @@ void CoMFunction::updateJacobian() { splitJacobian(jac_.jacobian(robot_->mb(), r
 void CoMFunction::updateNormalAcceleration()
 { normalAcceleration_ = jac_.normalAcceleration(robot_->mb(), robot_->mbc(), robot_->normalAccB()); }
 
-void CoMFunction::updateJDot() { splitJacobian(jac_.jacobianDot(robot_->mb(), robot_->mbc()), robot_->q()); }
+void CoMFunction::updateJDot()
+{
+  const auto & jacDot = jac_.jacobianDot(robot_->mb(), robot_->mbc());
+  Eigen::DenseIndex s = 0;
+  for(const auto & v : robot_->q())
+  {
+    auto n = static_cast<Eigen::DenseIndex>(v->space().tSize());
+    JDot_[v.get()] = jacDot.middleCols(s, n);
+    s += n;
+  }
+}
 
 } // namespace robot
 
-- 
2.43.0

