#pragma once
#include <sch/S_Object/S_Object.h>

namespace sch
{
class CD_Pair
{
public:
  CD_Pair(S_Object * a, S_Object * b) : a_(a), b_(b) {}
  /** Squared distance, negative in case of penetration. */
  double getClosestPoints(Point3 & p, Point3 & q)
  {
    Point3 a = a_->center(), b = b_->center();
    double d = 0;
    for(unsigned int i = 0; i < 3; ++i)
      d += (a[i] - b[i]) * (a[i] - b[i]);
    d = std::sqrt(d);
    for(unsigned int i = 0; i < 3; ++i)
    {
      double n = (a[i] - b[i]) / d;
      p[i] = a[i] - a_->radius * n;
      q[i] = b[i] + b_->radius * n;
    }
    double l = d - a_->radius - b_->radius;
    return l >= 0 ? l * l : -l * l;
  }

private:
  S_Object *a_, *b_;
};
} // namespace sch
