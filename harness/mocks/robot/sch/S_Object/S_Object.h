// Stand-in for sch-core: objects are balls, so that closest points are exact.
#pragma once
#include <cmath>
#include <fstream>
#include <stdexcept>
#include <string>

namespace sch
{
struct Point3
{
  double v[3] = {0, 0, 0};
  double & operator[](unsigned int i) { return v[i]; }
  double operator[](unsigned int i) const { return v[i]; }
};
struct Matrix4x4
{
  double m[4][4] = {{0, 0, 0, 0}, {0, 0, 0, 0}, {0, 0, 0, 0}, {0, 0, 0, 1}};
  double & operator()(unsigned int i, unsigned int j) { return m[i][j]; }
};
class S_Object
{
public:
  virtual ~S_Object() = default;
  void setTransformation(const Matrix4x4 & t)
  {
    pose = t;
    ++moves;
  }
  Point3 center() const
  {
    Point3 c;
    for(unsigned int i = 0; i < 3; ++i)
      c[i] = pose.m[i][0] * local[0] + pose.m[i][1] * local[1] + pose.m[i][2] * local[2] + pose.m[i][3];
    return c;
  }
  Point3 local; // of the center
  double radius = 0;
  Matrix4x4 pose;
  int moves = 0;
};
} // namespace sch
