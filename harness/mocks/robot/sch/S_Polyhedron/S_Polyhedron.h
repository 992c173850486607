#pragma once
#include <sch/S_Object/S_Object.h>

namespace sch
{
class S_Polyhedron : public S_Object
{
public:
  void constructFromFile(const std::string & f)
  {
    std::ifstream in(f);
    if(!(in >> local[0] >> local[1] >> local[2] >> radius))
      throw std::runtime_error("constructFromFile: " + f);
  }
};
} // namespace sch
