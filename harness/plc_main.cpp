#include <typeinfo>
#include "plc_hist.hpp"
namespace sim
{
  scenario * make_scenario(std::string const & prop)
  {
    { std::stringstream ss; ss << 1.5 << 3 << std::string("x"); double d; ss >> d; }
    return new plch::scenario(prop);
  }
}
