#include <typeinfo>
#include "ser.hpp"
namespace sim
{
  scenario * make_scenario(std::string const & prop)
  {
    { std::stringstream ss; ss << 1.5 << 3 << std::string("x"); double d; ss >> d; }
    std::cout.rdbuf(0); std::cerr.rdbuf(0);
    return new ser::scenario<io::IO_CFG>(prop);
  }
}
