#include <typeinfo>
#include "hist.hpp"
#ifndef HIST_CFG
#error HIST_CFG
#endif
namespace sim
{
  scenario * make_scenario(std::string const & prop)
  {
    // touch lazily created library state (locale caches) before any heap accounting
    { std::stringstream ss; ss << 1.5 << 3 << std::string("x"); double d; ss >> d; }
    return new hist::scenario<hist::HIST_CFG>(prop);
  }
}
