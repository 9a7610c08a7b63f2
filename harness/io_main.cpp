#include <typeinfo>
#ifdef IO_PLC
#include "io_plc.hpp"
#define IO_BACKEND io::plc_backend
#else
#include "io_mesh.hpp"
#define IO_BACKEND io::mesh_backend<io::IO_CFG>
#endif
namespace sim
{
  scenario * make_scenario(std::string const & prop)
  {
    // touch lazily created library state (locale caches) before any heap accounting
    { std::stringstream ss; ss << 1.5 << 3 << std::string("x"); double d; ss >> d; }
    std::cout.rdbuf(0); std::cerr.rdbuf(0);
    return new io::scenario(prop, new IO_BACKEND());
  }
}
