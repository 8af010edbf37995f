// std::random_device without a device (both builds): a fixed seed value; no property depends on randomness.
#include <random>
#ifdef SX_SYMBOLIC
namespace std { void random_device::_M_init(const std::string&) {} void random_device::_M_fini() {} random_device::result_type random_device::_M_getval() { return 12345; } }
#endif
