#include <new>
namespace vrt_throw { void bad_alloc() { throw std::bad_alloc(); } }
