#ifndef VP_COMMON_HPP
#define VP_COMMON_HPP
#include <new>
#include <vector>
#include <cstdint>
#include <functional>
#include <boost/atomic/detail/platform.hpp>
#if !defined(BOOST_ATOMIC_DETAIL_EXTRA_BACKEND_GENERIC)      // inline assembler is invisible to the simulated machine
#undef BOOST_ATOMIC_DETAIL_EXTRA_BACKEND
#define BOOST_ATOMIC_DETAIL_EXTRA_BACKEND generic
#define BOOST_ATOMIC_DETAIL_EXTRA_BACKEND_GENERIC
#endif
#define BOOST_ENABLE_ASSERT_HANDLER
#include <boost/assert.hpp>
namespace boost {
inline void assertion_failed(char const* e, char const* f, char const*, long l) { if (!rt::faulted) rt::fail("assertion %s fails at %s:%ld", e, f, l); }
inline void assertion_failed_msg(char const* e, char const* m, char const* f, char const*, long l) { if (!rt::faulted) rt::fail("assertion %s (%s) fails at %s:%ld", e, m, f, l); }
}
#endif
