// C07, C09, C10: replay of counterexamples on the library's exceptions
#include "rt.hpp"
#include <errno.h>
#include <string>
#include "common.hpp"
#include <boost/sync/exceptions.hpp>
#include <boost/sync/detail/throw_exception.hpp>
#include <boost/sync/detail/system_error.hpp>
using namespace rt;
using namespace boost::sync;
namespace sys = boost::sync::detail::system_ns;
template<class E> void carries(E const& e, int c, const char* n) {
    check(e.code().value() == c && e.native_error() == c, "%s made from error %d carries %d, native_error() is %d", n, c, e.code().value(), e.native_error());
    check(e.code().category() == sys::system_category(), "%s is not in the system category", n);
}
template<class E, class F> void thrown(F f, int c, const char* n) {
    try { f(); } catch (E& e) { carries<E>(e, c, n); return; } catch (...) { fail("throwing a %s throws something else", n); }
    fail("%s is not thrown", n);
}
#define ONE(E) { carries(E(c, "text"), c, #E); carries(E(c), c, #E); carries(E(c, std::string("text")), c, #E); \
    thrown<E>([=] { BOOST_SYNC_DETAIL_THROW(E, (c)("text")); }, c, #E); thrown<E>([=] { BOOST_SYNC_DETAIL_THROW(E, (c)); }, c, #E); \
    thrown<E>([=] { BOOST_SYNC_DETAIL_THROW(E, (sys::errc::operation_not_permitted)("text")); }, EPERM, #E); thrown<E>([=] { BOOST_SYNC_DETAIL_THROW(E, (sys::errc::not_enough_memory)("text")); }, ENOMEM, #E); }
static void all() {
    int c = rnd(2) ? rnd(140) : (int)rnd(1u << 30) * (rnd(2) ? 1 : -1);
    ONE(lock_error) ONE(wait_error) ONE(resource_error) ONE(overflow_error) ONE(runtime_exception)
}
SCENARIO("C07", exceptions7) { all(); }
SCENARIO("C09", exceptions9) { all(); }
SCENARIO("C10", exceptions10) { all(); }
