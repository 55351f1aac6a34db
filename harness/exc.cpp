// Wrappers that give the construction, throwing and reading of the library's exceptions stable names. They add no behaviour.
#include <new>
#include <string>
#include <boost/assert.hpp>
#include <boost/sync/exceptions.hpp>
#include <boost/sync/detail/throw_exception.hpp>
#include <boost/sync/detail/system_error.hpp>
using namespace boost::sync;
namespace sys = boost::sync::detail::system_ns;
#define EXC(E)\
void E##_make(E* p, int e) { new (p) E(e, "text"); }\
void E##_make1(E* p, int e) { new (p) E(e); }\
void E##_makes(E* p, int e, std::string const* s) { new (p) E(e, *s); }\
int E##_native(E const* p) { return p->native_error(); }\
int E##_value(E const* p) { return p->code().value(); }\
bool E##_system(E const* p) { return p->code().category() == sys::system_category(); }\
void E##_throw(int e) { BOOST_SYNC_DETAIL_THROW(E, (e)("text")); }\
void E##_throw1(int e) { BOOST_SYNC_DETAIL_THROW(E, (e)); }\
void E##_throw_perm(int) { BOOST_SYNC_DETAIL_THROW(E, (sys::errc::operation_not_permitted)("text")); }\
void E##_throw_nomem(int) { BOOST_SYNC_DETAIL_THROW(E, (sys::errc::not_enough_memory)("text")); }
extern "C" {
EXC(lock_error)
EXC(wait_error)
EXC(resource_error)
EXC(overflow_error)
EXC(runtime_exception)
void overflow_error_throw0(int) { BOOST_SYNC_DETAIL_THROW_DEFAULT(overflow_error); }
}
