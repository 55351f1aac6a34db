// -DVP_NO_INIT: a platform without static initialisers for mutexes and conditions; the constructors then call pthread_mutex_init / pthread_cond_init.
#if defined(VP_NO_INIT)
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <stdexcept>
#include <memory>
#include <pthread.h>
#undef PTHREAD_MUTEX_INITIALIZER
#undef PTHREAD_COND_INITIALIZER
#endif
