// Force-included before every instrumented translation unit.
// shared_ptr reference counts are routed to the engine: they order memory (so they feed the happens-before relation and
// the state hash) but are not scheduling points.
#ifndef NMC_PRELUDE_H
#define NMC_PRELUDE_H
#ifdef __cplusplus
extern "C" int nmc_rc_add(volatile int* p, int v);
#include <bits/c++config.h>
#include <bits/gthr.h>
#include <bits/atomic_word.h>
#include <sys/single_threaded.h>
static constexpr char nmc_never_single_threaded = 0;
#define __libc_single_threaded nmc_never_single_threaded
#define __atomic_fetch_add(p, v, o) ::nmc_rc_add((p), (v))
#include <ext/atomicity.h>
#undef __atomic_fetch_add
#undef __libc_single_threaded
#endif
#endif
