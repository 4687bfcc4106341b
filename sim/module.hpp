// Thread-local objects of a node module that have a destructor would pin the module in memory (glibc keeps a
// module loaded until they are destroyed).  A node's statics end with the node: the simulator records these
// destructors and runs them when it stops the node, before it unloads the module.
#pragma once
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>

#include <vector>

namespace sim {
struct TlsDtor {
    void (*fn)(void *);
    void *obj;
    void *base;
    pthread_t thread;
};
inline std::vector<TlsDtor> &tls_dtors() {
    static auto *v = [] {
        auto *n = new std::vector<TlsDtor>;
        n->reserve(1 << 14);  // must not allocate while a node does
        return n;
    }();
    return *v;
}
inline void *module_of(void *addr) {
    Dl_info i;
    return dladdr(addr, &i) ? i.dli_fbase : nullptr;
}
inline void run_tls_dtors(void *handle) {
    struct link_map *lm = nullptr;
    if (dlinfo(handle, RTLD_DI_LINKMAP, &lm) || !lm) return;
    auto &v = tls_dtors();
    for (;;) {  // a destructor may create others
        size_t i = v.size();
        while (i && v[i - 1].base != (void *)lm->l_addr) i--;
        if (!i) return;
        TlsDtor d = v[i - 1];
        v.erase(v.begin() + (i - 1));
        d.fn(d.obj);
    }
}
// The same at the end of a thread, for what belongs to it.
inline void run_own_tls_dtors() {
    auto &v = tls_dtors();
    for (;;) {
        size_t i = v.size();
        while (i && !pthread_equal(v[i - 1].thread, pthread_self())) i--;
        if (!i) return;
        TlsDtor d = v[i - 1];
        v.erase(v.begin() + (i - 1));
        d.fn(d.obj);
    }
}
}  // namespace sim

#ifndef SIM_RECORD_TLS
#define SIM_RECORD_TLS(dso) true
#endif
extern "C" int __cxa_thread_atexit_impl(void (*)(void *), void *, void *);
extern "C" int __cxa_thread_atexit(void (*fn)(void *), void *obj, void *dso) noexcept {
    if (!SIM_RECORD_TLS(dso)) return __cxa_thread_atexit_impl(fn, obj, dso);
    sim::tls_dtors().push_back({fn, obj, sim::module_of(dso), pthread_self()});
    return 0;
}
