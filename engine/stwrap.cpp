// Coroutines under AddressSanitizer: every coroutine gets a roomy stack whose bounds are known, and a thrown exception
// unpoisons it first (ASan only knows the main stack and would leave stale redzones behind the unwinding).
#include <dlfcn.h>
#include <sanitizer/asan_interface.h>
#include <st.h>
#include <stdint.h>

#include <typeinfo>
#include <unordered_map>

namespace {
struct Start { void* (*f)(void*); void* arg; };
std::unordered_map<void*, char*>& tops() { static std::unordered_map<void*, char*> m; return m; }
void* trampoline(void* p) {
    Start s = *(Start*) p;
    delete (Start*) p;
    void* self = st_thread_self();
    tops()[self] = (char*) __builtin_frame_address(0);
    void* r = s.f(s.arg);
    tops().erase(self);
    return r;
}
}  // namespace

extern "C" st_thread_t __real_st_thread_create(void* (*f)(void*), void* arg, int joinable, int stack);
extern "C" st_thread_t __wrap_st_thread_create(void* (*f)(void*), void* arg, int joinable, int stack) {
    Start* s = new Start{f, arg};
    st_thread_t t = __real_st_thread_create(trampoline, s, joinable, stack < (1 << 19) ? 1 << 19 : stack);
    if (!t) delete s;
    return t;
}
// true when on a coroutine; its stack, and what lies just below the current frame, is then unpoisoned
__attribute__((no_sanitize("address"))) static bool clean() {
    if (tops().empty()) return false;
    auto it = tops().find((void*) st_thread_self());
    if (it == tops().end()) return false;
    char* sp = (char*) __builtin_frame_address(0) - 16384;
    if (sp < it->second && it->second - sp < (1 << 24)) __asan_unpoison_memory_region(sp, it->second - sp);
    return true;
}
extern "C" __attribute__((no_sanitize("address"))) void __asan_handle_no_return() {
    if (clean()) return;
    static void (*real)() = (void (*)()) dlsym(RTLD_NEXT, "__asan_handle_no_return");
    if (real) real();
}
extern "C" void __cxa_throw(void* obj, std::type_info* ti, void (*dtor)(void*)) {
    typedef void (*fn)(void*, std::type_info*, void (*)(void*));
    static fn real = (fn) dlsym(RTLD_NEXT, "__cxa_throw");
    clean();
    real(obj, ti, dtor);
    __builtin_unreachable();
}
