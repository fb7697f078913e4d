// Harness interface for integer code (see ix.py). A harness is a function of integers; ix.py reads the LLVM IR that clang makes of it and of the
// library code inlined into it, and asks the solver for arguments that break a check; the same file compiled with IX_NATIVE replays them.
#ifndef IX_H
#define IX_H
#include <exception>
extern "C" {
void ix_assume(bool c);
void ix_check(bool c, const char* label);
void ix_may_throw(bool c);             // from here on a throw is right exactly when c
[[noreturn]] void ix_throw();
}
namespace boost { struct source_location; [[noreturn]] inline void throw_exception(std::exception const&) { ix_throw(); } [[noreturn]] inline void throw_exception(std::exception const&, boost::source_location const&) { ix_throw(); } }
#ifdef IX_NATIVE
#include <vector>
#include <string>
#include <cstdio>
#include <cstdlib>
#include <utility>
struct IxH { std::string name, bounds; int n; void (*call)(const std::vector<long long>&); };
inline std::vector<IxH>& ix_all() { static std::vector<IxH> v; return v; }
template <typename... T, std::size_t... I> void ix_apply(void (*f)(T...), const std::vector<long long>& a, std::index_sequence<I...>) { f(static_cast<T>(a[I])...); }
#define IX(name, bounds, ...) extern "C" void ixh_##name(__VA_ARGS__); \
    namespace { template <typename... T> struct IxR_##name { static void call(const std::vector<long long>& a) { ix_apply((void (*)(T...))&ixh_##name, a, std::index_sequence_for<T...>()); } }; \
    template <typename... T> int ixr_##name(void (*)(T...)) { ix_all().push_back({#name, bounds, (int)sizeof...(T), &IxR_##name<T...>::call}); return 0; } int ixv_##name = ixr_##name(&ixh_##name); } \
    extern "C" void ixh_##name(__VA_ARGS__)
#else
#define IX(name, bounds, ...) extern "C" void ixh_##name(__VA_ARGS__)
#endif
#endif
