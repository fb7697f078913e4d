// native replay of a harness of integers: exit 1 a check fails, 3 trap, 4 unexpected throw or missing throw, 2 assumption not met
#define IX_NATIVE
#include "ix.h"
static int g_may = 0;
extern "C" void ix_assume(bool c) { if (!c) { puts("ASSUMPTION-NOT-MET"); fflush(stdout); _Exit(2); } }
extern "C" void ix_check(bool c, const char* l) { printf("LOG %s %d\n", l, (int)c); if (!c) { printf("REPLAY-VIOLATED label=%s\n", l); fflush(stdout); _Exit(1); } }
extern "C" void ix_may_throw(bool c) { g_may = c ? 1 : 0; }
extern "C" void ix_throw() { if (g_may) { puts("OK thrown"); fflush(stdout); _Exit(0); } puts("REPLAY-VIOLATED label=throws"); fflush(stdout); _Exit(1); }
int main(int argc, char** argv) {
    if (argc > 1 && std::string(argv[1]) == "--list") { for (auto& h : ix_all()) printf("%s\t%d\t%s\n", h.name.c_str(), h.n, h.bounds.c_str()); return 0; }
    for (auto& h : ix_all()) if (argc > 1 && h.name == argv[1]) { std::vector<long long> a; for (int i = 2; i < argc; ++i) a.push_back(strtoll(argv[i], 0, 10)); if ((int)a.size() != h.n) return 9; h.call(a); if (g_may) { puts("REPLAY-VIOLATED label=no-throw"); fflush(stdout); _Exit(1); } puts("OK"); return 0; }
    return 9;
}
