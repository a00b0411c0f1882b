// Native side of the harness interface: values come from a file, checks are plain.
#include "symfp.h"
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <algorithm>
#include <sstream>
#include <unistd.h>
#include <vector>

struct Entry { char kind; std::string name; std::string val; bool used = false; };
static std::vector<Entry> entries;
static double tol = 1e-7;
sigjmp_buf *sym_jmp_ = nullptr;

// next unused value of that name: the order in which a harness draws different names does not matter
static Entry &next(char kind, const char *name) {
    for (size_t i = 0; i < entries.size(); i++)
        if (!entries[i].used && entries[i].kind == kind && entries[i].name == name) {
            entries[i].used = true;
            return entries[i];
        }
    printf("DIVERGED want %c %s\n", kind, name);
    fflush(stdout);
    _exit(77);
}

// a model line "j SEED" varies the real inputs around the model: used when stubs of the encoding left
// open what the real code computes from them
static unsigned jitter = 0;
static double rnd() { return ((jitter = jitter * 1664525u + 1013904223u) >> 8) / 16777216.0; }
static double vary(double v, double lo, double hi) {
    double how = rnd(), t = rnd();
    if (how < 0.4) return v;
    if (how < 0.7) return std::min(hi, std::max(lo, v + (t - 0.5) * 0.1 * (hi - lo)));
    return lo + t * (hi - lo);
}

extern "C" {
double sym_real(const char *n, double lo, double hi) {
    double v = strtod(next('r', n).val.c_str(), nullptr);
    return jitter ? vary(v, lo, hi) : v;
}
double sym_any(const char *n) { return strtod(next('r', n).val.c_str(), nullptr); }
int sym_int(const char *n, int, int) { return atoi(next('i', n).val.c_str()); }
void sym_assume(bool c) { if (!c) { printf("ASSUME-FALSE\n"); fflush(stdout); _exit(77); } }
void sym_assume_lt(double a, double b) { sym_assume(a < b); }
void sym_assume_le(double a, double b) { sym_assume(a <= b + 1e-9); }
void sym_assume_ne(double a, double b) { sym_assume(a != b); }
void sym_assume_eq(double a, double b) { sym_assume(std::abs(a - b) <= 1e-9 * (1 + std::abs(a))); }
void sym_note(const char *) {}
void sym_fail(const char *msg) {
    printf("FAIL %s\n", msg);
    fflush(stdout);
    _exit(1);
}
void sym_check(bool c, const char *msg) { if (!c) sym_fail(msg); }
void sym_check_eq(double a, double b, const char *msg) {
    if (std::isnan(a) && std::isnan(b)) return;
    if (a == b) return;
    if (!(std::abs(a - b) <= tol * (1 + std::abs(a) + std::abs(b)))) {
        printf("values %.17g %.17g\n", a, b);
        sym_fail(msg);
    }
}
void sym_check_le(double a, double b, const char *msg) {
    if (!(a <= b + tol * (1 + std::abs(a) + std::abs(b)))) { printf("values %.17g %.17g\n", a, b); sym_fail(msg); }
}
void sym_check_lt(double a, double b, const char *msg) { sym_check_le(a, b, msg); }
void sym_reach(const char *) {}
void sym_out(const char *n, double v) { printf("OUT %s %.17g\n", n, v); }
void sym_outi(const char *n, long v) { printf("OUT %s %ld\n", n, v); }
void sym_mode(int) {}
void sym_div_policy(int) {}
void sym_drop_eps(double) {}
double sym_fresh(double lo, double) { return lo; }
double sym_fresh_at(double, double, double w) { return w; }
void sym_lazy(int) {}
void sym_abstract_roots(int) {}
void sym_generic(int) {}
void sym_abs_fork(int) {}
void sym_limits(int, int) {}
int sym_is_symbolic(double) { return 0; }
int sym_order(double a, double b) { return a <= b ? 1 : a >= b ? 2 : 0; }
double sym_concrete(double v) { return v; }
int sym_is_native() { return 1; }
int sym_tier() { return getenv("SYM_TIER") ? atoi(getenv("SYM_TIER")) : 0; }
// library redirections used by replays built with the redirecting pass only
int __symfp_uid_i(void *, void *, const int *p) { return sym_int("rnd", p[0], p[1]); }
unsigned __symfp_uid_j(void *, void *, const unsigned *p) { return p[0] + (unsigned)sym_int("rnd", 0, (int)(p[1] - p[0])); }
long __symfp_uid_l(void *, void *, const long *p) { return p[0] + sym_int("rnd", 0, (int)(p[1] - p[0])); }
unsigned long __symfp_uid_m(void *, void *, const unsigned long *p) { return p[0] + (unsigned long)sym_int("rnd", 0, (int)(p[1] - p[0])); }
void __symfp_hit(int) {}
}

static void onTerminate() {
    if (sym_jmp_) siglongjmp(*sym_jmp_, 2);
    printf("CRASH terminate\n");
    fflush(stdout);
    _exit(3);
}
static void onAbort(int) {
    if (sym_jmp_) siglongjmp(*sym_jmp_, 3);
    printf("CRASH abort\n");
    fflush(stdout);
    _exit(3);
}
static void onSegv(int s) {
    printf("CRASH signal %d\n", s);
    fflush(stdout);
    _exit(3);
}

int main(int argc, char **argv) {
    std::ifstream in(argc > 1 ? argv[1] : "/dev/stdin");
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream ss(line);
        std::string k;
        Entry e;
        ss >> k >> e.name >> e.val;
        if (k == "j") jitter = (unsigned)atoi(e.name.c_str());
        if (k != "r" && k != "i") continue;
        e.kind = k[0];
        entries.push_back(e);
    }
    std::set_terminate(onTerminate);
    signal(SIGABRT, onAbort);
    static char altstack[1 << 16];
    stack_t ss = {};
    ss.ss_sp = altstack;
    ss.ss_size = sizeof altstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa = {};
    sa.sa_handler = onSegv;
    sa.sa_flags = SA_ONSTACK;
    sigaction(SIGSEGV, &sa, nullptr);
    sigaction(SIGFPE, &sa, nullptr);
    sigaction(SIGBUS, &sa, nullptr);
    std::streambuf *null = nullptr;
    std::cout.rdbuf(null);
    std::cerr.rdbuf(null);
    int t = getenv("SYM_TIMEOUT") ? atoi(getenv("SYM_TIMEOUT")) : 60;
    alarm(t);
    sym_harness();
    printf("DONE\n");
    fflush(stdout);
    _exit(0);
}
