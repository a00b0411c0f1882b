// Harness interface.  The same harness source is built twice: instrumented and linked with rt.cpp
// (symbolic), and plainly with the repository's flags and native.cpp (replay of a counterexample).
#pragma once
#include <csetjmp>
#include <functional>
#include <string>

extern "C" {
// ---- inputs
double sym_real(const char *name, double lo, double hi);   // any real in [lo, hi]
double sym_any(const char *name);                          // any real / any double in FPA mode
int sym_int(const char *name, int lo, int hi);             // every integer in [lo, hi] (forks)
// ---- assumptions (part of the claim; listed in the evidence)
void sym_assume(bool c);                                   // silently drops the path if false
void sym_assume_lt(double a, double b);                    // cheaper forms: no fork
void sym_assume_le(double a, double b);
void sym_assume_ne(double a, double b);
void sym_assume_eq(double a, double b);
void sym_note(const char *text);                           // an assumption or stub, for the evidence
// ---- obligations
void sym_check(bool c, const char *msg);
void sym_check_eq(double a, double b, const char *msg);
void sym_check_le(double a, double b, const char *msg);    // a <= b
void sym_check_lt(double a, double b, const char *msg);    // a < b
void sym_fail(const char *msg);
// ---- observation
void sym_reach(const char *tag);                           // vacuity guard: must be hit on some path
void sym_out(const char *name, double v);                  // compared between encoding and real code
void sym_outi(const char *name, long v);
// ---- modes
enum { SYM_REAL = 0, SYM_FPA = 1 };
enum { SYM_DIV_ASSUME = 0, SYM_DIV_FORK = 1 };
void sym_mode(int mode);
void sym_div_policy(int p);
void sym_drop_eps(double eps);                             // |c| <= eps added to a symbolic value counts as 0
double sym_fresh(double lo, double hi);                    // for stubs in the encoding only: any value, not an input
double sym_fresh_at(double lo, double hi, double w);       // the same, starting from the value w
void sym_lazy(int on);                                     // on: both sides of a comparison are explored unasked
void sym_abstract_roots(int on);                           // on: sqrt of a symbolic value is any non-negative value
void sym_generic(int on);                                  // on: x == y of distinct expressions assumed false
void sym_abs_fork(int on);                                 // on: fabs forks on the sign
void sym_limits(int quick_ms, int hard_ms);        // solver budgets
int sym_is_symbolic(double v);
int sym_order(double a, double b);                         // 1: a <= b is known, 2: a >= b is known, 0: open
double sym_concrete(double v);                             // witness value (only for printing)
int sym_is_native();
int sym_tier();                                            // 0 quick, 1 thorough: only to widen ranges
// ---- outcome of code that may report an error: 0 returned, 1 threw, 2 terminate, 3 abort
int sym_try_begin_(void);
void sym_try_end_(void);
extern sigjmp_buf *sym_jmp_;
void sym_harness();   // provided by the harness
}

// 0 = returned normally, 1 = exception, 2 = std::terminate, 3 = abort
template <typename F>
int sym_try(F f, std::string *what = nullptr) {
    sigjmp_buf buf;
    sigjmp_buf *old = sym_jmp_;
    volatile int res = 0;
    int j = sigsetjmp(buf, 1);
    if (j == 0) {
        sym_jmp_ = &buf;
        try {
            f();
        } catch (std::exception &e) {
            if (what) *what = e.what();
            res = 1;
        } catch (...) {
            res = 1;
        }
    } else {
        res = j;
    }
    sym_jmp_ = old;
    return res;
}
