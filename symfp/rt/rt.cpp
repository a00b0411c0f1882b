// Symbolic runtime: forks the process at undecided comparisons, keeps the path condition, asks z3.
#include "expr.h"
#include "symfp.h"
#include <z3.h>
#include <algorithm>
#include <array>
#include <atomic>
#include <cfloat>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <functional>
#include <iostream>
#include <random>
#include <semaphore.h>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

using namespace sf;
typedef unsigned long ulong_t;

extern "C" const char *const __symfp_fn_names[] __attribute__((weak));
extern "C" const int __symfp_fn_count __attribute__((weak));

sigjmp_buf *sym_jmp_ = nullptr;

static double nowS() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

// ------------------------------------------------------------------ shared state
struct Tag { char name[120]; std::atomic<long> count; };
struct Violation { char msg[400]; int valid; int hang; char model[24000]; };
struct Sample { std::atomic<int> ready; char text[24000]; };
const int MAXTAG = 96, MAXVIO = 24, MAXSAMPLE = 40, MAXFN = 4096;
struct Shared {
    sem_t tokens;
    sem_t vlock;
    double start, deadline;
    std::atomic<long> paths, dropped, forks, decisions, queries, sat, unsat, unknown, hardq, linq, solverUs, cacheHits;
    std::atomic<long> proofRewrite, proofSolver, lemmas, obligations, undecided, incomplete, crashes, branchUnknown, boolChecks, assumedDen, maxDepth;
    std::atomic<int> ntag, nnote, nvio, stop, nsample, nund;
    Tag tags[MAXTAG], notes[MAXTAG];
    Violation vio[MAXVIO];
    Sample samp[MAXSAMPLE];
    char und[MAXVIO][400];
    unsigned char hit[MAXFN];
};
static Shared *sh;

static void tagHit(Tag *tab, std::atomic<int> &n, const char *name) {
    for (int i = 0; i < n.load(); i++)
        if (!strncmp(tab[i].name, name, sizeof tab[i].name - 1)) { tab[i].count++; return; }
    sem_wait(&sh->vlock);
    int i;
    for (i = 0; i < n.load(); i++)
        if (!strncmp(tab[i].name, name, sizeof tab[i].name - 1)) break;
    if (i == n.load() && i < MAXTAG) {
        strncpy(tab[i].name, name, sizeof tab[i].name - 1);
        n++;
    }
    if (i < MAXTAG) tab[i].count++;
    sem_post(&sh->vlock);
}

// ------------------------------------------------------------------ path state
struct Constraint {
    int kind;            // 0: sign of node d in mask; 1: FP comparison; 2: same bits; 
    int d = 0, mask = 0;
    int pred = 0;
    uint64_t a = 0, b = 0;
    bool val = false;
};
struct Input { char kind; std::string name; int node; double val; long ival; };

static int mode = SYM_REAL, divPolicy = SYM_DIV_ASSUME, genericEq = 0, absFork = 0;
static double dropEps = 0;
static int quickMs = 1500, hardMs = 20000;
static std::vector<Constraint> pc;
static std::unordered_map<int, int> maskOf;          // canonical node -> allowed signs
static std::vector<Input> inputs;
static std::unordered_map<int, double> witness;      // var node -> value
static std::vector<std::pair<std::string, double>> outs;
static bool holdsToken = true, isRoot = true;
static int depth = 0;
static unsigned seed = 1;
static std::mt19937_64 rng;
static ulong_t pathHash = 1469598103934665603ull;

static void finish(int code);
[[noreturn]] static void endPath();

// ------------------------------------------------------------------ IEEE evaluation of recipes
static std::unordered_map<int, double> evalMemo;
static double evalBits(uint64_t u);
static double evalNode(int id) {
    auto it = evalMemo.find(id);
    if (it != evalMemo.end()) return it->second;
    const Node &x = P.n[id];
    double r = 0;
    Op op = x.rop;
    if (x.kind == K_VAR) {
        auto w = witness.find(id);
        r = w == witness.end() ? 0 : w->second;
    } else if (op == O_NONE) {
        // built by normalisation only: evaluate the normal form
        switch (x.kind) {
            case K_CONST: r = x.c.get_d(); break;
            case K_SUM: {
                long double s = x.c.get_d();
                for (auto &p : x.t) s += (long double)p.second.get_d() * evalNode(p.first);
                r = (double)s;
                break;
            }
            case K_PROD: {
                long double s = 1;
                auto f = x.f;
                for (auto &p : f) {
                    double v = evalNode(p.first);
                    for (int i = 0; i < std::abs(p.second); i++) s = p.second > 0 ? s * v : s / v;
                }
                r = (double)s;
                break;
            }
            case K_FN: {
                auto args = x.args;
                Op o = x.op;
                double a = evalNode(args[0]), b = args.size() > 1 ? evalNode(args[1]) : 0;
                switch (o) {
                    case O_SQRT: r = std::sqrt(a); break;
                    case O_ABS: r = std::fabs(a); break;
                    case O_ATAN2: r = std::atan2(a, b); break;
                    case O_EXP: r = std::exp(a); break;
                    case O_LOG: r = std::log(a); break;
                    case O_SIN: r = std::sin(a); break;
                    case O_COS: r = std::cos(a); break;
                    case O_POW: r = std::pow(a, b); break;
                    case O_FPTRUNC: r = (double)(float)a; break;
                    case O_CBRT: r = std::cbrt(a); break;
                    default: r = NAN;
                }
                break;
            }
            default: break;
        }
    } else {
        uint64_t ua = x.ra, ub = x.rb;
        double a = evalBits(ua), b = evalBits(ub);
        switch (op) {
            case O_ADD: r = a + b; break;
            case O_SUB: r = a - b; break;
            case O_MUL: r = a * b; break;
            case O_DIV: r = a / b; break;
            case O_NEG: r = -a; break;
            case O_SQRT: r = std::sqrt(a); break;
            case O_ABS: r = std::fabs(a); break;
            case O_ATAN2: r = std::atan2(a, b); break;
            case O_EXP: r = std::exp(a); break;
            case O_LOG: r = std::log(a); break;
            case O_SIN: r = std::sin(a); break;
            case O_COS: r = std::cos(a); break;
            case O_POW: r = std::pow(a, b); break;
            case O_FPTRUNC: r = (double)(float)a; break;
            case O_CBRT: r = std::cbrt(a); break;
            default: r = NAN;
        }
    }
    evalMemo[id] = r;
    return r;
}
static double evalBits(uint64_t u) { return boxed(u) ? evalNode((int)(u & 0xFFFFFFFFu)) : dblOf(u); }
static void setWitness(const std::unordered_map<int, double> &w) {
    for (auto &p : w) witness[p.first] = p.second;
    evalMemo.clear();
}
static int signMask(double v) { return v < 0 ? 1 : v > 0 ? 4 : v == 0 ? 2 : 0; }

static bool fpPred(int pred, double a, double b) {
    bool uno = std::isnan(a) || std::isnan(b);
    switch (pred) {
        case 0: return false;
        case 1: return !uno && a == b;
        case 2: return !uno && a > b;
        case 3: return !uno && a >= b;
        case 4: return !uno && a < b;
        case 5: return !uno && a <= b;
        case 6: return !uno && a != b;
        case 7: return !uno;
        case 8: return uno;
        case 9: return uno || a == b;
        case 10: return uno || a > b;
        case 11: return uno || a >= b;
        case 12: return uno || a < b;
        case 13: return uno || a <= b;
        case 14: return uno || a != b;
        default: return true;
    }
}
static bool evalConstraint(const Constraint &c) {
    if (c.kind == 0) {
        double v = evalNode(c.d);
        int m = signMask(v);
        if (m & c.mask) return true;
        // an equation may hold only up to rounding
        return false;
    }
    double a = evalBits(c.a), b = evalBits(c.b);
    if (c.kind == 1) return fpPred(c.pred, a, b) == c.val;
    if (c.kind == 3) return (std::signbit(a) && !std::isnan(a)) == c.val;
    return (bitsOf(a) == bitsOf(b)) == c.val;
}
static bool witnessSatisfiesPC() {
    for (auto &c : pc) if (!evalConstraint(c)) return false;
    return true;
}

// ------------------------------------------------------------------ z3
static Z3_context zc = nullptr;
static std::unordered_map<int, Z3_ast> zmemo;
static std::unordered_map<int, std::vector<int>> varsMemo;
static std::string zerr;
static void onZ3Error(Z3_context c, Z3_error_code e) { zerr = Z3_get_error_msg(c, e); }
static Z3_sort realS, fpS;

static void zinit() {
    Z3_config cfg = Z3_mk_config();
    zc = Z3_mk_context_rc(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(zc, onZ3Error);
    realS = Z3_mk_real_sort(zc);
    Z3_inc_ref(zc, Z3_sort_to_ast(zc, realS));
    fpS = Z3_mk_fpa_sort_64(zc);
    Z3_inc_ref(zc, Z3_sort_to_ast(zc, fpS));
}
static Z3_ast hold(Z3_ast a) { Z3_inc_ref(zc, a); return a; }
static Z3_ast zq(const mpq_class &q) { return hold(Z3_mk_numeral(zc, q.get_str().c_str(), realS)); }
static Z3_ast zvar(const std::string &n, Z3_sort s) { return hold(Z3_mk_const(zc, Z3_mk_string_symbol(zc, n.c_str()), s)); }
static Z3_ast zmul(const std::vector<Z3_ast> &v) { return v.size() == 1 ? v[0] : hold(Z3_mk_mul(zc, v.size(), v.data())); }
static Z3_ast zadd(const std::vector<Z3_ast> &v) { return v.size() == 1 ? v[0] : hold(Z3_mk_add(zc, v.size(), v.data())); }

static Z3_ast zreal(int id) {
    auto it = zmemo.find(id);
    if (it != zmemo.end()) return it->second;
    const Node x = P.n[id];
    Z3_ast r = nullptr;
    switch (x.kind) {
        case K_CONST: r = zq(x.c); break;
        case K_VAR: r = zvar("v" + std::to_string(id), realS); break;
        case K_SUM: {
            std::vector<Z3_ast> v;
            for (auto &p : x.t) {
                Z3_ast t = zreal(p.first);
                if (p.second == 1) v.push_back(t);
                else v.push_back(zmul({ zq(p.second), t }));
            }
            if (x.c != 0) v.push_back(zq(x.c));
            r = zadd(v);
            break;
        }
        case K_PROD: {
            std::vector<Z3_ast> v;
            for (auto &p : x.f) {
                Z3_ast t;
                if (p.second > 0) t = zreal(p.first);
                else t = zvar("inv" + std::to_string(p.first), realS);
                for (int i = 0; i < std::abs(p.second); i++) v.push_back(t);
            }
            r = zmul(v);
            break;
        }
        case K_FN: r = zvar("f" + std::to_string(id), realS); break;
    }
    zmemo[id] = r;
    return r;
}

// variables and auxiliary atoms below a node (var ids; FN nodes too so that slices share them)
static const std::vector<int> &supp(int id) {
    auto it = varsMemo.find(id);
    if (it != varsMemo.end()) return it->second;
    std::set<int> s;
    const Node x = P.n[id];
    auto add = [&](int c) { auto v = supp(c); s.insert(v.begin(), v.end()); };
    if (x.kind == K_VAR) s.insert(id);
    for (auto &p : x.t) add(p.first);
    for (auto &p : x.f) add(p.first);
    for (int a : x.args) add(a);
    return varsMemo[id] = std::vector<int>(s.begin(), s.end());
}
static void collectAux(int id, std::set<int> &seen, std::vector<Z3_ast> &out) {
    if (!seen.insert(id).second) return;
    const Node x = P.n[id];
    Z3_ast zero = zq(0);
    for (auto &p : x.t) collectAux(p.first, seen, out);
    for (auto &p : x.f) {
        collectAux(p.first, seen, out);
        if (p.second < 0 && seen.insert(-1 - p.first).second) {
            Z3_ast b = zreal(p.first), i = zvar("inv" + std::to_string(p.first), realS);
            out.push_back(hold(Z3_mk_eq(zc, zmul({ b, i }), zq(1))));
            if (P.nonneg(p.first)) {
                out.push_back(hold(Z3_mk_gt(zc, i, zero)));
            }
        }
    }
    for (int a : x.args) collectAux(a, seen, out);
    if (x.kind == K_FN) {
        Z3_ast f = zreal(id);
        if (x.op == O_SQRT) {
            out.push_back(hold(Z3_mk_ge(zc, f, zero)));
            out.push_back(hold(Z3_mk_eq(zc, zmul({ f, f }), zreal(x.args[0]))));
        } else if (x.op == O_ABS) {
            Z3_ast a = zreal(x.args[0]);
            out.push_back(hold(Z3_mk_eq(zc, f, hold(Z3_mk_ite(zc, hold(Z3_mk_ge(zc, a, zero)), a, hold(Z3_mk_unary_minus(zc, a)))))));
        } else if (x.op == O_EXP) {
            out.push_back(hold(Z3_mk_gt(zc, f, zero)));
            // exp(a) vs 1 by the sign of a
            Z3_ast a = zreal(x.args[0]), one = zq(1);
            out.push_back(hold(Z3_mk_eq(zc, hold(Z3_mk_gt(zc, a, zero)), hold(Z3_mk_gt(zc, f, one)))));
            out.push_back(hold(Z3_mk_eq(zc, hold(Z3_mk_lt(zc, a, zero)), hold(Z3_mk_lt(zc, f, one)))));
        } else if (x.op == O_ATAN2) {
            Z3_ast y = zreal(x.args[0]), xx = zreal(x.args[1]);
            Z3_ast hp = zq(mpq_class(M_PI / 2)), pi = zq(mpq_class(M_PI));
            Z3_ast nhp = zq(-mpq_class(M_PI / 2)), npi = zq(-mpq_class(M_PI));
            out.push_back(hold(Z3_mk_le(zc, f, pi)));
            out.push_back(hold(Z3_mk_ge(zc, f, npi)));
            out.push_back(hold(Z3_mk_implies(zc, hold(Z3_mk_gt(zc, y, zero)), hold(Z3_mk_gt(zc, f, zero)))));
            out.push_back(hold(Z3_mk_implies(zc, hold(Z3_mk_ge(zc, y, zero)), hold(Z3_mk_ge(zc, f, zero)))));
            out.push_back(hold(Z3_mk_implies(zc, hold(Z3_mk_lt(zc, y, zero)), hold(Z3_mk_lt(zc, f, zero)))));
            Z3_ast in[2] = { hold(Z3_mk_lt(zc, f, hp)), hold(Z3_mk_gt(zc, f, nhp)) };
            Z3_ast right = hold(Z3_mk_and(zc, 2, in));
            out.push_back(hold(Z3_mk_implies(zc, hold(Z3_mk_gt(zc, xx, zero)), right)));
            out.push_back(hold(Z3_mk_implies(zc, hold(Z3_mk_lt(zc, xx, zero)), hold(Z3_mk_not(zc, right)))));
        }
    }
}

// --- FPA translation
static Z3_ast zfp(uint64_t u);
static Z3_ast zfpNode(int id) {
    auto it = zmemo.find(id);
    if (it != zmemo.end()) return it->second;
    const Node x = P.n[id];
    Z3_ast r = nullptr, rm = hold(Z3_mk_fpa_rne(zc));
    if (x.kind == K_VAR) r = zvar("v" + std::to_string(id), fpS);
    else switch (x.rop) {
        case O_ADD: r = hold(Z3_mk_fpa_add(zc, rm, zfp(x.ra), zfp(x.rb))); break;
        case O_SUB: r = hold(Z3_mk_fpa_sub(zc, rm, zfp(x.ra), zfp(x.rb))); break;
        case O_MUL: r = hold(Z3_mk_fpa_mul(zc, rm, zfp(x.ra), zfp(x.rb))); break;
        case O_DIV: r = hold(Z3_mk_fpa_div(zc, rm, zfp(x.ra), zfp(x.rb))); break;
        case O_NEG: r = hold(Z3_mk_fpa_neg(zc, zfp(x.ra))); break;
        case O_ABS: r = hold(Z3_mk_fpa_abs(zc, zfp(x.ra))); break;
        case O_SQRT: r = hold(Z3_mk_fpa_sqrt(zc, rm, zfp(x.ra))); break;
        case O_FPTRUNC: r = hold(Z3_mk_fpa_to_fp_float(zc, rm, hold(Z3_mk_fpa_to_fp_float(zc, rm, zfp(x.ra), Z3_mk_fpa_sort_32(zc))), fpS)); break;
        default: fprintf(stderr, "FPA: unsupported operation %d\n", x.rop); _exit(9);
    }
    hold(r);
    zmemo[id] = r;
    return r;
}
static Z3_ast zfp(uint64_t u) { return boxed(u) ? zfpNode((int)(u & 0xFFFFFFFFu)) : hold(Z3_mk_fpa_numeral_double(zc, dblOf(u), fpS)); }

static Z3_ast zsign(int d, int mask) {
    Z3_ast a = zreal(d), z = zq(0);
    switch (mask) {
        case 1: return hold(Z3_mk_lt(zc, a, z));
        case 2: return hold(Z3_mk_eq(zc, a, z));
        case 3: return hold(Z3_mk_le(zc, a, z));
        case 4: return hold(Z3_mk_gt(zc, a, z));
        case 5: return hold(Z3_mk_not(zc, hold(Z3_mk_eq(zc, a, z))));
        case 6: return hold(Z3_mk_ge(zc, a, z));
        default: return hold(mask ? hold(Z3_mk_true(zc)) : hold(Z3_mk_false(zc)));
    }
}
static Z3_ast zconstraint(const Constraint &c) {
    if (c.kind == 0) return zsign(c.d, c.mask);
    Z3_ast a = zfp(c.a), b = zfp(c.b), r;
    if (c.kind == 2) r = hold(Z3_mk_eq(zc, a, b));
    else if (c.kind == 3) {   // sign bit, NaN is taken as positive
        r = hold(Z3_mk_fpa_is_negative(zc, a));
    }
    else {
        Z3_ast na = hold(Z3_mk_fpa_is_nan(zc, a)), nb = hold(Z3_mk_fpa_is_nan(zc, b));
        Z3_ast o2[2] = { na, nb };
        Z3_ast uno = hold(Z3_mk_or(zc, 2, o2));
        int p = c.pred & 7;
        Z3_ast base = nullptr;
        switch (p) {
            case 1: base = hold(Z3_mk_fpa_eq(zc, a, b)); break;
            case 2: base = hold(Z3_mk_fpa_gt(zc, a, b)); break;
            case 3: base = hold(Z3_mk_fpa_geq(zc, a, b)); break;
            case 4: base = hold(Z3_mk_fpa_lt(zc, a, b)); break;
            case 5: base = hold(Z3_mk_fpa_leq(zc, a, b)); break;
            case 6: { Z3_ast l[2] = { hold(Z3_mk_not(zc, hold(Z3_mk_fpa_eq(zc, a, b)))), hold(Z3_mk_not(zc, uno)) }; base = hold(Z3_mk_and(zc, 2, l)); break; }
            case 7: base = hold(Z3_mk_not(zc, uno)); break;
            default: base = hold(Z3_mk_false(zc));
        }
        if (c.pred >= 8) { Z3_ast l[2] = { base, uno }; base = p == 7 ? hold(Z3_mk_true(zc)) : hold(Z3_mk_or(zc, 2, l)); }
        r = base;
    }
    if (!c.val) r = hold(Z3_mk_not(zc, r));
    return hold(r);
}
static void constraintSupp(const Constraint &c, std::set<int> &s) {
    auto addBits = [&](uint64_t u) {
        if (!boxed(u)) return;
        int id = (int)(u & 0xFFFFFFFFu);
        if (mode == SYM_REAL) { auto v = supp(id); s.insert(v.begin(), v.end()); return; }
        std::vector<int> st{ id };
        std::set<int> seen;
        while (!st.empty()) {
            int x = st.back();
            st.pop_back();
            if (!seen.insert(x).second) continue;
            if (P.n[x].kind == K_VAR) s.insert(x);
            if (P.n[x].rop != O_NONE) {
                if (boxed(P.n[x].ra)) st.push_back((int)(P.n[x].ra & 0xFFFFFFFFu));
                if (boxed(P.n[x].rb)) st.push_back((int)(P.n[x].rb & 0xFFFFFFFFu));
            }
        }
    };
    if (c.kind == 0) { auto v = supp(c.d); s.insert(v.begin(), v.end()); }
    else { addBits(c.a); addBits(c.b); }
}

static void armTimer(bool on);

struct QueryResult { int res; std::unordered_map<int, double> model; };   // 1 sat, 0 unsat, -1 unknown

static double astDouble(Z3_ast v) {
    if (Z3_is_algebraic_number(zc, v)) {
        Z3_ast l = Z3_get_algebraic_number_lower(zc, v, 40);
        Z3_inc_ref(zc, l);
        return mpq_class(Z3_get_numeral_string(zc, l)).get_d();
    }
    std::string s = Z3_get_numeral_string(zc, v);
    mpq_class q(s);
    q.canonicalize();
    return q.get_d();
}
static double fpDouble(Z3_ast v) {
    Z3_ast bv = Z3_mk_fpa_to_ieee_bv(zc, v);
    Z3_inc_ref(zc, bv);
    bv = Z3_simplify(zc, bv);
    Z3_inc_ref(zc, bv);
    uint64_t u = 0;
    if (Z3_is_numeral_ast(zc, bv)) Z3_get_numeral_uint64(zc, bv, &u);
    double d = dblOf(u);
    return d;
}

static int zcheck(const std::vector<Z3_ast> &as, const std::set<int> &vars, bool nonlinear, ulong_t rlimit, const char *tactic,
                  std::unordered_map<int, double> *model) {
    Z3_solver s;
    bool linear = tactic && !strcmp(tactic, "linear");
    if (linear) {
        s = Z3_mk_simple_solver(zc);
        Z3_solver_inc_ref(zc, s);
        Z3_params p = Z3_mk_params(zc);
        Z3_params_inc_ref(zc, p);
        Z3_params_set_bool(zc, p, Z3_mk_string_symbol(zc, "arith.nl"), false);
        Z3_solver_set_params(zc, s, p);
        Z3_params_dec_ref(zc, p);
    } else if (tactic) {
        Z3_tactic t = Z3_mk_tactic(zc, tactic);
        Z3_tactic_inc_ref(zc, t);
        s = Z3_mk_solver_from_tactic(zc, t);
    } else {
        s = Z3_mk_simple_solver(zc);
    }
    if (!linear) Z3_solver_inc_ref(zc, s);
    if (rlimit) {
        Z3_params p = Z3_mk_params(zc);
        Z3_params_inc_ref(zc, p);
        Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "rlimit"), (unsigned)std::min<ulong_t>(rlimit, 4000000000ul));
        Z3_solver_set_params(zc, s, p);
        Z3_params_dec_ref(zc, p);
    }
    for (Z3_ast a : as) Z3_solver_assert(zc, s, a);
    zerr.clear();
    Z3_lbool r = Z3_solver_check(zc, s);
    int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (linear && res != 0) { zerr.clear(); res = -1; }
    if (!zerr.empty()) { fprintf(stderr, "z3 error: %s\n", zerr.c_str()); res = -1; }
    if (res == 1 && model) {
        Z3_model m = Z3_solver_get_model(zc, s);
        Z3_model_inc_ref(zc, m);
        for (int v : vars) {
            Z3_ast out;
            Z3_ast a = mode == SYM_REAL ? zreal(v) : zfpNode(v);
            if (Z3_model_eval(zc, m, a, true, &out)) {
                Z3_inc_ref(zc, out);
                (*model)[v] = mode == SYM_REAL ? astDouble(out) : fpDouble(out);
            }
        }
        Z3_model_dec_ref(zc, m);
    }
    Z3_solver_dec_ref(zc, s);
    (void)nonlinear;
    return res;
}

static bool isNonlinear(int d, std::set<int> &seen) {
    if (!seen.insert(d).second) return false;
    const Node x = P.n[d];
    if (x.kind == K_PROD) return true;
    if (x.kind == K_FN) return true;
    for (auto &p : x.t) if (isNonlinear(p.first, seen)) return true;
    return false;
}

// run a z3 call in a child with a wall clock limit
static int hardCheck(const std::vector<Z3_ast> &as, const std::set<int> &vars, const char *tactic, int ms, std::unordered_map<int, double> *model) {
    int fd[2];
    if (pipe(fd)) return -1;
    sh->hardq++;
    pid_t pid = fork();
    if (pid == 0) {
        struct sigaction sa = {};
        sa.sa_handler = SIG_DFL;
        sigaction(SIGABRT, &sa, nullptr);
        sigaction(SIGSEGV, &sa, nullptr);
        std::set_terminate(nullptr);
        close(fd[0]);
        rlimit rl{ 3ul << 30, 3ul << 30 };
        (void)rl;
        std::unordered_map<int, double> m;
        int r = zcheck(as, vars, true, 0, tactic, &m);
        std::string out;
        out.append((char *)&r, sizeof r);
        for (auto &p : m) { out.append((char *)&p.first, 4); out.append((char *)&p.second, 8); }
        size_t o = 0;
        while (o < out.size()) { ssize_t k = write(fd[1], out.data() + o, out.size() - o); if (k <= 0) break; o += k; }
        _exit(0);
    }
    close(fd[1]);
    std::string in;
    double end = nowS() + ms * 1e-3;
    char buf[4096];
    bool eof = false;
    while (!eof) {
        double left = end - nowS();
        if (left <= 0) break;
        fd_set fs;
        FD_ZERO(&fs);
        FD_SET(fd[0], &fs);
        timeval tv{ (long)left, (long)((left - (long)left) * 1e6) };
        int k = select(fd[0] + 1, &fs, nullptr, nullptr, &tv);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) break;
        ssize_t n = read(fd[0], buf, sizeof buf);
        if (n <= 0) eof = true;
        else in.append(buf, n);
    }
    close(fd[0]);
    if (!eof) kill(pid, SIGKILL);
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (!eof || in.size() < sizeof(int)) return -1;
    int r;
    memcpy(&r, in.data(), sizeof r);
    if (model)
        for (size_t o = sizeof r; o + 12 <= in.size(); o += 12) {
            int v;
            double d;
            memcpy(&v, in.data() + o, 4);
            memcpy(&d, in.data() + o + 4, 8);
            (*model)[v] = d;
        }
    return r;
}

static std::unordered_map<size_t, int> unsatCache;

// The path condition with products as uninterpreted terms, kept in one incremental solver per process.
static Z3_solver incS = nullptr;
static std::unordered_map<int, int> incMask;   // node -> mask already asserted
static std::set<int> incAux;
static bool incRefuted(const std::vector<Constraint> &extra) {
    if (!incS) {
        incS = Z3_mk_simple_solver(zc);
        Z3_solver_inc_ref(zc, incS);
        Z3_params p = Z3_mk_params(zc);
        Z3_params_inc_ref(zc, p);
        Z3_params_set_bool(zc, p, Z3_mk_string_symbol(zc, "arith.nl"), false);
        Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "rlimit"), 200000);
        Z3_solver_set_params(zc, incS, p);
        Z3_params_dec_ref(zc, p);
    }
    std::vector<Z3_ast> as;
    for (auto &c : pc) {
        auto it = incMask.find(c.d);
        if (it != incMask.end() && it->second == c.mask) continue;
        incMask[c.d] = c.mask;
        as.push_back(zconstraint(c));
        collectAux(c.d, incAux, as);
    }
    for (Z3_ast a : as) Z3_solver_assert(zc, incS, a);
    Z3_solver_push(zc, incS);
    std::vector<Z3_ast> qs;
    std::set<int> seen = incAux;
    for (auto &c : extra) {
        qs.push_back(zconstraint(c));
        collectAux(c.d, seen, qs);
    }
    for (Z3_ast a : qs) Z3_solver_assert(zc, incS, a);
    zerr.clear();
    Z3_lbool r = Z3_solver_check(zc, incS);
    bool un = r == Z3_L_FALSE && zerr.empty();
    zerr.clear();
    Z3_solver_pop(zc, incS, 1);
    return un;
}

// is pc and extra satisfiable?  effort 0: quick; 1: also the expensive stage
static QueryResult solve(const std::vector<Constraint> &extra, int effort) {
    QueryResult q;
    double t0 = nowS();
    armTimer(false);
    sh->queries++;
    // slice
    std::set<int> vars;
    for (auto &c : extra) constraintSupp(c, vars);
    std::vector<std::set<int>> ss(pc.size());
    std::vector<char> in(pc.size(), 0);
    for (size_t i = 0; i < pc.size(); i++) constraintSupp(pc[i], ss[i]);
    for (bool ch = true; ch;) {
        ch = false;
        for (size_t i = 0; i < pc.size(); i++) {
            if (in[i]) continue;
            bool hit = false;
            for (int v : ss[i]) if (vars.count(v)) { hit = true; break; }
            if (hit) {
                in[i] = 1;
                ch = true;
                vars.insert(ss[i].begin(), ss[i].end());
            }
        }
    }
    std::vector<Z3_ast> as;
    std::set<int> seen, nl;
    bool nonlin = false;
    auto addC = [&](const Constraint &c) {
        as.push_back(zconstraint(c));
        if (c.kind == 0) {
            collectAux(c.d, seen, as);
            if (!nonlin && isNonlinear(c.d, nl)) nonlin = true;
        }
    };
    for (auto &c : extra) addC(c);
    for (size_t i = 0; i < pc.size(); i++) if (in[i]) addC(pc[i]);
    size_t key = 0;
    for (Z3_ast a : as) key += Z3_get_ast_id(zc, a) * 0x9E3779B97F4A7C15ull ^ (Z3_get_ast_id(zc, a) << 7);
    if (unsatCache.count(key)) {
        sh->cacheHits++;
        sh->queries--;
        q.res = 0;
        armTimer(true);
        return q;
    }
    bool real = mode == SYM_REAL;
    for (auto &c : extra) real = real && c.kind == 0;
    if (real && incRefuted(extra)) {
        // cheap, and enough for many refutations
        q.res = 0;
        sh->linq++;
    } else if (!nonlin) {
        q.res = zcheck(as, vars, false, 0, nullptr, &q.model);
    } else {
        q.res = hardCheck(as, vars, nullptr, quickMs, &q.model);
        if (q.res < 0 && effort > 0) {
            q.res = hardCheck(as, vars, "qfnra-nlsat", hardMs / 2, &q.model);
            if (q.res < 0) q.res = hardCheck(as, vars, "qfnra", hardMs, &q.model);
        }
    }
    if (getenv("SYM_TRACE")) {
        fprintf(stderr, "[%d] query effort=%d nonlin=%d n=%zu res=%d %.3fs\n", getpid(), effort, nonlin, as.size(), q.res, nowS() - t0);
        if (q.res < 0 && getenv("SYM_TRACE")[0] == '2') {
            for (auto &c : extra) fprintf(stderr, "   extra mask %d: %s\n", c.mask, P.str(c.d, 4).c_str());
            for (size_t i = 0; i < pc.size(); i++) if (in[i]) fprintf(stderr, "   pc mask %d: %s\n", pc[i].mask, P.str(pc[i].d, 4).c_str());
        }
    }
    if (q.res == 0) { sh->unsat++; unsatCache[key] = 1; }
    else if (q.res == 1) sh->sat++;
    else sh->unknown++;
    sh->solverUs += (long)((nowS() - t0) * 1e6);
    armTimer(true);
    return q;
}

// ------------------------------------------------------------------ process control
static int pathCpuLimit = 30;
static void armTimer(bool on) {
    static struct itimerval saved;
    static bool paused = false;
    itimerval z = {};
    if (!on) {
        if (!paused) { setitimer(ITIMER_VIRTUAL, &z, &saved); paused = true; }
    } else {
        if (paused) { if (saved.it_value.tv_sec == 0 && saved.it_value.tv_usec == 0) saved.it_value.tv_sec = pathCpuLimit; setitimer(ITIMER_VIRTUAL, &saved, nullptr); paused = false; }
        else { itimerval v = {}; v.it_value.tv_sec = pathCpuLimit; setitimer(ITIMER_VIRTUAL, &v, nullptr); }
    }
}

static void finish(int code) {
    if (holdsToken) sem_post(&sh->tokens);
    _exit(code);
}
[[noreturn]] static void endPath() {
    finish(0);
    _exit(0);
}
static void checkBudget() {
    if (sh->stop.load()) finish(0);
    if (nowS() > sh->deadline) {
        sh->incomplete++;
        finish(0);
    }
}
// returns true in the child
static bool forkPath() {
    checkBudget();
    sh->forks++;
    bool tok = sem_trywait(&sh->tokens) == 0;
    fflush(stdout);
    armTimer(false);
    pid_t pid = fork();
    if (pid < 0) {
        if (tok) sem_post(&sh->tokens);
        sh->incomplete++;
        armTimer(true);
        return false;
    }
    if (pid == 0) {
        isRoot = false;
        holdsToken = tok;
        itimerval v = {};
        v.it_value.tv_sec = pathCpuLimit;
        armTimer(true);
        setitimer(ITIMER_VIRTUAL, &v, nullptr);
        return true;
    }
    if (!tok) {
        int st;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (WIFSIGNALED(st)) sh->crashes++;
        checkBudget();
    }
    armTimer(true);
    return false;
}

static std::string modelText() {
    std::string s;
    char b[400];
    for (auto &i : inputs) {
        if (i.kind == 'r') {
            double v = evalNode(i.node);
            snprintf(b, sizeof b, "r %s %.17g\n", i.name.c_str(), v);
        } else if (i.kind == 'i') snprintf(b, sizeof b, "i %s %ld\n", i.name.c_str(), i.ival);
        else continue;
        s += b;
    }
    return s;
}

static bool repairWitness();

static void recordViolation(const char *msg, bool hang = false) {
    if (!witnessSatisfiesPC()) repairWitness();
    bool ok = witnessSatisfiesPC();
    sem_wait(&sh->vlock);
    int n = sh->nvio.load();
    int same = 0, slot = -1;
    for (int i = 0; i < n; i++) if (!strncmp(sh->vio[i].msg, msg, sizeof sh->vio[i].msg - 1)) {
        same++;
        if (ok && !sh->vio[i].valid) slot = i;
    }
    // with values left open by stubs a single model may not replay: keep more of them
    bool hidden = false;
    for (auto &i : inputs) hidden = hidden || i.kind == 'h';
    if (slot < 0 && same < (hidden ? 12 : 2) && n < MAXVIO) { slot = n; sh->nvio++; }
    if (slot >= 0) {
        strncpy(sh->vio[slot].msg, msg, sizeof sh->vio[slot].msg - 1);
        strncpy(sh->vio[slot].model, modelText().c_str(), sizeof sh->vio[slot].model - 1);
        sh->vio[slot].valid = ok;
        sh->vio[slot].hang = hang;
    }
    int valid = 0;
    for (int i = 0; i < sh->nvio.load(); i++) valid += sh->vio[i].valid;
    if (valid >= (hidden ? 12 : 3)) sh->stop = 1;
    if (valid > 0) sh->deadline = std::min(sh->deadline, nowS() + 40);   // enough for other violations to show
    sem_post(&sh->vlock);
}
static void recordUndecided(const char *msg) {
    sh->undecided++;
    sem_wait(&sh->vlock);
    int n = sh->nund.load();
    bool have = false;
    for (int i = 0; i < n; i++) if (!strncmp(sh->und[i], msg, 399)) have = true;
    if (!have && n < MAXVIO) { strncpy(sh->und[n], msg, 399); sh->nund++; }
    sem_post(&sh->vlock);
}

// a violation was reached on this path: is the path real?
static int lazyBranches = 0;
static bool repairWitness();
[[noreturn]] static void fail(const char *msg, bool hang = false) {
    sym_jmp_ = nullptr;
    if (getenv("SYM_TRACE")) {
        fprintf(stderr, "[%d] fail %s witnessOk=%d\n", getpid(), msg, (int)witnessSatisfiesPC());
        for (auto &c : pc) if (c.kind == 0) fprintf(stderr, "  pc mask %d of %s\n", (int)c.mask, P.str(c.d, 6).c_str());
    }
    if (lazyBranches) repairWitness();
    if (witnessSatisfiesPC()) { recordViolation(msg, hang); endPath(); }
    QueryResult q;
    q.res = 1;
    // whole path condition
    {
        std::set<int> vars;
        std::vector<Z3_ast> as;
        std::set<int> seen;
        for (auto &c : pc) {
            as.push_back(zconstraint(c));
            if (c.kind == 0) collectAux(c.d, seen, as);
            constraintSupp(c, vars);
        }
        double t0 = nowS();
        armTimer(false);
        sh->queries++;
        q.res = hardCheck(as, vars, nullptr, quickMs * 3, &q.model);
        if (q.res < 0) q.res = hardCheck(as, vars, "qfnra-nlsat", hardMs, &q.model);
        if (q.res == 0) sh->unsat++; else if (q.res == 1) sh->sat++; else sh->unknown++;
        sh->solverUs += (long)((nowS() - t0) * 1e6);
    }
    if (q.res == 0) endPath();      // infeasible after all
    if (q.res == 1) {
        setWitness(q.model);
        recordViolation(msg, hang);
        endPath();
    }
    if (repairWitness()) { recordViolation(msg, hang); endPath(); }
    recordViolation(msg, hang);     // marked not valid; the driver still tries to replay it
    recordUndecided(msg);
    endPath();
}

// random local search for inputs that satisfy the path condition under IEEE evaluation
static bool searchModel(const std::function<bool()> &goal, int tries) {
    auto saved = witness;
    std::vector<int> vs;
    for (auto &i : inputs) if (i.kind != 'i' && P.n[i.node].kind == K_VAR) vs.push_back(i.node);
    if (vs.empty()) return false;
    auto best = witness;
    auto score = [&]() {
        int bad = 0;
        for (auto &c : pc) if (!evalConstraint(c)) bad++;
        return bad;
    };
    evalMemo.clear();
    int bs = score();
    for (int t = 0; t < tries; t++) {
        witness = best;
        int k = 1 + rng() % 3;
        if (t % 7 == 6) k = (int)vs.size();
        for (int j = 0; j < k; j++) {
            int v = vs[k == (int)vs.size() ? j : rng() % vs.size()];
            double w = witness[v];
            switch (rng() % 5) {
                case 0: w = (double)((long)(rng() % 65) - 32) / 8; break;
                case 1: w += ((double)((long)(rng() % 2001) - 1000)) / 4000; break;
                case 2: w = std::round(w * 64) / 64; break;
                case 3: w += ((double)((long)(rng() % 2001) - 1000)) / 500; break;
                default: w = witness[vs[rng() % vs.size()]]; break;
            }
            witness[v] = w;
        }
        evalMemo.clear();
        int s = score();
        if (s <= bs) { bs = s; best = witness; }
        if (s == 0 && goal()) return true;
    }
    witness = saved;
    evalMemo.clear();
    return false;
}
static bool repairWitness() {
    if (witnessSatisfiesPC()) return true;
    return searchModel([] { return true; }, 400);
}

// ------------------------------------------------------------------ signs
// canonical form: (node, flip) with the property sign(d) = flip ? -sign(node) : sign(node)
static bool hasRoot(int a) {
    const Node &x = P.n[a];
    auto r = [](int i) { return P.n[i].kind == K_FN && (P.n[i].op == O_SQRT || P.n[i].op == O_ABS); };
    if (r(a)) return true;
    if (x.kind == K_PROD) for (auto &p : x.f) if (p.second % 2 != 0 && r(p.first)) return true;
    return false;
}
static int canonSign0(int d, bool &flip, int &known);
static int canonSign(int d, bool &flip, int &known) {
    int c = canonSign0(d, flip, known);
    if (known || P.n[c].kind != K_SUM) return c;
    // a known sum of which it is a multiple
    mpq_class k;
    int u = P.unify(c, k);
    if (k < 0) flip = !flip;
    return u;
}
static int canonSign0(int d, bool &flip, int &known) {
    known = 0;
    flip = false;
    for (int guard = 0; guard < 20; guard++) {
        Node x = P.n[d];
        if (x.kind == K_CONST) {
            known = x.c < 0 ? 1 : x.c == 0 ? 2 : 4;
            if (flip) known = known == 1 ? 4 : known == 4 ? 1 : 2;
            return d;
        }
        if (x.kind == K_PROD) {
            // drop factors that are positive; a denominator is non-zero by assumption
            Factors f;
            bool ch = false;
            std::map<int, int> ex;
            for (auto &p : x.f) ex[p.first] = p.second;
            for (auto &p : x.f) {
                bool pos = P.positive(p.first) || (p.second < 0 && (p.second % 2 == 0 || P.nonneg(p.first)));
                const Node &y = P.n[p.first];
                if (!pos && y.kind == K_FN && (y.op == O_SQRT || y.op == O_ABS)) {
                    // sqrt(u) * u^-k: u non-zero
                    auto it = ex.find(y.args[0]);
                    if (it != ex.end() && it->second < 0) pos = true;
                    // u itself a product whose factors appear in the denominator
                    if (!pos && P.n[y.args[0]].kind == K_PROD) {
                        bool all = true;
                        for (auto &g : P.n[y.args[0]].f) { auto i2 = ex.find(g.first); if (i2 == ex.end() || i2->second >= 0) all = false; }
                        pos = all;
                    }
                }
                if (pos) { ch = true; continue; }
                if (p.second < 0) { f.emplace_back(p.first, 1); ch = true; }      // odd power: same sign as base
                else if (p.second > 2) { f.emplace_back(p.first, p.second % 2 ? 1 : 2); ch = true; }
                else f.push_back(p);
            }
            if (ch) { d = P.prod(f, 1); continue; }
            return d;
        }
        if (x.kind == K_SUM) {
            // clear positive denominators
            std::map<int, int> minE;
            for (auto &p : x.t) {
                const Node &y = P.n[p.first];
                if (y.kind == K_PROD)
                    for (auto &q : y.f) if (q.second < 0) minE[q.first] = std::min(minE[q.first], q.second);
            }
            bool ch = false;
            for (auto &p : minE) {
                int e = -p.second;
                if (e % 2 && !P.nonneg(p.first)) e++;
                int m = P.power(p.first, e);
                Terms t;
                mpq_class c = 0;
                for (auto &q : x.t) t.emplace_back(P.mul(q.first, m), q.second);
                if (x.c != 0) t.emplace_back(m, x.c);
                d = P.sum(t, c);
                ch = true;
                break;
            }
            if (ch) continue;
            // common factor of all terms
            if (x.c == 0 && x.t.size() > 1) {
                std::map<int, int> com;
                bool first = true;
                for (auto &p : x.t) {
                    std::map<int, int> cur;
                    const Node &y = P.n[p.first];
                    if (y.kind == K_PROD) for (auto &q : y.f) cur[q.first] = q.second;
                    else cur[p.first] = 1;
                    if (first) com = cur;
                    else for (auto it = com.begin(); it != com.end();) {
                        auto j = cur.find(it->first);
                        if (j == cur.end()) it = com.erase(it);
                        else { it->second = std::min(it->second, j->second); ++it; }
                    }
                    first = false;
                }
                for (auto &p : com) {
                    if (p.second > 0 && P.positive(p.first)) {
                        int m = P.power(p.first, -p.second);
                        Terms t;
                        for (auto &q : x.t) t.emplace_back(P.mul(q.first, m), q.second);
                        d = P.sum(t, 0);
                        ch = true;
                        break;
                    }
                }
                if (ch) continue;
            }
            // difference of two non-negative quantities, one of them a root: compare the squares
            if (x.t.size() + (x.c != 0) == 2) {
                int A = x.t[0].first;
                mpq_class ka = x.t[0].second, kb = x.c != 0 ? x.c : x.t[1].second;
                int B = x.c != 0 ? -1 : x.t[1].first;
                if (sgn(ka) != sgn(kb) && P.nonneg(A) && (B < 0 || P.nonneg(B)) && (hasRoot(A) || (B >= 0 && hasRoot(B)))) {
                    Terms t;
                    t.emplace_back(P.mul(A, A), ka * abs(ka));
                    mpq_class c = 0;
                    if (B >= 0) t.emplace_back(P.mul(B, B), kb * abs(kb));
                    else c = kb * abs(kb);
                    d = P.sum(t, c);
                    continue;
                }
            }
            mpq_class lead = x.t[0].second;
            if (lead != 1) {
                if (lead < 0) flip = !flip;
                mpq_class inv = 1 / lead;
                d = P.scale(d, inv);
                continue;
            }
            return d;
        }
        return d;
    }
    return d;
}
static int flipMask(int m) { return (m & 2) | ((m & 1) << 2) | ((m & 4) >> 2); }

static int knownMask(int c) {
    int m = 7;
    auto it = maskOf.find(c);
    if (it != maskOf.end()) m = it->second;
    return m;
}
static bool posHookF(int a) {
    auto it = maskOf.find(a);
    return it != maskOf.end() && it->second == 4;
}
static bool nonnegHookF(int a) {
    auto it = maskOf.find(a);
    return it != maskOf.end() && !(it->second & 1);
}

static void addSign(int c, int mask) {
    int m = knownMask(c) & mask;
    if (m == knownMask(c)) return;
    maskOf[c] = m;
    Constraint k;
    k.kind = 0;
    k.d = c;
    k.mask = m;
    // replace an older constraint on the same node
    for (auto &o : pc) if (o.kind == 0 && o.d == c) { o = k; return; }
    pc.push_back(k);
}

static int staticMask(int c) {
    if (P.positive(c)) return 4;
    if (P.nonneg(c)) return 6;
    const Node &x = P.n[c];
    if (x.kind == K_SUM) {
        // negated sum nonneg?
        bool ok = x.c <= 0, strict = x.c < 0;
        for (auto &p : x.t) {
            if (p.second > 0 || !P.nonneg(p.first)) { ok = false; break; }
            if (P.positive(p.first)) strict = true;
        }
        if (ok) return strict ? 1 : 3;
    }
    return 7;
}

// comparison of angles with angles / constants turned into polynomial signs; returns 0 if not applicable
static int angleCompare(int d, int &out, bool &flip) {
    const Node x = P.n[d];
    flip = false;
    auto isAng = [&](int i) { return P.n[i].kind == K_FN && P.n[i].op == O_ATAN2; };
    Node s;
    if (x.kind == K_SUM) s = x;
    else return 0;
    if (s.t.size() == 2 && s.c == 0 && isAng(s.t[0].first) && isAng(s.t[1].first) && s.t[0].second == -s.t[1].second) {
        int A = s.t[0].first, B = s.t[1].first;
        if (s.t[0].second < 0) std::swap(A, B);
        // sign(A - B), both in [0, pi]
        int yA = P.n[A].args[0], xA = P.n[A].args[1], yB = P.n[B].args[0], xB = P.n[B].args[1];
        if (!P.nonneg(yA) || !P.nonneg(yB)) return 0;
        out = P.add(P.mul(yA, xB), P.mul(xA, yB), -1);
        return 1;
    }
    if (s.t.size() == 1 && isAng(s.t[0].first)) {
        mpq_class k = s.t[0].second;
        double c = mpq_class(-s.c / k).get_d();   // angle vs c
        int A = s.t[0].first;
        int y = P.n[A].args[0], xx = P.n[A].args[1];
        if (!P.nonneg(y)) return 0;
        if (c <= 0 || c >= M_PI) return 0;
        // sign(angle - c) = -sign(sin c * x - cos c * y)
        double sc = std::sin(c), cc = std::cos(c);
        if (std::fabs(cc) < 1e-15) cc = 0;
        Terms t;
        t.emplace_back(xx, -mpq_class(sc));
        if (cc != 0) t.emplace_back(y, mpq_class(cc));
        out = P.sum(t, 0);
        if (k < 0) flip = true;
        return 1;
    }
    return 0;
}

// Cauchy-Schwarz: dot(a,b) / (sqrt(a.a) sqrt(b.b)) against +-1
static int cauchyMask1(int d, bool canonical);
static int cauchyMask(int d) {
    int m = cauchyMask1(d, false);
    return m == 7 ? cauchyMask1(d, true) : m;
}
static int cauchyMask1(int d, bool canonical) {
    // d = q - 1, 1 - q, q + 1, -q - 1 before canonicalisation of denominators
    const Node x = P.n[d];
    if (x.kind != K_SUM || x.t.size() != 1 || x.c == 0) return 7;
    mpq_class r = x.t[0].second / x.c;
    mpq_class ar = abs(r);
    const Node y = P.n[x.t[0].first];
    if (y.kind != K_PROD) return 7;
    // collect square roots (one power each) and matching denominators
    std::map<int, int> ex;
    for (auto &p : y.f) ex[p.first] = p.second;
    std::vector<int> roots;
    int num = -1;
    int mono = 0;
    for (auto &p : y.f) {
        const Node &z = P.n[p.first];
        if (z.kind == K_FN && z.op == O_SQRT && p.second == 1) {
            auto it = ex.find(z.args[0]);
            if (it == ex.end() || it->second != -1) return 7;
            roots.push_back(z.args[0]);
        } else if (p.second == 1) { num = p.first; mono++; }
    }
    if (roots.size() != 2 || mono != 1) return 7;
    if (canonical) {
        for (int &r2 : roots) if (P.n[r2].kind == K_SUM) r2 = P.canonKids(r2);
        if (P.n[num].kind == K_SUM) num = P.canonKids(num);
    }
    // scale: q = k * num, with |k| = ar relative to constant 1 ; u, v sums of squares
    auto squares = [&](int u, std::map<int, mpq_class> &m) {
        const Node &z = P.n[u];
        auto one = [&](int id, const mpq_class &k) {
            const Node &w = P.n[id];
            if (w.kind == K_PROD && w.f.size() == 1 && w.f[0].second == 2) { m[w.f[0].first] = k; return true; }
            return false;
        };
        if (z.kind == K_SUM) {
            if (z.c != 0) return false;
            for (auto &p : z.t) if (p.second < 0 || !one(p.first, p.second)) return false;
            return true;
        }
        return one(u, 1);
    };
    std::map<int, mpq_class> mu, mv;
    if (!squares(roots[0], mu) || !squares(roots[1], mv)) return 7;
    // num = sum k_ab a*b with a in u, b in v and k_ab^2 <= ku*kv, each a and b used once
    const Node &nn = P.n[num];
    Terms nt;
    if (nn.kind == K_SUM) { if (nn.c != 0) return 7; nt = nn.t; }
    else nt.emplace_back(num, 1);
    std::set<int> ua, ub;
    for (auto &p : nt) {
        const Node &w = P.n[p.first];
        int a = -1, b = -1;
        if (w.kind != K_PROD) return 7;
        if (w.f.size() == 2 && w.f[0].second == 1 && w.f[1].second == 1) { a = w.f[0].first; b = w.f[1].first; }
        else if (w.f.size() == 1 && w.f[0].second == 2) a = b = w.f[0].first;
        else return 7;
        mpq_class k2 = p.second * p.second * ar * ar;
        auto ok = [&](int s, int t) {
            auto i = mu.find(s), j = mv.find(t);
            if (i == mu.end() || j == mv.end()) return false;
            if (k2 > i->second * j->second) return false;
            return !ua.count(s) && !ub.count(t);
        };
        if (ok(a, b)) { ua.insert(a); ub.insert(b); }
        else if (ok(b, a)) { ua.insert(b); ub.insert(a); }
        else return 7;
    }
    // |q| <= 1 established; sign of x = c * (1 + r*q')
    return x.c > 0 ? 6 : 3;
}

// The sign of a sum of products from the signs of the factors alone: every factor becomes a variable of
// the sign it is known to have.  True if the solver shows that d cannot have a sign in mask.
static bool refuteByFactors(int d, int mask) {
    const Node x = P.n[d];
    if (x.kind != K_SUM || x.t.size() > 40) return false;
    std::map<int, Z3_ast> sym;
    std::vector<Z3_ast> as, terms;
    bool some = false;
    Z3_ast zero = zq(0);
    auto factor = [&](int f) {
        auto it = sym.find(f);
        if (it != sym.end()) return it->second;
        Z3_ast v = zvar("f!" + std::to_string(f), realS);
        sym[f] = v;
        bool flip;
        int known;
        int c = canonSign(f, flip, known);
        int m = known ? known : knownMask(c) & staticMask(c);
        if (!known && flip) m = flipMask(m);
        m &= staticMask(f);
        if (m != 7) some = true;
        if (!(m & 1)) as.push_back(hold((m & 2) ? Z3_mk_ge(zc, v, zero) : Z3_mk_gt(zc, v, zero)));
        else if (!(m & 4)) as.push_back(hold((m & 2) ? Z3_mk_le(zc, v, zero) : Z3_mk_lt(zc, v, zero)));
        return v;
    };
    if (x.c != 0) terms.push_back(zq(x.c));
    for (auto &t : x.t) {
        std::vector<Z3_ast> fs{ zq(t.second) };
        const Node y = P.n[t.first];
        if (y.kind == K_PROD)
            for (auto &g : y.f) {
                // an inverse has the sign of what it inverts
                Z3_ast v = factor(g.first);
                if (g.second < 0) {
                    Z3_ast w = zvar("i!" + std::to_string(g.first), realS);
                    as.push_back(hold(Z3_mk_gt(zc, zmul({ v, w }), zero)));
                    v = w;
                }
                for (int i = 0; i < std::abs(g.second); i++) fs.push_back(v);
            }
        else fs.push_back(factor(t.first));
        terms.push_back(zmul(fs));
    }
    if (!some) return false;
    Z3_ast e = zadd(terms);
    std::vector<Z3_ast> any;
    if (mask & 1) any.push_back(hold(Z3_mk_lt(zc, e, zero)));
    if (mask & 2) any.push_back(hold(Z3_mk_eq(zc, e, zero)));
    if (mask & 4) any.push_back(hold(Z3_mk_gt(zc, e, zero)));
    as.push_back(any.size() == 1 ? any[0] : hold(Z3_mk_or(zc, any.size(), any.data())));
    double t0 = nowS();
    armTimer(false);
    int r = zcheck(as, {}, true, 200000, "qfnra-nlsat", nullptr);
    sh->queries++;
    sh->solverUs += (long)((nowS() - t0) * 1e6);
    armTimer(true);
    if (r == 0) sh->unsat++;
    else if (r == 1) sh->sat++;
    else sh->unknown++;
    return r == 0;
}

// which of the three signs can d have?  picks one (forking for the others); want = set for "true"
static bool decideSet(int d0, int want) {
    mpq_class v;
    if (P.isConst(d0, &v)) return want & (v < 0 ? 1 : v == 0 ? 2 : 4);
    int cm = cauchyMask(d0);
    if (!(cm & ~want)) return true;
    if (!(cm & want)) return false;
    int ang;
    bool aflip;
    int d = d0;
    if (angleCompare(d0, ang, aflip)) {
        d = ang;
        if (aflip) want = flipMask(want);
        if (P.isConst(d, &v)) return want & (v < 0 ? 1 : v == 0 ? 2 : 4);
    }
    bool flip;
    int known;
    int c = canonSign(d, flip, known);
    if (known) return known & want;
    if (flip) want = flipMask(want);
    int m = knownMask(c) & staticMask(c);
    if (cm != 7) m &= flip ? flipMask(cm) : cm;
    if (!(m & ~want)) return true;
    if (!(m & want)) return false;
    if (genericEq && (m & 2) && (m & 5) && ((m & want) == 2 || (m & ~want) == 2)) {
        // generic position: distinct expressions are not equal
        tagHit(sh->notes, sh->nnote, "generic position: compared quantities are never exactly equal");
        addSign(c, m & 5);
        m &= 5;
        if (!(m & ~want)) return true;
        if (!(m & want)) return false;
    }
    sh->decisions++;
    if (getenv("SYM_TRACE") && getenv("SYM_TRACE")[0] == '3') fprintf(stderr, "[%d] branch mask %d want %d: %s\n", getpid(), m, want, P.str(c, 6).c_str());
    checkBudget();
    int yes = m & want, no = m & ~want;
    bool w;
    bool haveW = false;
    double ev = evalNode(c);
    int es = signMask(ev);
    if (es & yes) { w = true; haveW = true; }
    else if (es & no) { w = false; haveW = true; }
    else w = true;
    // the side of the witness is taken as possible; ask about the other
    Constraint o;
    o.kind = 0;
    o.d = c;
    o.mask = w ? no : yes;
    QueryResult q;
    q.res = -1;
    const int mine = w ? yes : no;
    if (lazyBranches && refuteByFactors(d, flip ? flipMask(mine) : mine)) {
        addSign(c, o.mask);
        repairWitness();
        return !w;
    }
    if (lazyBranches && refuteByFactors(d, flip ? flipMask(o.mask) : o.mask)) q.res = 0;
    else if (lazyBranches) {
        tagHit(sh->notes, sh->nnote, "branches are explored without asking whether they are feasible (over-approximation)");
        haveW = true;
    } else q = solve({ o }, 0);
    if (q.res == 0) {
        addSign(c, w ? yes : no);
        return w;
    }
    if (!haveW) {
        Constraint o2 = o;
        o2.mask = w ? yes : no;
        QueryResult q2 = solve({ o2 }, 0);
        if (q2.res == 0) {
            addSign(c, o.mask);
            if (q.res == 1) setWitness(q.model);
            return !w;
        }
        if (q2.res == 1) {
            // keep as witness for our side
            auto keep = q2.model;
            bool child = forkPath();
            depth++;
            if (child) {
                if (q.res == 1) setWitness(q.model); else sh->branchUnknown++;
                addSign(c, w ? no : yes);
                pathHash = pathHash * 1099511628211ull + 1;
                return !w;
            }
            setWitness(keep);
            addSign(c, w ? yes : no);
            pathHash = pathHash * 1099511628211ull + 2;
            return w;
        }
    }
    bool child = forkPath();
    depth++;
    if (depth > sh->maxDepth) sh->maxDepth = depth;
    if (child) {
        if (q.res == 1) setWitness(q.model); else sh->branchUnknown++;
        addSign(c, w ? no : yes);
        if (lazyBranches) repairWitness();
        pathHash = pathHash * 1099511628211ull + 1;
        return !w;
    }
    addSign(c, w ? yes : no);
    pathHash = pathHash * 1099511628211ull + 2;
    return w;
}

// assume sign(d) in want
static void assumeSet(int d0, int want, bool required) {
    mpq_class v;
    if (P.isConst(d0, &v)) {
        if (!(want & (v < 0 ? 1 : v == 0 ? 2 : 4))) { sh->dropped++; endPath(); }
        return;
    }
    int ang;
    bool aflip;
    int d = d0;
    if (angleCompare(d0, ang, aflip)) {
        d = ang;
        if (aflip) want = flipMask(want);
    }
    bool flip;
    int known;
    int c = canonSign(d, flip, known);
    if (known) {
        if (!(known & want)) { sh->dropped++; endPath(); }
        return;
    }
    if (flip) want = flipMask(want);
    int m = knownMask(c) & staticMask(c);
    if (!(m & ~want)) return;
    if (!(m & want)) { sh->dropped++; endPath(); }
    int es = signMask(evalNode(c));
    if (!(es & want & m) && lazyBranches) {
        addSign(c, m & want);
        repairWitness();
        return;
    }
    if (!(es & want & m)) {
        Constraint o;
        o.kind = 0;
        o.d = c;
        o.mask = m & want;
        QueryResult q = solve({ o }, 1);
        if (q.res == 0) { sh->dropped++; endPath(); }
        if (q.res == 1) setWitness(q.model);
    }
    addSign(c, m & want);
    (void)required;
}

// ------------------------------------------------------------------ arithmetic entry points
static int asNode(double d) {
    if (boxed(d)) return idOf(d);
    return P.konst(mpq_class(d));
}
static double mk(int id, Op rop, double a, double b) {
    mpq_class v;
    if (P.isConst(id, &v)) {
        double d = v.get_d();
        return d;
    }
    Node &x = P.n[id];
    if (x.rop == O_NONE && x.kind != K_VAR) {
        // do not let a node's recipe refer to itself
        uint64_t ua = bitsOf(a), ub = bitsOf(b);
        if (!(boxed(ua) && (int)(ua & 0xFFFFFFFFu) >= id) && !(boxed(ub) && (int)(ub & 0xFFFFFFFFu) >= id)) {
            x.rop = rop;
            x.ra = ua;
            x.rb = ub;
        }
    }
    return box(id);
}
static double fpNode(Op op, double a, double b) {
    Node x;
    x.kind = K_FN;
    x.op = op;
    x.name = std::to_string(bitsOf(a)) + "," + std::to_string(bitsOf(b));
    x.rop = op;
    x.ra = bitsOf(a);
    x.rb = bitsOf(b);
    return box(P.intern(std::move(x)));
}
static bool sy(double a, double b) { return boxed(a) || boxed(b); }
static bool special(double a) { return !boxed(a) && !std::isfinite(a); }
static int signOf(double a) {   // forks until the sign is known
    if (!boxed(a)) return a < 0 ? -1 : a > 0 ? 1 : 0;
    if (decideSet(idOf(a), 4)) return 1;
    if (decideSet(idOf(a), 1)) return -1;
    return 0;
}

extern "C" {

void __symfp_hit(int id) {
    if (sh && id < MAXFN && !sh->hit[id]) sh->hit[id] = 1;
}

double __symfp_add(double a, double b) {
    if (!sy(a, b)) return a + b;
    if (mode == SYM_FPA) return fpNode(O_ADD, a, b);
    if (special(a)) return a;
    if (special(b)) return b;
    if (dropEps > 0) {
        if (!boxed(a) && a != 0 && std::fabs(a) <= dropEps) { tagHit(sh->notes, sh->nnote, "tiny regularisers added to symbolic values are dropped"); return b; }
        if (!boxed(b) && b != 0 && std::fabs(b) <= dropEps) { tagHit(sh->notes, sh->nnote, "tiny regularisers added to symbolic values are dropped"); return a; }
    }
    return mk(P.add(asNode(a), asNode(b)), O_ADD, a, b);
}
double __symfp_sub(double a, double b) {
    if (!sy(a, b)) return a - b;
    if (mode == SYM_FPA) return fpNode(O_SUB, a, b);
    if (special(a)) return a;
    if (special(b)) return -b;
    return mk(P.add(asNode(a), asNode(b), -1), O_SUB, a, b);
}
double __symfp_neg(double a) {
    if (!boxed(a)) return -a;
    if (mode == SYM_FPA) return fpNode(O_NEG, a, 0);
    return mk(P.scale(idOf(a), -1), O_NEG, a, 0);
}
double __symfp_mul(double a, double b) {
    if (!sy(a, b)) return a * b;
    if (mode == SYM_FPA) return fpNode(O_MUL, a, b);
    if (special(a) || special(b)) {
        double s = special(a) ? a : b, o = special(a) ? b : a;
        if (std::isnan(s)) return s;
        int g = signOf(o);
        return g == 0 ? NAN : g * s;
    }
    return mk(P.mul(asNode(a), asNode(b)), O_MUL, a, b);
}
double __symfp_div(double a, double b) {
    if (!sy(a, b)) return a / b;
    if (mode == SYM_FPA) return fpNode(O_DIV, a, b);
    if (special(b)) return std::isnan(b) ? b : 0.0;
    if (!boxed(b)) {
        if (b == 0) { int g = signOf(a); return g == 0 ? NAN : g * INFINITY; }
        return mk(P.scale(idOf(a), 1 / mpq_class(b)), O_DIV, a, b);
    }
    int bn = idOf(b);
    // zero denominators
    bool flip;
    int known;
    int c = canonSign(bn, flip, known);
    int m = known ? known : knownMask(c) & staticMask(c);
    if (m & 2) {
        if (divPolicy == SYM_DIV_FORK) {
            if (decideSet(bn, 2)) {
                if (special(a)) return a;
                int g = signOf(a);
                return g == 0 ? NAN : g * INFINITY;
            }
        } else {
            sh->assumedDen++;
            tagHit(sh->notes, sh->nnote, "denominators are non-zero (non-degenerate configurations)");
            assumeSet(bn, 5, true);
        }
    }
    if (special(a)) { if (std::isnan(a)) return a; return signOf(b) * a; }
    return mk(P.mul(asNode(a), P.power(bn, -1)), O_DIV, a, b);
}

static double unary(Op op, double a) {
    return mk(P.fn(op, { idOf(a) }), op, a, 0);
}
double __symfp_fabs(double a) {
    if (!boxed(a)) return std::fabs(a);
    if (mode == SYM_FPA) return fpNode(O_ABS, a, 0);
    if (absFork) return decideSet(idOf(a), 6) ? a : __symfp_neg(a);
    bool flip;
    int known;
    int c = canonSign(idOf(a), flip, known);
    int m = known ? known : knownMask(c) & staticMask(c);
    if (flip && !known) m = flipMask(m);
    if (!(m & 1)) return a;
    if (!(m & 4)) return __symfp_neg(a);
    return mk(P.abs_(idOf(a)), O_ABS, a, 0);
}
// |u| of known sign becomes u or -u
static int resolveAbs(int r) {
    auto sign = [&](int u) {
        bool flip;
        int known;
        int c = canonSign(u, flip, known);
        int m = known ? known : knownMask(c) & staticMask(c);
        return flip && !known ? flipMask(m) : m;
    };
    auto isAbs = [](int i) { return P.n[i].kind == K_FN && P.n[i].op == O_ABS; };
    const Node x = P.n[r];
    if (isAbs(r)) {
        int m = sign(x.args[0]);
        return !(m & 1) ? x.args[0] : !(m & 4) ? P.scale(x.args[0], -1) : r;
    }
    if (x.kind == K_SUM && x.t.size() == 1 && x.c == 0) return P.scale(resolveAbs(x.t[0].first), x.t[0].second);
    if (x.kind != K_PROD) return r;
    int out = P.konst(1);
    bool ch = false;
    for (auto &p : x.f) {
        int b = isAbs(p.first) ? resolveAbs(p.first) : p.first;
        ch |= b != p.first;
        out = P.mul(out, P.power(b, p.second));
    }
    return ch ? out : r;
}
// a sum of squares of multiples of one expression is a multiple of its square
static int mergeSquares(int a) {
    const Node x = P.n[a];
    if (x.kind != K_SUM || x.c != 0 || x.t.size() < 2 || x.t.size() > 3) return a;
    for (auto &p : x.t) {
        const Node &y = P.n[p.first];
        if (y.kind != K_PROD || y.f.size() != 1 || y.f[0].second != 2 || P.n[y.f[0].first].kind != K_SUM) return a;
    }
    int k = P.canonKids(a);
    return P.n[k].kind == K_SUM && P.n[k].t.size() > 1 ? a : k;
}
static int abstractRoots = 0;
static std::map<int, double> rootOf;
void sym_abstract_roots(int on) { abstractRoots = on; }
double __symfp_sqrt(double a) {
    if (!boxed(a)) return std::sqrt(a);
    if (mode == SYM_FPA) return fpNode(O_SQRT, a, 0);
    int n = idOf(a);
    if (abstractRoots) {
        auto it = rootOf.find(n);
        if (it != rootOf.end()) return it->second;
        tagHit(sh->notes, sh->nnote, "roots are any non-negative value (over-approximation)");
        return rootOf[n] = sym_fresh(0, 1 << 30);
    }
    if (!P.nonneg(n)) {
        bool flip;
        int known;
        int c = canonSign(n, flip, known);
        int m = known ? known : knownMask(c) & staticMask(c);
        if (flip && !known) m = flipMask(m);
        if (m & 1) {
            tagHit(sh->notes, sh->nnote, "arguments of square roots are non-negative");
            assumeSet(n, 6, true);
        }
    }
    return mk(resolveAbs(P.sqrt_(mergeSquares(n))), O_SQRT, a, 0);
}
static double angNode(int y, int x, Op rop, double a, double b) {
    // constant directions
    mpq_class vy, vx;
    if (P.isConst(y, &vy) && P.isConst(x, &vx)) return std::atan2(vy.get_d(), vx.get_d());
    return mk(P.fn(O_ATAN2, { y, x }), rop, a, b);
}
double __symfp_atan2(double a, double b) {
    if (!sy(a, b)) return std::atan2(a, b);
    return angNode(asNode(a), asNode(b), O_ATAN2, a, b);
}
double __symfp_atan(double a) { return boxed(a) ? __symfp_atan2(a, 1.0) : std::atan(a); }
double __symfp_acos(double a) {
    if (!boxed(a)) return std::acos(a);
    double s = __symfp_sqrt(__symfp_sub(1.0, __symfp_mul(a, a)));
    return __symfp_atan2(s, a);
}
double __symfp_asin(double a) {
    if (!boxed(a)) return std::asin(a);
    double s = __symfp_sqrt(__symfp_sub(1.0, __symfp_mul(a, a)));
    return __symfp_atan2(a, s);
}
static bool isAng(double a, double &y, double &x) {
    if (!boxed(a)) return false;
    const Node &n = P.n[idOf(a)];
    if (n.kind != K_FN || n.op != O_ATAN2) return false;
    mpq_class v;
    y = P.isConst(n.args[0], &v) ? v.get_d() : box(n.args[0]);
    x = P.isConst(n.args[1], &v) ? v.get_d() : box(n.args[1]);
    return true;
}
double __symfp_sin(double a) {
    if (!boxed(a)) return std::sin(a);
    double y, x;
    if (isAng(a, y, x)) return __symfp_div(y, __symfp_sqrt(__symfp_add(__symfp_mul(y, y), __symfp_mul(x, x))));
    return unary(O_SIN, a);
}
double __symfp_cos(double a) {
    if (!boxed(a)) return std::cos(a);
    double y, x;
    if (isAng(a, y, x)) return __symfp_div(x, __symfp_sqrt(__symfp_add(__symfp_mul(y, y), __symfp_mul(x, x))));
    return unary(O_COS, a);
}
double __symfp_tan(double a) {
    if (!boxed(a)) return std::tan(a);
    double y, x;
    if (isAng(a, y, x)) return __symfp_div(y, x);
    return __symfp_div(__symfp_sin(a), __symfp_cos(a));
}
double __symfp_exp(double a) { return boxed(a) ? unary(O_EXP, a) : std::exp(a); }
double __symfp_log(double a) {
    if (!boxed(a)) return std::log(a);
    const Node &n = P.n[idOf(a)];
    if (n.kind == K_FN && n.op == O_EXP) return box(n.args[0]);
    return unary(O_LOG, a);
}
double __symfp_log10(double a) { return boxed(a) ? __symfp_div(__symfp_log(a), M_LN10) : std::log10(a); }
double __symfp_log2(double a) { return boxed(a) ? __symfp_div(__symfp_log(a), M_LN2) : std::log2(a); }
double __symfp_exp2(double a) { return boxed(a) ? __symfp_exp(__symfp_mul(a, M_LN2)) : std::exp2(a); }
double __symfp_cbrt(double a) { return boxed(a) ? unary(O_CBRT, a) : std::cbrt(a); }
double __symfp_hypot(double a, double b) { return sy(a, b) ? __symfp_sqrt(__symfp_add(__symfp_mul(a, a), __symfp_mul(b, b))) : std::hypot(a, b); }
double __symfp_powi(double a, int e) {
    if (!boxed(a)) return std::pow(a, e);
    double r = 1;
    for (int i = 0; i < std::abs(e); i++) r = __symfp_mul(r, a);
    return e < 0 ? __symfp_div(1.0, r) : r;
}
double __symfp_pow(double a, double b) {
    if (!sy(a, b)) return std::pow(a, b);
    if (!boxed(b)) {
        if (b == (int)b && std::fabs(b) <= 16) return __symfp_powi(a, (int)b);
        if (b == 0.5) return __symfp_sqrt(a);
        if (b == -0.5) return __symfp_div(1.0, __symfp_sqrt(a));
    }
    // a^b = exp(b log a)
    if (!boxed(a) && a > 0) return __symfp_exp(__symfp_mul(b, std::log(a)));
    return __symfp_exp(__symfp_mul(b, __symfp_log(a)));
}
bool __symfp_cmp(int pred, double a, double b);
double __symfp_fmin(double a, double b) { return __symfp_cmp(5, a, b) ? a : b; }
double __symfp_fmax(double a, double b) { return __symfp_cmp(3, a, b) ? a : b; }
double __symfp_copysign(double a, double b) {
    if (!sy(a, b)) return std::copysign(a, b);
    double m = __symfp_fabs(a);
    return __symfp_cmp(3, b, 0.0) ? m : __symfp_neg(m);
}
static void unsupported(const char *what) {
    char b[300];
    snprintf(b, sizeof b, "unsupported operation on a symbolic value: %s", what);
    recordUndecided(b);
    endPath();
}
double __symfp_sinh(double a) { if (boxed(a)) unsupported("sinh"); return std::sinh(a); }
double __symfp_cosh(double a) { if (boxed(a)) unsupported("cosh"); return std::cosh(a); }
double __symfp_tanh(double a) { if (boxed(a)) unsupported("tanh"); return std::tanh(a); }
double __symfp_fmod(double a, double b) { if (sy(a, b)) unsupported("fmod"); return std::fmod(a, b); }

long __symfp_floorint(double a) {
    double lo = -1e18, hi = 1e18;   // established: lo <= a < hi (the witness may sit a rounding error beside)
    for (int i = 0; i < 1000; i++) {
        double k = std::floor(evalNode(idOf(a)));
        if (!std::isfinite(k)) k = 0;
        k = std::min(std::max(k, lo), hi - 1);
        if (k > lo && __symfp_cmp(4, a, k)) { hi = k; continue; }
        lo = std::max(lo, k);
        if (k + 1 < hi && __symfp_cmp(3, a, k + 1)) { lo = k + 1; continue; }
        return (long)k;
    }
    unsupported("floor does not settle");
    return 0;
}
double __symfp_floor(double a) { return boxed(a) ? (double)__symfp_floorint(a) : std::floor(a); }
double __symfp_ceil(double a) { return boxed(a) ? -(double)__symfp_floorint(__symfp_neg(a)) : std::ceil(a); }
double __symfp_trunc(double a) {
    if (!boxed(a)) return std::trunc(a);
    return __symfp_cmp(3, a, 0.0) ? __symfp_floor(a) : __symfp_ceil(a);
}
double __symfp_round(double a) { return boxed(a) ? (double)__symfp_floorint(__symfp_add(a, 0.5)) : std::round(a); }
double __symfp_rint(double a) { return boxed(a) ? (double)__symfp_floorint(__symfp_add(a, 0.5)) : std::rint(a); }

long __symfp_toint(double a, int bits, int sign) {
    if (!boxed(a)) {
        if (!sign) return (long)(unsigned long)a;
        if (bits == 32) return (int)a;
        return (long)a;
    }
    return (long)__symfp_trunc(a);
}

static bool fpBranch(Constraint c) {
    // FPA mode: decide truth of c (with c.val = true)
    sh->decisions++;
    checkBudget();
    for (auto &o : pc)
        if (o.kind == c.kind && o.pred == c.pred && o.a == c.a && o.b == c.b) return o.val;
    c.val = true;
    bool w = evalConstraint(c);
    Constraint o = c;
    o.val = !w;
    QueryResult q = solve({ o }, 1);
    Constraint t = c;
    t.val = w;
    if (q.res == 0) { pc.push_back(t); return w; }
    if (q.res < 0) sh->branchUnknown++;
    bool child = forkPath();
    depth++;
    if (child) {
        if (q.res == 1) setWitness(q.model);
        pc.push_back(o);
        return !w;
    }
    pc.push_back(t);
    return w;
}

bool __symfp_cmp(int pred, double a, double b) {
    if (!sy(a, b)) return fpPred(pred, a, b);
    if (mode == SYM_FPA) {
        Constraint c;
        c.kind = 1;
        c.pred = pred;
        c.a = bitsOf(a);
        c.b = bitsOf(b);
        return fpBranch(c);
    }
    if (special(a) || special(b)) {
        if ((special(a) && std::isnan(a)) || (special(b) && std::isnan(b))) return pred >= 8;
        double fa = special(a) ? a : 0, fb = special(b) ? b : 0;
        return fpPred(pred, fa, fb);
    }
    switch (pred) {
        case 0: case 8: return false;
        case 7: case 15: return true;
        default: break;
    }
    int want;
    switch (pred & 7) {
        case 1: want = 2; break;
        case 2: want = 4; break;
        case 3: want = 6; break;
        case 4: want = 1; break;
        case 5: want = 3; break;
        default: want = 5; break;
    }
    if (boxed(a) && boxed(b) && idOf(a) == idOf(b)) return want & 2;
    int d = P.add(asNode(a), asNode(b), -1);
    return decideSet(d, want);
}
bool __symfp_signbit(double a) {
    if (!boxed(a)) return std::signbit(a);
    if (mode == SYM_REAL) return decideSet(idOf(a), 1);
    Constraint c;   // a < 0, or a is a zero (or NaN) with the sign bit set
    c.kind = 3;
    c.a = c.b = bitsOf(a);
    return fpBranch(c);
}
double __symfp_select(int pred, double a, double b, double x, double y) { return __symfp_cmp(pred, a, b) ? x : y; }

bool __symfp_fpclass(double a, int mask) {
    if (boxed(a) && mode == SYM_REAL) {
        bool any = false;
        // nan 3, -inf 4, -norm 8, -sub 16, -0 32, +0 64, +sub 128, +norm 256, +inf 512
        int fin = mask & (8 | 16 | 32 | 64 | 128 | 256);
        if (fin == (8 | 16 | 32 | 64 | 128 | 256)) return true;
        if (!fin) return false;
        int want = 0;
        if (mask & 8) want |= 1;
        if (mask & (32 | 64)) want |= 2;
        if (mask & 256) want |= 4;
        (void)any;
        return decideSet(idOf(a), want);
    }
    if (boxed(a)) {
        bool r = false;
        if ((mask & 3)) { if (__symfp_cmp(8, a, a)) return true; r = false; }
        if (mask & 4) { if (__symfp_cmp(1, a, -INFINITY)) return true; }
        if (mask & 512) { if (__symfp_cmp(1, a, INFINITY)) return true; }
        int fin = mask & (8 | 16 | 32 | 64 | 128 | 256);
        if (fin == (8 | 16 | 32 | 64 | 128 | 256)) {
            if (__symfp_cmp(8, a, a)) return false;
            if (__symfp_cmp(1, a, INFINITY)) return false;
            if (__symfp_cmp(1, a, -INFINITY)) return false;
            return true;
        }
        return r;
    }
    int c = 0;
    if (std::isnan(a)) c = 3;
    else if (std::isinf(a)) c = a < 0 ? 4 : 512;
    else if (a == 0) c = std::signbit(a) ? 32 : 64;
    else if (std::fpclassify(a) == FP_SUBNORMAL) c = a < 0 ? 16 : 128;
    else c = a < 0 ? 8 : 256;
    return mask & c;
}

// ---- float
const uint32_t FTAG = 0x7FC00000u;
static std::vector<int> *floatTab;
double __symfp_f2d(float f) {
    uint32_t u;
    memcpy(&u, &f, 4);
    if ((u & 0xFFC00000u) == FTAG && (u & 0x3FFFFF) && floatTab) {
        uint32_t i = (u & 0x3FFFFF) - 1;
        if (i < floatTab->size()) return box((*floatTab)[i]);
    }
    return (double)f;
}
float __symfp_d2f(double d) {
    if (!boxed(d)) return (float)d;
    if (!floatTab) floatTab = new std::vector<int>;
    uint32_t i = 0;
    for (; i < floatTab->size(); i++) if ((*floatTab)[i] == idOf(d)) break;
    if (i == floatTab->size()) floatTab->push_back(idOf(d));
    uint32_t u = FTAG | (i + 1);
    float f;
    memcpy(&f, &u, 4);
    return f;
}
float __symfp_fptrunc(double d) {
    if (!boxed(d)) return (float)d;
    if (floatTab)   // a value that came from a float is one already
        for (int f : *floatTab) if (f == idOf(d)) return __symfp_d2f(d);
    if (mode == SYM_FPA) return __symfp_d2f(fpNode(O_FPTRUNC, d, 0));
    int id = P.fn(O_FPTRUNC, { idOf(d) });
    P.n[id].rop = O_FPTRUNC;
    P.n[id].ra = bitsOf(d);
    return __symfp_d2f(box(id));
}

void __symfp_need_concrete(double d, const char *what) {
    if (boxed(d)) unsupported(what);
}
size_t __symfp_hash_d(const void *, double) { return 0; }
size_t __symfp_hash_f(const void *, float) { return 0; }
int __symfp_uid_i(void *, void *, const int *p) { return sym_int("rnd", p[0], p[1]); }
unsigned __symfp_uid_j(void *, void *, const unsigned *p) { return p[0] + (unsigned)sym_int("rnd", 0, (int)(p[1] - p[0])); }
long __symfp_uid_l(void *, void *, const long *p) { return p[0] + sym_int("rnd", 0, (int)(p[1] - p[0])); }
unsigned long __symfp_uid_m(void *, void *, const unsigned long *p) { return p[0] + (unsigned long)sym_int("rnd", 0, (int)(p[1] - p[0])); }

// ---- harness interface
static double newVar(const char *name, double lo, double hi, bool bounded, char kind = 'r') {
    std::string nm = std::string(name);
    int k = 0;
    for (auto &i : inputs) if (i.kind == kind && i.name == nm) k++;
    std::string full = k ? nm + "#" + std::to_string(k) : nm;
    int id = P.var(full);
    double w;
    if (bounded) {
        double span = hi - lo;
        w = lo + span * (double)(1 + rng() % 255) / 256.0;
        w = std::round(w * 1024) / 1024;
        w = std::min(std::max(w, lo), hi);
    } else w = (double)((long)(rng() % 513) - 256) / 64.0;
    witness[id] = w;
    evalMemo.clear();
    inputs.push_back({ kind, nm, id, 0, 0 });
    if (bounded) {
        bool flip;
        int known;
        int a = P.sum({ { id, 1 } }, -mpq_class(lo)), b = P.sum({ { id, 1 } }, -mpq_class(hi));
        int c = canonSign(a, flip, known);
        addSign(c, flip ? 3 : 6);
        c = canonSign(b, flip, known);
        addSign(c, flip ? 6 : 3);
    }
    return box(id);
}
double sym_fresh(double lo, double hi) { return newVar("~", lo, hi, true, 'h'); }
double sym_fresh_at(double lo, double hi, double w) {
    double v = newVar("~", lo, hi, true, 'h');
    if (std::isfinite(w) && w >= lo && w <= hi) { witness[idOf(v)] = w; evalMemo.clear(); }
    return v;
}
void sym_lazy(int on) { lazyBranches = on; }
double sym_real(const char *name, double lo, double hi) {
    if (mode == SYM_FPA) {
        double v = newVar(name, lo, hi, false);
        sym_assume_le(lo, v);
        sym_assume_le(v, hi);
        return v;
    }
    return newVar(name, lo, hi, true);
}
double sym_any(const char *name) { return newVar(name, 0, 0, false); }
int sym_int(const char *name, int lo, int hi) {
    if (hi < lo) { recordUndecided("empty integer range in harness"); endPath(); }
    if (const char *fix = getenv("SYM_FIX")) {   // development aid: SYM_FIX=name=value,name=value; repeated names apply in turn
        static std::map<std::string, size_t> from;
        std::string f = std::string(",") + fix, key = std::string(",") + name + "=";
        size_t k = f.find(key, from[key]);
        if (k != std::string::npos && f.find(key, k + 1) != std::string::npos) from[key] = k + 1;
        if (k != std::string::npos) {
            int want = atoi(f.c_str() + k + key.size());
            if (want >= lo && want <= hi) lo = hi = want;
        }
    }
    int v = lo;
    for (; v < hi; v++) {
        sh->decisions++;
        if (forkPath()) {
            inputs.push_back({ 'i', name, 0, 0, v });
            pathHash = pathHash * 1099511628211ull + v + 3;
            return v;
        }
    }
    inputs.push_back({ 'i', name, 0, 0, v });
    pathHash = pathHash * 1099511628211ull + v + 3;
    return v;
}
void sym_assume(bool c) {
    if (!c) { sh->dropped++; endPath(); }
}
static void assumeCmp(int pred, int want, double a, double b) {
    if (!sy(a, b)) { sym_assume(fpPred(pred, a, b)); return; }
    if (mode == SYM_FPA) {
        Constraint c;
        c.kind = 1;
        c.pred = pred;
        c.a = bitsOf(a);
        c.b = bitsOf(b);
        c.val = true;
        if (!evalConstraint(c)) {
            QueryResult q = solve({ c }, 1);
            if (q.res == 0) { sh->dropped++; endPath(); }
            if (q.res == 1) setWitness(q.model);
        }
        pc.push_back(c);
        return;
    }
    assumeSet(P.add(asNode(a), asNode(b), -1), want, false);
}
void sym_assume_lt(double a, double b) { assumeCmp(4, 1, a, b); }
void sym_assume_le(double a, double b) { assumeCmp(5, 3, a, b); }
void sym_assume_ne(double a, double b) { assumeCmp(14, 5, a, b); }
void sym_assume_eq(double a, double b) { assumeCmp(1, 2, a, b); }
void sym_note(const char *t) { tagHit(sh->notes, sh->nnote, t); }
void sym_check(bool c, const char *msg) {
    sh->boolChecks++;
    if (!c) fail(msg);
}
void sym_fail(const char *msg) { fail(msg); }

// An identity found by expansion is put to the solver as well: not(d = 0) over the atoms of d, with the
// meaning of roots and inverses only where the expansion used it.
static bool solverIdentity(int d, bool shallow) {
    if (zeroWork > (shallow ? 3000 : 200)) { sh->proofRewrite++; return false; }
    double t0 = nowS();
    armTimer(false);
    Z3_ast ne = hold(Z3_mk_not(zc, hold(Z3_mk_eq(zc, zreal(d), zq(0)))));
    std::vector<Z3_ast> as{ ne };
    std::set<int> seen;
    if (!shallow) collectAux(d, seen, as);
    int r = zcheck(as, {}, true, shallow ? 400000 : 100000, "qfnra-nlsat", nullptr);
    sh->queries++;
    sh->solverUs += (long)((nowS() - t0) * 1e6);
    armTimer(true);
    if (r == 0) { sh->unsat++; sh->proofSolver++; }
    else sh->proofRewrite++;
    return r == 0;
}

static void onLemma(int d) { if (!solverIdentity(d, zeroShallow)) sh->proofRewrite--; else sh->proofSolver--; sh->lemmas++; }

// the terms of a sum with their single sum factor multiplied out
static int flatTop(int a) {
    const Node x = P.n[a];
    Terms t;
    mpq_class c = x.c;
    for (auto &p : x.t) {
        const Node y = P.n[p.first];
        int at = -1, many = 0;
        if (y.kind == K_PROD)
            for (size_t i = 0; i < y.f.size(); i++)
                if (y.f[i].second > 0 && P.n[y.f[i].first].kind == K_SUM) { many += y.f[i].second; at = (int)i; }
        if (many != 1) { t.push_back(p); continue; }
        Factors rest;
        for (size_t i = 0; i < y.f.size(); i++) if ((int)i != at) rest.push_back(y.f[i]);
        int r = P.prod(rest, 1);
        const Node s = P.n[y.f[at].first];
        for (auto &q : s.t) t.emplace_back(P.mul(q.first, r), q.second * p.second);
        if (s.c != 0) t.emplace_back(r, s.c * p.second);
    }
    return P.sum(t, c);
}
// obligation sign(d) in want
static void oblige(int d0, int want, const char *msg, double a, double b) {
    sh->obligations++;
    mpq_class v;
    if (P.isConst(d0, &v)) {
        if (!(want & (v < 0 ? 1 : v == 0 ? 2 : 4))) {
            // a constant difference may be a rounding artefact of exact arithmetic on decimal constants
            if (std::fabs(v.get_d()) < 1e-11) { sh->proofRewrite++; return; }
            fail(msg);
        }
        // both sides have the same normal form (or differ by a constant): put to the solver over their atoms
        static double spent = 0;
        if (spent > 2 || !sy(a, b)) { sh->proofRewrite++; return; }
        double t0 = nowS();
        armTimer(false);
        Z3_ast x = zreal(asNode(a)), y = zreal(asNode(b));
        Z3_ast ok = want == 2 ? Z3_mk_eq(zc, x, y) : want == 1 ? Z3_mk_lt(zc, x, y) : want == 3 ? Z3_mk_le(zc, x, y) : want == 4 ? Z3_mk_gt(zc, x, y) : want == 6 ? Z3_mk_ge(zc, x, y) : Z3_mk_not(zc, hold(Z3_mk_eq(zc, x, y)));
        int r = zcheck({ hold(Z3_mk_not(zc, hold(ok))) }, {}, true, 20000, "qfnra-nlsat", nullptr);
        spent += nowS() - t0;
        sh->queries++;
        sh->solverUs += (long)((nowS() - t0) * 1e6);
        armTimer(true);
        if (r == 0) { sh->unsat++; sh->proofSolver++; }
        else sh->proofRewrite++;
        return;
    }
    int cm = cauchyMask(d0);
    if (!(cm & ~want)) { sh->proofRewrite++; return; }
    if (want == 2) {
        // equality: refute numerically, prove exactly, else ask the solver
        auto differs = [&]() {
            double x = evalBits(bitsOf(a)), y = evalBits(bitsOf(b));
            return !(std::fabs(x - y) <= 1e-6 * (1 + std::fabs(x) + std::fabs(y)));
        };
        if (witnessSatisfiesPC() && differs()) fail(msg);
        double t0 = nowS();
        armTimer(false);
        int z = -1, k = P.canon(d0);
        mpq_class kv;
        for (int round = 0; round < 2 && P.n[k].kind == K_SUM; round++) {   // multiply out the outermost products
            int e = P.canon(flatTop(k));
            if (e == k) break;
            if (P.isConst(e, &kv)) k = e;
            else if (P.n[e].kind == K_SUM && P.n[e].t.size() < P.n[k].t.size() + 64) k = e;
            else break;
        }
        if (P.isConst(k, &kv)) {
            if (kv != 0) z = 0;
            else if ((z = zeroTest(d0, 200)) != 1) { z = 1; zeroWork = 1u << 30; }
        } else z = zeroTest(k, 60000);
        sh->solverUs += (long)((nowS() - t0) * 1e6);
        armTimer(true);
        if (z == 1) { solverIdentity(d0, zeroShallow); return; }
        auto saved = witness;
        if (searchModel(differs, 200)) fail(msg);
        witness = saved;
        evalMemo.clear();
        bool flip;
        int known;
        int c = canonSign(d0, flip, known);
        if (known == 2) { sh->proofRewrite++; return; }
        if ((knownMask(c) & staticMask(c)) == 2) { sh->proofRewrite++; return; }
        Constraint o;
        o.kind = 0;
        o.d = c;
        o.mask = 5;
        QueryResult q = solve({ o }, 1);
        if (q.res == 0) { sh->proofSolver++; return; }
        if (q.res == 1) {
            setWitness(q.model);
            // ask for a robust difference
            if (differs()) fail(msg);
            // tiny difference only: |d| > 1e-6 required
            int lo = P.sum({ { d0, 1 } }, mpq_class(1, 1000000)), hi = P.sum({ { d0, 1 } }, -mpq_class(1, 1000000));
            Constraint h1, h2;
            h1.kind = h2.kind = 0;
            h1.d = hi; h1.mask = 4;
            h2.d = lo; h2.mask = 1;
            QueryResult q1 = solve({ h1 }, 1), q2 = solve({ h2 }, 1);
            if (q1.res == 0 && q2.res == 0) { sh->proofSolver++; tagHit(sh->notes, sh->nnote, "equality proved up to 1e-6"); return; }
            if (q1.res == 1) setWitness(q1.model);
            else if (q2.res == 1) setWitness(q2.model);
            if (q1.res == 1 || q2.res == 1) fail(msg);
        }
        if (getenv("SYM_TRACE")) fprintf(stderr, "undecided: %s\n  %s\n", msg, P.str(d0, 5).c_str());
        recordUndecided(msg);
        endPath();
    }
    int ang;
    bool aflip;
    int d = d0;
    if (angleCompare(d0, ang, aflip)) {
        d = ang;
        if (aflip) want = flipMask(want);
    }
    bool flip;
    int known;
    int c = canonSign(d, flip, known);
    if (flip) want = flipMask(want);
    if (known) {
        if (flip) known = flipMask(known);
        if (!(known & want)) fail(msg);
        sh->proofRewrite++;
        return;
    }
    int m = knownMask(c) & staticMask(c);
    if (!(m & ~want)) { sh->proofRewrite++; return; }
    auto bad = [&]() {
        double x = evalNode(d0);
        double tol = 1e-6;
        bool neg = (want & 1) != 0;
        if (flip) neg = !neg;
        if (aflip && d != d0) neg = !neg;
        return neg ? x > tol : x < -tol;
    };
    if (witnessSatisfiesPC() && bad()) fail(msg);
    if (refuteByFactors(d, ~(flip ? flipMask(want) : want) & 7)) { sh->proofSolver++; return; }
    Constraint o;
    o.kind = 0;
    o.d = c;
    o.mask = m & ~want;
    QueryResult q = solve({ o }, 1);
    if (q.res == 0) { sh->proofSolver++; return; }
    auto saved = witness;
    if (q.res == 1) {
        setWitness(q.model);
        if (bad()) fail(msg);
        // a robust violation?
        bool neg = (want & 1) != 0;      // want includes "negative": violation is d > 0
        if (flip) neg = !neg;
        if (d != d0 && aflip) neg = !neg;
        int dd = P.sum({ { d0, 1 } }, neg ? -mpq_class(1, 1000000) : mpq_class(1, 1000000));
        Constraint h;
        h.kind = 0;
        h.d = dd;
        h.mask = neg ? 4 : 1;
        QueryResult q2 = solve({ h }, 1);
        if (q2.res == 0) { sh->proofSolver++; tagHit(sh->notes, sh->nnote, "inequality proved up to 1e-6"); witness = saved; evalMemo.clear(); return; }
        if (q2.res == 1) setWitness(q2.model);
        fail(msg);
    }
    if (searchModel(bad, 400)) fail(msg);
    witness = saved;
    evalMemo.clear();
    // polynomial identity behind an inequality (d = 0 identically)
    if ((want & 2) && zeroTest(d0, 60000) == 1) { solverIdentity(d0, zeroShallow); return; }
    if (getenv("SYM_TRACE")) fprintf(stderr, "undecided: %s\n  %s\n", msg, P.str(d0, 5).c_str());
    recordUndecided(msg);
    endPath();
}
static void checkCmp(int pred, int want, double a, double b, const char *msg) {
    if (!sy(a, b)) {
        sh->boolChecks++;
        if (fpPred(pred, a, b)) return;
        if (want == 2 && std::isnan(a) && std::isnan(b)) return;
        if (std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b))) return;
        fail(msg);
    }
    if (mode == SYM_FPA) {
        sh->obligations++;
        if (!__symfp_cmp(pred, a, b)) fail(msg);
        sh->proofSolver++;
        return;
    }
    if (special(a) || special(b)) { sh->boolChecks++; if (!__symfp_cmp(pred, a, b)) fail(msg); return; }
    oblige(P.add(asNode(a), asNode(b), -1), want, msg, a, b);
}
void sym_check_eq(double a, double b, const char *msg) { checkCmp(1, 2, a, b, msg); }
void sym_check_le(double a, double b, const char *msg) { checkCmp(5, 3, a, b, msg); }
void sym_check_lt(double a, double b, const char *msg) { checkCmp(4, 1, a, b, msg); }

void sym_reach(const char *tag) { tagHit(sh->tags, sh->ntag, tag); }
void sym_out(const char *n, double v) { outs.emplace_back(std::string("d ") + n, v); }
void sym_outi(const char *n, long v) { outs.emplace_back(std::string("i ") + n, (double)v); }
void sym_mode(int m) { mode = m; }
void sym_div_policy(int p) { divPolicy = p; }
void sym_drop_eps(double e) { dropEps = e; }
void sym_generic(int on) { genericEq = on; }
void sym_abs_fork(int on) { absFork = on; }
void sym_limits(int q, int h) { quickMs = q; hardMs = h; }
int sym_is_symbolic(double v) { return boxed(v); }
int sym_order(double a, double b) {
    if (!sy(a, b) || mode == SYM_FPA || special(a) || special(b)) return !sy(a, b) ? (a <= b ? 1 : a >= b ? 2 : 0) : 0;
    int d = P.add(asNode(a), asNode(b), -1);
    mpq_class v;
    if (P.isConst(d, &v)) return v <= 0 ? 1 : 2;
    bool flip;
    int known, m = cauchyMask(d), c = canonSign(d, flip, known);
    int k = known ? known : knownMask(c) & staticMask(c);
    m &= flip && !known ? flipMask(k) : k;
    return !(m & 4) ? 1 : !(m & 1) ? 2 : 0;
}
double sym_concrete(double v) { return evalBits(bitsOf(v)); }
int sym_is_native() { return 0; }
int sym_tier() { return getenv("SYM_TIER") ? atoi(getenv("SYM_TIER")) : 0; }
}  // extern "C"

// printing a symbolic double: a stable token
std::ostream &symOstream(std::ostream &os, double v) {
    if (boxed(v)) return os << "<sym" << idOf(v) << ">";
    char b[64];
    snprintf(b, sizeof b, "%.*g", (int)os.precision(), v);
    return os << b;
}
extern "C" void *__symfp_ostream_d(void *os, double v) {
    return &symOstream(*(std::ostream *)os, v);
}

namespace std {
// hashing of raw bytes: symbolic doubles hash by the class of equal bit patterns (FPA mode)
size_t _Hash_bytes(const void *p, size_t len, size_t seed) {
    if (len == 8) {
        double d;
        memcpy(&d, p, 8);
        if (boxed(d)) {
            if (mode == SYM_REAL) return 0;
            static std::vector<double> seen;
            for (size_t i = 0; i < seen.size(); i++) {
                if (bitsOf(seen[i]) == bitsOf(d)) return 1000 + i * 7919;
                Constraint c;
                c.kind = 2;
                c.a = bitsOf(seen[i]);
                c.b = bitsOf(d);
                if (fpBranch(c)) return 1000 + i * 7919;
            }
            seen.push_back(d);
            return 1000 + (seen.size() - 1) * 7919;
        }
    }
    const unsigned char *c = (const unsigned char *)p;
    size_t h = seed ^ 1469598103934665603ull;
    for (size_t i = 0; i < len; i++) h = (h ^ c[i]) * 1099511628211ull;
    return h;
}
}  // namespace std

namespace sf { extern bool (*angleSameDirHook)(int, int); }
static bool sameDir(int a, int b) {
    double x = evalNode(a), y = evalNode(b);
    return std::fabs(x - y) < 1e-7;
}

// ------------------------------------------------------------------ signals
static void onTerminate() {
    if (sym_jmp_) siglongjmp(*sym_jmp_, 2);
    fail("crash: std::terminate called outside an expected error");
}
static void onAbort(int) {
    if (sym_jmp_) siglongjmp(*sym_jmp_, 3);
    fail("crash: abort");
}
static volatile int inCrash = 0;
static void onCrash(int s) {
    if (inCrash) { if (holdsToken) sem_post(&sh->tokens); _exit(50); }
    inCrash = 1;
    char b[64];
    snprintf(b, sizeof b, "crash: signal %d", s);
    sym_jmp_ = nullptr;
    sigset_t set;
    sigemptyset(&set);
    sigprocmask(SIG_SETMASK, &set, nullptr);
    fail(b);
}
static void onHang(int) { fail("does not terminate (path exceeded its CPU limit)", true); }
extern "C" void __asan_on_error();
extern "C" const char *__asan_get_report_description() __attribute__((weak));
extern "C" void __asan_on_error() {
    inCrash = 1;
    char b[128];
    snprintf(b, sizeof b, "memory error: %s", __asan_get_report_description ? __asan_get_report_description() : "?");
    fail(b);
}
extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:halt_on_error=1:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=0:handle_abort=0:handle_sigfpe=0:handle_sigbus=0:print_legend=0:log_path=/dev/null:quarantine_size_mb=16:malloc_context_size=0:symbolize=0";
}

static std::string jstr(const char *s) {
    std::string r = "\"";
    for (; *s; s++) {
        if (*s == '"' || *s == '\\') { r += '\\'; r += *s; }
        else if (*s == '\n') r += "\\n";
        else if ((unsigned char)*s < 32) r += ' ';
        else r += *s;
    }
    return r + "\"";
}

static pid_t childGroup = 0;
int main(int argc, char **argv) {
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void *)sh, 0, sizeof(Shared));
    int workers = getenv("SYM_WORKERS") ? atoi(getenv("SYM_WORKERS")) : 8;
    double budget = getenv("SYM_BUDGET") ? atof(getenv("SYM_BUDGET")) : 600;
    if (getenv("VERIF_SEED")) seed = atoi(getenv("VERIF_SEED"));
    if (getenv("SYM_PATH_CPU")) pathCpuLimit = atoi(getenv("SYM_PATH_CPU"));
    rng.seed(seed * 7919 + 17);
    sem_init(&sh->tokens, 1, workers - 1);
    sem_init(&sh->vlock, 1, 1);
    sh->start = nowS();
    sh->deadline = sh->start + budget;
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    P.posHook = posHookF;
    P.lemmaHook = onLemma;
    P.nonnegHook = nonnegHookF;
    angleSameDirHook = sameDir;
    pid_t first = fork();
    if (first == 0) {
        setpgid(0, 0);
        prctl(PR_SET_CHILD_SUBREAPER, 0);
        isRoot = false;
        zinit();
        std::set_terminate(onTerminate);
        static char alt[1 << 18];
        stack_t ss = {};
        ss.ss_sp = alt;
        ss.ss_size = sizeof alt;
        sigaltstack(&ss, nullptr);
        struct sigaction sa = {};
        sa.sa_handler = onAbort;
        sa.sa_flags = SA_NODEFER;
        sigaction(SIGABRT, &sa, nullptr);
        sa.sa_handler = onCrash;
        sa.sa_flags = SA_ONSTACK | SA_NODEFER;
        if (!getenv("SYM_CORE")) sigaction(SIGSEGV, &sa, nullptr);
        sigaction(SIGBUS, &sa, nullptr);
        sigaction(SIGFPE, &sa, nullptr);
        sigaction(SIGILL, &sa, nullptr);
        sa.sa_handler = onHang;
        sa.sa_flags = SA_NODEFER;
        sigaction(SIGVTALRM, &sa, nullptr);
        static std::streambuf *null = nullptr;
        std::cout.rdbuf(null);
        std::cerr.rdbuf(null);
        armTimer(true);
        sym_harness();
        armTimer(false);
        long n = ++sh->paths;
        // sample of paths for the comparison with the real code
        int cap = MAXSAMPLE;
        bool take = n <= 8 || (pathHash >> 7) % 16 == 0;
        if (take && sh->nsample.load() < cap) {
            if (witnessSatisfiesPC() || repairWitness()) {
                int i = sh->nsample++;
                if (i < cap) {
                    std::string s = modelText();
                    char b[300];
                    for (auto &o : outs) {
                        snprintf(b, sizeof b, "o %s %.17g\n", o.first.c_str() + 2, evalBits(bitsOf(o.second)));
                        s += b;
                    }
                    if (s.size() < sizeof sh->samp[i].text) {
                        memcpy(sh->samp[i].text, s.c_str(), s.size() + 1);
                        sh->samp[i].ready = 1;
                    }
                }
            }
        }
        finish(0);
    }
    setpgid(first, first);
    childGroup = first;
    signal(SIGALRM, [](int) {
        static int stopped = 0;
        if (sh->stop.load() && stopped++ >= 2) kill(-childGroup, SIGKILL);
        else if (nowS() > sh->deadline + 40) { sh->incomplete++; kill(-childGroup, SIGKILL); }
        alarm(5);
    });
    signal(SIGTERM, [](int) { kill(-childGroup, SIGKILL); _exit(4); });
    alarm(5);
    int st;
    for (;;) {
        pid_t p = waitpid(-1, &st, 0);
        if (p < 0) { if (errno == EINTR) continue; break; }
        if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) sh->crashes++;
    }
    FILE *o = stdout;
    fprintf(o, "{\n");
#define C(n) fprintf(o, " \"%s\": %ld,\n", #n, sh->n.load());
    C(paths) C(dropped) C(forks) C(decisions) C(queries) C(sat) C(unsat) C(unknown) C(hardq) C(linq) C(cacheHits) C(proofRewrite) C(proofSolver) C(lemmas)
    C(obligations) C(undecided) C(incomplete) C(crashes) C(branchUnknown) C(boolChecks) C(assumedDen) C(maxDepth)
    fprintf(o, " \"solver_s\": %.3f,\n \"wall_s\": %.3f,\n", sh->solverUs.load() * 1e-6, nowS() - sh->start);
    fprintf(o, " \"reach\": {");
    for (int i = 0; i < sh->ntag; i++) fprintf(o, "%s%s: %ld", i ? ", " : "", jstr(sh->tags[i].name).c_str(), sh->tags[i].count.load());
    fprintf(o, "},\n \"notes\": [");
    for (int i = 0; i < sh->nnote; i++) fprintf(o, "%s%s", i ? ", " : "", jstr(sh->notes[i].name).c_str());
    fprintf(o, "],\n \"undecided_msgs\": [");
    for (int i = 0; i < sh->nund; i++) fprintf(o, "%s%s", i ? ", " : "", jstr(sh->und[i]).c_str());
    fprintf(o, "],\n \"functions\": [");
    bool f = true;
    if (&__symfp_fn_count)
        for (int i = 0; i < __symfp_fn_count && i < MAXFN; i++)
            if (sh->hit[i] && __symfp_fn_names[i]) { fprintf(o, "%s%s", f ? "" : ", ", jstr(__symfp_fn_names[i]).c_str()); f = false; }
    fprintf(o, "],\n \"violations\": [");
    for (int i = 0; i < sh->nvio; i++)
        fprintf(o, "%s{\"msg\": %s, \"valid\": %d, \"hang\": %d, \"model\": %s}", i ? ",\n" : "", jstr(sh->vio[i].msg).c_str(), sh->vio[i].valid, sh->vio[i].hang, jstr(sh->vio[i].model).c_str());
    fprintf(o, "],\n \"samples\": [");
    f = true;
    for (int i = 0; i < MAXSAMPLE; i++)
        if (sh->samp[i].ready) { fprintf(o, "%s%s", f ? "" : ",\n", jstr(sh->samp[i].text).c_str()); f = false; }
    fprintf(o, "]\n}\n");
    (void)argc;
    (void)argv;
    return 0;
}
