// Hash-consed real expressions in a light normal form (flattened sums and products over atoms),
// plus an exact zero test by expansion to a rational function over square-root atoms.
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <cstring>
#include <deque>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

namespace sf {

enum Kind : uint8_t { K_CONST, K_VAR, K_SUM, K_PROD, K_FN };
enum Op : uint8_t {
    O_NONE, O_ADD, O_SUB, O_MUL, O_DIV, O_NEG, O_SQRT, O_ABS, O_ATAN2, O_EXP, O_LOG, O_SIN, O_COS, O_POW, O_FPTRUNC, O_CBRT, O_VAR, O_ITE
};

using Terms = std::vector<std::pair<int, mpq_class>>;
using Factors = std::vector<std::pair<int, int>>;

struct Node {
    Kind kind = K_CONST;
    Op op = O_NONE;
    mpq_class c;
    Terms t;
    Factors f;
    std::vector<int> args;
    std::string name;
    size_t hash = 0;
    // recipe: IEEE evaluation in the order of the code that first built it
    Op rop = O_NONE;
    uint64_t ra = 0, rb = 0;
};

// boxing
inline uint64_t bitsOf(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
inline double dblOf(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
const uint64_t TAG = 0x7FFCA5A500000000ull;
inline bool boxed(uint64_t u) { return (u & 0xFFFFFFFF00000000ull) == TAG; }
inline bool boxed(double d) { return boxed(bitsOf(d)); }
inline int idOf(double d) { return (int)(bitsOf(d) & 0xFFFFFFFFu); }
inline double box(int id) { return dblOf(TAG | (uint32_t)id); }

struct Pool {
    std::deque<Node> n;
    std::unordered_multimap<size_t, int> index;
    // node id of a constant
    int konst(const mpq_class &q);
    int var(const std::string &name);
    int fn(Op op, std::vector<int> args);
    int sum(Terms t, mpq_class c);      // t may be unsorted, with sums inside
    int prod(Factors f, mpq_class coef);
    int add(int a, int b, const mpq_class &kb = 1);
    int mul(int a, int b);
    int power(int a, int e);
    int scale(int a, const mpq_class &k);
    int sqrt_(int a);
    int abs_(int a);
    bool nonneg(int a);
    bool positive(int a);
    bool isConst(int a, mpq_class *v = nullptr) {
        if (n[a].kind != K_CONST) return false;
        if (v) *v = n[a].c;
        return true;
    }
    std::string str(int a, int depth = 6);
    int unify(int a, mpq_class &k);     // a = k * (result), the result an earlier sum if one is found
    int unify(int a) { mpq_class k; int r = unify(a, k); return k == 1 ? r : scale(r, k); }
    int canonKids(int a);               // the terms of a sum, each so treated
    int canon(int a);                   // equal node with its sums replaced by such earlier ones, bottom up
    uint64_t print(int a, int at);      // value modulo a prime at one of two fixed random points
    int intern(Node &&x);
    void (*lemmaHook)(int) = nullptr;   // told of every difference found to be zero
    bool (*posHook)(int) = nullptr;     // path knowledge: node known > 0
    bool (*nonnegHook)(int) = nullptr;  // path knowledge: node known >= 0
private:
    std::unordered_map<int, uint64_t> prints[2];
    std::unordered_map<uint64_t, int> reps;
    std::unordered_map<int, std::pair<int, mpq_class>> unified;
    std::unordered_map<int, int> canons, kids;
    static size_t hashOf(const Node &x);
    static bool same(const Node &a, const Node &b);
    void splitTerm(int a, mpq_class &coef, Factors &f);
};

extern Pool P;

// exact zero test; returns 1 zero, 0 provably not identically zero, -1 gave up
int zeroTest(int node, size_t limit);
extern size_t zeroWork;     // its cost in monomial products
extern bool zeroShallow;    // the last zero needed no rule about functions or inverses
bool squareSplit(const mpq_class &q, mpq_class &root, mpq_class &rest);

}  // namespace sf
