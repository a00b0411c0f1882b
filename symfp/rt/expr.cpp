#include "expr.h"
#include <algorithm>
#include <functional>
#include <set>

namespace sf {

Pool P;

static size_t hmix(size_t h, size_t v) { return (h ^ (v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2))) * 0x100000001B3ull; }
static size_t hq(const mpq_class &q) {
    size_t h = mpz_get_ui(q.get_num_mpz_t()) * 31 + mpz_size(q.get_num_mpz_t()) + (mpq_sgn(q.get_mpq_t()) < 0 ? 77 : 0);
    return hmix(h, mpz_get_ui(q.get_den_mpz_t()));
}

size_t Pool::hashOf(const Node &x) {
    size_t h = x.kind * 1315423911u + x.op;
    h = hmix(h, hq(x.c));
    for (auto &p : x.t) h = hmix(hmix(h, p.first), hq(p.second));
    for (auto &p : x.f) h = hmix(hmix(h, p.first), (size_t)(p.second + 1000));
    for (int a : x.args) h = hmix(h, a);
    for (char c : x.name) h = hmix(h, c);
    return h;
}
bool Pool::same(const Node &a, const Node &b) {
    return a.kind == b.kind && a.op == b.op && a.f == b.f && a.args == b.args && a.name == b.name && a.c == b.c && a.t == b.t;
}
int Pool::intern(Node &&x) {
    x.hash = hashOf(x);
    auto r = index.equal_range(x.hash);
    for (auto it = r.first; it != r.second; ++it)
        if (same(n[it->second], x)) return it->second;
    int id = (int)n.size();
    size_t h = x.hash;
    n.push_back(std::move(x));
    index.emplace(h, id);
    return id;
}
int Pool::konst(const mpq_class &q) {
    Node x;
    x.kind = K_CONST;
    x.c = q;
    return intern(std::move(x));
}
int Pool::var(const std::string &name) {
    Node x;
    x.kind = K_VAR;
    x.name = name;
    return intern(std::move(x));
}
int Pool::fn(Op op, std::vector<int> args) {
    Node x;
    x.kind = K_FN;
    x.op = op;
    x.args = std::move(args);
    return intern(std::move(x));
}

int Pool::sum(Terms in, mpq_class c) {
    // flatten
    Terms t;
    t.reserve(in.size());
    for (auto &p : in) {
        if (p.second == 0) continue;
        const Node &x = n[p.first];
        if (x.kind == K_CONST) c += p.second * x.c;
        else if (x.kind == K_SUM) {
            c += p.second * x.c;
            for (auto &q : x.t) t.emplace_back(q.first, p.second * q.second);
        } else t.push_back(p);
    }
    std::sort(t.begin(), t.end(), [](auto &a, auto &b) { return a.first < b.first; });
    Terms u;
    for (auto &p : t) {
        if (!u.empty() && u.back().first == p.first) {
            u.back().second += p.second;
            if (u.back().second == 0) u.pop_back();
        } else u.push_back(p);
    }
    if (u.empty()) return konst(c);
    if (u.size() == 1 && c == 0 && u[0].second == 1) return u[0].first;
    Node x;
    x.kind = K_SUM;
    x.c = c;
    x.t = std::move(u);
    return intern(std::move(x));
}
int Pool::add(int a, int b, const mpq_class &kb) {
    Terms t;
    t.emplace_back(a, 1);
    t.emplace_back(b, kb);
    return sum(std::move(t), 0);
}
int Pool::scale(int a, const mpq_class &k) {
    Terms t;
    t.emplace_back(a, k);
    return sum(std::move(t), 0);
}

// a as coef * product of factors
void Pool::splitTerm(int a, mpq_class &coef, Factors &f) {
    const Node &x = n[a];
    switch (x.kind) {
        case K_CONST: coef *= x.c; return;
        case K_PROD: for (auto &p : x.f) f.push_back(p); return;
        case K_SUM:
            if (x.t.size() == 1 && x.c == 0) {
                coef *= x.t[0].second;
                splitTerm(x.t[0].first, coef, f);
                return;
            } else {
                mpq_class lead = x.t[0].second;
                if (lead == 1) f.emplace_back(a, 1);
                else {
                    coef *= lead;
                    mpq_class inv = 1 / lead;
                    int s = scale(a, inv);
                    f.emplace_back(s, 1);
                }
                return;
            }
        default: f.emplace_back(a, 1); return;
    }
}

int Pool::prod(Factors in, mpq_class coef) {
    // merge; reduce square roots, absolute values, exponentials
    std::map<int, int> m;
    std::vector<std::pair<int, int>> work(in.begin(), in.end());
    int expArg = -1;
    for (int guard = 0; guard < 64; guard++) {
        for (auto &p : work) m[p.first] += p.second;
        work.clear();
        std::vector<int> del;
        for (auto &p : m) {
            if (p.second == 0) { del.push_back(p.first); continue; }
            const Node x = n[p.first];
            if (x.kind == K_CONST) {
                mpq_class b = x.c;
                for (int i = 0; i < std::abs(p.second); i++) { if (p.second > 0) coef *= b; else coef /= b; }
                del.push_back(p.first);
                continue;
            }
            if (x.kind == K_PROD) {
                for (auto &q : x.f) work.emplace_back(q.first, q.second * p.second);
                del.push_back(p.first);
                continue;
            }
            if (x.kind == K_SUM && ((x.t.size() == 1 && x.c == 0) || x.t[0].second != 1)) {
                mpq_class k = 1;
                Factors ff;
                splitTerm(p.first, k, ff);
                for (int i = 0; i < std::abs(p.second); i++) { if (p.second > 0) coef *= k; else coef /= k; }
                for (auto &q : ff) work.emplace_back(q.first, q.second * p.second);
                del.push_back(p.first);
                continue;
            }
            if (x.kind == K_FN && x.op == O_SQRT) {
                int r = ((p.second % 2) + 2) % 2, q = (p.second - r) / 2;
                if (q != 0) {
                    work.emplace_back(x.args[0], q);
                    if (r) work.emplace_back(p.first, r);
                    del.push_back(p.first);
                    continue;
                }
            }
            if (x.kind == K_FN && x.op == O_ABS) {
                int r = ((p.second % 2) + 2) % 2, q = p.second - r;
                if (q != 0) {
                    work.emplace_back(x.args[0], q);
                    if (r) work.emplace_back(p.first, r);
                    del.push_back(p.first);
                    continue;
                }
            }
        }
        for (int d : del) m.erase(d);
        if (work.empty()) break;
    }
    // exponentials: exp(a)^i * exp(b)^j = exp(ia + jb)
    std::vector<int> exps;
    for (auto &p : m)
        if (n[p.first].kind == K_FN && n[p.first].op == O_EXP) exps.push_back(p.first);
    if (exps.size() > 1 || (exps.size() == 1 && m[exps[0]] != 1)) {
        Terms t;
        for (int e : exps) {
            t.emplace_back(n[e].args[0], m[e]);
            m.erase(e);
        }
        expArg = sum(t, 0);
        mpq_class v;
        if (isConst(expArg, &v) && v == 0) {
        } else m[fn(O_EXP, { expArg })] += 1;
    }
    if (coef == 0) return konst(0);
    Factors f;
    for (auto &p : m) if (p.second != 0) f.push_back(p);
    if (f.empty()) return konst(coef);
    int base;
    if (f.size() == 1 && f[0].second == 1) base = f[0].first;
    else {
        Node x;
        x.kind = K_PROD;
        x.f = std::move(f);
        base = intern(std::move(x));
    }
    if (coef == 1) return base;
    return scale(base, coef);
}
int Pool::mul(int a, int b) {
    mpq_class va, vb;
    if (isConst(a, &va)) return scale(b, va);
    if (isConst(b, &vb)) return scale(a, vb);
    mpq_class coef = 1;
    Factors f;
    splitTerm(a, coef, f);
    splitTerm(b, coef, f);
    return prod(std::move(f), coef);
}
int Pool::power(int a, int e) {
    mpq_class v;
    if (e == 1) return a;
    if (e < 0) a = unify(a);
    mpq_class coef = 1, k = 1;
    Factors f;
    splitTerm(a, k, f);
    for (int i = 0; i < std::abs(e); i++) { if (e > 0) coef *= k; else coef /= k; }
    for (auto &p : f) p.second *= e;
    return prod(std::move(f), coef);
}

// Equal sums written differently: candidates by value modulo a prime, accepted by exact expansion.
static const uint64_t PR = (1ull << 61) - 1;
static uint64_t mulM(uint64_t a, uint64_t b) { return (uint64_t)((unsigned __int128)a * b % PR); }
static uint64_t powM(uint64_t a, uint64_t e) {
    uint64_t r = 1;
    for (; e; e >>= 1, a = mulM(a, a)) if (e & 1) r = mulM(r, a);
    return r;
}
static uint64_t mixM(uint64_t h) {
    h ^= h >> 31; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
    return h % (PR - 2) + 1;
}
static uint64_t qM(const mpq_class &q) {
    static const mpz_class p((unsigned long)PR);
    mpz_class n = q.get_num() % p, d = q.get_den() % p;
    if (n < 0) n += p;
    if (d == 0) return PR;
    return mulM(n.get_ui(), powM(d.get_ui(), PR - 2));
}
uint64_t Pool::print(int a, int at) {   // PR: undefined here
    auto it = prints[at].find(a);
    if (it != prints[at].end()) return it->second;
    const Node &x = n[a];
    uint64_t r = 0;
    switch (x.kind) {
        case K_CONST: r = qM(x.c); break;
        case K_VAR: r = mixM(std::hash<std::string>()(x.name) * 3 + 1 + (uint64_t)at * 0x5851F42D4C957F2Dull); break;
        case K_SUM:
            r = qM(x.c);
            for (auto &p : x.t) {
                uint64_t u = print(p.first, at), k = qM(p.second);
                if (r == PR || u == PR || k == PR) { r = PR; break; }
                r = (r + mulM(u, k)) % PR;
            }
            break;
        case K_PROD:
            r = 1;
            for (auto &p : x.f) {
                uint64_t u = print(p.first, at);
                if (u == PR || (u == 0 && p.second < 0)) { r = PR; break; }
                r = mulM(r, powM(p.second < 0 ? powM(u, PR - 2) : u, (uint64_t)std::abs(p.second)));
            }
            break;
        case K_FN: {
            uint64_t h = 0x1234567 + (uint64_t)x.op * 7919;
            for (int g : x.args) {
                uint64_t u = print(g, at);
                if (u == PR) { h = PR; break; }
                h = mixM(h * 31 + u);
            }
            r = h;
            break;
        }
    }
    return prints[at][a] = r;
}
int Pool::unify(int a, mpq_class &k) {
    k = 1;
    if (n[a].kind != K_SUM) return a;
    auto u = unified.find(a);
    if (u != unified.end()) { k = u->second.second; return u->second.first; }
    unified[a] = { a, 1 };
    uint64_t h = print(a, 0), g = print(a, 1);
    if (h == PR || g == PR || h == 0 || g == 0) return a;
    uint64_t key = mulM(h, powM(g, PR - 2));        // the same for every multiple
    auto it = reps.find(key);
    if (it == reps.end()) { reps[key] = a; return a; }
    const int rep = it->second;
    if (rep == a) return a;
    const uint64_t ratio = mulM(h, powM(print(rep, 0), PR - 2));
    std::vector<mpq_class> ka, kb, cand{ 1, -1 };
    const int ca = canonKids(a), cr = canonKids(rep);
    const Node x = n[ca], y = n[cr];
    for (auto &p : x.t) ka.push_back(p.second);
    for (auto &p : y.t) kb.push_back(p.second);
    if (x.c != 0) ka.push_back(x.c);
    if (y.c != 0) kb.push_back(y.c);
    for (size_t i = 0; i < ka.size() && i < 24; i++)
        for (size_t j = 0; j < kb.size() && j < 24; j++) { cand.push_back(ka[i] / kb[j]); cand.push_back(-ka[i] / kb[j]); }
    {   // the small fraction that the ratio of the prints stands for
        __int128 r0 = PR, r1 = ratio, t0 = 0, t1 = 1;
        while (r1 > (1 << 28)) {
            __int128 q = r0 / r1, r = r0 - q * r1, t = t0 - q * t1;
            r0 = r1, r1 = r, t0 = t1, t1 = t;
        }
        if (r1 > 0 && t1 != 0 && t1 < (1 << 28) && t1 > -(1 << 28)) cand.push_back(mpq_class(mpz_class((long)r1), 1) / mpq_class(mpz_class((long)t1), 1));
    }
    for (auto &c : cand) {
        if (qM(c) != ratio) continue;
        int d = add(ca, cr, -c);
        if (zeroTest(d, 4000) == 1) {
            if (lemmaHook && n[d].kind != K_CONST) lemmaHook(d);
            unified[a] = { rep, c };
            k = c;
            return rep;
        }
        break;
    }
    return a;
}
int Pool::canonKids(int a) {
    auto it = kids.find(a);
    if (it != kids.end()) return it->second;
    const Node x = n[a];
    Terms t;
    for (auto &p : x.t) t.emplace_back(canon(p.first), p.second);
    return kids[a] = sum(t, x.c);
}
int Pool::canon(int a) {
    auto it = canons.find(a);
    if (it != canons.end()) return it->second;
    const Node x = n[a];
    int r = a;
    switch (x.kind) {
        case K_SUM: r = unify(canonKids(a)); break;
        case K_PROD: {
            Factors f;
            mpq_class k = 1;
            for (auto &p : x.f) {
                int c = canon(p.first);
                if (n[c].kind == K_SUM) {
                    mpq_class u;
                    c = unify(c, u);
                    for (int i = 0; i < std::abs(p.second); i++) { if (p.second > 0) k *= u; else k /= u; }
                }
                mpq_class q;
                if (isConst(c, &q)) {
                    if (q == 0 && p.second < 0) return canons[a] = a;
                    for (int i = 0; i < std::abs(p.second); i++) { if (p.second > 0) k *= q; else k /= q; }
                } else {
                    Factors g;
                    mpq_class kk = 1;
                    splitTerm(c, kk, g);
                    for (int i = 0; i < std::abs(p.second); i++) { if (p.second > 0) k *= kk; else k /= kk; }
                    for (auto &q2 : g) f.emplace_back(q2.first, q2.second * p.second);
                }
            }
            r = k == 0 ? konst(0) : prod(f, k);
            break;
        }
        case K_FN: {
            if (x.op != O_SQRT && x.op != O_EXP && x.op != O_ABS && x.op != O_LOG) break;
            int c = canon(x.args[0]);
            if (c == x.args[0]) break;
            if (x.op == O_SQRT) r = sqrt_(c);
            else if (x.op == O_ABS) r = abs_(c);
            else r = fn(x.op, { c });
            if (r < 0) r = a;
            break;
        }
        default: break;
    }
    return canons[a] = r;
}

bool squareSplit(const mpq_class &q, mpq_class &root, mpq_class &rest) {
    // q > 0: q = root^2 * rest, rest a square-free integer as far as small primes tell
    mpz_class v = q.get_num() * q.get_den();
    mpz_class r = 1;
    for (unsigned long p = 2; p < 2000 && p * p <= 4000000; p = p == 2 ? 3 : p + 2) {
        mpz_class pp = mpz_class(p) * p;
        while (v % pp == 0) { v /= pp; r *= p; }
    }
    if (mpz_perfect_square_p(v.get_mpz_t())) {
        mpz_class s = sqrt(v);
        r *= s;
        v = 1;
    }
    root = mpq_class(r, q.get_den());
    root.canonicalize();
    rest = v;
    return true;
}

int Pool::sqrt_(int a) {
    mpq_class v;
    if (isConst(a, &v)) {
        if (v < 0) return -1;
        if (v == 0) return a;
        mpq_class r, s;
        squareSplit(v, r, s);
        if (s == 1) return konst(r);
        int atom = fn(O_SQRT, { konst(s) });
        return scale(atom, r);
    }
    mpq_class coef = 1;
    Factors f;
    splitTerm(a, coef, f);
    for (auto &p : f)
        if (n[p.first].kind == K_SUM) {
            mpq_class u;
            p.first = unify(p.first, u);
            for (int i = 0; i < std::abs(p.second); i++) { if (p.second > 0) coef *= u; else coef /= u; }
        }
    mpq_class root = 1, rest = 1;
    bool neg = coef < 0;
    mpq_class ac = abs(coef);
    squareSplit(ac, root, rest);
    Factors in, out;
    for (auto &p : f) {
        int r = ((p.second % 2) + 2) % 2, q = (p.second - r) / 2;
        // base^(2q): comes out as |base|^q (only valid to strip negative powers too: |b|^-q)
        if (q != 0) out.emplace_back(abs_(p.first), q);
        if (r) in.emplace_back(p.first, r);
    }
    if (in.empty() && !neg && rest == 1) return prod(out, root);
    if (neg) rest = -rest;
    int inner = prod(in, rest);
    int atom;
    mpq_class iv;
    if (isConst(inner, &iv)) atom = fn(O_SQRT, { inner });
    else atom = fn(O_SQRT, { inner });
    out.emplace_back(atom, 1);
    return prod(out, root);
}
int Pool::abs_(int a) {
    mpq_class v;
    if (isConst(a, &v)) return konst(abs(v));
    if (nonneg(a)) return a;
    mpq_class coef = 1;
    Factors f;
    splitTerm(a, coef, f);
    Factors out, in;
    for (auto &p : f) {
        if (p.second % 2 == 0 || nonneg(p.first)) out.push_back(p);
        else {
            // |b^e| = |b|^e
            Node x;
            int at = fn(O_ABS, { p.first });
            out.emplace_back(at, p.second);
        }
    }
    return prod(out, abs(coef));
}

bool Pool::nonneg(int a) {
    const Node &x = n[a];
    switch (x.kind) {
        case K_CONST: return x.c >= 0;
        case K_FN:
            if (x.op == O_SQRT || x.op == O_ABS || x.op == O_EXP) return true;
            if (x.op == O_ATAN2 && nonneg(x.args[0])) return true;
            break;
        case K_PROD: {
            bool ok = true;
            for (auto &p : x.f)
                if (p.second % 2 != 0 && !nonneg(p.first)) { ok = false; break; }
            if (ok) return true;
            break;
        }
        case K_SUM: {
            bool ok = x.c >= 0;
            for (auto &p : x.t) {
                if (!ok) break;
                if (p.second < 0 || !nonneg(p.first)) ok = false;
            }
            if (ok) return true;
            break;
        }
        default: break;
    }
    return nonnegHook && nonnegHook(a);
}
bool Pool::positive(int a) {
    const Node &x = n[a];
    switch (x.kind) {
        case K_CONST: return x.c > 0;
        case K_FN:
            if (x.op == O_EXP) return true;
            if (x.op == O_SQRT && positive(x.args[0])) return true;
            break;
        case K_PROD: {
            bool ok = true;
            for (auto &p : x.f) if (!positive(p.first)) { ok = false; break; }
            if (ok) return true;
            break;
        }
        case K_SUM: {
            bool ok = x.c >= 0, strict = x.c > 0;
            for (auto &p : x.t) {
                if (!ok) break;
                if (p.second < 0 || !nonneg(p.first)) ok = false;
                else if (!strict && positive(p.first)) strict = true;
            }
            if (ok && strict) return true;
            break;
        }
        default: break;
    }
    return posHook && posHook(a);
}

std::string Pool::str(int a, int depth) {
    const Node &x = n[a];
    switch (x.kind) {
        case K_CONST: return x.c.get_str();
        case K_VAR: return x.name;
        default: break;
    }
    if (depth == 0) return "#" + std::to_string(a);
    std::string s;
    static const char *names[] = { "?", "add", "sub", "mul", "div", "neg", "sqrt", "abs", "atan2", "exp", "log", "sin", "cos", "pow", "fptrunc", "cbrt", "var", "ite" };
    switch (x.kind) {
        case K_SUM:
            s = "(";
            for (auto &p : x.t) s += (s.size() > 1 ? " + " : "") + (p.second == 1 ? std::string() : p.second.get_str() + "*") + str(p.first, depth - 1);
            if (x.c != 0) s += " + " + x.c.get_str();
            return s + ")";
        case K_PROD:
            for (auto &p : x.f) s += (s.empty() ? "" : "*") + str(p.first, depth - 1) + (p.second == 1 ? "" : "^" + std::to_string(p.second));
            return s;
        default:
            s = std::string(names[x.op]) + "(";
            for (size_t i = 0; i < x.args.size(); i++) s += (i ? "," : "") + str(x.args[i], depth - 1);
            return s + ")";
    }
}

// ------------------------------------------------------------------ exact zero test
namespace {
struct TooBig {};
using Mono = std::vector<std::pair<int, int>>;   // atom, exponent > 0
struct MonoHash {
    size_t operator()(const Mono &m) const {
        size_t h = 1469598103934665603ull;
        for (auto &p : m) h = hmix(h, (size_t)p.first * 131 + p.second);
        return h;
    }
};
using Poly = std::unordered_map<Mono, mpq_class, MonoHash>;

struct RAtom { int kind; Op op; std::string key; Poly sq; int var; bool nonneg; };   // kind 0 var, 1 sqrt(poly sq), 2 opaque
struct Rat { Poly n; std::map<int, int> d; };           // d: factor id -> exponent

struct Ctx {
    std::vector<RAtom> atoms;
    std::map<std::string, int> atomIx;
    std::vector<Poly> factors;
    std::map<std::string, int> facIx;
    std::unordered_map<int, Rat> memo;
    size_t limit, work = 0;
    bool shallow = false;       // functions and inverses are opaque: only a zero result means something

    static std::string key(const Poly &p) {
        std::vector<std::pair<Mono, mpq_class>> v(p.begin(), p.end());
        std::sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
        std::string s;
        for (auto &m : v) {
            for (auto &q : m.first) s += std::to_string(q.first) + "^" + std::to_string(q.second) + ".";
            s += ":" + m.second.get_str() + ";";
        }
        return s;
    }
    static Poly cst(const mpq_class &q) {
        Poly p;
        if (q != 0) p[Mono()] = q;
        return p;
    }
    int atom(int kind, Op op, const std::string &k, Poly sq, int var, bool nn) {
        auto it = atomIx.find(k);
        if (it != atomIx.end()) return it->second;
        int id = (int)atoms.size();
        atoms.push_back({ kind, op, k, std::move(sq), var, nn });
        atomIx[k] = id;
        return id;
    }
    void addTo(Poly &a, const Poly &b, const mpq_class &k = 1) {
        for (auto &m : b) {
            auto &x = a[m.first];
            x += k * m.second;
            if (x == 0) a.erase(m.first);
        }
        if (a.size() > limit) throw TooBig();
    }
    Poly mulP(const Poly &a, const Poly &b) {
        Poly r;
        work += a.size() * b.size();
        if (work > limit * 40) throw TooBig();
        for (auto &x : a)
            for (auto &y : b) {
                Mono m;
                size_t i = 0, j = 0;
                bool red = false;
                while (i < x.first.size() || j < y.first.size()) {
                    if (j >= y.first.size() || (i < x.first.size() && x.first[i].first < y.first[j].first)) m.push_back(x.first[i++]);
                    else if (i >= x.first.size() || y.first[j].first < x.first[i].first) m.push_back(y.first[j++]);
                    else {
                        int e = x.first[i].second + y.first[j].second;
                        m.emplace_back(x.first[i].first, e);
                        if (e >= 2 && atoms[x.first[i].first].kind == 1) red = true;
                        i++, j++;
                    }
                }
                mpq_class c = x.second * y.second;
                if (!red) {
                    auto &z = r[m];
                    z += c;
                    if (z == 0) r.erase(m);
                    if (r.size() > limit) throw TooBig();
                } else {
                    // replace sqrt^2 by its argument
                    Mono rest;
                    Poly f = cst(c);
                    std::vector<int> sq;
                    for (auto &q : m) {
                        if (atoms[q.first].kind == 1 && q.second >= 2) {
                            for (int k = 0; k < q.second / 2; k++) sq.push_back(q.first);
                            if (q.second % 2) rest.emplace_back(q.first, 1);
                        } else rest.push_back(q);
                    }
                    Poly mono;
                    mono[rest] = 1;
                    f = mulP(f, mono);
                    for (int s : sq) { Poly cp = atoms[s].sq; f = mulP(f, cp); }
                    addTo(r, f);
                }
            }
        return r;
    }
    // factor id of a polynomial made monic in its smallest monomial; returns scale
    int factor(const Poly &p, mpq_class &scale) {
        const std::pair<const Mono, mpq_class> *best = nullptr;
        for (auto &m : p) if (!best || m.first < best->first) best = &m;
        scale = best->second;
        Poly q;
        for (auto &m : p) q[m.first] = m.second / scale;
        std::string k = key(q);
        auto it = facIx.find(k);
        if (it != facIx.end()) return it->second;
        int id = (int)factors.size();
        factors.push_back(q);
        facIx[k] = id;
        return id;
    }
    Rat mulR(const Rat &a, const Rat &b) {
        Rat r;
        // cancel whole numerator factors cheaply
        Poly an = a.n, bn = b.n;
        std::map<int, int> ad = a.d, bd = b.d;
        auto cancel = [&](Poly &num, std::map<int, int> &den) {
            if (num.size() < 2) return;
            mpq_class s;
            Poly cp = num;
            int f = factor(cp, s);
            auto it = den.find(f);
            if (it != den.end()) {
                if (--it->second == 0) den.erase(it);
                num = cst(s);
            }
        };
        cancel(an, bd);
        cancel(bn, ad);
        r.n = mulP(an, bn);
        r.d = ad;
        for (auto &p : bd) r.d[p.first] += p.second;
        if (r.n.empty()) r.d.clear();
        return r;
    }
    Rat addR(const Rat &a, const Rat &b, const mpq_class &kb) {
        if (a.n.empty()) { Rat r = b; for (auto &m : r.n) m.second *= kb; if (kb == 0) r = Rat(); return r; }
        if (b.n.empty() || kb == 0) return a;
        Rat r;
        Poly x = a.n, y = b.n;
        std::map<int, int> l = a.d;
        for (auto &p : b.d) l[p.first] = std::max(l[p.first], p.second);
        for (auto &p : l) {
            int ea = a.d.count(p.first) ? a.d.at(p.first) : 0, eb = b.d.count(p.first) ? b.d.at(p.first) : 0;
            for (int i = ea; i < p.second; i++) { Poly cp = factors[p.first]; x = mulP(x, cp); }
            for (int i = eb; i < p.second; i++) { Poly cp = factors[p.first]; y = mulP(y, cp); }
        }
        r.n = x;
        addTo(r.n, y, kb);
        r.d = l;
        if (r.n.empty()) r.d.clear();
        return r;
    }
    Rat invR(const Rat &a) {
        Rat r;
        if (a.n.empty()) throw TooBig();
        if (a.n.size() == 1) {
            // monomial: rationalise square roots, other atoms become factors
            const Mono &m = a.n.begin()->first;
            r.n = cst(1 / a.n.begin()->second);
            for (auto &q : m) {
                if (atoms[q.first].kind == 1) {
                    Poly s;
                    s[Mono{ { q.first, 1 } }] = 1;
                    r.n = mulP(r.n, s);
                    Poly arg = atoms[q.first].sq;
                    mpq_class sc;
                    int f = factor(arg, sc);
                    r.d[f] += 1;
                    for (auto &z : r.n) z.second /= sc;
                } else {
                    Poly v;
                    v[Mono{ { q.first, 1 } }] = 1;
                    mpq_class sc;
                    int f = factor(v, sc);
                    r.d[f] += q.second;
                }
            }
        } else {
            mpq_class sc;
            int f = factor(a.n, sc);
            r.n = cst(1 / sc);
            r.d[f] = 1;
        }
        for (auto &p : a.d)
            for (int i = 0; i < p.second; i++) {
                Poly cp = factors[p.first];
                // cancel against own denominator first
                auto it = r.d.find(p.first);
                if (it != r.d.end() && it->second > 0) { if (--it->second == 0) r.d.erase(it); continue; }
                r.n = mulP(r.n, cp);
            }
        return r;
    }
    bool polyNonneg(const Poly &p) {
        for (auto &m : p) {
            if (m.second < 0) return false;
            for (auto &q : m.first) if (q.second % 2 && !atoms[q.first].nonneg) return false;
        }
        return true;
    }
    Rat atomRat(int a) {
        Rat r;
        r.n[Mono{ { a, 1 } }] = 1;
        return r;
    }
    std::string ratKey(const Rat &r) {
        std::string s = key(r.n) + "/";
        for (auto &p : r.d) s += std::to_string(p.first) + "^" + std::to_string(p.second) + ",";
        return s;
    }
    // content and sign normalisation of a polynomial: p = k * q, leading coefficient of q = +-1
    Rat sqrtR(const Rat &a) {
        if (a.n.empty()) return a;
        // sqrt(n/d): make the denominator a square
        Poly num = a.n;
        Rat out;
        out.n = cst(1);
        for (auto &p : a.d) {
            int e = p.second;
            if (e % 2) { Poly cp = factors[p.first]; num = mulP(num, cp); e++; }
            // |factor|^(e/2) in the denominator
            Poly f = factors[p.first];
            if (polyNonneg(f)) out.d[p.first] += e / 2;
            else {
                int at = atom(2, O_ABS, "abs:" + key(f), Poly(), -1, true);
                Poly v;
                v[Mono{ { at, 1 } }] = 1;
                mpq_class sc;
                int ff = factor(v, sc);
                out.d[ff] += e / 2;
            }
        }
        if (num.empty()) return Rat();
        const std::pair<const Mono, mpq_class> *best = nullptr;
        for (auto &m : num) if (!best || m.first < best->first) best = &m;
        mpq_class k = abs(best->second), root, rest;
        squareSplit(k, root, rest);
        Poly q;
        for (auto &m : num) q[m.first] = m.second / k * rest;
        // common even powers of atoms
        Mono common = q.begin()->first;
        for (auto &m : q) {
            Mono nc;
            for (auto &c : common)
                for (auto &x : m.first) if (x.first == c.first) nc.emplace_back(c.first, std::min(c.second, x.second));
            common = nc;
        }
        Poly pre = cst(root);
        Mono strip;
        for (auto &c : common) {
            int e = c.second / 2 * 2;
            if (!e) continue;
            strip.emplace_back(c.first, e);
            int at = c.first;
            if (!atoms[at].nonneg) at = atom(2, O_ABS, "absatom:" + std::to_string(c.first), Poly(), -1, true);
            Poly v;
            v[Mono{ { at, e / 2 } }] = 1;
            pre = mulP(pre, v);
        }
        if (!strip.empty()) {
            Poly q2;
            for (auto &m : q) {
                Mono nm;
                for (auto &x : m.first) {
                    int e = x.second;
                    for (auto &s : strip) if (s.first == x.first) e -= s.second;
                    if (e) nm.emplace_back(x.first, e);
                }
                q2[nm] = m.second;
            }
            q = q2;
        }
        // perfect square polynomial?  try q = r^2 with r from the leading structure (cheap cases)
        Poly root2;
        if (perfectSquare(q, root2)) {
            if (polyNonneg(root2)) out.n = mulP(pre, root2);
            else {
                // normalise sign
                const std::pair<const Mono, mpq_class> *b2 = nullptr;
                for (auto &m : root2) if (!b2 || m.first < b2->first) b2 = &m;
                if (b2->second < 0) for (auto &m : root2) m.second = -m.second;
                int at = atom(1, O_ABS, "abs:" + key(root2), q, -1, true);
                Poly v;
                v[Mono{ { at, 1 } }] = 1;
                out.n = mulP(pre, v);
            }
            return out;
        }
        int at = atom(1, O_SQRT, "sqrt:" + key(q), q, -1, true);
        Poly v;
        v[Mono{ { at, 1 } }] = 1;
        out.n = mulP(pre, v);
        return out;
    }
    bool perfectSquare(const Poly &q, Poly &root) {
        if (q.size() > 400) return false;
        // Newton-like: order monomials, extract the square root term by term
        struct Less { bool operator()(const Mono &a, const Mono &b) const { return a < b; } };
        std::map<Mono, mpq_class> rem(q.begin(), q.end());
        // use a monomial order compatible with multiplication: lexicographic on dense exponents
        std::set<int> vs;
        for (auto &m : q) for (auto &x : m.first) vs.insert(x.first);
        std::vector<int> vv(vs.begin(), vs.end());
        if (vv.size() > 40) return false;
        auto dense = [&](const Mono &m) {
            std::vector<int> e(vv.size(), 0);
            for (auto &x : m) e[std::lower_bound(vv.begin(), vv.end(), x.first) - vv.begin()] = x.second;
            return e;
        };
        auto sparse = [&](const std::vector<int> &e) {
            Mono m;
            for (size_t i = 0; i < vv.size(); i++) if (e[i]) m.emplace_back(vv[i], e[i]);
            return m;
        };
        std::map<std::vector<int>, mpq_class, std::greater<std::vector<int>>> r;
        for (auto &m : q) {
            for (auto &x : m.first) if (atoms[x.first].kind == 1) return false;
            r[dense(m.first)] = m.second;
        }
        std::vector<std::pair<std::vector<int>, mpq_class>> rt;
        int guard = 0;
        while (!r.empty()) {
            if (++guard > 60) return false;
            auto lead = *r.begin();
            std::vector<int> e(vv.size());
            mpq_class c;
            if (rt.empty()) {
                if (lead.second < 0) return false;
                mpq_class ro, re;
                squareSplit(lead.second, ro, re);
                if (re != 1) return false;
                for (size_t i = 0; i < e.size(); i++) { if (lead.first[i] % 2) return false; e[i] = lead.first[i] / 2; }
                c = ro;
            } else {
                for (size_t i = 0; i < e.size(); i++) { e[i] = lead.first[i] - rt[0].first[i]; if (e[i] < 0) return false; }
                c = lead.second / (2 * rt[0].second);
            }
            // subtract 2*c*m*rt + (c m)^2
            auto sub = [&](const std::vector<int> &x, const mpq_class &k) {
                auto it = r.find(x);
                if (it == r.end()) r[x] = -k;
                else { it->second -= k; if (it->second == 0) r.erase(it); }
            };
            for (auto &t : rt) {
                std::vector<int> x(e.size());
                for (size_t i = 0; i < e.size(); i++) x[i] = e[i] + t.first[i];
                sub(x, 2 * c * t.second);
            }
            std::vector<int> x(e.size());
            for (size_t i = 0; i < e.size(); i++) x[i] = 2 * e[i];
            sub(x, c * c);
            rt.emplace_back(e, c);
        }
        root.clear();
        for (auto &t : rt) root[sparse(t.first)] = t.second;
        return true;
    }
    std::vector<std::pair<int, std::pair<Rat, Rat>>> angles;   // atom -> (y, x)
    Rat conv(int id) {
        auto it = memo.find(id);
        if (it != memo.end()) return it->second;
        const Node x = P.n[id];
        Rat r;
        switch (x.kind) {
            case K_CONST: r.n = cst(x.c); break;
            case K_VAR: r = atomRat(atom(0, O_VAR, "v:" + std::to_string(id), Poly(), id, P.nonneg(id))); break;
            case K_SUM:
                r.n = cst(x.c);
                for (auto &p : x.t) { Rat t = conv(p.first); r = addR(r, t, p.second); }
                break;
            case K_PROD: {
                r.n = cst(1);
                for (auto &p : x.f) {
                    Rat t;
                    if (shallow && p.second < 0) t = atomRat(atom(2, O_NONE, "inv:" + std::to_string(p.first), Poly(), -1, false));
                    else {
                        t = conv(p.first);
                        if (p.second < 0) t = invR(t);
                    }
                    for (int i = 0; i < std::abs(p.second); i++) r = mulR(r, t);
                }
                break;
            }
            case K_FN:
                if (shallow) r = atomRat(atom(2, x.op, "f:" + std::to_string(id), Poly(), -1, false));
                else if (x.op == O_SQRT) { Rat t = conv(x.args[0]); r = sqrtR(t); }
                else if (x.op == O_ABS) {
                    Rat t = conv(x.args[0]);
                    Rat sq = mulR(t, t);
                    r = sqrtR(sq);
                } else if (x.op == O_ATAN2) {
                    Rat y = conv(x.args[0]), xx = conv(x.args[1]);
                    for (auto &a : angles) {
                        // same direction: cross product zero (sign settled numerically by the caller's samples)
                        Rat c1 = mulR(a.second.first, xx), c2 = mulR(a.second.second, y);
                        Rat d = addR(c1, c2, -1);
                        if (d.n.empty() && sameDir && sameDir(id, angleNode[a.first])) { r = atomRat(a.first); break; }
                    }
                    if (r.n.empty()) {
                        int at = atom(2, O_ATAN2, "ang:" + std::to_string(id), Poly(), -1, false);
                        angleNode[at] = id;
                        angles.push_back({ at, { y, xx } });
                        r = atomRat(at);
                    }
                } else {
                    std::string k = "fn:" + std::to_string(x.op);
                    for (int a : x.args) { Rat t = conv(a); k += "|" + ratKey(t); }
                    r = atomRat(atom(2, x.op, k, Poly(), -1, P.nonneg(id)));
                }
                break;
        }
        memo[id] = r;
        return r;
    }
    std::map<int, int> angleNode;
    std::function<bool(int, int)> sameDir;
};
}  // namespace

bool (*angleSameDirHook)(int, int) = nullptr;

bool zeroShallow = false;
size_t zeroWork = 0;
int zeroTest(int node, size_t limit) {
    zeroShallow = true;
    try {
        Ctx c;
        c.limit = limit;
        c.shallow = true;
        bool zero = c.conv(node).n.empty();
        zeroWork = c.work;
        if (zero) return 1;
    } catch (TooBig &) {
    }
    zeroShallow = false;
    Ctx c;
    c.limit = limit;
    c.sameDir = [](int a, int b) { return angleSameDirHook ? angleSameDirHook(a, b) : false; };
    try {
        Rat r = c.conv(node);
        zeroWork = c.work;
        return r.n.empty() ? 1 : 0;
    } catch (TooBig &) {
        return -1;
    }
}

}  // namespace sf
