// Shared helpers of the harnesses.
#pragma once
#include "symfp.h"
#include "core/vec.h"
#include <cmath>
#include <string>
#include <vector>

inline Vec3 symVec(const char *name, double lo, double hi) {
    std::string n(name);
    double x = sym_real((n + "x").c_str(), lo, hi);
    double y = sym_real((n + "y").c_str(), lo, hi);
    double z = sym_real((n + "z").c_str(), lo, hi);
    return Vec3(x, y, z);
}
inline Vec3 anyVec(const char *name) {
    std::string n(name);
    double x = sym_any((n + "x").c_str());
    double y = sym_any((n + "y").c_str());
    double z = sym_any((n + "z").c_str());
    return Vec3(x, y, z);
}
inline void checkVec(const Vec3 &a, const Vec3 &b, const char *msg) {
    for (int i = 0; i < 3; i++) sym_check_eq(a[i], b[i], msg);
}
inline void outVec(const char *name, const Vec3 &v) {
    for (int i = 0; i < 3; i++) sym_out((std::string(name) + std::to_string(i)).c_str(), v[i]);
}
// plain component formulas, written without the library's operators
inline double dot3(const Vec3 &a, const Vec3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline Vec3 sub3(const Vec3 &a, const Vec3 &b) { return Vec3(a[0] - b[0], a[1] - b[1], a[2] - b[2]); }
inline Vec3 add3(const Vec3 &a, const Vec3 &b) { return Vec3(a[0] + b[0], a[1] + b[1], a[2] + b[2]); }
inline Vec3 mul3(const Vec3 &a, double s) { return Vec3(a[0] * s, a[1] * s, a[2] * s); }
inline Vec3 cross3(const Vec3 &a, const Vec3 &b) {
    return Vec3(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]);
}
