// C30, C31: files. The two format libraries are stand-ins that record what is written and supply what is read.
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <csignal>
#include <fstream>
#include <locale>
#include <sstream>
#include "editlib.h"
#include "tiny_obj_loader.h"
#include "tinyply.h"

// ------------------------------------------------------------------ scratch directory
struct Scratch {
    std::string dir;
    bool own = false;
    Scratch() {
        const char *base = getenv("SYM_SCRATCH");   // removed by the driver
        own = !base;
        std::string t = std::string(base ? base : "/tmp") + "/symio.XXXXXX";
        dir = mkdtemp(&t[0]) ? t : "/nonexistent";
    }
    ~Scratch() {
        if (!own) return;
        for (const char *n : { "m.obj", "m.ply" }) unlink((dir + "/" + n).c_str());
        for (const char *n : { "d.obj", "d.ply" }) rmdir((dir + "/" + n).c_str());
        rmdir(dir.c_str());
    }
    std::string operator()(const char *n) const { return dir + "/" + n; }
};

// ------------------------------------------------------------------ numbers written to a text stream
struct Put {
    double value;
    int digits;
};
static std::vector<Put> puts_;
extern "C" __attribute__((used)) std::ostream &stub_put(std::ostream &os, double d) {
    if (sym_is_symbolic(d)) {
        bool fixed = (os.flags() & std::ios::floatfield) == std::ios::fixed;
        int digits = (os.flags() & std::ios::floatfield) == (std::ios::fixed | std::ios::scientific) ? 17 : fixed ? 0 : (int)os.precision();
        os << "#" << puts_.size();
        puts_.push_back({ d, digits });
    } else
        std::use_facet<std::num_put<char>>(os.getloc()).put(std::ostreambuf_iterator<char>(os), os, os.fill(), d);
    return os;
}
struct File {
    std::vector<std::array<double, 3>> v;
    std::vector<Tri3> f;
    bool opaque = false;   // symbolic numbers were formatted in a way that is not followed
};
static const char *COUNT = "every vertex is written once", *FACES = "every triangle, and no hole, is written once with its orientation",
                  *VALUE = "every vertex is written with its coordinates", *DIGITS = "coordinates are written at least in single precision";
static File parseObj(const std::string &text) {
    File r;
    std::istringstream is(text);
    for (std::string line; std::getline(is, line);) {
        std::istringstream ls(line);
        std::string tag, w;
        ls >> tag;
        if (tag == "v") {
            std::array<double, 3> p{ 0, 0, 0 };
            for (int d = 0; d < 3 && (ls >> w); d++) {
                if (w[0] == '#') {
                    const Put &q = puts_.at(std::stoi(w.substr(1)));
                    sym_check(q.digits >= 9, DIGITS);
                    p[d] = q.value;
                } else if (w.find("nan") != std::string::npos)
                    r.opaque = true;
                else
                    p[d] = std::strtod(w.c_str(), nullptr);
            }
            r.v.push_back(p);
        } else if (tag == "f") {
            Tri3 t{ 0, 0, 0 };
            int n = 0;
            for (; ls >> w; n++)
                if (n < 3) t[n] = std::atoi(w.c_str()) - 1;
            sym_check(n == 3, "faces are triangles");
            r.f.push_back(t);
        }
    }
    return r;
}
static std::string slurp(const std::string &name) {
    std::ifstream is(name, std::ios::binary);
    std::ostringstream os;
    os << is.rdbuf();
    return os.str();
}
static size_t width(tinyply::Type t) {
    using T = tinyply::Type;
    return t == T::FLOAT64 ? 8 : t == T::FLOAT32 || t == T::INT32 || t == T::UINT32 ? 4 : t == T::INT16 || t == T::UINT16 ? 2 : t == T::INVALID ? 0 : 1;
}
static double numberAt(const uint8_t *p, tinyply::Type t) {
    if (t == tinyply::Type::FLOAT64) { double d; memcpy(&d, p, 8); return d; }
    float f; memcpy(&f, p, 4); return (double)f;
}
static long indexAt(const uint8_t *p, tinyply::Type t) {
    using T = tinyply::Type;
    switch (t) {
        case T::INT8: return (int8_t)*p;
        case T::UINT8: return *p;
        case T::INT16: { int16_t v; memcpy(&v, p, 2); return v; }
        case T::UINT16: { uint16_t v; memcpy(&v, p, 2); return v; }
        case T::INT32: { int32_t v; memcpy(&v, p, 4); return v; }
        default: { uint32_t v; memcpy(&v, p, 4); return v; }
    }
}
static std::vector<tinyply::Added> written;
static int writes = 0;
static File parsePly() {
    File r;
    for (auto &a : written) {
        size_t w = width(a.type);
        if (a.element == "vertex" && a.keys == std::vector<std::string>{ "x", "y", "z" }) {
            sym_check(a.type == tinyply::Type::FLOAT32 || a.type == tinyply::Type::FLOAT64, DIGITS);
            sym_check(a.listCount == 0 && a.bytes.size() == 3 * w * a.count, COUNT);
            if (a.bytes.size() != 3 * w * a.count) return r;
            for (size_t i = 0; i < a.count; i++) {
                std::array<double, 3> p;
                for (int d = 0; d < 3; d++) p[d] = numberAt(&a.bytes[(3 * i + d) * w], a.type);
                r.v.push_back(p);
            }
        } else if (a.element == "face") {
            sym_check(a.keys.size() == 1 && (a.keys[0] == "vertex_indices" || a.keys[0] == "vertex_index") && a.listCount == 3 && a.listType == tinyply::Type::UINT8, "faces are written as lists of three vertex numbers");
            if (a.listCount != 3 || a.bytes.size() != 3 * w * a.count) return r;
            for (size_t i = 0; i < a.count; i++) {
                Tri3 t;
                for (int d = 0; d < 3; d++) t[d] = (int)indexAt(&a.bytes[(3 * i + d) * w], a.type);
                r.f.push_back(t);
            }
        }
    }
    return r;
}
static void scriptPly(bool append) {
    writes = 0;
    tinyply::script() = tinyply::Script();
    tinyply::script().onWrite = [append](const std::vector<tinyply::Added> &a, std::ostream &os, bool) {
        written = a;
        writes++;
        if (append) {
            os << "ply\n";
            for (auto &x : a) os.write((const char *)x.bytes.data(), (std::streamsize)x.bytes.size());
        }
    };
}

#ifdef H_FILES
static void checkFile(const File &f, const State &a, bool ply) {
    sym_check((int)f.v.size() == a.s.V, COUNT);
    if ((int)f.v.size() != a.s.V) return;
    for (int i = 0; i < a.s.V; i++)
        for (int d = 0; d < 3; d++) {
            double p = a.pos.at(a.order[i])[d], q = f.v[i][d];
            if (sym_is_symbolic(q) || ply) {
                bool rounded = ply && written[0].type == tinyply::Type::FLOAT32;
                sym_check_eq(q, rounded ? (double)(float)p : p, VALUE);
            } else
                sym_check_le(std::abs(q - p), std::abs(p) * 6e-8, VALUE);
        }
    std::vector<Tri3> ts;
    for (auto t : f.f) {
        for (int k : t) {
            sym_check(k >= 0 && k < a.s.V, FACES);
            if (k < 0 || k >= a.s.V) return;
        }
        ts.push_back(rotated({ a.order[t[0]], a.order[t[1]], a.order[t[2]] }));
    }
    std::sort(ts.begin(), ts.end());
    sym_check(ts == a.tris, FACES);
}
using Key = std::array<uint64_t, 3>;
static Key keyOf(const Vec3 &p) {
    Key k;
    for (int d = 0; d < 3; d++) { double x = p[d]; memcpy(&k[d], &x, 8); }
    return k;
}
// the same triangles, as triples of positions
static void sameMesh(const Mesh &m, const File &f, bool ply) {
    Structure s = inspect(m, "after loading");
    if (!s.ok) return;
    std::map<Key, int> at;
    for (size_t i = 0; i < f.v.size(); i++) {
        Vec3 p((double)(float)f.v[i][0], (double)(float)f.v[i][1], (double)(float)f.v[i][2]), q(f.v[i][0], f.v[i][1], f.v[i][2]);
        at[keyOf(p)] = (int)i;
        at[keyOf(q)] = (int)i;
    }
    sym_check(s.V == (int)f.v.size(), "loading gives every vertex once");
    std::vector<Tri3> got, want;
    for (auto &t : s.tris) {
        Tri3 r;
        for (int k = 0; k < 3; k++) {
            auto it = at.find(keyOf(m.vertex(t[k])->pos()));
            sym_check(it != at.end(), "loaded vertices are at the positions in the file");
            if (it == at.end()) return;
            r[k] = it->second;
        }
        got.push_back(rotated(r));
    }
    for (auto &t : f.f) want.push_back(rotated(t));
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    sym_check(got == want, "loading gives the triangles in the file");
}
extern "C" void sym_harness() {
    static const int shapes[8] = { 0, 1, 2, 6, 8, 10, 11, 13 };
    const int k = sym_int("shape", 0, 7);
    Shape shape = baseShape(shapes[k]);
    Input in = inputOf(shape);
    Mesh m(in.vs, in.idx);
    const bool ply = sym_int("ply", 0, 1);
    const int hist = sym_int("object", 0, 2), edited = sym_int("edited", 0, 1), awkward = sym_int("awkward", 0, 1);
    if (edited) {   // files of edited meshes: stored order and numbering have changed
        bool any = false;
        for (int i = 0; i < (int)m.numHalfedges() && !any; i++) any = m.splitHE(m.halfedge(i));
        for (int i = 0; i < (int)m.numHalfedges(); i++) if (m.collapseHE(m.halfedge(i))) break;
    }
    const int V = (int)m.numVertices();
    File f;
    Ids ids;
    State a;
    for (int round = awkward;; round++) {
        for (int i = 0; i < V; i++) {
            static const double odd[4] = { 1234567.25, -0.000012345678, 0.333333333, -98765.4375 };
            double p[3];
            for (int d = 0; d < 3; d++)
                p[d] = round ? odd[(i + d) % 4] * (1 + i) + (d == 0 ? i : 0)
                             : sym_real((std::string("xyz").substr(d, 1) + std::to_string(i)).c_str(), -1000, 1000);
            m.vertex(i)->setPos(Vec3(p[0], p[1], p[2]));
        }
        a = grab(m, ids, "before");
        if (!a.s.ok) return;
        Scratch dir;
        scriptPly(true);
        puts_.clear();
        written.clear();
        std::string name = dir(ply ? "m.ply" : "m.obj");
        int out = sym_try([&] { m.save(name); });
        sym_check(out == 0, "saving returns");
        if (out) return;
        if (ply) sym_check(writes == 1, "saving writes the file once");
        f = ply ? parsePly() : parseObj(slurp(name));
        if (!f.opaque) break;
        if (round) sym_fail("a saved file contains something that is not a number");
        if (round) return;
        sym_note("coordinates are formatted in a way that is not followed symbolically: fixed values instead");
    }
    checkFile(f, a, ply);
    if ((int)f.v.size() != V || f.f.size() != a.tris.size()) return;
    for (auto &t : f.f) for (int x : t) if (x < 0 || x >= V) return;
    // back again
    for (int i = 0; i < V; i++)
        for (int j = 0; j < i; j++) sym_assume_ne((double)(float)f.v[i][0], (double)(float)f.v[j][0]);
    sym_note("vertices are still distinct (in x) when rounded to single precision");
    Scratch dir;
    std::string name = dir(ply ? "m.ply" : "m.obj");
    { std::ofstream os(name); os << "x"; }
    int asked = 0;
    tinyobj::loadHook() = [&](tinyobj::attrib_t *at, std::vector<tinyobj::shape_t> *sh, std::string *, std::string *, const char *fn) {
        asked += name == fn;
        at->vertices.clear();
        for (auto &p : f.v) for (int d = 0; d < 3; d++) at->vertices.push_back((float)p[d]);
        size_t parts = hist == 2 ? 2 : 1;   // one object or two groups
        sh->assign(parts, tinyobj::shape_t());
        for (size_t i = 0; i < f.f.size(); i++) {
            auto &mesh = (*sh)[i < f.f.size() / 2 ? 0 : parts - 1].mesh;
            for (int c : f.f[i]) {
                tinyobj::index_t ix;
                ix.vertex_index = c;
                mesh.indices.push_back(ix);
            }
            mesh.num_face_vertices.push_back(3);
        }
        return true;
    };
    tinyply::script().onRequest = [&](const std::string &e, const std::vector<std::string> &keys) -> std::shared_ptr<tinyply::PlyData> {
        for (auto &w : written)
            if (w.element == e && (w.keys == keys || (e == "face" && keys.size() == 1))) {
                auto d = std::make_shared<tinyply::PlyData>();
                d->t = w.type;
                d->count = w.count;
                d->isList = w.listCount > 0;
                d->buffer = tinyply::Buffer(w.bytes.size());
                memcpy(d->buffer.get(), w.bytes.data(), w.bytes.size());
                return d;
            }
        throw std::invalid_argument("no such element");
    };
    Input other = inputOf(baseShape(k % 2 ? 6 : 1));
    Mesh fresh, used(other.vs, other.idx);
    Mesh &target = hist ? used : fresh;
    target.load(name);
    if (!ply) sym_check(asked == 1, "the named file is read");
    sameMesh(target, f, ply);
    if (hist) {   // and once more into the same object
        target.load(name);
        sameMesh(target, f, ply);
    }
    sym_out("x", target.vertex(0)->pos()[0]);
    sym_reach(ply ? "ply" : "obj");
    sym_reach(a.loops.empty() ? "closed" : "open");
}
#endif

#ifdef H_FAULTS
// a fault schedule: the unit intervals of a symbolic number stand for the possible faults
static int pick(const char *name, int n) {
    double r = sym_real(name, 0, n);
    for (int i = 0; i + 1 < n; i++) if (r < i + 1) return i;
    return n - 1;
}
extern "C" void sym_harness() {
    Input in = inputOf(baseShape(sym_int("shape", 0, 1) ? 8 : 0));
    Mesh m(in.vs, in.idx);
    for (int i = 0; i < (int)m.numVertices(); i++)
        for (int d = 0; d < 1; d++) {
            Vec3 p = m.vertex(i)->pos();
            m.vertex(i)->setPos(Vec3(sym_real(("x" + std::to_string(i)).c_str(), -1000, 1000), p[1], p[2]));
        }
    Ids ids;
    State a = grab(m, ids, "before");
    if (!a.s.ok) return;
    const int kind = pick("case", 7);
    const bool ply = pick("ply", 2);
    Scratch dir;
    scriptPly(true);
    tinyobj::loadHook() = nullptr;
    const char *file = ply ? "m.ply" : "m.obj";
    int out = 0;
    if (kind == 0) {   // names
        static const char *names[] = { "m", "m.", "m.stl", "m.off", "m.ob", "m.objx", "m.pl", "m.plyy", "m.obj.bak", "m.ply.gz", "mobj", "m.obj/x", "m.txt", "m.o", "obj.m", "m.obj~" };
        std::string n = dir(names[pick("name", 16)]);
        out = ply ? sym_try([&] { m.load(n); }) : sym_try([&] { m.save(n); });
        sym_check(out != 0, "an unsupported file extension is reported");
        struct stat st;
        sym_check(stat(n.c_str(), &st) != 0, "an unsupported file is not written");
        unlink(n.c_str());
        sym_reach("extension");
    } else if (kind == 1) {   // cannot be opened / rejected by the library
        int msg = pick("message", 2);
        tinyobj::loadHook() = [&](tinyobj::attrib_t *, std::vector<tinyobj::shape_t> *, std::string *, std::string *err, const char *) {
            if (msg && err) *err = "cannot open";
            return false;
        };
        out = sym_try([&] { m.load(dir(file)); });
        sym_check(out != 0, "a file that cannot be opened is reported");
        sym_reach("cannot open");
    } else if (kind == 2) {   // the library fails at some point, or a table is missing
        int where = pick("where", 5), extra = pick("message", 2);
        { std::ofstream os(dir(file)); os << "x"; }
        auto boom = [&] { throw std::runtime_error("format error"); };
        if (where == 0) tinyply::script().onHeader = boom;
        if (where == 1) tinyply::script().onRead = boom;
        tinyply::script().onRequest = [&](const std::string &e, const std::vector<std::string> &keys) -> std::shared_ptr<tinyply::PlyData> {
            bool xyz = keys.size() == 3 && keys[0] == "x", face = e == "face";
            if ((!xyz && !face) || (where == 2 && xyz) || (where == 3 && face) || where == 4) throw std::invalid_argument("no such element");
            auto d = std::make_shared<tinyply::PlyData>();
            d->t = xyz ? tinyply::Type::FLOAT32 : tinyply::Type::UINT32;
            d->count = xyz ? 4 : 4;
            std::vector<float> v;
            for (int i = 0; i < 4; i++) for (int c = 0; c < 3; c++) v.push_back((float)(i == c + 1));
            std::vector<uint32_t> f = { 0, 2, 1, 0, 1, 3, 1, 2, 3, 2, 0, 3 };
            d->buffer = tinyply::Buffer(48);
            memcpy(d->buffer.get(), xyz ? (const void *)v.data() : f.data(), 48);
            return d;
        };
        tinyobj::loadHook() = [&](tinyobj::attrib_t *at, std::vector<tinyobj::shape_t> *sh, std::string *, std::string *err, const char *) {
            if (extra && err) *err = "format error";
            at->vertices.assign(3, 0.0f);   // a partial result
            sh->resize(where % 2);
            return false;
        };
        out = sym_try([&] { m.load(dir(file)); });
        sym_check(out != 0, where < 2 || !ply ? "a file the format library rejects is reported" : "a file without a vertex or face table is reported");
        sym_reach("rejected");
    } else if (kind == 3) {   // nowhere to write to
        int where = pick("where", 2);
        std::string n = where ? dir(ply ? "d.ply" : "d.obj") : dir(ply ? "none/m.ply" : "none/m.obj");
        if (where) mkdir(n.c_str(), 0700);
        out = sym_try([&] { m.save(n); });
        sym_check(out != 0, "a file that cannot be created is reported");
        State b = grab(m, ids, "after a failed attempt to save");
        if (b.s.ok) unchanged(a, b, "a failed attempt to save leaves the mesh alone");
        sym_reach("cannot create");
    } else if (kind == 4) {   // the disk is full after some bytes
        std::string n = dir(file);
        int good = sym_try([&] { m.save(n); });
        sym_check(good == 0, "saving works when there is room");
        if (good) return;
        int size = (int)slurp(n).size();
        unlink(n.c_str());
        int room = pick("room", 16);   // sixteenths of the file, the last one a byte short
        struct rlimit old, lim;
        getrlimit(RLIMIT_FSIZE, &old);
        lim = old;
        lim.rlim_cur = room == 15 ? size - 1 : size * room / 16;
        signal(SIGXFSZ, SIG_IGN);
        setrlimit(RLIMIT_FSIZE, &lim);
        out = sym_try([&] { m.save(n); });
        setrlimit(RLIMIT_FSIZE, &old);
        sym_check(out != 0, "a file that cannot be written in full is reported");
        State b = grab(m, ids, "after a failed attempt to save");
        if (b.s.ok) unchanged(a, b, "a failed attempt to save leaves the mesh alone");
        sym_reach("disk full");
    } else {   // faces referring to vertices that are not there; a file with nothing wrong
        int bad = kind == 5 ? pick("bad", 3) : 0, pos = kind == 5 ? pick("pos", 12) : 0;
        const long value = bad == 0 ? 4 : bad == 1 ? 1000000 : 2000000000;
        std::vector<uint32_t> f = { 0, 2, 1, 0, 1, 3, 1, 2, 3, 2, 0, 3 };
        if (kind == 5) f[pos] = (uint32_t)value;
        { std::ofstream os(dir(file)); os << "x"; }
        std::vector<float> v;
        for (int i = 0; i < 4; i++) for (int c = 0; c < 3; c++) v.push_back((float)(c == 0 ? sym_real(("v" + std::to_string(i)).c_str(), -8, 8) : i == c + 1));
        for (int i = 0; i < 4; i++) for (int j = 0; j < i; j++) sym_assume_ne((double)v[3 * i], (double)v[3 * j]);
        tinyply::script().onRequest = [&](const std::string &e, const std::vector<std::string> &keys) -> std::shared_ptr<tinyply::PlyData> {
            bool xyz = keys.size() == 3 && keys[0] == "x";
            if (!xyz && e != "face") throw std::invalid_argument("no such element");
            auto d = std::make_shared<tinyply::PlyData>();
            d->t = xyz ? tinyply::Type::FLOAT32 : tinyply::Type::UINT32;
            d->count = 4;
            d->buffer = tinyply::Buffer(48);
            memcpy(d->buffer.get(), xyz ? (const void *)v.data() : f.data(), 48);
            return d;
        };
        tinyobj::loadHook() = [&](tinyobj::attrib_t *at, std::vector<tinyobj::shape_t> *sh, std::string *, std::string *, const char *) {
            at->vertices.assign(v.begin(), v.end());
            sh->resize(1);
            for (uint32_t x : f) {
                tinyobj::index_t ix;
                ix.vertex_index = (int)x;
                (*sh)[0].mesh.indices.push_back(ix);
            }
            (*sh)[0].mesh.num_face_vertices.assign(4, 3);
            return true;
        };
        out = sym_try([&] { m.load(dir(file)); });
        if (kind == 5) {
            sym_check(out != 0, "faces that refer to missing vertices are reported");
            sym_reach("missing vertex");
        } else {
            sym_check(out == 0, "a file with nothing wrong is accepted");
            if (out) return;
            Structure s = inspect(m, "after loading");
            sym_check(s.ok && s.V == 4 && s.F == 4, "a file with nothing wrong is loaded");
            double want = 0, got = 0;   // whatever the order of the vertices
            for (int i = 0; i < 4 && s.V == 4; i++) want = want + (double)v[3 * i], got = got + m.vertex(i)->pos()[0];
            sym_check_eq(got, want, "a file with nothing wrong is loaded");
            sym_reach("accepted");
        }
    }
    sym_outi("reported", out != 0);
}
#endif
