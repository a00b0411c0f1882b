// Stand-in for the OBJ library (an empty submodule here): same types, the parser is supplied by the harness.
#pragma once
#include <functional>
#include <string>
#include <vector>

namespace tinyobj {

typedef float real_t;

struct index_t {
    int vertex_index = -1;
    int normal_index = -1;
    int texcoord_index = -1;
};
struct mesh_t {
    std::vector<index_t> indices;
    std::vector<unsigned char> num_face_vertices;
    std::vector<int> material_ids;
};
struct shape_t {
    std::string name;
    mesh_t mesh;
};
struct material_t {
    std::string name;
};
struct attrib_t {
    std::vector<real_t> vertices;
    std::vector<real_t> normals;
    std::vector<real_t> texcoords;
    std::vector<real_t> colors;
};

using LoadFn = std::function<bool(attrib_t *, std::vector<shape_t> *, std::string *, std::string *, const char *)>;
inline LoadFn &loadHook() {
    static LoadFn f;
    return f;
}

inline bool LoadObj(attrib_t *attrib, std::vector<shape_t> *shapes, std::vector<material_t> *, std::string *warn, std::string *err,
                    const char *filename, const char * = nullptr, bool = true, bool = true) {
    if (loadHook()) return loadHook()(attrib, shapes, warn, err, filename);
    if (err) *err = "no such file";
    return false;
}

}  // namespace tinyobj
