// Stand-in for the PLY library (an empty submodule here): same interface, behaviour supplied by the harness.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <istream>
#include <memory>
#include <ostream>
#include <stdexcept>
#include <string>
#include <vector>

namespace tinyply {

enum class Type : uint8_t { INVALID, INT8, UINT8, INT16, UINT16, INT32, UINT32, FLOAT32, FLOAT64 };

struct Buffer {
    std::shared_ptr<uint8_t> data;
    size_t size = 0;
    Buffer() {}
    explicit Buffer(size_t n) : data(new uint8_t[n ? n : 1], std::default_delete<uint8_t[]>()), size(n) {}
    uint8_t *get() { return data.get(); }
    size_t size_bytes() const { return size; }
};

struct PlyData {
    Type t = Type::INVALID;
    Buffer buffer;
    size_t count = 0;
    bool isList = false;
};

struct Added {
    std::string element;
    std::vector<std::string> keys;
    Type type;
    size_t count;
    std::vector<uint8_t> bytes;
    Type listType;
    size_t listCount;
};

// what the harness scripts / observes
struct Script {
    std::function<void()> onHeader, onRead;
    std::function<std::shared_ptr<PlyData>(const std::string &, const std::vector<std::string> &)> onRequest;
    std::function<void(const std::vector<Added> &, std::ostream &, bool)> onWrite;
};
inline Script &script() {
    static Script s;
    return s;
}

class PlyFile {
    std::vector<Added> added;
    std::vector<std::string> comments;

public:
    bool parse_header(std::istream &) {
        if (script().onHeader) script().onHeader();
        return true;
    }
    void read(std::istream &) {
        if (script().onRead) script().onRead();
    }
    void write(std::ostream &os, bool binary) {
        if (script().onWrite) script().onWrite(added, os, binary);
    }
    std::vector<std::string> &get_comments() { return comments; }
    std::shared_ptr<PlyData> request_properties_from_element(const std::string &element, const std::vector<std::string> keys,
                                                             const uint32_t = 0) {
        if (script().onRequest) return script().onRequest(element, keys);
        throw std::invalid_argument("the element key was not found");
    }
    void add_properties_to_element(const std::string &element, const std::vector<std::string> keys, const Type type, const size_t count,
                                   const uint8_t *data, const Type listType, const size_t listCount) {
        Added a{ element, keys, type, count, {}, listType, listCount };
        size_t w = type == Type::FLOAT64 ? 8 : (type == Type::FLOAT32 || type == Type::UINT32 || type == Type::INT32) ? 4 : (type == Type::INT16 || type == Type::UINT16) ? 2 : 1;
        size_t per = listCount ? listCount : keys.size();
        a.bytes.assign(data, data + (data ? w * per * count : 0));
        added.push_back(std::move(a));
    }
};

}  // namespace tinyply
