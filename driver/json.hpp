// Minimal JSON reader and writer for the scripts of the driver.
#pragma once
#include <cstdlib>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

struct J {
    enum Kind { Null, Bool, Int, Str, Arr, Obj } kind = Null;
    long num = 0;
    std::string str;
    std::vector<J> arr;
    std::map<std::string, J> obj;

    const J &operator[](const char *k) const {
        auto i = obj.find(k);
        if (i == obj.end())
            throw std::logic_error(std::string("script: no field ") + k);
        return i->second;
    }
    const J &operator[](size_t i) const { return arr.at(i); }
    const J &operator[](int i) const { return arr.at((size_t) i); }
    size_t size() const { return arr.size(); }
    int i() const { return (int) num; }
    bool b() const { return num != 0; }
    bool has(const char *k) const { return obj.count(k) != 0; }
    bool is(const char *s) const { return str == s; }
};

class JParser {
    const char *p;

    void ws() {
        while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') ++p;
    }

    void expect(char c) {
        ws();
        if (*p != c)
            throw std::logic_error("script: malformed JSON");
        ++p;
    }

    std::string string() {
        std::string r;
        expect('"');
        while (*p && *p != '"') {
            if (*p == '\\') {
                ++p;
                switch (*p) {
                    case 'n': r += '\n'; break;
                    case 't': r += '\t'; break;
                    default: r += *p;
                }
                ++p;
            } else
                r += *p++;
        }
        expect('"');
        return r;
    }

public:
    explicit JParser(const char *s) : p(s) {}

    J value() {
        J j;
        ws();
        if (*p == '{') {
            ++p;
            j.kind = J::Obj;
            ws();
            while (*p != '}') {
                std::string k = string();
                expect(':');
                j.obj[k] = value();
                ws();
                if (*p == ',') { ++p; ws(); }
            }
            ++p;
        } else if (*p == '[') {
            ++p;
            j.kind = J::Arr;
            ws();
            while (*p != ']') {
                j.arr.push_back(value());
                ws();
                if (*p == ',') { ++p; ws(); }
            }
            ++p;
        } else if (*p == '"') {
            j.kind = J::Str;
            j.str = string();
        } else if (*p == 't') {
            p += 4; j.kind = J::Bool; j.num = 1;
        } else if (*p == 'f') {
            p += 5; j.kind = J::Bool;
        } else if (*p == 'n') {
            p += 4;
        } else {
            char *e;
            j.kind = J::Int;
            j.num = std::strtol(p, &e, 10);
            if (e == p)
                throw std::logic_error("script: malformed JSON");
            p = e;
        }
        return j;
    }
};

inline std::string quote(const std::string &s) {
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c == '\t') r += "\\t";
        else if ((unsigned char) c < 32) r += "?";
        else r += c;
    }
    return r + "\"";
}
