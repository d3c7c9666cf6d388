// Types of arguments and results used by the worlds.
#pragma once
#include "driver.hpp"
#include <cmath>
#include <iomanip>
#include <limits>

struct Big {                                         // returned through memory, only == and !=
    int v;
    int pad[12];
    Big(int x = 0) : v(x) { for (int &p : pad) p = x; }
    bool operator==(const Big &o) const { return v == o.v; }
    bool operator!=(const Big &o) const { return v != o.v; }
};
template<> struct Codec<Big> {
    static Big make(int v) { return Big(v); }
    static int get(const Big &b) {
        for (int p : b.pad) if (p != b.v) return -1000;
        return b.v;
    }
    enum { eq = 1, order = 0, approx = 0 };
};

struct Odd {                                         // operators that disagree with each other
    int v;
    bool operator==(const Odd &o) const { return v % 2 == o.v % 2; }
    bool operator!=(const Odd &o) const { return v / 2 != o.v / 2; }
    bool operator<(const Odd &o) const { return v % 3 < o.v % 3; }
    bool operator<=(const Odd &o) const { return v % 4 <= o.v % 4; }
    bool operator>(const Odd &o) const { return v % 5 > o.v % 5; }
    bool operator>=(const Odd &o) const { return v % 7 >= o.v % 7; }
};
template<> struct Codec<Odd> {
    static Odd make(int v) { return Odd{v}; }
    static int get(const Odd &b) { return b.v; }
    enum { eq = 1, order = 1, approx = 0 };
};

struct Hex {                                         // printing it leaves the stream changed
    int v;
    bool operator==(const Hex &o) const { return v == o.v; }
    bool operator!=(const Hex &o) const { return v != o.v; }
};
inline std::ostream &operator<<(std::ostream &o, const Hex &h) {
    return o << h.v + 16 << "/" << std::hex << std::showbase << h.v + 16 << std::setfill('#') << std::setw(3);
}
template<> struct Codec<Hex> {
    static Hex make(int v) { return Hex{v}; }
    static int get(const Hex &h) { return h.v; }
    enum { eq = 1, order = 0, approx = 0 };
};

struct Own2 {                                        // the user says how it is shown
    int v;
    bool operator==(const Own2 &o) const { return v == o.v; }
    bool operator!=(const Own2 &o) const { return v != o.v; }
};
inline std::ostream &operator<<(std::ostream &o, const Own2 &) { return o << "not used"; }
namespace fakeit {
    template<> struct Formatter<Own2> {
        static std::string format(const Own2 &x) { return "<U" + str(x.v) + ">"; }
    };
}
template<> struct Codec<Own2> {
    static Own2 make(int v) { return Own2{v}; }
    static int get(const Own2 &h) { return h.v; }
    enum { eq = 1, order = 0, approx = 0 };
};

enum class En { E0, E1, E2, E3, E4, E5, E6, E7, E8, E9 };
template<> struct Codec<En> {
    static En make(int v) { return (En) v; }
    static int get(En v) { return (int) v; }
    enum { eq = 1, order = 1, approx = 0 };
};
template<> struct Codec<bool> {
    static bool make(int v) { return v != 0; }
    static int get(bool v) { return v; }
    enum { eq = 1, order = 0, approx = 0 };
};
template<> struct Codec<char> {
    static char make(int v) { return v ? (char) ('a' + v) : 0; }
    static int get(char v) { return v ? v - 'a' : 0; }
    enum { eq = 1, order = 1, approx = 0 };
};
template<> struct Codec<long long> {
    static long long make(int v) { return v * 10000000000LL; }
    static int get(long long v) { return v % 10000000000LL ? -1000 : (int) (v / 10000000000LL); }
    enum { eq = 1, order = 1, approx = 0 };
};
template<> struct Codec<double> {                    // halves; -9 is NaN
    static double make(int v) { return v == -9 ? std::numeric_limits<double>::quiet_NaN() : v * 0.5; }
    static int get(double v) { return std::isnan(v) ? -9 : (int) (v * 2); }
    enum { eq = 1, order = 1, approx = 1 };
};
template<> struct Codec<std::unique_ptr<int>> {
    static std::unique_ptr<int> make(int v) { return v ? std::unique_ptr<int>(new int(v)) : nullptr; }
    static int get(const std::unique_ptr<int> &v) { return v ? *v : 0; }
    enum { eq = 0, order = 0, approx = 0 };
};
template<> struct Codec<std::vector<int>> {
    static std::vector<int> make(int v) { return v ? std::vector<int>(3, v) : std::vector<int>(); }
    static int get(const std::vector<int> &v) {
        if (v.empty()) return 0;
        return v.size() == 3 && v[0] == v[1] && v[1] == v[2] ? v[0] : -1000;
    }
    enum { eq = 1, order = 0, approx = 0 };
};
