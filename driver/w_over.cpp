// World "over": overloads and qualified methods, two mocks of one class.
#include "types.hpp"
using namespace fakeit;

namespace {
    struct O {
        virtual int f() = 0;
        virtual int f(int) = 0;
        virtual int f(int) const = 0;
        virtual int f(std::string) = 0;
        virtual int r() & = 0;
        virtual int r() const & = 0;
        virtual int r() && = 0;
        virtual int r() const && = 0;
        virtual int v(int) volatile = 0;
        virtual int w(int) const volatile = 0;
        virtual int f(int, int) = 0;
        virtual int f(long long) = 0;
        virtual const int q(int) = 0;
        virtual const std::string s(int) = 0;
        virtual const void n(int) = 0;
    };

#define O_METHODS(no, name) \
    auto s = new Own<O>(); \
    WRAP(s, no, 1, name, OverloadedMethod(name, f, int()), [s] { return s->inst().f(); }); \
    WRAP(s, no, 2, name, OverloadedMethod(name, f, int(int)), [s](int x) { return s->inst().f(x); }); \
    WRAP(s, no, 3, name, ConstOverloadedMethod(name, f, int(int)), [s](int x) { const O &c = s->inst(); return c.f(x); }); \
    WRAP(s, no, 4, name, OverloadedMethod(name, f, int(std::string)), [s](std::string x) { return s->inst().f(x); }); \
    WRAP(s, no, 5, name, RefOverloadedMethod(name, r, int()), [s] { return s->inst().r(); }); \
    WRAP(s, no, 6, name, ConstRefOverloadedMethod(name, r, int()), [s] { const O &c = s->inst(); return c.r(); }); \
    WRAP(s, no, 7, name, RValRefOverloadedMethod(name, r, int()), [s] { return std::move(s->inst()).r(); }); \
    WRAP(s, no, 8, name, ConstRValRefOverloadedMethod(name, r, int()), [s] { const O &c = s->inst(); return std::move(c).r(); }); \
    WRAP(s, no, 9, name, Method(name, v), [s](int x) { return s->inst().v(x); }); \
    WRAP(s, no, 10, name, Method(name, w), [s](int x) { return s->inst().w(x); }); \
    WRAP(s, no, 11, name, OverloadedMethod(name, f, int(int, int)), [s](int x, int y) { return s->inst().f(x, y); }); \
    WRAP(s, no, 12, name, OverloadedMethod(name, f, int(long long)), [s](long long x) { return s->inst().f(x); }); \
    WRAP(s, no, 13, name, Method(name, q), [s](int x) { return s->inst().q(x); }); \
    WRAP(s, no, 14, name, Method(name, s), [s](int x) { return s->inst().s(x); }); \
    WRAP(s, no, 15, name, Method(name, n), [s](int x) { s->inst().n(x); }); \
    mocks.emplace_back(s)

    struct Over : World {
        Over() {
            { O_METHODS(1, m1); }
            { O_METHODS(2, m2); }
        }
    };
}

std::unique_ptr<World> makeWorld() { return std::unique_ptr<World>(new Over()); }
