// World "core": three mocks of two small interfaces.
#include "driver.hpp"
using namespace fakeit;

namespace {
    struct A {
        virtual int f(int) = 0;
        virtual int g(int, int) = 0;
        virtual void p(int) = 0;
        virtual int z() = 0;
    };
    struct B {
        virtual int f(int) = 0;
        virtual int k(int) const = 0;
    };

#define A_METHODS(no, name) \
    auto s = new Own<A>(); \
    WRAP(s, no, 1, name, Method(name, f), [s](int x) { return s->inst().f(x); }); \
    WRAP(s, no, 2, name, Method(name, g), [s](int x, int y) { return s->inst().g(x, y); }); \
    WRAP(s, no, 3, name, Method(name, p), [s](int x) { s->inst().p(x); }); \
    WRAP(s, no, 4, name, Method(name, z), [s] { return s->inst().z(); }); \
    mocks.emplace_back(s)

    struct Core : World {
        Core() {
            { A_METHODS(1, m1); }
            { A_METHODS(2, m2); }
            auto s = new Own<B>();
            WRAP(s, 3, 1, m3, Method(m3, f), [s](int x) { return s->inst().f(x); });
            WRAP(s, 3, 2, m3, Method(m3, k), [s](int x) { return s->inst().k(x); });
            mocks.emplace_back(s);
        }

        void multi(const J &op) override {
            auto &m1 = static_cast<Own<A> &>(mock(1)).get();
            auto &m2 = mock(2).on() ? static_cast<Own<A> &>(mock(2)).get() : m1;
            auto &xs = op["xs"];
            if (!op["fm"].is("fake")) throw std::logic_error("script: combination not available");
            std::string key;
            for (auto &x : xs.arr) key += str(x["m"].i()) + str(x["f"].i()) + (x["mt"]["k"].is("none") ? "" : "?") + " ";
            if (key == "11 12 ") Fake(Method(m1, f), Method(m1, g));
            else if (key == "11 21 ") Fake(Method(m1, f), Method(m2, f));
            else if (key == "11 13 14 ") Fake(Method(m1, f), Method(m1, p), Method(m1, z));
            else if (key == "12? 21 13 ") {
                Fake(Method(m1, g).Using(xs[0]["mt"]["c"][0]["v"].i(), xs[0]["mt"]["c"][1]["v"].i()), Method(m2, f), Method(m1, p));
            } else throw std::logic_error("script: combination not available");
        }
    };
}

std::unique_ptr<World> makeWorld() { return std::unique_ptr<World>(new Core()); }
