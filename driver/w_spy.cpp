// World "spy": two existing objects with mocks, and a mock that owns its instance.
#include "types.hpp"
using namespace fakeit;

namespace {
    int destroyed = 0;

    struct S {
        int n;
        std::string text = "spied object with a text long enough to live on the heap";
        explicit S(int x = 0) : n(x) {}
        virtual int add(int x) { return n + x; }
        virtual int inc(int x) { return n += x; }
        virtual int dbl(int x) { return 2 * add(x); }
        virtual int rec(int x) { return x <= 0 ? 0 : x + rec(x - 1); }
        virtual int ping(int x) { return x <= 0 ? 0 : 1 + pong(x - 1); }
        virtual int pong(int x) { return x <= 0 ? 0 : 1 + ping(x - 1); }
        virtual int thr(int x) {
            if (x > 2) throw Err{x};
            return x;
        }
        virtual int mix(int x) {
            n += 1;
            int v = inc(x);
            if (x > 2) throw Err{v};
            return v;
        }
        virtual int bump(int &x) {
            int old = x;
            x += 10;
            return old;
        }
        virtual int take(std::unique_ptr<int> x) { return Codec<std::unique_ptr<int>>::get(x); }
        virtual std::string cat(std::string x) { return Codec<std::string>::make(Codec<std::string>::get(x) + 1); }
        virtual void vd(int) { n += 5; }
        virtual int fix() const { return 77; }
        virtual Big lrg(Big b) { return Big(b.v + n); }
        virtual int tri(int x) { return 1 + dbl(x); }
        virtual int deep(int x) {
            int v = tri(x);
            return v + mix(x);
        }
        virtual int err(int x) {
            if (x > 2) throw std::range_error(str(x));
            return x;
        }
        virtual ~S() { ++destroyed; }
    };

    // the second object is of a class that overrides two of the methods
    struct SD : S {
        explicit SD(int x) : S(x) {}
        int fix() const override { return 78; }
        int vd2 = 5;
        void vd(int) override { n += vd2; }
    };

    struct SpiedS : Spied<S> {
        explicit SpiedS(S *s) : Spied<S>(s) {}
        int objectState() override {
            return destroyed == 0 && obj->text == "spied object with a text long enough to live on the heap" ? obj->n : -1000;
        }
    };

#define S_METHODS(no, name) \
    WRAP(s, no, 1, name, Method(name, add), [s](int x) { return s->inst().add(x); }); \
    WRAP(s, no, 2, name, Method(name, inc), [s](int x) { return s->inst().inc(x); }); \
    WRAP(s, no, 3, name, Method(name, dbl), [s](int x) { return s->inst().dbl(x); }); \
    WRAP(s, no, 4, name, Method(name, rec), [s](int x) { return s->inst().rec(x); }); \
    WRAP(s, no, 5, name, Method(name, ping), [s](int x) { return s->inst().ping(x); }); \
    WRAP(s, no, 6, name, Method(name, pong), [s](int x) { return s->inst().pong(x); }); \
    WRAP(s, no, 7, name, Method(name, thr), [s](int x) { return s->inst().thr(x); }); \
    WRAP(s, no, 8, name, Method(name, mix), [s](int x) { return s->inst().mix(x); }); \
    WRAP(s, no, 9, name, Method(name, bump), [s](int &x) { return s->inst().bump(x); }); \
    WRAP(s, no, 10, name, Method(name, take), [s](std::unique_ptr<int> x) { return s->inst().take(std::move(x)); }); \
    WRAP(s, no, 11, name, Method(name, cat), [s](std::string x) { return s->inst().cat(x); }); \
    WRAP(s, no, 12, name, Method(name, vd), [s](int x) { s->inst().vd(x); }); \
    WRAP(s, no, 13, name, Method(name, fix), [s] { return s->inst().fix(); }); \
    WRAP(s, no, 14, name, Method(name, lrg), [s](Big x) { return s->inst().lrg(x); }); \
    WRAP(s, no, 15, name, Method(name, tri), [s](int x) { return s->inst().tri(x); }); \
    WRAP(s, no, 16, name, Method(name, deep), [s](int x) { return s->inst().deep(x); }); \
    WRAP(s, no, 17, name, Method(name, err), [s](int x) { return s->inst().err(x); }); \
    mocks.emplace_back(s)

    struct SpyWorld : World {
        SpyWorld() {
            destroyed = 0;
            { auto s = new SpiedS(new S(5)); S_METHODS(1, m1); }
            { auto s = new SpiedS(new SD(7)); S_METHODS(2, m2); }
            { auto s = new Own<S>(); S_METHODS(3, m3); }
            cells<int>().clear();
            for (int k = 1; k <= 2; ++k) cells<int>()[k] = k;
        }
        std::vector<long> cellValues() override { return {cells<int>()[1], cells<int>()[2]}; }
        void poke(int c, int v) override { cells<int>()[c] = v; }
        void multi(const J &op) override {
            auto &m1 = static_cast<SpiedS &>(mock(1)).get();
            auto &m2 = mock(2).on() ? static_cast<SpiedS &>(mock(2)).get() : m1;
            std::string key = op["fm"].str + " ";
            for (auto &x : op["xs"].arr) key += str(x["m"].i()) + "." + str(x["f"].i()) + " ";
            if (key == "spy 1.1 1.2 ") Spy(Method(m1, add), Method(m1, inc));
            else if (key == "spy 1.3 2.1 1.1 ") Spy(Method(m1, dbl), Method(m2, add), Method(m1, add));
            else if (key == "fake 1.1 1.12 ") Fake(Method(m1, add), Method(m1, vd));
            else throw std::logic_error("script: combination not available");
        }
    };
}

std::unique_ptr<World> makeWorld() { return std::unique_ptr<World>(new SpyWorld()); }
