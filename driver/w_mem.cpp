// World "mem": data members of mocked classes.
#include "types.hpp"
using namespace fakeit;

namespace {
    struct MB {
        virtual int f(int) = 0;
        int a;
        char b;
    };
    struct M : MB {
        virtual int g(int) = 0;
        double d;
        std::string s;
        long long l;
        Tracked t;
        int arr[(sizeof(Tracked) % 8 == 4) ? 301 : 300]; // up to the end of the object
    };
    struct Concrete : M {
        int f(int) override { return 61; }
        int g(int) override { return 62; }
        Concrete() { a = 0; b = 0; d = 0; l = 0; t.id = 0; for (int &x : arr) x = 0; }
    };

    // 1 a, 2 b, 3 d, 4 s, 5 l, 6 t, 7 every element of arr
    Out access(M &c, const J &op) {
        int i = op["i"].i();
        if (op["t"].is("mset")) {
            int v = op["v"].i();
            switch (i) {
                case 1: c.a = v; break;
                case 2: c.b = (char) v; break;
                case 3: c.d = v * 0.5; break;
                case 4: c.s = Codec<std::string>::make(v); break;
                case 5: c.l = v * 10000000000LL; break;
                case 6: c.t = Tracked(v); break;
                case 7: for (int &x : c.arr) x = v; break;
            }
            return Out();
        }
        switch (i) {
            case 1: return Out("ret", c.a);
            case 2: return Out("ret", c.b);
            case 3: return Out("ret", (int) (c.d * 2));
            case 4: return Out("ret", Codec<std::string>::get(c.s));
            case 5: return Out("ret", Codec<long long>::get(c.l));
            case 6: return Out("ret", Codec<Tracked>::get(c.t));
            default:
                for (int &x : c.arr) if (x != c.arr[0]) return Out("ret", -1000);
                return Out("ret", c.arr[0]);
        }
    }

    struct Slot : Own<M> {
        Out member(const J &op) override {
            if (!op["t"].is("mstub")) return access(inst(), op);
            auto &m = get();
            int v = op["v"].i();
            switch (op["i"].i()) {
                case 1: m.Stub(static_cast<int M::*>(&M::a), v); break;
                case 2: m.Stub(static_cast<char M::*>(&M::b), (char) v); break;
                case 3: m.Stub(&M::d, v * 0.5); break;
                case 4: m.Stub(&M::s, Codec<std::string>::make(v)); break;
                case 5: m.Stub(&M::l, v * 10000000000LL); break;
                case 6: m.Stub(&M::t, v); break;
                default: throw std::logic_error("script: member");
            }
            return Out();
        }
        bool constructed(int i) override { return i == 4 || i == 6; }
        Out identity() override {
            Out o = Own<M>::identity();
            MB *b = opaque(static_cast<MB *>(&get().get()));
            if (static_cast<M *>(b) != &get().get() || dynamic_cast<M *>(b) != &get().get())
                return Out("bad cast");
            return o;
        }
    };

    struct SpiedSlot : Spied<Concrete> {
        SpiedSlot() : Spied<Concrete>(new Concrete()) {}
        template<class T, class... A> void give(T M::*p, const A &... a) { get().Stub(static_cast<T Concrete::*>(p), a...); }
        Out member(const J &op) override {
            if (!op["t"].is("mstub")) return access(inst(), op);
            int v = op["v"].i();
            switch (op["i"].i()) {
                case 1: give(static_cast<int M::*>(&M::a), v); break;
                case 2: give(static_cast<char M::*>(&M::b), (char) v); break;
                case 3: give(&M::d, v * 0.5); break;
                case 4: give(&M::s, Codec<std::string>::make(v)); break;
                case 5: give(&M::l, v * 10000000000LL); break;
                case 6: give(&M::t, v); break;
                default: throw std::logic_error("script: member");
            }
            return Out();
        }
        int objectState() override { return 0; }
    };

#define M_METHODS(no, name) \
    WRAP(s, no, 1, name, Method(name, f), [s](int x) { return s->inst().f(x); }); \
    WRAP(s, no, 2, name, Method(name, g), [s](int x) { return s->inst().g(x); }); \
    mocks.emplace_back(s)

    struct Mem : World {
        Mem() {
            { auto s = new Slot(); M_METHODS(1, m1); }
            { auto s = new Slot(); M_METHODS(2, m2); }
            { auto s = new SpiedSlot(); M_METHODS(3, m3); }
        }
    };
}

std::unique_ptr<World> makeWorld() { return std::unique_ptr<World>(new Mem()); }
