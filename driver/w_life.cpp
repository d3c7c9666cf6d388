// World "life": tracked objects as arguments, results, exceptions, functors and members.
#include "types.hpp"
using namespace fakeit;

namespace {
    struct L {
        virtual Tracked t(Tracked) = 0;
        virtual void v(Tracked) = 0;
        virtual int i(int) = 0;
        virtual int w(Tracked, Tracked) = 0;
        virtual Tracked x(Tracked, int, Tracked) = 0;
        Tracked obj;
        int num;
        Tracked obj2;
    };

    // an existing object with members of its own
    struct LC {
        virtual int i(int) { return 63; }
        virtual ~LC() {}
        Tracked obj;
        int num = 0;
        Tracked obj2;
    };
    struct Existing : Spied<LC> {
        Existing() : Spied<LC>(new LC()) {}
        int objectState() override { return 0; }
    };

    template<class S, class C> struct Slot : S {
        bool constructed(int i) override { return i != 2 && !this->spy(); }
        Out member(const J &op) override {
            C &c = this->inst();
            int i = op["i"].i(), v = op["t"].is("mget") ? 0 : op["v"].i();
            if (op["t"].is("mset")) {
                if (i == 1) c.obj = Tracked(v);
                else if (i == 2) c.num = v;
                else c.obj2 = Tracked(v);
                return Out();
            }
            if (op["t"].is("mstub")) {
                if (i == 1) this->get().Stub(&C::obj, v);
                else if (i == 2) this->get().Stub(&C::num, v);
                else this->get().Stub(&C::obj2, v);
                return Out();
            }
            return Out("ret", i == 1 ? Codec<Tracked>::get(c.obj) : i == 2 ? c.num : Codec<Tracked>::get(c.obj2));
        }
    };

#define L_METHODS(no, name) \
    auto s = new Slot<Own<L>, L>(); \
    WRAP(s, no, 1, name, Method(name, t), [s](Tracked x) { return s->inst().t(x); }); \
    WRAP(s, no, 2, name, Method(name, v), [s](Tracked x) { s->inst().v(x); }); \
    WRAP(s, no, 3, name, Method(name, i), [s](int x) { return s->inst().i(x); }); \
    WRAP(s, no, 4, name, Method(name, w), [s](Tracked x, Tracked y) { return s->inst().w(x, y); }); \
    WRAP(s, no, 5, name, Method(name, x), [s](Tracked x, int y, Tracked z) { return s->inst().x(x, y, z); }); \
    mocks.emplace_back(s)

    struct Life : World {
        Life() {
            { L_METHODS(1, m1); }
            { L_METHODS(2, m2); }
            {
                auto s = new Slot<Existing, LC>();
                WRAP(s, 3, 1, m3, Method(m3, i), [s](int x) { return s->inst().i(x); });
                mocks.emplace_back(s);
            }
        }
    };
}

std::unique_ptr<World> makeWorld() { return std::unique_ptr<World>(new Life()); }
