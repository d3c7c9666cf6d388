// World "dtor": virtual destructors at different places among the methods.
#include "driver.hpp"
using namespace fakeit;

namespace {
    int destroyed = 0;                               // runs of a real destructor

    struct Held {                                    // an argument that may own the mocked object
        int v;
        std::shared_ptr<void> owner;
        bool operator==(const Held &o) const { return v == o.v; }
        bool operator!=(const Held &o) const { return v != o.v; }
    };
}
template<> struct Codec<Held> {
    static Held make(int v) { return Held{v, nullptr}; }
    static int get(const Held &h) { return h.v; }
    enum { eq = 1, order = 0, approx = 0 };
};

namespace {

    struct D1 {
        int x;
        virtual ~D1() noexcept(false) { ++destroyed; }
        virtual int f(int) = 0;
        virtual int g(int) = 0;
        virtual int h(Held) = 0;
    };
    struct D2 {
        int x;
        virtual int h(Held) = 0;
        virtual int f(int) = 0;
        virtual ~D2() noexcept(false) { ++destroyed; }
        virtual int g(int) = 0;
    };
    struct D3 {
        int x;
        virtual int f(int) = 0;
        virtual int g(int) = 0;
        virtual int h(Held) = 0;
        virtual ~D3() noexcept(false) { ++destroyed; }
    };
    struct D4Base {
        int x;
        virtual int f(int) = 0;
        virtual ~D4Base() noexcept(false) { ++destroyed; }
    };
    struct D4 : D4Base {
        virtual int h(Held) = 0;
        virtual int g(int) = 0;
    };
    struct N {
        int x;
        virtual int f(int) = 0;
        virtual int g(int) = 0;
    };
    struct D6 {                                      // nothing but a destructor
        virtual ~D6() noexcept(false) { ++destroyed; }
    };

    template<class C> C *target(C *p) { return opaque(p); }

    template<class C> struct Keeper {                // deletes like a smart pointer, lets exceptions out
        C *p;
        ~Keeper() noexcept(false) { delete p; }
    };

    template<class C> struct Slot : Own<C> {
        std::vector<std::weak_ptr<bool>> armed;
        // The recorded argument deletes the object as soon as it is released, unless the history is cleared:
        // where in the history a deletion during the clearing belongs is not settled.
        template<class F> int give(Held x, F call) {
            std::weak_ptr<bool> recorded;
            if (x.v) {
                auto on = std::make_shared<bool>(false);
                C *c = &this->inst();
                x.owner.reset(c, [c, on](void *) { if (*on) delete c; });
                recorded = on;
            }
            int r = call(x);
            x.owner.reset();
            if (auto on = recorded.lock()) {
                *on = true;
                armed.push_back(recorded);
            }
            return r;
        }
        void clear() override {
            for (auto &a : armed)
                if (auto on = a.lock()) *on = false;
            armed.clear();
            Own<C>::clear();
        }
        Out identity() override {
            Out o = Own<C>::identity();
            return destroyed ? Out("destroyed") : o;
        }
        Out member(const J &op) override {
            if (op["t"].is("mset")) {
                this->inst().x = op["v"].i();
                return Out();
            }
            if (op["t"].is("mget")) return Out("ret", this->inst().x);
            throw std::logic_error("script: member");
        }
    };
    struct SlotD6 : Own<D6> {
        Out identity() override {
            Out o = Own<D6>::identity();
            return destroyed ? Out("destroyed") : o;
        }
    };

    template<class C, class Base, class SlotT> MethodP destructor(int no, int f, SlotT *s, std::function<DtorMockingContext()> mk) {
        auto p = std::make_shared<DtorMethod>();
        p->m = no;
        p->f = f;
        p->mk = mk;
        p->inv = [s](int how) {
            C *c = &s->inst();
            switch (how) {
                case 0: delete c; break;
                case 1: c->~C(); break;
                case 2: { Keeper<C> k{c}; break; }
                default: { Base *b = opaque(static_cast<Base *>(c)); delete b; }
            }
        };
        return p;
    }

#define D_METHODS(no, name, C, Base) \
    auto s = new Slot<C>(); \
    WRAP(s, no, 1, name, Method(name, f), [s](int x) { return s->inst().f(x); }); \
    WRAP(s, no, 2, name, Method(name, g), [s](int x) { return s->inst().g(x); }); \
    WRAP(s, no, 4, name, Method(name, h), [s](Held x) { return s->give(x, [s](const Held &y) { return s->inst().h(y); }); }); \
    s->put(destructor<C, Base>(no, 3, s, [s] { auto &name = s->get(); return Dtor(name); })); \
    mocks.emplace_back(s)

    struct DtorWorld : World {
        DtorWorld() {
            destroyed = 0;
            { D_METHODS(1, m1, D1, D1); }
            { D_METHODS(2, m2, D2, D2); }
            { D_METHODS(3, m3, D3, D3); }
            { D_METHODS(4, m4, D4, D4Base); }
            {
                auto s = new Slot<N>();
                WRAP(s, 5, 1, m5, Method(m5, f), [s](int x) { return s->inst().f(x); });
                WRAP(s, 5, 2, m5, Method(m5, g), [s](int x) { return s->inst().g(x); });
                auto p = std::make_shared<DtorMethod>();
                p->m = 5;
                p->f = 3;
                p->mk = [s] { auto &m5 = s->get(); return Dtor(m5); };
                p->inv = [](int) { throw std::logic_error("script: no destructor"); };
                s->put(p);
                mocks.emplace_back(s);
            }
            {
                auto s = new SlotD6();
                s->put(destructor<D6, D6>(6, 1, s, [s] { auto &m6 = s->get(); return Dtor(m6); }));
                mocks.emplace_back(s);
            }
        }
    };
}

std::unique_ptr<World> makeWorld() { return std::unique_ptr<World>(new DtorWorld()); }
