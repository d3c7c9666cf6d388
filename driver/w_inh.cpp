// World "inh": single inheritance chains, called through every class of the chain.
#include "types.hpp"
using namespace fakeit;

namespace {
    struct B0 {
        virtual int a(int) = 0;
        virtual ~B0() noexcept(false) {}
        virtual int b(int) = 0;
    };
    struct B1 : B0 {
        int b(int) override = 0;
        virtual int c(int) const = 0;
    };
    struct B2 : B1 {
        virtual int d(int) = 0;
        int a(int) override = 0;
        virtual std::string e(std::string) const = 0;
    };

    struct C0 { virtual int a(int) = 0; };
    struct C1 : C0 { virtual int b(int) = 0; };
    struct C2 : C1 { virtual int c(int) const = 0; };
    struct C3 : C2 { virtual int d(int) = 0; };
    struct C4 : C3 { virtual std::string e(std::string) const = 0; };

    struct E0 { virtual ~E0() noexcept(false) {} };
    struct E1 : E0 {
        virtual int a(int) = 0;
        virtual int b(int) = 0;
    };
    struct E2 : E1 {
        virtual int c(int) const = 0;
        ~E2() noexcept(false) override {}
        virtual int d(int) = 0;
        virtual std::string e(std::string) const = 0;
    };

    template<class T> T &as(T &x) { return *opaque(&x); }

    template<class SlotT> MethodP destructor(int no, int f, SlotT *s, std::function<DtorMockingContext()> mk, std::function<void(int)> inv) {
        auto p = std::make_shared<DtorMethod>();
        p->m = no;
        p->f = f;
        p->mk = mk;
        p->inv = inv;
        return p;
    }

    template<class C, class Mid, class Root, class... Bases> struct Slot : Own<C, Bases...> {
        Out identity() override {
            Out o = Own<C, Bases...>::identity();
            C *c = &this->get().get();
            Root *r = opaque(static_cast<Root *>(c));
            Mid *m = opaque(static_cast<Mid *>(c));
            if (dynamic_cast<C *>(r) != c || dynamic_cast<C *>(m) != c) return Out("bad cast");
            if (sizeof...(Bases) && dynamic_cast<Mid *>(r) != m) return Out("bad cast to base");
            return o;
        }
    };

#define VIEW(C, M, R, expr) \
    [s](int x) { \
        auto &o = s->inst(); \
        if (run().view == 1) { M &t = as<M>(o); return t.expr; } \
        if (run().view == 2) { R &t = as<R>(o); return t.expr; } \
        return o.expr; \
    }

    struct Inh : World {
        Inh() {
            {
                auto s = new Slot<B2, B1, B0>();
                WRAP(s, 1, 1, m1, Method(m1, a), VIEW(B2, B1, B0, a(x)));
                WRAP(s, 1, 2, m1, Method(m1, b), VIEW(B2, B1, B0, b(x)));
                WRAP(s, 1, 3, m1, Method(m1, c), VIEW(B2, B1, B1, c(x)));
                WRAP(s, 1, 4, m1, Method(m1, d), [s](int x) { return s->inst().d(x); });
                WRAP(s, 1, 5, m1, Method(m1, e), [s](std::string x) { return s->inst().e(x); });
                s->put(destructor(1, 6, s, [s] { auto &m1 = s->get(); return Dtor(m1); }, [s](int how) {
                    if (how == 0) { B2 *p = &s->inst(); delete p; }
                    else if (how == 1) { B1 *p = opaque<B1>(&s->inst()); delete p; }
                    else { B0 *p = opaque<B0>(&s->inst()); delete p; }
                }));
                mocks.emplace_back(s);
            }
            {
                auto s = new Slot<C4, C2, C0>();
                WRAP(s, 2, 1, m2, Method(m2, a), VIEW(C4, C2, C0, a(x)));
                WRAP(s, 2, 2, m2, Method(m2, b), VIEW(C4, C2, C1, b(x)));
                WRAP(s, 2, 3, m2, Method(m2, c), VIEW(C4, C2, C3, c(x)));
                WRAP(s, 2, 4, m2, Method(m2, d), VIEW(C4, C3, C3, d(x)));
                WRAP(s, 2, 5, m2, Method(m2, e), [s](std::string x) { return s->inst().e(x); });
                mocks.emplace_back(s);
            }
            {
                auto s = new Slot<E2, E1, E0>();
                WRAP(s, 3, 1, m3, Method(m3, a), VIEW(E2, E1, E1, a(x)));
                WRAP(s, 3, 2, m3, Method(m3, b), VIEW(E2, E1, E1, b(x)));
                WRAP(s, 3, 3, m3, Method(m3, c), [s](int x) { return s->inst().c(x); });
                WRAP(s, 3, 4, m3, Method(m3, d), [s](int x) { return s->inst().d(x); });
                WRAP(s, 3, 5, m3, Method(m3, e), [s](std::string x) { return s->inst().e(x); });
                s->put(destructor(3, 6, s, [s] { auto &m3 = s->get(); return Dtor(m3); }, [s](int how) {
                    if (how == 0) { E2 *p = &s->inst(); delete p; }
                    else if (how == 1) { E1 *p = opaque<E1>(&s->inst()); delete p; }
                    else { E0 *p = opaque<E0>(&s->inst()); delete p; }
                }));
                mocks.emplace_back(s);
            }
            {
                auto s = new Slot<B2, B1, B0, B1, B0>();
                WRAP(s, 4, 1, m4, Method(m4, a), VIEW(B2, B1, B0, a(x)));
                WRAP(s, 4, 2, m4, Method(m4, b), VIEW(B2, B1, B0, b(x)));
                WRAP(s, 4, 3, m4, Method(m4, c), VIEW(B2, B1, B1, c(x)));
                WRAP(s, 4, 4, m4, Method(m4, d), [s](int x) { return s->inst().d(x); });
                WRAP(s, 4, 5, m4, Method(m4, e), [s](std::string x) { return s->inst().e(x); });
                s->put(destructor(4, 6, s, [s] { auto &m4 = s->get(); return Dtor(m4); }, [s](int how) {
                    if (how == 0) { B2 *p = &s->inst(); delete p; }
                    else if (how == 1) { B1 *p = opaque<B1>(&s->inst()); delete p; }
                    else { B0 *p = opaque<B0>(&s->inst()); delete p; }
                }));
                mocks.emplace_back(s);
            }
        }
    };
}

std::unique_ptr<World> makeWorld() { return std::unique_ptr<World>(new Inh()); }
