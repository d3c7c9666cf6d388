// World "types": methods 26 to 29.
#define BURN 6
#include "burn.hpp"
#include "w_types.hpp"

void types7(Own<T> *s) {
    {
        auto q = wrap(1, 26, [s] { auto &m1 = s->get(); return Method(m1, rs); }, [s](int &x) { return s->inst().rs(x); });
        q->setHook = [](MethodStubbingProgress<std::string, int &> &p, const J &a) {
            bool always = a["n"].i() < 0;
            int x = w(a, 1);
            std::string v = Codec<std::string>::make(a["v"].i());
            switch (a["fm"].i()) {
                case 0: if (always) p.AlwaysReturnAndSet(std::move(v), x); else p.ReturnAndSet(std::move(v), x); break;
                case 1: if (always) p.AlwaysReturnAndSet(std::move(v), _1 <= x); else p.ReturnAndSet(std::move(v), _1 <= x); break;
            }
            x = -77;
        };
        s->put(q);
    }
    WRAP(s, 1, 27, m1, Method(m1, hx), [s](Hex x) { return s->inst().hx(x); });
    WRAP(s, 1, 28, m1, Method(m1, cn), [s](char *x) { return s->inst().cn(x); });
    WRAP(s, 1, 29, m1, Method(m1, us), [s](Own2 x) { return s->inst().us(x); });
}
