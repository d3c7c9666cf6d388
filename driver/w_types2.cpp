// World "types": methods 3, 4, 12, 13, 11.
#define BURN 1
#include "burn.hpp"
#include "w_types.hpp"

void types2(Own<T> *s) {
    WRAP(s, 1, 3, m1, Method(m1, cs), [s](const std::string &x) { return s->inst().cs(x); });
    {
        auto q = wrap(1, 4, [s] { auto &m1 = s->get(); return Method(m1, ri); }, [s](int &x) { return s->inst().ri(x); });
        q->setHook = [](MethodStubbingProgress<int, int &> &p, const J &a) {
            bool always = a["n"].i() < 0;
            int x = w(a, 1);
            int v = a["v"].i();
            switch (a["fm"].i()) {
                case 0: if (always) p.AlwaysReturnAndSet(std::move(v), x); else p.ReturnAndSet(std::move(v), x); break;
                case 1: if (always) p.AlwaysReturnAndSet(std::move(v), _1 <= x); else p.ReturnAndSet(std::move(v), _1 <= x); break;
            }
            x = -77;
        };
        s->put(q);
    }
    WRAP(s, 1, 12, m1, Method(m1, d), [s](double x) { return s->inst().d(x); });
    WRAP(s, 1, 13, m1, Method(m1, c), [s](const char *x) { return s->inst().c(x); });
    WRAP(s, 1, 11, m1, Method(m1, pint), [s] { return s->inst().pint(); });
}
