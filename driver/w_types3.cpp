// World "types": methods 5, 6, 14, 16, 19.
#define BURN 2
#include "burn.hpp"
#include "w_types.hpp"

void types3(Own<T> *s) {
    {
        auto q = wrap(1, 5, [s] { auto &m1 = s->get(); return Method(m1, pi); }, [s](int *x) { return s->inst().pi(x); });
        q->setHook = [](MethodStubbingProgress<int, int *> &p, const J &a) {
            bool always = a["n"].i() < 0;
            int x = w(a, 1);
            int v = a["v"].i();
            switch (a["fm"].i()) {
                case 0: if (always) p.AlwaysReturnAndSet(std::move(v), x); else p.ReturnAndSet(std::move(v), x); break;
                case 1: if (always) p.AlwaysReturnAndSet(std::move(v), _1 <= x); else p.ReturnAndSet(std::move(v), _1 <= x); break;
            }
            x = -77;
        };
        s->put(q);
    }
    {
        auto q = wrap(1, 6, [s] { auto &m1 = s->get(); return Method(m1, ro); },
                      [s](int a, int &b, std::string &c) { s->inst().ro(a, b, c); });
        q->setHook = [](MethodStubbingProgress<void, int, int &, std::string &> &p, const J &a) {
            bool always = a["n"].i() < 0;
            switch (a["fm"].i()) {
                case 0: {
                    int x = w(a, 2);
                    if (always) p.AlwaysReturnAndSet(_2 <= x); else p.ReturnAndSet(_2 <= x);
                    x = -77;
                    break;
                }
                case 1: {
                    std::string y = Codec<std::string>::make(w(a, 3));
                    if (always) p.AlwaysReturnAndSet(_3 <= y); else p.ReturnAndSet(_3 <= y);
                    y = "changed";
                    break;
                }
                case 2: {
                    int x = w(a, 2);
                    std::string y = Codec<std::string>::make(w(a, 3));
                    if (always) p.AlwaysReturnAndSet(_2 <= x, _3 <= y); else p.ReturnAndSet(_2 <= x, _3 <= y);
                    break;
                }
                case 3: {
                    int x = w(a, 2);
                    std::string y = Codec<std::string>::make(w(a, 3));
                    if (always) p.AlwaysReturnAndSet(_3 <= y, _2 <= x); else p.ReturnAndSet(_3 <= y, _2 <= x);
                    break;
                }
            }
        };
        s->put(q);
    }
    WRAP(s, 1, 14, m1, Method(m1, od), [s](Odd x) { return s->inst().od(x); });
    WRAP(s, 1, 16, m1, Method(m1, e8), [s](int a, int b, int c, int d, int e, int f, int g, int h) {
        return s->inst().e8(a, b, c, d, e, f, g, h);
    });
    WRAP(s, 1, 19, m1, Method(m1, crs), [s](int x) -> const std::string & { return s->inst().crs(x); });
}
