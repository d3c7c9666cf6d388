// World "types": methods 21, 23, 25.
#define BURN 5
#include "burn.hpp"
#include "w_types.hpp"

void types6(Own<T> *s) {
    WRAP(s, 1, 21, m1, Method(m1, ch), [s](char x) { return s->inst().ch(x); });
    {
        auto q = wrap(1, 23, [s] { auto &m1 = s->get(); return Method(m1, mix); },
                      [s](std::string a, int &b) { return s->inst().mix(a, b); });
        q->setHook = [](MethodStubbingProgress<int, std::string, int &> &p, const J &a) {
            int x = w(a, 2), v = a["v"].i();
            if (a["n"].i() < 0) p.AlwaysReturnAndSet(std::move(v), _2 <= x);
            else p.ReturnAndSet(std::move(v), _2 <= x);
            x = -77;
        };
        s->put(q);
    }
    {
        auto q = wrap(1, 25, [s] { auto &m1 = s->get(); return Method(m1, rp); },
                      [s](int &a, std::string *b) { return s->inst().rp(a, b); });
        q->setHook = [](MethodStubbingProgress<int, int &, std::string *> &p, const J &a) {
            bool always = a["n"].i() < 0;
            int v = a["v"].i();
            switch (a["fm"].i()) {
                case 0: {
                    int x = w(a, 1);
                    std::string y = Codec<std::string>::make(w(a, 2));
                    if (always) p.AlwaysReturnAndSet(std::move(v), x, y); else p.ReturnAndSet(std::move(v), x, y);
                    x = -77;
                    y = "changed";
                    break;
                }
                case 1: {
                    int x = w(a, 1);
                    if (always) p.AlwaysReturnAndSet(std::move(v), x); else p.ReturnAndSet(std::move(v), x);
                    x = -77;
                    break;
                }
                case 2: {
                    std::string y = Codec<std::string>::make(w(a, 2));
                    if (always) p.AlwaysReturnAndSet(std::move(v), _2 <= y); else p.ReturnAndSet(std::move(v), _2 <= y);
                    y = "changed";
                    break;
                }
                case 3: {
                    int x = w(a, 1);
                    if (always) p.AlwaysReturnAndSet(std::move(v), _2 <= Codec<std::string>::make(w(a, 2)), _1 <= x);
                    else p.ReturnAndSet(std::move(v), _2 <= Codec<std::string>::make(w(a, 2)), _1 <= x);
                    x = -77;
                    break;
                }
            }
        };
        s->put(q);
    }
}
