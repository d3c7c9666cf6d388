// World "coll": methods of one mock that are mentioned under equal values of __COUNTER__, because they
// are mentioned in two files (g here, h in w_coll2.cpp) or in one function template (the overloads f).
#include "w_coll.hpp"

static void putG(Own<C> *s) { WRAP(s, 1, 3, m1, Method(m1, g), [s](int x) { return s->inst().g(x); }); }

template<class Sig, class Call> static void putF(Own<C> *s, int no, Call call) {
    WRAP(s, 1, no, m1, OverloadedMethod(m1, f, Sig), call);
}

namespace {
    struct Coll : World {
        Coll() {
            auto s = new Own<C>();
            putF<int(int)>(s, 1, [s](int x) { return s->inst().f(x); });
            putF<int(long long)>(s, 2, [s](long long x) { return s->inst().f(x); });
            putG(s);
            putH(s);
            WRAP(s, 1, 5, m1, Method(m1, k), [s](int x) { return s->inst().k(x); });
            mocks.emplace_back(s);
        }
    };
}

std::unique_ptr<World> makeWorld() { return std::unique_ptr<World>(new Coll()); }
