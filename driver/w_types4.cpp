// World "types": methods 7, 8, 9, 17, 20.
#define BURN 3
#include "burn.hpp"
#include "w_types.hpp"

void types4(Own<T> *s) {
    WRAP(s, 1, 7, m1, Method(m1, mo), [s](std::unique_ptr<int> x) { return s->inst().mo(std::move(x)); });
    WRAP(s, 1, 8, m1, Method(m1, rr), [s](std::string &&x) { return s->inst().rr(std::move(x)); });
    WRAP(s, 1, 9, m1, Method(m1, big), [s](Big x) { return s->inst().big(x); });
    WRAP(s, 1, 17, m1, Method(m1, vec), [s](std::vector<int> x) { return s->inst().vec(x); });
    WRAP(s, 1, 20, m1, Method(m1, ll), [s](long long x) { return s->inst().ll(x); });
}
