// World "types": methods 18, 22.
#define BURN 4
#include "burn.hpp"
#include "w_types.hpp"

void types5(Own<T> *s) {
    WRAP(s, 1, 18, m1, Method(m1, pc), [s](const int &x, const int *y) { return s->inst().pc(x, y); });
    WRAP(s, 1, 22, m1, Method(m1, e1), [s](En x) { return s->inst().e1(x); });
}
