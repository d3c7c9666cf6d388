// World "types": methods 1, 2, 15, 24, 10.
#include "w_types.hpp"

void types1(Own<T> *s) {
    WRAP(s, 1, 1, m1, Method(m1, i), [s](int x) { return s->inst().i(x); });
    WRAP(s, 1, 2, m1, Method(m1, s), [s](std::string x) { return s->inst().s(x); });
    WRAP(s, 1, 15, m1, Method(m1, en), [s](En x, bool y, char z) { return s->inst().en(x, y, z); });
    WRAP(s, 1, 24, m1, Method(m1, z), [s] { return s->inst().z(); });
    WRAP(s, 1, 10, m1, Method(m1, rint), [s]() -> int & { return s->inst().rint(); });
}
