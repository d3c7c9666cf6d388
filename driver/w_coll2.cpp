// The part of world "coll" in another file.
#include "w_coll.hpp"

void putH(Own<C> *s) { WRAP(s, 1, 4, m1, Method(m1, h), [s](int x) { return s->inst().h(x); }); }
