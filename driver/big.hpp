// World "big": a class with a thousand virtual methods. Every w_big<n>.cpp covers
// an eighth of them (PART 0..7): methods PART * 125 .. PART * 125 + 124.
#pragma once
#include "driver.hpp"
using namespace fakeit;

#define DECL1(n) virtual int f##n(int) = 0;
#define X10(M, p) M(p##0) M(p##1) M(p##2) M(p##3) M(p##4) M(p##5) M(p##6) M(p##7) M(p##8) M(p##9)
#define X100(M, p) X10(M, p##0) X10(M, p##1) X10(M, p##2) X10(M, p##3) X10(M, p##4) \
    X10(M, p##5) X10(M, p##6) X10(M, p##7) X10(M, p##8) X10(M, p##9)

struct Huge {
    X100(DECL1, 1) X100(DECL1, 2) X100(DECL1, 3) X100(DECL1, 4) X100(DECL1, 5)
    X100(DECL1, 6) X100(DECL1, 7) X100(DECL1, 8) X100(DECL1, 9) X100(DECL1, 10)
};

#define PUT1(n) s->put(wrap(1, ++at, [s] { auto &m1 = s->get(); return Method(m1, f##n); }, [s](int x) { return s->inst().f##n(x); }));

struct BigWorld : World {
    BigWorld();
};
