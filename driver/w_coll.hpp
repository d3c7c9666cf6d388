#pragma once
#include "types.hpp"

struct C {
    virtual int f(int) = 0;
    virtual int f(long long) = 0;
    virtual int g(int) = 0;
    virtual int h(int) = 0;
    virtual int k(int) = 0;
};
void putH(Own<C> *s);
