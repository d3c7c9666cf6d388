// World "big1": positions 0 to 124.
#include "big.hpp"

BigWorld::BigWorld() {
    auto s = new Own<Huge>();
    int at = 0;
    X10(PUT1, 10)
    X10(PUT1, 11)
    X10(PUT1, 12)
    X10(PUT1, 13)
    X10(PUT1, 14)
    X10(PUT1, 15)
    X10(PUT1, 16)
    X10(PUT1, 17)
    X10(PUT1, 18)
    X10(PUT1, 19)
    X10(PUT1, 20)
    X10(PUT1, 21)
    PUT1(220)
    PUT1(221)
    PUT1(222)
    PUT1(223)
    PUT1(224)
    mocks.emplace_back(s);
}

std::unique_ptr<World> makeWorld() { return std::unique_ptr<World>(new BigWorld()); }
