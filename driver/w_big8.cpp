// World "big8": positions 875 to 999.
#include "big.hpp"

BigWorld::BigWorld() {
    auto s = new Own<Huge>();
    int at = 0;
    PUT1(975)
    PUT1(976)
    PUT1(977)
    PUT1(978)
    PUT1(979)
    X10(PUT1, 98)
    X10(PUT1, 99)
    X10(PUT1, 100)
    X10(PUT1, 101)
    X10(PUT1, 102)
    X10(PUT1, 103)
    X10(PUT1, 104)
    X10(PUT1, 105)
    X10(PUT1, 106)
    X10(PUT1, 107)
    X10(PUT1, 108)
    X10(PUT1, 109)
    mocks.emplace_back(s);
}

std::unique_ptr<World> makeWorld() { return std::unique_ptr<World>(new BigWorld()); }
