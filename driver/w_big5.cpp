// World "big5": positions 500 to 624.
#include "big.hpp"

BigWorld::BigWorld() {
    auto s = new Own<Huge>();
    int at = 0;
    X10(PUT1, 60)
    X10(PUT1, 61)
    X10(PUT1, 62)
    X10(PUT1, 63)
    X10(PUT1, 64)
    X10(PUT1, 65)
    X10(PUT1, 66)
    X10(PUT1, 67)
    X10(PUT1, 68)
    X10(PUT1, 69)
    X10(PUT1, 70)
    X10(PUT1, 71)
    PUT1(720)
    PUT1(721)
    PUT1(722)
    PUT1(723)
    PUT1(724)
    mocks.emplace_back(s);
}

std::unique_ptr<World> makeWorld() { return std::unique_ptr<World>(new BigWorld()); }
