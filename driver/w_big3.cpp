// World "big3": positions 250 to 374.
#include "big.hpp"

BigWorld::BigWorld() {
    auto s = new Own<Huge>();
    int at = 0;
    X10(PUT1, 35)
    X10(PUT1, 36)
    X10(PUT1, 37)
    X10(PUT1, 38)
    X10(PUT1, 39)
    X10(PUT1, 40)
    X10(PUT1, 41)
    X10(PUT1, 42)
    X10(PUT1, 43)
    X10(PUT1, 44)
    X10(PUT1, 45)
    X10(PUT1, 46)
    PUT1(470)
    PUT1(471)
    PUT1(472)
    PUT1(473)
    PUT1(474)
    mocks.emplace_back(s);
}

std::unique_ptr<World> makeWorld() { return std::unique_ptr<World>(new BigWorld()); }
