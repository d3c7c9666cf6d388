// World "big2": positions 125 to 249.
#include "big.hpp"

BigWorld::BigWorld() {
    auto s = new Own<Huge>();
    int at = 0;
    PUT1(225)
    PUT1(226)
    PUT1(227)
    PUT1(228)
    PUT1(229)
    X10(PUT1, 23)
    X10(PUT1, 24)
    X10(PUT1, 25)
    X10(PUT1, 26)
    X10(PUT1, 27)
    X10(PUT1, 28)
    X10(PUT1, 29)
    X10(PUT1, 30)
    X10(PUT1, 31)
    X10(PUT1, 32)
    X10(PUT1, 33)
    X10(PUT1, 34)
    mocks.emplace_back(s);
}

std::unique_ptr<World> makeWorld() { return std::unique_ptr<World>(new BigWorld()); }
