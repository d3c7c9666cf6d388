// World "big6": positions 625 to 749.
#include "big.hpp"

BigWorld::BigWorld() {
    auto s = new Own<Huge>();
    int at = 0;
    PUT1(725)
    PUT1(726)
    PUT1(727)
    PUT1(728)
    PUT1(729)
    X10(PUT1, 73)
    X10(PUT1, 74)
    X10(PUT1, 75)
    X10(PUT1, 76)
    X10(PUT1, 77)
    X10(PUT1, 78)
    X10(PUT1, 79)
    X10(PUT1, 80)
    X10(PUT1, 81)
    X10(PUT1, 82)
    X10(PUT1, 83)
    X10(PUT1, 84)
    mocks.emplace_back(s);
}

std::unique_ptr<World> makeWorld() { return std::unique_ptr<World>(new BigWorld()); }
