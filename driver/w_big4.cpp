// World "big4": positions 375 to 499.
#include "big.hpp"

BigWorld::BigWorld() {
    auto s = new Own<Huge>();
    int at = 0;
    PUT1(475)
    PUT1(476)
    PUT1(477)
    PUT1(478)
    PUT1(479)
    X10(PUT1, 48)
    X10(PUT1, 49)
    X10(PUT1, 50)
    X10(PUT1, 51)
    X10(PUT1, 52)
    X10(PUT1, 53)
    X10(PUT1, 54)
    X10(PUT1, 55)
    X10(PUT1, 56)
    X10(PUT1, 57)
    X10(PUT1, 58)
    X10(PUT1, 59)
    mocks.emplace_back(s);
}

std::unique_ptr<World> makeWorld() { return std::unique_ptr<World>(new BigWorld()); }
