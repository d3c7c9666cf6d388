// World "big7": positions 750 to 874.
#include "big.hpp"

BigWorld::BigWorld() {
    auto s = new Own<Huge>();
    int at = 0;
    X10(PUT1, 85)
    X10(PUT1, 86)
    X10(PUT1, 87)
    X10(PUT1, 88)
    X10(PUT1, 89)
    X10(PUT1, 90)
    X10(PUT1, 91)
    X10(PUT1, 92)
    X10(PUT1, 93)
    X10(PUT1, 94)
    X10(PUT1, 95)
    X10(PUT1, 96)
    PUT1(970)
    PUT1(971)
    PUT1(972)
    PUT1(973)
    PUT1(974)
    mocks.emplace_back(s);
}

std::unique_ptr<World> makeWorld() { return std::unique_ptr<World>(new BigWorld()); }
