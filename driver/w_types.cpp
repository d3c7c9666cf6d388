// World "types": one mock with many signatures; the methods are spread over w_types1..7.cpp.
#include "w_types.hpp"

namespace {
    struct Types : World {
        Types() {
            auto s = new Own<T>();
            types1(s);
            types2(s);
            types3(s);
            types4(s);
            types5(s);
            types6(s);
            types7(s);
            mocks.emplace_back(s);
            cells<int>().clear();
            cells<std::string>().clear();
            for (int k = 1; k <= 3; ++k) cells<int>()[k] = k;
            for (int k = 4; k <= 5; ++k) cells<std::string>()[k] = Codec<std::string>::make(k);
        }

        std::vector<long> cellValues() override {
            std::vector<long> r;
            for (auto &c : cells<int>()) r.push_back(c.second);
            for (auto &c : cells<std::string>()) r.push_back(Codec<std::string>::get(c.second));
            return r;
        }

        void poke(int c, int v) override {
            if (c <= 3) cells<int>()[c] = v;
            else cells<std::string>()[c] = Codec<std::string>::make(v);
        }
    };
}

std::unique_ptr<World> makeWorld() { return std::unique_ptr<World>(new Types()); }
