// The class of world "types": one interface with many signatures.
#pragma once
#include "types.hpp"
using namespace fakeit;
using namespace fakeit::placeholders;

struct T {
    virtual int i(int) = 0;
    virtual std::string s(std::string) = 0;
    virtual std::string cs(const std::string &) = 0;
    virtual int ri(int &) = 0;
    virtual int pi(int *) = 0;
    virtual void ro(int, int &, std::string &) = 0;
    virtual std::unique_ptr<int> mo(std::unique_ptr<int>) = 0;
    virtual int rr(std::string &&) = 0;
    virtual Big big(Big) = 0;
    virtual int &rint() = 0;
    virtual int *pint() = 0;
    virtual double d(double) = 0;
    virtual int c(const char *) = 0;
    virtual int od(Odd) = 0;
    virtual bool en(En, bool, char) = 0;
    virtual int e8(int, int, int, int, int, int, int, int) = 0;
    virtual std::vector<int> vec(std::vector<int>) = 0;
    virtual int pc(const int &, const int *) = 0;
    virtual const std::string &crs(int) = 0;
    virtual long long ll(long long) const = 0;
    virtual char ch(char) = 0;
    virtual En e1(En) = 0;
    virtual int mix(std::string, int &) = 0;
    virtual std::string z() = 0;
    virtual int rp(int &, std::string *) = 0;
    virtual std::string rs(int &) = 0;
    virtual int hx(Hex) = 0;
    virtual int cn(char *) = 0;
    virtual Own2 us(const Own2) = 0;
};

inline int w(const J &a, int pos) {
    for (auto &x : a["w"].arr) if (x[0].i() == pos) return x[1].i();
    throw std::logic_error("script: position");
}

void types1(Own<T> *s);
void types2(Own<T> *s);
void types3(Own<T> *s);
void types4(Own<T> *s);
void types5(Own<T> *s);
void types6(Own<T> *s);
void types7(Own<T> *s);
