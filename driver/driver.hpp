// The test driver: executes scripts of operations (see spec/FakeIt.tla) on the
// real library through its public interface and records what it observes.
#pragma once
#include "fw/before.hpp"
#include "fakeit.hpp"
#include "json.hpp"
#include <cstring>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

using namespace fakeit;

// ---------------------------------------------------------------- outcomes
struct Out {
    std::string k;
    long v = 0;
    std::vector<long> w;
    Out(std::string kind = "ok", long value = 0) : k(kind), v(value) {}
};

struct Err { int v; };                 // the user's exceptions
struct AdapterErr { int v; };          // thrown by the installed adapters 1 and 3
struct Abandon { };                    // leaves a statement that is being built

struct World;

struct Run {
    World *world = nullptr;
    std::vector<std::string> lg, ev, tx;
    std::vector<int> stk;              // mocks with an action in progress
    int ad = 0;                        // installed adapter
    int view = 0;                      // through which of its classes the object is called
    bool unwinding = false;            // an exception is on its way
    int line = 0;                      // line of the verification being evaluated
    const char *file = "";
};
Run &run();

Out doOp(const J &op);                 // one operation, never throws what the library or a stub threw
void runOps(const J &ops, bool through = false);   // nested operations; through: a call that ends in an exception ends them

template<class T> std::string str(const T &v) {
    std::ostringstream o;
    o << v;
    return o.str();
}

// keeps the compiler from seeing the dynamic type of the object behind a pointer
template<class T> T *opaque(T *p) {
    T *volatile q = p;
    return q;
}

// ---------------------------------------------------------------- caller's objects
template<class T> std::map<int, T> &cells() {
    static std::map<int, T> c;
    return c;
}

template<class T> struct Codec;        // int <-> value of a type

template<class T> T &cell(int i) {
    auto c = cells<T>().find(i);
    if (c == cells<T>().end())
        throw std::logic_error("script: no such cell");
    return c->second;
}

template<class T> int cellIndex(const T *p) {
    for (auto &c : cells<T>())
        if (&c.second == p)
            return c.first;
    return -1;
}

template<class T> std::string showCell(const T *p) {
    if (!p)
        return "null";
    int i = cellIndex(p);
    if (i < 0)
        return "elsewhere";
    return "c" + str(i) + "=" + str(Codec<T>::get(*p));
}

// ---------------------------------------------------------------- tracked objects
// Knows which of its objects exist. Destroying one twice, or creating one where
// another still lives, is remembered as an error.
struct Tracked {
    int id;
    static std::map<const Tracked *, int> &all() {
        static std::map<const Tracked *, int> m;
        return m;
    }
    static int &errors() {
        static int e = 0;
        return e;
    }
    Tracked(int i = 0) : id(i) { born(); }
    Tracked(const Tracked &o) : id(o.id) { o.check(); born(); }
    Tracked(Tracked &&o) : id(o.id) { o.check(); born(); }
    Tracked &operator=(const Tracked &o) {
        o.check();
        check();
        id = o.id;
        all()[this] = id;
        return *this;
    }
    ~Tracked() {
        check();
        all().erase(this);
    }
    bool operator==(const Tracked &o) const { check(); o.check(); return id == o.id; }
    bool operator!=(const Tracked &o) const { check(); o.check(); return id != o.id; }
    bool operator<(const Tracked &o) const { check(); o.check(); return id < o.id; }
    bool operator>(const Tracked &o) const { return o < *this; }
    bool operator<=(const Tracked &o) const { return !(o < *this); }
    bool operator>=(const Tracked &o) const { return !(*this < o); }
    void check() const {
        auto i = all().find(this);
        if (i == all().end() || i->second != id) ++errors();
    }
    // Objects with id 0 are default values, which the library may keep for good.
    static void forget() {
        for (auto i = all().begin(); i != all().end();)
            if (i->second) i = all().erase(i); else ++i;
    }
private:
    void born() {
        auto i = all().find(this);
        if (i != all().end() && i->second) ++errors();
        all()[this] = id;
    }
};
struct TrackedErr { Tracked t; };      // an exception that carries a tracked object

// ---------------------------------------------------------------- codecs
template<> struct Codec<Tracked> {
    static Tracked make(int v) { return Tracked(v); }
    static int get(const Tracked &t) { t.check(); return t.id; }
    enum { eq = 1, order = 1, approx = 0 };
};
template<> struct Codec<int> {
    static int make(int v) { return v; }
    static int get(int v) { return v; }
    enum { eq = 1, order = 1, approx = 1 };
};
template<> struct Codec<std::string> {
    static std::string make(int v) {
        if (v == 0) return "";
        char b[24];
        std::snprintf(b, sizeof b, "%04d", v);
        std::string r = b;
        if (v >= 80 && v < 90) r += " %d%s\\\"'\t\n";        // characters with a meaning elsewhere
        if (v >= 90 && v < 100) r += std::string(400, 'x') + '.';   // more than fits a small buffer
        return r;
    }
    static int get(const std::string &v) { return v.empty() ? 0 : std::atoi(v.c_str()); }
    enum { eq = 1, order = 1, approx = 0 };
};

// ---------------------------------------------------------------- parameters
// pass: what the caller hands over; show: what an action saw
template<class A> struct Par {                       // by value
    using T = A;
    static A pass(int v) { return Codec<A>::make(v); }
    static std::string show(const A &a) { return str(Codec<A>::get(a)); }
    static int value(const A &a) { return Codec<A>::get(a); }
    static A expected(int v) { return Codec<A>::make(v); }
};
template<class A> struct Par<A &> {                  // reference: a cell of the caller
    using T = typename std::remove_cv<A>::type;
    static A &pass(int c) { return cell<T>(c); }
    static std::string show(const A &a) { return showCell<T>(&a); }
    static int value(const A &a) { return Codec<T>::get(a); }
    static T expected(int v) { return Codec<T>::make(v); }
};
template<class A> struct Par<A &&> {                 // rvalue reference: a temporary
    using T = A;
    static A pass(int v) { return Codec<A>::make(v); }
    static std::string show(const A &a) { return str(Codec<A>::get(a)); }
    static int value(const A &a) { return Codec<A>::get(a); }
    static A expected(int v) { return Codec<A>::make(v); }
};
template<class A> struct Par<A *> {                  // pointer to a cell
    using T = A *;
    using C = typename std::remove_cv<A>::type;
    static A *pass(int c) { return c ? &cell<C>(c) : nullptr; }
    static std::string show(A *a) { return showCell<C>(a); }
    static int value(A *a) { return a ? cellIndex<C>(a) : 0; }
    static A *expected(int c) { return pass(c); }
};
template<> struct Par<const char *> {                // C strings are values
    using T = const char *;
    static const char *pass(int v) {
        static std::map<int, std::string> keep;
        return keep.emplace(v, Codec<std::string>::make(v)).first->second.c_str();
    }
    static std::string show(const char *a) { return str(value(a)); }
    static int value(const char *a) { return a ? Codec<std::string>::get(a) : 0; }
    static const char *expected(int v) { return pass(v); }
};
template<> struct Par<char *> {                      // the same, and 0 is no string at all
    using T = char *;
    static char *pass(int v) { return v ? const_cast<char *>(Par<const char *>::pass(v)) : nullptr; }
    static std::string show(const char *a) { return str(value(a)); }
    static int value(const char *a) { return a ? Codec<std::string>::get(a) : 0; }
    static char *expected(int v) { return pass(v); }
};
template<class T> struct Codec<T *> {
    static T *make(int v) { return Par<T *>::pass(v); }
    static int get(T *v) { return Par<T *>::value(v); }
    enum { eq = 1, order = 0, approx = 0 };
};

template<class R> struct Ret {
    using T = typename std::remove_cv<R>::type;
    static T make(int v) { return Codec<T>::make(v); }
    static int get(const T &v) { return Codec<T>::get(v); }
};
template<class R> struct Ret<R &> {                  // a reference result is a cell
    using T = typename std::remove_cv<R>::type;
    static R &make(int v) { return cell<T>(v); }
    static int get(R &v) { return cellIndex<T>(&v); }
};

// ---------------------------------------------------------------- conditions
// Hands the condition of one argument to k. The expected value is changed after
// the condition was written: it must have been copied by then.
template<class T, bool eq> struct EqKinds {
    template<class F> static bool with(const J &, F &) { return false; }
};
template<class T> struct EqKinds<T, true> {
    template<class F> static bool with(const J &c, F &k) {
        T v = Par<T>::expected(c["v"].i());
        int fm = c["fm"].i();
        if (c["k"].is("eq")) {
            if (fm == 0) k(v);
            else if (fm == 1) k(fakeit::Eq(v));
            else k(fakeit::Eq(Par<T>::expected(c["v"].i())));
        } else if (c["k"].is("ne")) {
            if (fm == 0) k(fakeit::Ne(v)); else k(fakeit::Ne(Par<T>::expected(c["v"].i())));
        } else
            return false;
        v = Par<T>::expected(0);
        return true;
    }
};
template<class T, bool order> struct OrderKinds {
    template<class F> static bool with(const J &, F &) { return false; }
};
template<class T> struct OrderKinds<T, true> {
    template<class F> static bool with(const J &c, F &k) {
        T v = Par<T>::expected(c["v"].i());
        bool l = c["fm"].i() == 0;
        auto &n = c["k"];
        if (n.is("gt")) { if (l) k(fakeit::Gt(v)); else k(fakeit::Gt(Par<T>::expected(c["v"].i()))); }
        else if (n.is("ge")) { if (l) k(fakeit::Ge(v)); else k(fakeit::Ge(Par<T>::expected(c["v"].i()))); }
        else if (n.is("lt")) { if (l) k(fakeit::Lt(v)); else k(fakeit::Lt(Par<T>::expected(c["v"].i()))); }
        else if (n.is("le")) { if (l) k(fakeit::Le(v)); else k(fakeit::Le(Par<T>::expected(c["v"].i()))); }
        else return false;
        v = Par<T>::expected(0);
        return true;
    }
};
template<class T, bool approx> struct ApproxKinds {
    template<class F> static bool with(const J &, F &) { return false; }
};
template<class T> struct ApproxKinds<T, true> {
    template<class F> static bool with(const J &c, F &k) {
        if (!c["k"].is("ap")) return false;
        T v = Par<T>::expected(c["v"].i()), e = Par<T>::expected(c["e"].i());
        if (c["fm"].i() == 0) k(fakeit::ApproxEq(v, e));
        else k(fakeit::ApproxEq(Par<T>::expected(c["v"].i()), Par<T>::expected(c["e"].i())));
        v = Par<T>::expected(0);
        e = Par<T>::expected(0);
        return true;
    }
};

template<class T, class F> void withCond(const J &c, F k) {
    if (c["k"].is("any")) {
        int fm = c["fm"].i();
        if (fm == 0) k(fakeit::_);
        else if (fm == 1) k(fakeit::Any());
        else k(fakeit::Any<T>());
        return;
    }
    if (EqKinds<T, Codec<T>::eq>::with(c, k)) return;
    if (OrderKinds<T, Codec<T>::order>::with(c, k)) return;
    if (ApproxKinds<T, Codec<T>::approx>::with(c, k)) return;
    throw std::logic_error("script: condition not available");
}

// C strings: the conditions compare the content
template<class F> void withCString(const J &c, F k) {
    auto &n = c["k"];
    if (n.is("any")) { k(fakeit::_); return; }
    std::string v = Codec<std::string>::make(c["v"].i());
    bool l = c["fm"].i() == 0;
    if (n.is("eq")) { if (l) k(fakeit::StrEq(v)); else k(fakeit::StrEq(std::string(v))); }
    else if (n.is("ne")) { if (l) k(fakeit::StrNe(v)); else k(fakeit::StrNe(std::string(v))); }
    else if (n.is("gt")) { if (l) k(fakeit::StrGt(v)); else k(fakeit::StrGt(std::string(v))); }
    else if (n.is("ge")) { if (l) k(fakeit::StrGe(v)); else k(fakeit::StrGe(std::string(v))); }
    else if (n.is("lt")) { if (l) k(fakeit::StrLt(v)); else k(fakeit::StrLt(std::string(v))); }
    else if (n.is("le")) { if (l) k(fakeit::StrLe(v)); else k(fakeit::StrLe(std::string(v))); }
    else throw std::logic_error("script: condition not available");
    v = "changed";
}

// only "any" and plain values; for parameter lists where all combinations would be too many
template<class T, class F> void withSimpleCond(const J &c, F k) {
    if (c["k"].is("any")) k(fakeit::_);
    else if (c["k"].is("eq")) {
        T v = Par<T>::expected(c["v"].i());
        k(v);
        v = Par<T>::expected(0);
    } else throw std::logic_error("script: condition not available");
}

// every kind of condition in one form
template<class T, class F> void withOneForm(const J &c, F k) {
    auto &n = c["k"];
    if (n.is("any")) { k(fakeit::_); return; }
    T v = Par<T>::expected(c["v"].i());
    if (n.is("eq")) k(v);
    else if (n.is("ne")) k(fakeit::Ne(v));
    else if (n.is("gt")) k(fakeit::Gt(v));
    else if (n.is("ge")) k(fakeit::Ge(v));
    else if (n.is("lt")) k(fakeit::Lt(v));
    else if (n.is("le")) k(fakeit::Le(v));
    else throw std::logic_error("script: condition not available");
    v = Par<T>::expected(0);
}

template<int Arity, class Ctx, class... T> struct CondBuilder {
    static void apply(Ctx &, const J &) { throw std::logic_error("script: conditions not available"); }
};
template<class Ctx> struct CondBuilder<0, Ctx> {
    static void apply(Ctx &, const J &) {}
};
template<class Ctx, class T> struct CondBuilder<1, Ctx, T> {
    static void apply(Ctx &c, const J &cs) {
        withCond<T>(cs[0], [&](auto &&a) { c.Using(std::forward<decltype(a)>(a)); });
    }
};
template<class Ctx> struct CondBuilder<1, Ctx, const char *> {
    static void apply(Ctx &c, const J &cs) {
        withCString(cs[0], [&](auto &&a) { c.Using(std::forward<decltype(a)>(a)); });
    }
};
template<class Ctx, class T, class U> struct CondBuilder<2, Ctx, T, U> {
    static void apply(Ctx &c, const J &cs) {
        withOneForm<T>(cs[0], [&](auto &&a) {
            withOneForm<U>(cs[1], [&](auto &&b) {
                c.Using(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b));
            });
        });
    }
};
template<class Ctx, class T, class U, class V> struct CondBuilder<3, Ctx, T, U, V> {
    static void apply(Ctx &c, const J &cs) {
        withSimpleCond<T>(cs[0], [&](auto &&a) {
            withSimpleCond<U>(cs[1], [&](auto &&b) {
                withSimpleCond<V>(cs[2], [&](auto &&d) {
                    c.Using(std::forward<decltype(a)>(a), std::forward<decltype(b)>(b), std::forward<decltype(d)>(d));
                });
            });
        });
    }
};

// ---------------------------------------------------------------- type erased pieces
struct Node {                                        // a sequence or a source of invocations
    const fakeit::Sequence *seq = nullptr;
    const fakeit::ActualInvocationsSource *src = nullptr;
    std::vector<std::shared_ptr<Node>> keep;
    virtual ~Node() noexcept(false) {}
};
using NodeP = std::shared_ptr<Node>;

inline const fakeit::Sequence *asSeq(const fakeit::Sequence *s) { return s; }
inline const fakeit::Sequence *asSeq(const void *) { return nullptr; }
inline const fakeit::ActualInvocationsSource *asSrc(const fakeit::ActualInvocationsSource *s) { return s; }
inline const fakeit::ActualInvocationsSource *asSrc(const void *) { return nullptr; }

template<class C> struct NodeOf : Node {
    C c;
    explicit NodeOf(const C &x) : c(x) {
        seq = asSeq(&c);
        src = asSrc(&c);
    }
};

struct Handle {                                      // what the user gets from Method(mock, f)
    virtual ~Handle() {}
    virtual void narrow(const J &mt) = 0;
    virtual void stub(const J &op) = 0;
    virtual NodeP node() = 0;
};
using HandleP = std::shared_ptr<Handle>;

struct IMethod {
    int m = 0, f = 0;
    virtual ~IMethod() {}
    virtual HandleP mention(bool other = false) = 0; // Method(mock, f), written at one of two places
    virtual Out call(const J &op) = 0;
};
using MethodP = std::shared_ptr<IMethod>;

struct MockSlot {
    std::vector<MethodP> methods;
    void put(MethodP p) {
        if (methods.size() < (size_t) p->f) methods.resize(p->f);
        methods[p->f - 1] = p;
    }
    virtual ~MockSlot() {}
    virtual void create() = 0;
    virtual void destroy() = 0;
    virtual bool on() = 0;
    virtual void reset() = 0;
    virtual void clear() = 0;
    virtual const fakeit::ActualInvocationsSource &source() = 0;
    virtual bool spy() { return false; }
    virtual int objectState() { return 0; }
    virtual Out member(const J &) { throw std::logic_error("script: no members"); }
    virtual bool constructed(int) { return false; }  // a member of class type: no object until it is stubbed
    virtual Out identity() { return Out(); }
    std::set<int> stubbed;                           // members of class type that exist
};

struct World {
    std::vector<std::unique_ptr<MockSlot>> mocks;
    std::map<int, HandleP> handles;
    std::map<int, std::pair<std::set<int>, NodeP>> sources;   // stored sources and the mocks in them
    virtual ~World() {}
    MockSlot &mock(int m) { return *mocks.at(m - 1); }
    IMethod &method(int m, int f) { return *mock(m).methods.at(f - 1); }
    virtual void multi(const J &) { throw std::logic_error("script: combination not available"); }
    virtual std::vector<long> cellValues() { return {}; }
    virtual void poke(int, int) { throw std::logic_error("script: no cells"); }
};
std::unique_ptr<World> makeWorld();                  // defined by the world that is linked in

// ---------------------------------------------------------------- actions
[[noreturn]] inline void throwIt(const J &a) {
    switch (a["fm"].i()) {
        case 1: throw std::runtime_error(str(a["v"].i()));
        case 2: throw a["v"].i();
        case 3: throw TrackedErr{Tracked(a["v"].i())};
        default: throw Err{a["v"].i()};
    }
}

inline void showArgs(std::vector<std::string> &) {}
inline std::string joinArgs(const std::vector<std::string> &v) {
    std::string r;
    for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + v[i];
    return r;
}

template<class R> struct Give {
    static R of(int v) { return Ret<R>::make(v); }
};
template<> struct Give<void> {
    static void of(int) {}
};

// body of "do": reports what it received, gives v
template<class R, class... A> struct DoFn {
    int v;
    Tracked token;
    explicit DoFn(int x) : v(x), token(x) {}
    R operator()(typename std::remove_reference<A>::type &... a) const {
        run().lg.push_back("A" + str(v) + "(" + joinArgs({Par<A>::show(a)...}) + ")");
        return Give<R>::of(v);
    }
};

// the same, but takes its arguments by value and changes its own copies
template<class T> void spoil(T &) {}
inline void spoil(int &x) { x += 1000; }
inline void spoil(std::string &x) { x += "spoiled"; }
template<class R, class... A> struct DoCopyFn {
    int v;
    Tracked token;
    explicit DoCopyFn(int x) : v(x), token(x) {}
    R operator()(A... a) const {
        run().lg.push_back("A" + str(v) + "(" + joinArgs({Par<A>::show(a)...}) + ")");
        int dummy[] = {0, (spoil(a), 0)...};
        (void) dummy;
        return Give<R>::of(v);
    }
};

template<bool B> struct Tag {};

template<class... A> struct AllPlain;
template<> struct AllPlain<> : std::true_type {};
template<class H, class... T> struct AllPlain<H, T...> :
    std::integral_constant<bool, !std::is_reference<H>::value && !std::is_pointer<H>::value
        && std::is_copy_constructible<H>::value && AllPlain<T...>::value> {};

template<class... A> struct AllCopy;
template<> struct AllCopy<> : std::true_type {};
template<class H, class... T> struct AllCopy<H, T...> :
    std::integral_constant<bool, (std::is_lvalue_reference<H>::value || std::is_copy_constructible<H>::value)
        && !std::is_rvalue_reference<H>::value && AllCopy<T...>::value> {};

// body of "scr": runs operations, then gives v or throws (1), or passes on the exception of a call in it (2)
template<class R, class... A> struct ScriptFn {
    int m;
    J a;
    Tracked token;
    ScriptFn(int mock, const J &action) : m(mock), a(action), token(action["v"].i()) {}
    R operator()(typename std::remove_reference<A>::type &... x) const {
        run().lg.push_back("S" + str(a["v"].i()) + "(" + joinArgs({Par<A>::show(x)...}) + ")");
        struct Frame {
            Frame(int m) { run().stk.push_back(m); }
            ~Frame() { run().stk.pop_back(); }
        };
        {
            Frame frame(m);
            runOps(a["ops"], a["x"].i() == 2);
        }
        run().lg.push_back("E" + str(a["v"].i()) + "(" + joinArgs({Par<A>::show(x)...}) + ")");
        if (a["x"].i() == 1)
            throwIt(a);
        return Give<R>::of(a["v"].i());
    }
};

// A number of times, in the ways it can be written: n_Times, Times<n>, 1_Time
inline bool quantified(const J &a) { return a["n"].i() != 1 || a["x"].i() >= 3; }
template<class V> fakeit::Quantifier<V> times(const J &a, const V &v) {
    int n = a["n"].i();
    if (a["x"].i() == 3)
        switch (n) {
            case 0: return fakeit::Times<0>::of(v);
            case 1: return fakeit::Times<1>::of(v);
            case 2: return fakeit::Times<2>::of(v);
            case 3: return fakeit::Times<3>::of(v);
        }
    if (a["x"].i() == 4 && n == 1) return fakeit::operator ""_Time(1)(v);
    return fakeit::operator ""_Times((unsigned long long) n)(v);
}
inline fakeit::Quantifier<void> times(const J &a) {
    int n = a["n"].i();
    if (a["x"].i() == 3)
        switch (n) {
            case 0: return fakeit::Times<0>::Void();
            case 1: return fakeit::Times<1>::Void();
            case 2: return fakeit::Times<2>::Void();
            case 3: return fakeit::Times<3>::Void();
        }
    if (a["x"].i() == 4 && n == 1) return fakeit::operator ""_Time(1);
    return fakeit::operator ""_Times((unsigned long long) n);
}

// Return of the various result types
enum RetKind { RVoid, RRef, RMove, RConst, RPlain };
template<class R> struct KindOf {
    static const RetKind value = std::is_void<R>::value ? RVoid : std::is_reference<R>::value ? RRef : std::is_const<R>::value ? RConst
        : std::is_copy_constructible<R>::value ? RPlain : RMove;
};
template<class R, RetKind> struct Returner;
template<class R> struct Returner<R, RVoid> {
    template<class P> static void once(P &p, const J &) { p.Return(); }
    template<class P> static void times(P &p, const J &a) {
        p.Return(::times(a));
    }
    template<class P> static void always(P &p, const J &) { p.AlwaysReturn(); }
    template<class P> static bool two(P &, const J &, const J &) { return false; }
    template<class P> static void three(P &, const J &, const J &, const J &) {}
    template<class C> static bool assign(C &, const J &) { return false; }
};
template<class R> struct Returner<R, RPlain> {
    template<class P> static void once(P &p, const J &a) {
        R v = Ret<R>::make(a["v"].i());
        p.Return(v);
    }
    template<class P> static void times(P &p, const J &a) {
        R v = Ret<R>::make(a["v"].i());
        p.Return(::times(a, v));
    }
    template<class P> static void always(P &p, const J &a) {
        R v = Ret<R>::make(a["v"].i());
        p.AlwaysReturn(v);
    }
    template<class P> static bool two(P &p, const J &a, const J &b) {
        R v = Ret<R>::make(a["v"].i()), w = Ret<R>::make(b["v"].i());
        if (!quantified(a) && !quantified(b)) p.Return(v, w);
        else if (!quantified(b)) p.Return(::times(a, v), w);
        else if (!quantified(a)) p.Return(v, ::times(b, w));
        else p.Return(::times(a, v), ::times(b, w));
        return true;
    }
    template<class P> static void three(P &p, const J &a, const J &b, const J &c) {
        R v = Ret<R>::make(a["v"].i()), w = Ret<R>::make(b["v"].i()), x = Ret<R>::make(c["v"].i());
        if (!quantified(a) && !quantified(b) && !quantified(c)) p.Return(v, w, x);
        else p.Return(::times(a, v), ::times(b, w), ::times(c, x));
    }
    template<class C> static bool assign(C &c, const J &a) {
        R v = Ret<R>::make(a["v"].i());
        c = v;
        return true;
    }
};
template<class R> struct Returner<R, RRef> {
    template<class P> static void once(P &p, const J &a) { p.Return(Ret<R>::make(a["v"].i())); }
    template<class P> static void times(P &p, const J &a) {
        for (int i = 0; i < a["n"].i(); ++i) once(p, a);
    }
    template<class P> static void always(P &p, const J &a) { p.AlwaysReturn(Ret<R>::make(a["v"].i())); }
    template<class P> static bool two(P &, const J &, const J &) { return false; }
    template<class P> static void three(P &, const J &, const J &, const J &) {}
    template<class C> static bool assign(C &c, const J &a) {
        c = Ret<R>::make(a["v"].i());
        return true;
    }
};
template<class R> struct Returner<R, RConst> {
    template<class P> static void once(P &p, const J &a) { p.Return(Ret<R>::make(a["v"].i())); }
    template<class P> static void times(P &p, const J &a) {
        for (int i = 0; i < a["n"].i(); ++i) once(p, a);
    }
    template<class P> static void always(P &p, const J &a) { p.AlwaysReturn(Ret<R>::make(a["v"].i())); }
    template<class P> static bool two(P &p, const J &a, const J &b) {
        if (quantified(a) || quantified(b)) return false;
        R v = Ret<R>::make(a["v"].i()), w = Ret<R>::make(b["v"].i());
        p.Return(v, w);
        return true;
    }
    template<class P> static void three(P &, const J &, const J &, const J &) {}
    template<class C> static bool assign(C &c, const J &a) {
        R v = Ret<R>::make(a["v"].i());
        c = v;
        return true;
    }
};
template<class R> struct Returner<R, RMove> {
    template<class P> static void once(P &p, const J &a) { p.Return(Ret<R>::make(a["v"].i())); }
    template<class P> static void times(P &p, const J &a) {
        for (int i = 0; i < a["n"].i(); ++i) once(p, a);
    }
    template<class P> static void always(P &p, const J &a) {
        int v = a["v"].i();
        p.AlwaysDo([v](auto &...) { return Ret<R>::make(v); });
    }
    template<class P> static bool two(P &, const J &, const J &) { return false; }
    template<class P> static void three(P &, const J &, const J &, const J &) {}
    template<class C> static bool assign(C &, const J &) { return false; }
};

template<class P, class E> void throwAction(P &p, const J &a, const E &e) {
    int n = a["n"].i();
    if (n < 0) p.AlwaysThrow(e);
    else if (!quantified(a)) p.Throw(e);
    else p.Throw(::times(a, e));
}
template<class P, class E, class G> void throwTwo(P &p, const J &a, const E &e, const J &b, const G &g) {
    if (!quantified(a) && !quantified(b)) p.Throw(e, g);
    else if (!quantified(b)) p.Throw(::times(a, e), g);
    else p.Throw(::times(a, e), ::times(b, g));
}

template<class P, class F> void doAction(P &p, const J &a, const F &f) {
    int n = a["n"].i();
    if (n < 0) p.AlwaysDo(f);
    else if (!quantified(a)) p.Do(f);
    else p.Do(::times(a, f));
}
template<class P, class F> void doTwo(P &p, const J &a, const F &f, const J &b, const F &g) {
    if (!quantified(a) && !quantified(b)) p.Do(f, g);
    else if (!quantified(b)) p.Do(::times(a, f), g);
    else p.Do(::times(a, f), ::times(b, g));
}

// ---------------------------------------------------------------- one method of one mock
template<class R, class... A> struct Invoke {
    static Out go(const std::function<R(A...)> &inv, const J &args) {
        return go(inv, args, std::index_sequence_for<A...>{});
    }
    template<size_t... I> static Out go(const std::function<R(A...)> &inv, const J &args, std::index_sequence<I...>) {
        (void) args;
        return Out("ret", Ret<R>::get(inv(Par<A>::pass(args[I].i())...)));
    }
};
template<class... A> struct Invoke<void, A...> {
    static Out go(const std::function<void(A...)> &inv, const J &args) {
        return go(inv, args, std::index_sequence_for<A...>{});
    }
    template<size_t... I> static Out go(const std::function<void(A...)> &inv, const J &args, std::index_sequence<I...>) {
        (void) args;
        inv(Par<A>::pass(args[I].i())...);
        return Out("ret", 0);
    }
};

inline int sumOf(std::initializer_list<int> l) {
    int r = 0;
    for (int i : l) r += i;
    return r;
}
inline int mod3(int v) { return ((v % 3) + 3) % 3; }

template<class Progress> using SetHook = std::function<void(Progress &, const J &)>;

template<class Ctx, class R, class... A> struct HandleImpl : Handle {
    using Progress = fakeit::MethodStubbingProgress<R, A...>;
    Ctx c;
    int m;
    SetHook<Progress> setHook;

    HandleImpl(Ctx ctx, int mock, SetHook<Progress> h) : c(ctx), m(mock), setHook(h) {}

    void narrow(const J &mt) override {
        if (mt["k"].is("args"))
            CondBuilder<sizeof...(A) <= 3 ? (int) sizeof...(A) : -1, Ctx, typename Par<A>::T...>::apply(c, mt["c"]);
        else if (mt["k"].is("pred")) {
            int p = mt["p"].i();
            Tracked own(50 + p);                     // a user object of the predicate
            auto f = [p, own](typename std::remove_reference<A>::type &... a) { return own.check(), mod3(sumOf({Par<A>::value(a)...})) == p; };
            if (mt["fm"].i() == 0) c.Matching(f);
            else c(std::function<bool(A &...)>(f));
        }
    }

    // whether the next action is of the same sort and can be given together with this one
    static bool follows(const J &ac, size_t i) {
        return i + 1 < ac.size() && ac[i]["t"].str == ac[i + 1]["t"].str && ac[i]["n"].i() >= 0 && ac[i + 1]["n"].i() >= 0;
    }

    // one action; returns how many actions of the list it used
    size_t action(Progress &p, const J &ac, size_t i) {
        const J &a = ac[i];
        auto &t = a["t"];
        int n = a["n"].i();
        using Rr = Returner<R, KindOf<R>::value>;
        if (t.is("ret")) {
            if (n < 0) Rr::always(p, a);
            else if (a["fm"].i() == 2 && follows(ac, i) && follows(ac, i + 1) && ac[i + 1]["fm"].i() == 2
                     && KindOf<R>::value == RPlain) {
                Rr::three(p, a, ac[i + 1], ac[i + 2]);
                return 3;
            } else if (a["fm"].i() == 2 && follows(ac, i) && Rr::two(p, a, ac[i + 1]))
                return 2;
            else if (!quantified(a) && a["fm"].i() != 1) Rr::once(p, a);
            else Rr::times(p, a);
        } else if (t.is("def")) {
            defaults(p, n, HasDefault());
        } else if (t.is("thr") && a["x"].i() == 2 && follows(ac, i) && a["fm"].i() == 0 && ac[i + 1]["fm"].i() == 2) {
            throwTwo(p, a, Err{a["v"].i()}, ac[i + 1], ac[i + 1]["v"].i());
            return 2;
        } else if (t.is("do") && a["x"].i() == 2 && follows(ac, i)) {
            doTwo(p, a, DoFn<R, A...>{a["v"].i()}, ac[i + 1], DoFn<R, A...>{ac[i + 1]["v"].i()});
            return 2;
        } else if (t.is("thr")) {
            switch (a["fm"].i()) {
                case 1: throwAction(p, a, std::runtime_error(str(a["v"].i()))); break;
                case 2: throwAction(p, a, a["v"].i()); break;
                case 3: throwAction(p, a, TrackedErr{Tracked(a["v"].i())}); break;
                default: throwAction(p, a, Err{a["v"].i()});
            }
        } else if (t.is("do")) {
            if (a["fm"].i() == 1) copyDo(p, a, Tag<AllPlain<A...>::value>());
            else doAction(p, a, DoFn<R, A...>{a["v"].i()});
        } else if (t.is("scr")) {
            doAction(p, a, ScriptFn<R, A...>{m, a});
        } else if (t.is("set")) {
            if (!setHook) throw std::logic_error("script: ReturnAndSet not available");
            setHook(p, a);
        } else
            throw std::logic_error("script: action");
        return 1;
    }

    template<class P> void defaults(P &p, int n, Tag<true>) {
        if (n < 0) p.AlwaysReturn();
        else for (int i = 0; i < n; ++i) p.Return();
    }
    template<class P> void defaults(P &, int, Tag<false>) { throw std::logic_error("script: no default value"); }
    template<class C> void fake(C &x, Tag<true>) { fakeit::Fake(x); }
    template<class C> void fake(C &, Tag<false>) { throw std::logic_error("script: no default value"); }
    using HasDefault = Tag<KindOf<R>::value != RMove>;

    void copyDo(Progress &p, const J &a, Tag<true>) { doAction(p, a, DoCopyFn<R, A...>{a["v"].i()}); }
    void copyDo(Progress &p, const J &a, Tag<false>) { doAction(p, a, DoFn<R, A...>{a["v"].i()}); }

    void spy(Tag<true>) { fakeit::Spy(c); }
    void spy(Tag<false>) { throw std::logic_error("script: Spy not available"); }

    void assign(const J &a) {
        using Rr = Returner<R, KindOf<R>::value>;
        if (a["t"].is("ret") && Rr::assign(c, a)) return;
        if (a["t"].is("thr")) {
            J copy = a;
            Tracked token(a["fm"].i() == 3 ? a["v"].i() : 0);
            c = [copy, token](typename std::remove_reference<A>::type &...) -> R { throwIt(copy); };
        } else if (a["t"].is("scr")) c = ScriptFn<R, A...>{m, a};
        else if (a["t"].is("do")) c = DoFn<R, A...>{a["v"].i()};
        else {
            int v = a["v"].i();
            c = [v](typename std::remove_reference<A>::type &...) -> R { return Give<R>::of(v); };
        }
    }

    void stub(const J &op) override {
        auto &fm = op["fm"];
        const J &ac = op["ac"];
        int ab = op["ab"].i();
        if (fm.is("when")) {
            auto &&p = When(c);
            size_t i = 0;
            while (i < ac.size()) {
                if (ab >= 0 && (int) i >= ab)
                    break;
                i += action(p, ac, i);
            }
            if (ab >= 0)
                throw Abandon();
            runOps(op["lc"]);
        } else {
            if (fm.is("fake")) fake(c, HasDefault());
            else if (fm.is("spy")) spy(Tag<AllCopy<A...>::value>());
            else if (fm.is("spynv")) fakeit::SpyWithoutVerify(c);
            else if (fm.is("asg")) assign(ac[0]);
            else throw std::logic_error("script: form of stubbing");
        }
    }

    NodeP node() override { return NodeP(new NodeOf<Ctx>(c)); }
};

template<class Ctx, class R, class... A> struct MethodImpl : IMethod {
    std::function<Ctx()> mk, mk2;
    std::function<R(A...)> inv;
    SetHook<fakeit::MethodStubbingProgress<R, A...>> setHook;

    HandleP mention(bool other) override {
        return HandleP(new HandleImpl<Ctx, R, A...>(other && mk2 ? mk2() : mk(), m, setHook));
    }
    Out call(const J &op) override {
        run().view = op["fm"].i();
        return Invoke<R, A...>::go(inv, op["a"]);
    }
};

// wrap(mention, caller): the types come from the context the library returns
template<class R, class... A, class Mk, class Inv>
std::shared_ptr<MethodImpl<fakeit::MockingContext<R, A...>, R, A...>>
wrapAs(fakeit::MockingContext<R, A...> *, int m, int f, Mk mk, Inv inv) {
    auto p = std::make_shared<MethodImpl<fakeit::MockingContext<R, A...>, R, A...>>();
    p->m = m;
    p->f = f;
    p->mk = mk;
    p->inv = inv;
    return p;
}
template<class Mk, class Inv> auto wrap(int m, int f, Mk mk, Inv inv) {
    return wrapAs((decltype(mk()) *) nullptr, m, f, mk, inv);
}
template<class Mk, class Mk2, class Inv> auto wrap(int m, int f, Mk mk, Mk2 mk2, Inv inv) {
    auto p = wrapAs((decltype(mk()) *) nullptr, m, f, mk, inv);
    p->mk2 = mk2;
    return p;
}

// WRAP(slot pointer, number of the mock, number of the method, name of the mock, mention, call)
#define WRAP(s, m, f, name, mention, ...) \
    s->put(wrap(m, f, [s] { auto &name = s->get(); return mention; }, \
                                    [s] { auto &name = s->get(); return mention; }, __VA_ARGS__))

// destructors
struct DtorHandle : Handle {
    fakeit::DtorMockingContext c;
    int m;
    DtorHandle(fakeit::DtorMockingContext ctx, int mock) : c(ctx), m(mock) {}
    void narrow(const J &mt) override {
        if (!mt["k"].is("none")) throw std::logic_error("script: conditions on a destructor");
    }
    void stub(const J &op) override;
    NodeP node() override { return NodeP(new NodeOf<fakeit::DtorMockingContext>(c)); }
};
struct DtorMethod : IMethod {
    std::function<fakeit::DtorMockingContext()> mk;
    std::function<void(int)> inv;                    // argument: 0 delete, 1 explicit destructor call
    HandleP mention(bool) override { return HandleP(new DtorHandle(mk(), m)); }
    Out call(const J &op) override {
        inv(op["fm"].i());
        return Out("ret", 0);
    }
};

// A mock that owns its instance
template<class C, class... Bases> struct Own : MockSlot {
    std::unique_ptr<fakeit::Mock<C, Bases...>> p;
    C *first = nullptr;
    void create() override {
        p.reset(new fakeit::Mock<C, Bases...>());
        first = &p->get();
    }
    void destroy() override { p.reset(); }
    bool on() override { return (bool) p; }
    void reset() override { p->Reset(); }
    void clear() override { p->ClearInvocationHistory(); }
    const fakeit::ActualInvocationsSource &source() override { return *p; }
    fakeit::Mock<C, Bases...> &get() {
        if (!p) throw std::logic_error("script: no mock");
        return *p;
    }
    C &inst() { return *opaque(&get().get()); }
    Out identity() override {
        C *a = &p->get(), *b = &(*p)();
        return a == first && b == first ? Out() : Out("bad");
    }
};

// A mock of an existing object
template<class C> struct Spied : MockSlot {
    std::unique_ptr<C> obj;
    std::unique_ptr<fakeit::Mock<C>> p;
    explicit Spied(C *o) : obj(o) {}
    ~Spied() { p.reset(); }
    void create() override { p.reset(new fakeit::Mock<C>(*obj)); }
    void destroy() override { p.reset(); }
    bool on() override { return (bool) p; }
    void reset() override { p->Reset(); }
    void clear() override { p->ClearInvocationHistory(); }
    const fakeit::ActualInvocationsSource &source() override { return *p; }
    bool spy() override { return true; }
    fakeit::Mock<C> &get() {
        if (!p) throw std::logic_error("script: no mock");
        return *p;
    }
    C &inst() { return *opaque(obj.get()); }
    Out identity() override { return !p || &p->get() == obj.get() ? Out() : Out("bad"); }
};
