// Executes scripts: one JSON object per line with "id" and "ops"; writes one
// line per script with the observed outcomes.
#if defined FK_FW_DOCTEST
#define DOCTEST_CONFIG_IMPLEMENT
#endif
#include "driver.hpp"
#include "fw.hpp"
#include <cctype>
#include <csignal>
#include <cstdio>
#include <fstream>
#include <sys/time.h>
#include <unistd.h>

using namespace fakeit;

Run &run() {
    static Run r;
    return r;
}

// ---------------------------------------------------------------- events
static std::string place(const VerificationEvent &e) {
    return std::strcmp(e.file(), run().file) == 0 && e.line() == run().line
        && std::strcmp(e.callingMethod(), "operator()") == 0 ? "ok" : str(e.file()) + ":" + str(e.line());
}
static std::string list(const std::vector<Invocation *> &v) {
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i) r += (i ? ";" : "") + v[i]->format();
    return r + "]";
}

struct Seen {                                        // what an event says
    std::string what, data;
    explicit Seen(const UnexpectedMethodCallEvent &e) {
        what = e.getUnexpectedType() == UnexpectedType::Unmocked ? "unmocked" : "unmatched";
        data = what + " " + e.getInvocation().format();
    }
    explicit Seen(const SequenceVerificationEvent &e) {
        what = "seq";
        data = std::string("seq ") + (e.verificationType() == VerificationType::Exact ? "exact" : "atleast")
            + " exp=" + str(e.expectedCount()) + " act=" + str(e.actualCount())
            + " pat=" + DefaultEventFormatter::formatExpectedPattern(e.expectedPattern())
            + " all=" + list(e.actualSequence()) + " at=" + place(e);
    }
    explicit Seen(const NoMoreInvocationsVerificationEvent &e) {
        what = "nomore";
        data = "nomore all=" + list(e.allIvocations()) + " unv=" + list(e.unverifedIvocations()) + " at=" + place(e);
    }
};

static bool muted = false;                           // while the driver itself looks at the history

struct Listener : EventHandler {
    int id = 0;
    template<class E> void seen(const E &e) {
        if (muted) return;
        Seen s(e);
        run().ev.push_back("L" + str(id) + " " + s.what);
        run().tx.push_back("L" + str(id) + " " + s.data);
        react();
    }
    void react();
    void handle(const UnexpectedMethodCallEvent &e) override { seen(e); }
    void handle(const SequenceVerificationEvent &e) override { seen(e); }
    void handle(const NoMoreInvocationsVerificationEvent &e) override { seen(e); }
};

struct Adapter : EventHandler {
    int id = 0;
    template<class E> void seen(const E &e) {
        run().ev.push_back("D" + str(id) + " " + Seen(e).what);
        run().tx.push_back("D" + str(id) + " " + Fakeit.format(e));
        if (id != 2)
            throw AdapterErr{id};
    }
    void handle(const UnexpectedMethodCallEvent &e) override { seen(e); }
    void handle(const SequenceVerificationEvent &e) override { seen(e); }
    void handle(const NoMoreInvocationsVerificationEvent &e) override { seen(e); }
};

struct MyFormatter : EventFormatter {
    int id = 0;
    std::string format(const UnexpectedMethodCallEvent &e) override { return "F" + str(id) + " " + Seen(e).what; }
    std::string format(const SequenceVerificationEvent &e) override { return "F" + str(id) + " " + Seen(e).what; }
    std::string format(const NoMoreInvocationsVerificationEvent &e) override { return "F" + str(id) + " " + Seen(e).what; }
};

static Listener listeners[6];
// listener 4 registers listener 1 and listener 5 clears the listeners, while an event is delivered
void Listener::react() {
    if (id == 4) {
        listeners[1].id = 1;
        Fakeit.addEventHandler(listeners[1]);
    }
    if (id == 5) Fakeit.clearEventHandlers();
}
static Adapter adapters[5];
static MyFormatter formatters[5];

// ---------------------------------------------------------------- patterns and sources
static World &world() { return *run().world; }

static NodeP mentionNode(const J &x) {
    HandleP h = world().method(x["m"].i(), x["f"].i()).mention(true);
    h->narrow(x["mt"]);
    NodeP n = h->node();
    return n;
}

static NodeP seqNode(const J &x) {
    if (x["k"].is("m"))
        return mentionNode(x);
    if (x["k"].is("h"))
        return world().handles.at(x["h"].i())->node();
    if (x["k"].is("cat")) {
        NodeP l = seqNode(x["l"]), r = seqNode(x["r"]);
        NodeP n(new NodeOf<decltype(*l->seq + *r->seq)>(*l->seq + *r->seq));
        n->keep = {l, r};
        return n;
    }
    NodeP l = seqNode(x["l"]);
    int t = x["n"].i();
    NodeP n;
    if (x["fm"].i() == 0) n.reset(new NodeOf<decltype(*l->seq * t)>(*l->seq * t));
    else n.reset(new NodeOf<decltype(t * *l->seq)>(t * *l->seq));
    n->keep = {l};
    return n;
}

static NodeP srcNode(const J &x) {
    if (x["k"].is("mock")) {
        NodeP n(new Node());
        n->src = &world().mock(x["m"].i()).source();
        return n;
    }
    if (x["k"].is("meth"))
        return mentionNode(x);
    if (x["k"].is("h"))
        return world().handles.at(x["h"].i())->node();
    if (x["k"].is("s"))
        return world().sources.at(x["s"].i()).second;
    std::vector<NodeP> k;
    for (auto &y : x["xs"].arr) k.push_back(srcNode(y));
    NodeP n;
    if (k.size() == 1) n.reset(new NodeOf<decltype(Unverified(*k[0]->src))>(Unverified(*k[0]->src)));
    else if (k.size() == 2) n.reset(new NodeOf<decltype(Unverified(*k[0]->src))>(Unverified(*k[0]->src, *k[1]->src)));
    else if (k.size() == 3) n.reset(new NodeOf<decltype(Unverified(*k[0]->src))>(Unverified(*k[0]->src, *k[1]->src, *k[2]->src)));
    else throw std::logic_error("script: sources");
    n->keep = k;
    return n;
}

// ---------------------------------------------------------------- verification
using Progress = decltype(Verify(*(const fakeit::Sequence *) nullptr));
#define HERE run().line = __LINE__, run().file = __FILE__

#line 40001
static std::function<Progress()> verifyShape(const std::vector<NodeP> &p, const std::vector<NodeP> &s, bool unv) {
#define P(i) (*p[i]->seq)
#define S(i) (*s[i]->src)
    switch (p.size() * 100 + s.size() * 10 + (unv ? 1 : 0)) {
        case 100: return [=] { HERE; return Verify(P(0)); };
        case 200: return [=] { HERE; return Verify(P(0), P(1)); };
        case 300: return [=] { HERE; return Verify(P(0), P(1), P(2)); };
        case 101: return [=] { HERE; return Unverified.Verify(P(0)); };
        case 201: return [=] { HERE; return Unverified.Verify(P(0), P(1)); };
        case 301: return [=] { HERE; return Unverified.Verify(P(0), P(1), P(2)); };
        case 110: return [=] { HERE; return Using(S(0)).Verify(P(0)); };
        case 210: return [=] { HERE; return Using(S(0)).Verify(P(0), P(1)); };
        case 310: return [=] { HERE; return Using(S(0)).Verify(P(0), P(1), P(2)); };
        case 120: return [=] { HERE; return Using(S(0), S(1)).Verify(P(0)); };
        case 220: return [=] { HERE; return Using(S(0), S(1)).Verify(P(0), P(1)); };
        case 320: return [=] { HERE; return Using(S(0), S(1)).Verify(P(0), P(1), P(2)); };
        case 130: return [=] { HERE; return Using(S(0), S(1), S(2)).Verify(P(0)); };
        case 230: return [=] { HERE; return Using(S(0), S(1), S(2)).Verify(P(0), P(1)); };
        case 330: return [=] { HERE; return Using(S(0), S(1), S(2)).Verify(P(0), P(1), P(2)); };
    }
    throw std::logic_error("script: shape of verification");
#undef P
#undef S
}

static int abandon() { throw Abandon(); }

// Applies a form of evaluation to a complete verification expression. The
// operations of late run between the expression and its judgement.
template<class Mk, class Late> static Out evaluate(const std::string &mode, Mk mk, Late late) {
    if (mode == "stmt") {
        mk();
        return Out();
    }
    if (mode == "var") {
        auto v = mk();
        (void) v;
        late();
        return Out();
    }
    if (mode == "copy") {
        auto v = mk();
        {
            auto w = v;
            auto x = w;
            (void) x;
            late();
        }
        return Out();
    }
    if (mode == "bool") {
        auto &&v = mk();
        late();
        bool b = v;
        return Out(b ? "true" : "false");
    }
    if (mode == "not") {
        auto &&v = mk();
        late();
        bool b = !v;
        return Out(b ? "true" : "false");
    }
    if (mode == "twice") {
        auto v = mk();
        late();
        bool a = v;
        bool b = v;
        Out o(a ? "true" : "false");
        o.w = {a, b};
        return o;
    }
    throw std::logic_error("script: form of verification");
}

static fakeit::Quantity times(int n, int fm) {
    if (fm == 3)
        switch (n) {
            case 0: return fakeit::Times<0>();
            case 1: return fakeit::Times<1>();
            case 2: return fakeit::Times<2>();
            case 3: return fakeit::Times<3>();
        }
    if (fm == 4) return fakeit::operator ""_Time((unsigned long long) n);
    return fakeit::operator ""_Times((unsigned long long) n);
}

static Out verify(const J &op) {
    std::vector<NodeP> p, s;
    for (auto &x : op["pat"].arr) p.push_back(seqNode(x));
    for (auto &x : op["src"].arr) s.push_back(srcNode(x));
    auto mk = verifyShape(p, s, op["unv"].b());
    auto &q = op["q"];
    int n = q["n"].i(), fm = q["fm"].i();
    const std::string &mode = op["mode"].str;
    auto during = [&] { runOps(op["lc"]); return n; };
    if (mode == "unw") {
        during();
        if (q["k"].is("al")) mk().AtLeast(abandon());
        else mk().Exactly(abandon());
        return Out("no exception");
    }
    // A whole statement: its later operations are evaluated as a part of it.
    // A quantity that is rejected ends the statement where it is written.
    bool whole = mode == "stmt" || n < 0 || (fm == 4 && n != 1);
    auto early = [&] { if (whole) during(); };
    auto late = [&] { if (!whole) during(); };
    if (q["k"].is("def") && fm == 0) {
        if (whole) {
            auto &&v = mk();
            (void) v;
            during();
            return Out();
        }
        return evaluate(mode, mk, late);
    }
    if (q["k"].is("def")) return evaluate(mode, [&] { early(); return mk().AtLeastOnce(); }, late);
    if (q["k"].is("any")) return evaluate(mode, [&] { early(); return mk().Any(); }, late);
    if (q["k"].is("ex")) {
        if (fm == 1 && n == 0) return evaluate(mode, [&] { early(); return mk().Never(); }, late);
        if (fm == 3 && n == 1) return evaluate(mode, [&] { early(); return mk().Exactly(fakeit::Once); }, late);
        if (fm == 1 && n == 1) return evaluate(mode, [&] { early(); return mk().Once(); }, late);
        if (fm == 1 && n == 2) return evaluate(mode, [&] { early(); return mk().Twice(); }, late);
        if (fm >= 2 && n >= 0) return evaluate(mode, [&] { early(); return mk().Exactly(times(n, fm)); }, late);
        return evaluate(mode, [&] { return mk().Exactly(whole ? during() : n); }, late);
    }
    if (q["k"].is("al")) {
        if (fm >= 2 && n >= 0) return evaluate(mode, [&] { early(); return mk().AtLeast(times(n, fm)); }, late);
        return evaluate(mode, [&] { return mk().AtLeast(whole ? during() : n); }, late);
    }
    throw std::logic_error("script: quantity");
}

#line 70001
static Out verifyNoOther(const J &op) {
    std::vector<NodeP> s;
    for (auto &x : op["src"].arr) s.push_back(srcNode(x));
#define S(i) (*s[i]->src)
    using NoOther = decltype(VerifyNoOtherInvocations(S(0)));
    std::function<NoOther()> mk;
    switch (s.size()) {
        case 1: mk = [=] { HERE; return VerifyNoOtherInvocations(S(0)); }; break;
        case 2: mk = [=] { HERE; return VerifyNoOtherInvocations(S(0), S(1)); }; break;
        case 3: mk = [=] { HERE; return VerifyNoOtherInvocations(S(0), S(1), S(2)); }; break;
        default: throw std::logic_error("script: sources");
    }
#undef S
    if (op["mode"].is("unw")) {
        auto &&v = mk();
        (void) v;
        abandon();
    }
    return evaluate(op["mode"].str, mk, [] {});
}

// The invocations that sources select: what a verification that must fail reports.
struct Observer : EventHandler {
    std::vector<std::string> seen;
    void handle(const UnexpectedMethodCallEvent &) override {}
    void handle(const SequenceVerificationEvent &e) override {
        for (Invocation *i : e.actualSequence()) seen.push_back(i->format());
    }
    void handle(const NoMoreInvocationsVerificationEvent &) override {}
};
struct ProbeType { virtual void never() = 0; };

static Out history(const J &op) {
    static Mock<ProbeType> probe;
    std::vector<NodeP> s;
    for (auto &x : op["src"].arr) s.push_back(srcNode(x));
    Observer o;
    muted = true;
    Fakeit.setTestingFrameworkAdapter(o);
    const int no = 1 << 30;
    switch (s.size()) {
        case 1: Using(*s[0]->src).Verify(Method(probe, never)).Exactly(no); break;
        case 2: Using(*s[0]->src, *s[1]->src).Verify(Method(probe, never)).Exactly(no); break;
        case 3: Using(*s[0]->src, *s[1]->src, *s[2]->src).Verify(Method(probe, never)).Exactly(no); break;
        default: throw std::logic_error("script: sources");
    }
    if (run().ad) Fakeit.setTestingFrameworkAdapter(adapters[run().ad]);
    else Fakeit.resetTestingFrameworkAdapter();
    muted = false;
    for (auto &x : o.seen) run().lg.push_back(x);
    return Out("ok", (long) o.seen.size());
}

// Work on mocks that nobody else uses.
struct AgeType {
    virtual int a(int) = 0;
    virtual int b(int) = 0;
};
static void age(int kind, int n) {
    if (kind == 3) {
        for (int i = 0; i < n; ++i) {
            Mock<AgeType> k;
            When(Method(k, a)).Return(1);
            opaque(&k.get())->a(i);
        }
        return;
    }
    Mock<AgeType> k;
    AgeType &o = *opaque(&k.get());
    Fake(Method(k, a));
    for (int i = 0; i < n; ++i) {
        if (kind == 0) {
            o.a(i);
            if (i % 1000 == 999) k.ClearInvocationHistory();
        } else if (kind == 1) {
            k.Reset();
            Fake(Method(k, a));
        } else if (kind == 2) {
            When(Method(k, a).Using(i)).AlwaysReturn(i);
            if (i % 1000 == 999) k.Reset();
        } else {
            bool none = Verify(Method(k, a)).Never();
            if (!none) throw std::logic_error("script: age");
        }
    }
}

// ---------------------------------------------------------------- operations
void DtorHandle::stub(const J &op) {
    auto &fm = op["fm"];
    const J &ac = op["ac"];
    if (fm.is("when")) {
        auto &&p = When(c);
        for (size_t i = 0; i < ac.size(); ++i) {
            if (op["ab"].i() >= 0 && (int) i >= op["ab"].i()) break;
            const J &a = ac[i];
            if (a["t"].is("ret") || a["t"].is("def")) {
                if (a["n"].i() < 0) p.AlwaysReturn();
                else p.Return(times(a));
            } else if (a["t"].is("thr")) throwAction(p, a, Err{a["v"].i()});
            else if (a["t"].is("do")) doAction(p, a, DoFn<void>(a["v"].i()));
            else if (a["t"].is("scr")) doAction(p, a, ScriptFn<void>(m, a));
            else throw std::logic_error("script: action");
        }
        if (op["ab"].i() >= 0)
            throw Abandon();
        runOps(op["lc"]);
    } else if (fm.is("fake")) fakeit::Fake(c);
    else if (fm.is("asg")) {
        if (ac[0]["t"].is("scr")) c = ScriptFn<void>{m, ac[0]};
        else c = DoFn<void>{ac[0]["v"].i()};
    }
    else throw std::logic_error("script: form of stubbing");
}

static bool usable(const J &op) {
    for (auto &m : op["use"].arr) if (!world().mock(m.i()).on()) return false;
    for (auto &h : op["useh"].arr) if (!world().handles.count(h.i())) return false;
    for (auto &h : op["uses"].arr) if (!world().sources.count(h.i())) return false;
    return true;
}

static bool onStack(int m) {
    for (int x : run().stk) if (x == m) return true;
    return false;
}

static std::map<int, int> handleMock;                // mock a stored handle belongs to

// Runs operations in a destructor that an exception caused to run.
struct Unwinder {
    const J &ops;
    bool before;
    explicit Unwinder(const J &o) : ops(o), before(run().unwinding) {}
    ~Unwinder() {
        run().unwinding = true;
        runOps(ops);
        run().unwinding = before;
    }
};

// Cannot be told from an interrupted statement while an exception is on its way.
static bool judgedAtEnd(const J &op) {
    if (op["t"].is("stub")) return op["fm"].is("when") && op["ab"].i() < 0;
    if (op["t"].is("ver") || op["t"].is("vno")) return op["mode"].is("stmt") || op["mode"].is("var") || op["mode"].is("copy");
    return op["t"].is("hist");
}

static Out dispatch(const J &op) {
    const std::string &t = op["t"].str;
    World &w = world();
    if (run().unwinding && judgedAtEnd(op)) return Out("skip");
    if (t == "uw") {
        Unwinder u(op["ops"]);
        throw Abandon();
    }
    if (t == "new") {
        if (w.mock(op["m"].i()).on()) return Out("skip");
        w.mock(op["m"].i()).create();
        return Out();
    }
    if (t == "del" || t == "reset") {
        int m = op["m"].i();
        if (!w.mock(m).on() || onStack(m)) return Out("skip");
        w.mock(m).stubbed.clear();
        for (auto i = w.sources.begin(); i != w.sources.end();)
            if (i->second.first.count(m)) i = w.sources.erase(i); else ++i;
        if (t == "reset") w.mock(m).reset();
        else {
            w.mock(m).destroy();
            for (auto i = w.handles.begin(); i != w.handles.end();)
                if (handleMock[i->first] == m) i = w.handles.erase(i); else ++i;
        }
        return Out();
    }
    if (t == "clear") {
        if (!w.mock(op["m"].i()).on()) return Out("skip");
        w.mock(op["m"].i()).clear();
        return Out();
    }
    if (t == "stub") {
        HandleP h;
        if (op["h"].i()) {
            if (!w.handles.count(op["h"].i())) return Out("skip");
            h = w.handles[op["h"].i()];
        } else {
            if (!w.mock(op["m"].i()).on()) return Out("skip");
            h = w.method(op["m"].i(), op["f"].i()).mention();
            h->narrow(op["mt"]);
        }
        h->stub(op);
        return Out();
    }
    if (t == "multi") {
        for (auto &x : op["xs"].arr) if (!w.mock(x["m"].i()).on()) return Out("skip");
        w.multi(op);
        return Out();
    }
    if (t == "call") {
        auto &k = w.mock(op["m"].i());
        if (!k.on() && !k.spy()) return Out("skip");
        return w.method(op["m"].i(), op["f"].i()).call(op);
    }
    if (t == "rpt") {
        auto &k = w.mock(op["m"].i());
        if (!k.on()) return Out("skip");
        Out all;
        for (int i = 0; i < op["n"].i(); ++i) {
            long v;
            try {
                v = w.method(op["m"].i(), op["f"].i()).call(op).v;
            } catch (const UnexpectedMethodCallException &) {
                v = -1;
            }
            if (all.w.empty() || all.w[all.w.size() - 2] != v) all.w.insert(all.w.end(), {v, 0});
            ++all.w.back();
        }
        if (op["x"].i() == 1) k.clear();
        return all;
    }
    if (t == "ver") return usable(op) ? verify(op) : Out("skip");
    if (t == "vno") return usable(op) ? verifyNoOther(op) : Out("skip");
    if (t == "hist") return usable(op) ? history(op) : Out("skip");
    if (t == "mkh") {
        if (!w.mock(op["m"].i()).on()) return Out("skip");
        HandleP h = w.method(op["m"].i(), op["f"].i()).mention();
        h->narrow(op["mt"]);
        w.handles[op["h"].i()] = h;
        handleMock[op["h"].i()] = op["m"].i();
        return Out();
    }
    if (t == "mks") {
        if (!usable(op)) return Out("skip");
        std::set<int> ms;
        for (auto &m : op["use"].arr) ms.insert(m.i());
        w.sources[op["s"].i()] = std::make_pair(ms, srcNode(op["x"]));
        return Out();
    }
    if (t == "age") {
        age(op["v"].i(), op["n"].i());
        return Out();
    }
    if (t == "nar") {
        if (!w.handles.count(op["h"].i())) return Out("skip");
        w.handles[op["h"].i()]->narrow(op["mt"]);
        return Out();
    }
    if (t == "drph") {
        w.handles.erase(op["h"].i());
        return Out();
    }
    if (t == "addl") {
        listeners[op["v"].i()].id = op["v"].i();
        Fakeit.addEventHandler(listeners[op["v"].i()]);
        return Out();
    }
    if (t == "clrl") {
        Fakeit.clearEventHandlers();
        return Out();
    }
    if (t == "setad") {
        run().ad = op["v"].i();
        if (op["v"].i() == 0) Fakeit.resetTestingFrameworkAdapter();
        else {
            adapters[op["v"].i()].id = op["v"].i();
            Fakeit.setTestingFrameworkAdapter(adapters[op["v"].i()]);
        }
        return Out();
    }
    if (t == "setfm") {
        if (op["v"].i() == 0) Fakeit.resetCustomEventFormatter();
        else {
            formatters[op["v"].i()].id = op["v"].i();
            Fakeit.setCustomEventFormatter(formatters[op["v"].i()]);
        }
        return Out();
    }
    if (t == "poke") {
        w.poke(op["c"].i(), op["v"].i());
        return Out();
    }
    if (t == "cells") {
        Out o;
        o.w = w.cellValues();
        return o;
    }
    if (t == "mset" || t == "mget" || t == "mstub") {
        auto &k = w.mock(op["m"].i());
        int i = op["i"].i();
        if (!k.on() && !(k.spy() && t != "mstub")) return Out("skip");
        if (k.constructed(i)) {
            if (t == "mstub") k.stubbed.insert(i);
            else if (!k.stubbed.count(i)) return Out("skip");
        }
        return k.member(op);
    }
    if (t == "ident") {
        auto &k = w.mock(op["m"].i());
        if (!k.on() && !k.spy()) return Out("skip");
        return k.identity();
    }
    if (t == "obj") return Out("ret", w.mock(op["m"].i()).objectState());
    if (t == "live") {
        Out o("live");
        std::set<long> ids;
        for (auto &x : Tracked::all()) if (x.second) ids.insert(x.second);
        if (Tracked::errors()) ids.insert(-1);
        o.w.assign(ids.begin(), ids.end());
        return o;
    }
    throw std::logic_error("script: unknown operation " + t);
}

// the text of a failure without the place it starts with
static std::string withoutPlace(const fw::Failure &f) {
    std::string at = str(run().file) + ":" + str(run().line) + ": ";
    if (f.placed && (f.file != run().file || f.line != run().line))
        return "wrong place " + f.text;
    if (!f.prefixed)
        return f.text;
    return f.text.compare(0, at.size(), at) == 0 ? f.text.substr(at.size()) : "wrong place " + f.text;
}

// the outcome of an operation, given the failures that reached the framework meanwhile
static Out reported(const J &op, Out o) {
    fw::collect();
    for (auto &f : fw::pending()) {
        o = Out(!f.kind.empty() ? f.kind : op["t"].is("ver") ? "vfail" : op["t"].is("vno") ? "nfail" : "unx");
        run().tx.push_back("X " + (o.k == "unx" ? f.text : withoutPlace(f)));
    }
    fw::pending().clear();
    return o;
}

static Out attempt(const J &op) {
    try {
        return reported(op, dispatch(op));
    } catch (const Abandon &) {
        throw;
    } catch (...) {
        fw::caught();
        fw::collect();
        if (fw::pending().empty())
            throw;
        return reported(op, Out());
    }
}

Out doOp(const J &op) {
    try {
        return attempt(op);
    } catch (const Abandon &) {
        return Out("abd");
    } catch (const UnexpectedMethodCallException &e) {
        run().tx.push_back("X " + std::string(e.what()));
        return Out("unx");
    } catch (const AdapterErr &e) {
        return Out("adp", e.v);
    } catch (Err &e) {                               // what is caught is the caller's own and may be changed
        Out o("thr");
        o.w = {e.v, 0};
        e.v = -77;
        return o;
    } catch (TrackedErr &e) {
        Out o("thr");
        o.w = {Codec<Tracked>::get(e.t), 3};
        e.t = Tracked(0);
        return o;
    } catch (int &e) {
        Out o("thr");
        o.w = {e, 2};
        e = -77;
        return o;
    } catch (const std::invalid_argument &) {
        return Out("inv");
    } catch (const std::logic_error &e) {
        if (std::strncmp(e.what(), "script:", 7) == 0)
            throw;
        return Out(std::string("logic_error ") + e.what());
    } catch (std::range_error &e) {
        Out o("thr");
        o.w = {std::atoi(e.what()), 4};
        return o;
    } catch (std::runtime_error &e) {
        if (!std::isdigit((unsigned char) *e.what()))
            return Out("rte");
        Out o("thr");
        o.w = {std::atoi(e.what()), 1};
        e = std::runtime_error("77");
        return o;
    } catch (const std::exception &e) {
        return Out(std::string("exception ") + e.what());
    }
}

void runOps(const J &ops, bool through) {
    for (auto &op : ops.arr) {
        Out o = through && op["t"].is("call") ? dispatch(op) : doOp(op);
        run().lg.push_back("-> " + o.k + " " + str(o.v));
    }
}

// ---------------------------------------------------------------- main
static std::string strings(const std::vector<std::string> &v) {
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + quote(v[i]);
    return r + "]";
}

static void timeout(int) { _exit(124); }

static int scripts(int argc, char **argv) {
    if (argc < 3) return 2;
    std::signal(SIGALRM, timeout);
    std::ifstream in(argv[1]);
    FILE *out = std::fopen(argv[2], "a");
    if (!in || !out) return 2;
    std::string text;
    long skip = argc > 3 ? std::atol(argv[3]) : 0;
    while (std::getline(in, text)) {
        if (skip-- > 0) continue;
        J script = JParser(text.c_str()).value();
        std::fprintf(out, "{\"id\":%d,\"outs\":[", script["id"].i());
        std::fflush(out);
        alarm(15);
        Fakeit.clearEventHandlers();
        Fakeit.resetTestingFrameworkAdapter();
        Fakeit.resetCustomEventFormatter();
        run() = Run();
        Tracked::forget();
        Tracked::errors() = 0;
        handleMock.clear();
        auto w = makeWorld();
        run().world = w.get();
        std::string line;
        try {
            for (auto &op : script["ops"].arr) {
                run().lg.clear();
                run().ev.clear();
                run().tx.clear();
                Out o = doOp(op);
                if (!line.empty()) line += ",";
                line += "{\"k\":" + quote(o.k) + ",\"v\":" + str(o.v) + ",\"w\":[";
                for (size_t i = 0; i < o.w.size(); ++i) line += (i ? "," : "") + str(o.w[i]);
                line += "],\"lg\":" + strings(run().lg) + ",\"ev\":" + strings(run().ev) + ",\"tx\":" + strings(run().tx) + "}";
            }
        } catch (const std::logic_error &e) {
            std::fprintf(stderr, "script %d: %s\n", script["id"].i(), e.what());
            return 3;
        }
        w->sources.clear();
        w->handles.clear();
        run().world = nullptr;
        w.reset();
        std::fprintf(out, "%s]}\n", line.c_str());
        std::fflush(out);
    }
    std::fclose(out);
    return 0;
}

int main(int argc, char **argv) {
    fw::job().body = scripts;
    fw::job().argc = argc;
    fw::job().argv = argv;
    return fw::start();
}
