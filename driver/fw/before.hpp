// What the adapters of two frameworks expect to be declared before the library is included.
#pragma once
#if defined FK_FW_METTLE
#include <stdexcept>
#include <string>
namespace mettle {
    class expectation_error : public std::runtime_error {
    public:
        using std::runtime_error::runtime_error;
    };
}
#elif defined FK_FW_NUNIT
#include <string>
struct String {
    std::string text;
    explicit String(const char *t) : text(t) {}
};
namespace NUnit { namespace Framework {
    struct AssertionException { std::string text; };
    struct Assert {
        static void Fail(String *s) {
            AssertionException e{s->text};
            delete s;
            throw e;
        }
    };
} }
#define gcnew new
#endif
