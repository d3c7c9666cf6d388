// Stand-in for the part of the Microsoft framework that its adapter uses.
#pragma once
#include <string>

namespace Microsoft { namespace VisualStudio { namespace CppUnitTestFramework {
    struct __LineInfo;
    struct AssertFailed { std::wstring text; };
    struct Assert {
        static void Fail(const wchar_t *message = nullptr, const __LineInfo * = nullptr) {
            throw AssertFailed{message ? message : L""};
        }
    };
} } }
