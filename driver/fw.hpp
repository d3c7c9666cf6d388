// The test framework the driver is built with: runs the driver inside a test of it and collects the
// failures that reach it.
#pragma once
#include <string>
#include <vector>

namespace fw {
    struct Failure {
        std::string kind;              // "vfail", "nfail", "unx"; empty when the framework cannot tell
        std::string text;
        bool placed, prefixed;         // says where it happened: in data of its own, in front of the text
        std::string file;
        int line;
    };

    inline std::vector<Failure> &pending() {             // not yet attributed to an operation
        static std::vector<Failure> v;
        return v;
    }
    inline void add(const std::string &text, bool prefixed = false) {
        pending().push_back(Failure{"", text, false, prefixed, "", 0});
    }
    inline void addAt(const std::string &text, const std::string &file, int line, bool prefixed = false) {
        pending().push_back(Failure{"", text, true, prefixed, file, line});
    }

    using Body = int (*)(int, char **);
    struct Job {
        Body body = nullptr;
        int argc = 0;
        char **argv = nullptr;
        int rc = 2;
        void run() { rc = body(argc, argv); }
    };
    inline Job &job() {
        static Job j;
        return j;
    }
}

// ---------------------------------------------------------------- frameworks that run here
#if defined FK_FW_GTEST
namespace fw {
    struct Listener : ::testing::EmptyTestEventListener {
        void OnTestPartResult(const ::testing::TestPartResult &r) override {
            std::string t = r.message();
            if (!t.empty() && t.back() == '\n') t.pop_back();        // ends every message
            if (r.failed()) addAt(t, r.file_name() ? r.file_name() : "", r.line_number());
        }
    };
    inline void caught() {}
    inline int start() {
        int n = 1;
        ::testing::InitGoogleTest(&n, job().argv);
        auto &l = ::testing::UnitTest::GetInstance()->listeners();
        delete l.Release(l.default_result_printer());
        l.Append(new Listener());
        (void) RUN_ALL_TESTS();
        return job().rc;
    }
}
TEST(Driver, Scripts) { fw::job().run(); }

#elif defined FK_FW_CATCH
#include <catch2/catch_session.hpp>
#include <catch2/reporters/catch_reporter_event_listener.hpp>
#include <catch2/reporters/catch_reporter_registrars.hpp>
namespace fw {
    struct Listener : Catch::EventListenerBase {
        using Catch::EventListenerBase::EventListenerBase;
        void assertionEnded(Catch::AssertionStats const &s) override {
            auto &r = s.assertionResult;
            if (!r.isOk()) addAt(std::string(r.getMessage()), r.getSourceInfo().file, (int) r.getSourceInfo().line, true);
        }
    };
    CATCH_REGISTER_LISTENER(Listener)
    inline void caught() {}
    inline int start() {
        Catch::Session s;
        s.run();
        return job().rc;
    }
}
TEST_CASE("driver") { fw::job().run(); }

#elif defined FK_FW_DOCTEST
namespace fw {
    struct Listener : doctest::IReporter {
        explicit Listener(const doctest::ContextOptions &) {}
        void report_query(const doctest::QueryData &) override {}
        void test_run_start() override {}
        void test_run_end(const doctest::TestRunStats &) override {}
        void test_case_start(const doctest::TestCaseData &) override {}
        void test_case_reenter(const doctest::TestCaseData &) override {}
        void test_case_end(const doctest::CurrentTestCaseStats &) override {}
        void test_case_exception(const doctest::TestCaseException &) override {}
        void subcase_start(const doctest::SubcaseSignature &) override {}
        void subcase_end() override {}
        void log_assert(const doctest::AssertData &d) override {
            if (d.m_failed) addAt(d.m_expr, d.m_file, d.m_line);
        }
        void log_message(const doctest::MessageData &d) override {
            if (d.m_severity & (doctest::assertType::is_check | doctest::assertType::is_require))
                addAt(d.m_string.c_str(), d.m_file, d.m_line);
        }
        void test_case_skipped(const doctest::TestCaseData &) override {}
    };
    REGISTER_LISTENER("driver", 1, Listener);
    inline void caught() {}
    inline int start() {
        doctest::Context c;
        c.run();
        return job().rc;
    }
}
TEST_CASE("driver") { fw::job().run(); }

#elif defined FK_FW_BOOST
#include <boost/test/unit_test_log_formatter.hpp>
#include <sstream>
namespace fw {
    namespace ut = boost::unit_test;
    struct Formatter : ut::unit_test_log_formatter {
        void log_start(std::ostream &, ut::counter_t) override {}
        void log_finish(std::ostream &) override {}
        void log_build_info(std::ostream &, bool) override {}
        void test_unit_start(std::ostream &, ut::test_unit const &) override {}
        void test_unit_finish(std::ostream &, ut::test_unit const &, unsigned long) override {}
        void test_unit_skipped(std::ostream &, ut::test_unit const &, ut::const_string) override {}
        void log_exception_start(std::ostream &, ut::log_checkpoint_data const &, boost::execution_exception const &) override {}
        void log_exception_finish(std::ostream &) override {}
        void log_entry_start(std::ostream &, ut::log_entry_data const &d, log_entry_types t) override {
            on = t >= BOOST_UTL_ET_ERROR;
            text.clear();
            file = d.m_file_name;
            line = (int) d.m_line_num;
        }
        using ut::unit_test_log_formatter::log_entry_value;
        void log_entry_value(std::ostream &, ut::const_string v) override { text.append(v.begin(), v.size()); }
        void log_entry_finish(std::ostream &) override {
            if (on) addAt(text, file, line);
        }
        void entry_context_start(std::ostream &, ut::log_level) override {}
        void log_entry_context(std::ostream &, ut::log_level, ut::const_string) override {}
        void entry_context_finish(std::ostream &, ut::log_level) override {}
        bool on = false;
        std::string text, file;
        int line = 0;
    };
    // an exception is reported as an error with its text
    inline void caught() {
        if (!pending().empty()) return;
        try {
            throw;
        } catch (const std::string &s) {
            add(s);
        } catch (...) {
        }
    }
    inline void body() { job().run(); }
    inline bool init() {
        ut::framework::master_test_suite().add(ut::make_test_case(&body, "driver", __FILE__, __LINE__));
        ut::unit_test_log.set_formatter(new Formatter());
        ut::unit_test_log.set_threshold_level(ut::log_all_errors);
        return true;
    }
    inline int start() {
        char name[] = "driver", opt[] = "--catch_system_errors=no";
        char *args[] = {name, opt, nullptr};
        ut::unit_test_main(&init, 2, args);
        return job().rc;
    }
}

// ---------------------------------------------------------------- frameworks whose failures are exceptions
#else
namespace fw {
    inline int start() {
        job().run();
        return job().rc;
    }
#if defined FK_FW_TPUNIT
    inline void caught() {
        try {
            throw;
        } catch (const fakeit::TpUnitAdapter::AssertionException &e) {
            add(e.what(), true);
        } catch (...) {
        }
    }
#elif defined FK_FW_CUTE
    inline void caught() {
        try {
            throw;
        } catch (const cute::test_failure &e) {
            addAt(e.reason, e.filename, e.lineno);
        } catch (const std::string &s) {
            add(s);
        } catch (...) {
        }
    }
#elif defined FK_FW_METTLE
    inline void caught() {
        try {
            throw;
        } catch (const mettle::expectation_error &e) {
            add(e.what(), true);
        } catch (...) {
        }
    }
#elif defined FK_FW_MSTEST
    inline void caught() {
        try {
            throw;
        } catch (const Microsoft::VisualStudio::CppUnitTestFramework::AssertFailed &e) {
            add(std::string(e.text.begin(), e.text.end()));
        } catch (...) {
        }
    }
#elif defined FK_FW_NUNIT
    inline void caught() {
        try {
            throw;
        } catch (const NUnit::Framework::AssertionException &e) {
            add(e.text);
        } catch (...) {
        }
    }
#elif defined FK_FW_QTEST
    inline void caught() {}
#else
    inline void addKind(const char *kind, const fakeit::VerificationException &e) {
        pending().push_back(Failure{kind, e.what(), true, true, e.callingMethod() == "operator()" ? e.file() : "?", e.line()});
    }
    inline void caught() {
        try {
            throw;
        } catch (const fakeit::UnexpectedMethodCallException &e) {
            pending().push_back(Failure{"unx", e.what(), false, false, "", 0});
        } catch (const fakeit::SequenceVerificationException &e) {
            addKind("vfail", e);
        } catch (const fakeit::NoMoreInvocationsVerificationException &e) {
            addKind("nfail", e);
        } catch (...) {
        }
    }
#endif
}
#endif

namespace fw {
    inline void collect() {
#if defined FK_FW_QTEST
        for (auto &t : QTest::fails()) add(t);
        QTest::fails().clear();
#endif
    }
}
