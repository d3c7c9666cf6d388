From 2758c0b3fd4c17f17bad6f8bd662443493e622a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:28 +0000
Subject: [PATCH 01/23] fix: keep unused virtual table slots unassigned after
 Mock::Reset

Reset() re-created the slot table with zeros. Zero is the id of the
mocked destructor, so after a Reset a mocked destructor was looked up in
the first unused slot and the call went through a null handler.
---
 include/mockutils/DynamicProxy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mockutils/DynamicProxy.hpp b/include/mockutils/DynamicProxy.hpp
index 0d06a71..f7cea28 100644
--- a/include/mockutils/DynamicProxy.hpp
+++ b/include/mockutils/DynamicProxy.hpp
@@ -93,7 +93,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
-- 
2.43.0


From e7ddfb20b5327684a3c60dc9f86717f6f212fd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:04 +0000
Subject: [PATCH 02/23] fix: consume stubbed actions correctly when a method is
 called re-entrantly

An action was removed from its sequence after it ran. When the action
called the same method again, the nested call ran the same action once
more and the outer call then either never removed it or removed the
action after it. Drop the used up actions before selecting the next one.
An action recorded for zero calls is now skipped instead of being
repeated forever.
---
 include/fakeit/ActionSequence.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/fakeit/ActionSequence.hpp b/include/fakeit/ActionSequence.hpp
index b1f6018..8fcd84e 100644
--- a/include/fakeit/ActionSequence.hpp
+++ b/include/fakeit/ActionSequence.hpp
@@ -16,7 +16,6 @@
 #include "fakeit/invocation_matchers.hpp"
 #include "fakeit/ActualInvocationHandler.hpp"
 
-#include "mockutils/Finally.hpp"
 #include "mockutils/MethodInvocationHandler.hpp"
 
 namespace fakeit {
@@ -39,18 +38,15 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+            // Used up actions are removed before the next one is selected and not after they run:
+            // a running action may call the same method again.
+            while (asAction(*_recordedActions.front()).isDone())
+            {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
-            Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
-            std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
-            };
-            Finally onExit(finallyClause);
-            return action.invoke(args);
+            return asAction(*destructablePtr).invoke(args);
         }
 
     private:
@@ -72,6 +68,10 @@ namespace fakeit {
             }
         };
 
+        static Action<R, arglist...> &asAction(Destructible &destructable) {
+            return dynamic_cast<Action<R, arglist...> &>(destructable);
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
-- 
2.43.0


From 8fd1ca017d266b186ccee24731e0ad7ecff59889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:04 +0000
Subject: [PATCH 03/23] fix: do not mark invocations of an incomplete pattern
 match as verified

When only the first sequences of a Verify(a, b, ...) pattern were found,
their invocations were marked as verified although they belong to no
match, and VerifyNoOtherInvocations did not report them.
---
 include/fakeit/MatchAnalysis.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fakeit/MatchAnalysis.hpp b/include/fakeit/MatchAnalysis.hpp
index 8cac066..77be935 100644
--- a/include/fakeit/MatchAnalysis.hpp
+++ b/include/fakeit/MatchAnalysis.hpp
@@ -46,15 +46,17 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> matchedByPattern;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, matchedByPattern, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
             end = startSearchIndex;
+            matchedInvocations.insert(matchedInvocations.end(), matchedByPattern.begin(), matchedByPattern.end());
             return true;
         }
 
-- 
2.43.0


From ef11f238d7541cd1fa296373b9db17739d511068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:04 +0000
Subject: [PATCH 04/23] fix: let AtLeast(0) accept any number of invocations

The at-least limit is stored as a negative count, so AtLeast(0) was
evaluated as Exactly(0) and failed when the method was called.
---
 include/fakeit/SequenceVerificationProgress.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/fakeit/SequenceVerificationProgress.hpp b/include/fakeit/SequenceVerificationProgress.hpp
index 0c12d3a..dda01cd 100644
--- a/include/fakeit/SequenceVerificationProgress.hpp
+++ b/include/fakeit/SequenceVerificationProgress.hpp
@@ -112,6 +112,10 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+                // zero can't be negated to represent an "AtLeast" search.
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
-- 
2.43.0


From 111583193b0a2d78f0e9baa6dbe2ddc3d50583a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:54 +0000
Subject: [PATCH 05/23] fix: return the same result each time a verification is
 converted to bool

A failed verification that was kept in a variable evaluated to false the
first time and to true from then on.
---
 include/fakeit/SequenceVerificationExpectation.hpp         | 5 ++++-
 include/fakeit/SequenceVerificationProgress.hpp            | 2 +-
 .../VerifyNoOtherInvocationsVerificationProgress.hpp       | 7 +++++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/fakeit/SequenceVerificationExpectation.hpp b/include/fakeit/SequenceVerificationExpectation.hpp
index 1b7abc2..dc389ca 100644
--- a/include/fakeit/SequenceVerificationExpectation.hpp
+++ b/include/fakeit/SequenceVerificationExpectation.hpp
@@ -49,6 +49,7 @@ namespace fakeit {
         int _line;
 		const char * _testMethod;
         bool _isVerified;
+        bool _isSatisfied;
 
         SequenceVerificationExpectation(
                 VerificationEventHandler &fakeit,
@@ -60,7 +61,8 @@ namespace fakeit {
                 _expectedCount(-1), // AT_LEAST_ONCE
                 _expectAnything(false),
                 _line(0),
-                _isVerified(false) {
+                _isVerified(false),
+                _isSatisfied(false) {
         }
 
 
@@ -82,6 +84,7 @@ namespace fakeit {
                 }
             }
 
+            _isSatisfied = true;
             markAsVerified(ma.matchedInvocations);
         }
 
diff --git a/include/fakeit/SequenceVerificationProgress.hpp b/include/fakeit/SequenceVerificationProgress.hpp
index dda01cd..abbc7c2 100644
--- a/include/fakeit/SequenceVerificationProgress.hpp
+++ b/include/fakeit/SequenceVerificationProgress.hpp
@@ -43,7 +43,7 @@ namespace fakeit {
                 try {
                     ThrowFalseEventHandler eh;
                     _expectationPtr->VerifyExpectation(eh);
-                    return true;
+                    return _expectationPtr->_isSatisfied;
                 }
                 catch (bool e) {
                     return e;
diff --git a/include/fakeit/VerifyNoOtherInvocationsVerificationProgress.hpp b/include/fakeit/VerifyNoOtherInvocationsVerificationProgress.hpp
index d8a8014..78a0d80 100644
--- a/include/fakeit/VerifyNoOtherInvocationsVerificationProgress.hpp
+++ b/include/fakeit/VerifyNoOtherInvocationsVerificationProgress.hpp
@@ -45,13 +45,15 @@ namespace fakeit {
             int _line;
 			const char * _callingMethod;
             bool _isVerified;
+            bool _isSatisfied;
 
             VerifyNoOtherInvocationsExpectation(VerificationEventHandler &fakeit,
                                                 std::vector<ActualInvocationsSource *> mocks) :
                     _fakeit(fakeit),
                     _mocks(mocks),
                     _line(0),
-                    _isVerified(false) {
+                    _isVerified(false),
+                    _isSatisfied(false) {
             }
 
             VerifyNoOtherInvocationsExpectation(const VerifyNoOtherInvocationsExpectation &other) = default;
@@ -78,6 +80,7 @@ namespace fakeit {
                     evt.setFileInfo(_file, _line, _callingMethod);
                     return verificationErrorHandler.handle(evt);
                 }
+                _isSatisfied = true;
             }
 
         };
@@ -99,7 +102,7 @@ namespace fakeit {
             try {
                 ThrowFalseEventHandler ev;
                 _ptr->VerifyExpectation(ev);
-                return true;
+                return _ptr->_isSatisfied;
             }
             catch (bool e) {
                 return e;
-- 
2.43.0


From 75cc11dc387ca23874ba13ff516fed946f730bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:54 +0000
Subject: [PATCH 06/23] fix: keep data members when only the invocation history
 is cleared

ClearInvocationHistory() also zeroed the data members of the mock. The
values set with Stub() were lost and the memory of objects that were
still alive, such as a stubbed std::string, was overwritten.
---
 include/fakeit/MockImpl.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/fakeit/MockImpl.hpp b/include/fakeit/MockImpl.hpp
index c8d6e35..cc72ae6 100644
--- a/include/fakeit/MockImpl.hpp
+++ b/include/fakeit/MockImpl.hpp
@@ -72,7 +72,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
-- 
2.43.0


From 230d26bff6953f8c2e43a299a80de3cd6e8ae68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:32 +0000
Subject: [PATCH 07/23] fix: report unmocked methods that return their value
 through memory

For a method that returns, for example, a std::string, the address of
the return value takes the place of 'this' in the call. unmocked() used
it to find the mock and crashed instead of reporting the call.
---
 include/fakeit/MockImpl.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/fakeit/MockImpl.hpp b/include/fakeit/MockImpl.hpp
index cc72ae6..d1e7dc3 100644
--- a/include/fakeit/MockImpl.hpp
+++ b/include/fakeit/MockImpl.hpp
@@ -33,8 +33,7 @@ namespace fakeit {
 
         MockImpl(FakeitContext &fakeit)
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
-            FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
-            fake->getVirtualTable().setCookie(1, this);
+            getUnmockedContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -258,11 +257,9 @@ namespace fakeit {
 
         };
 
-        static MockImpl<C, baseclasses...> *getMockImpl(void *instance) {
-            FakeObject<C, baseclasses...> *fake = asFakeObject(instance);
-            MockImpl<C, baseclasses...> *mock = reinterpret_cast<MockImpl<C, baseclasses...> *>(fake->getVirtualTable().getCookie(
-                    1));
-            return mock;
+        static FakeitContext *&getUnmockedContext() {
+            static FakeitContext *context = nullptr;
+            return context;
         }
 
         bool isOwner(){ return _instanceOwner != nullptr;}
@@ -272,7 +269,9 @@ namespace fakeit {
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+            // Don't use 'this' here. unmocked() replaces methods of any signature and when such a method returns
+            // its value through memory the address of the returned value may be passed in place of 'this'.
+            auto &fakeit = *getUnmockedContext();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
-- 
2.43.0


From a9fd377096e20925df71efa9195c113d2ee43ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:50 +0000
Subject: [PATCH 08/23] fix: allow a stored method handle to be used again
 after stubbing

Stubbing passed the ownership of the matcher and of the actions to the
mock, while the handle kept on using them. Stubbing twice through the
same handle deleted them twice. Narrowing the handle with Using() or
using it after Mock::Reset accessed deleted objects. Share the ownership
between the handle and the mock.
---
 include/fakeit/MethodMockingContext.hpp | 21 +++++++--------------
 include/fakeit/MockImpl.hpp             |  4 ++--
 include/fakeit/RecordedMethodBody.hpp   | 12 ++++++------
 3 files changed, 15 insertions(+), 22 deletions(-)

diff --git a/include/fakeit/MethodMockingContext.hpp b/include/fakeit/MethodMockingContext.hpp
index bf1db0b..029c278 100644
--- a/include/fakeit/MethodMockingContext.hpp
+++ b/include/fakeit/MethodMockingContext.hpp
@@ -57,8 +57,8 @@ namespace fakeit {
 
             virtual std::string getMethodName() = 0;
 
-            virtual void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) = 0;
+            virtual void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) = 0;
 
             virtual void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) = 0;
 
@@ -73,9 +73,9 @@ namespace fakeit {
         class Implementation {
 
             Context *_stubbingContext;
-            ActionSequence<R, arglist...> *_recordedActionSequence;
-            typename ActualInvocation<arglist...>::Matcher *_invocationMatcher;
-            bool _commited;
+            // shared with the mock once commited.
+            std::shared_ptr<ActionSequence<R, arglist...>> _recordedActionSequence;
+            std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> _invocationMatcher;
 
             Context &getStubbingContext() const {
                 return *_stubbingContext;
@@ -88,16 +88,11 @@ namespace fakeit {
                       _recordedActionSequence(new ActionSequence<R, arglist...>()),
                       _invocationMatcher
                               {
-                                      new DefaultInvocationMatcher<arglist...>()}, _commited(false) {
+                                      new DefaultInvocationMatcher<arglist...>()} {
             }
 
             ~Implementation() {
                 delete _stubbingContext;
-                if (!_commited) {
-                    // no commit. delete the created objects.
-                    delete _recordedActionSequence;
-                    delete _invocationMatcher;
-                }
             }
 
             ActionSequence<R, arglist...> &getRecordedActionSequence() {
@@ -134,7 +129,6 @@ namespace fakeit {
 
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                _commited = true;
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -163,8 +157,7 @@ namespace fakeit {
             }
 
             void setInvocationMatcher(typename ActualInvocation<arglist...>::Matcher *matcher) {
-                delete _invocationMatcher;
-                _invocationMatcher = matcher;
+                _invocationMatcher.reset(matcher);
             }
         };
 
diff --git a/include/fakeit/MockImpl.hpp b/include/fakeit/MockImpl.hpp
index d1e7dc3..03d0f19 100644
--- a/include/fakeit/MockImpl.hpp
+++ b/include/fakeit/MockImpl.hpp
@@ -138,8 +138,8 @@ namespace fakeit {
 
             virtual ~MethodMockingContextBase() = default;
 
-            void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
             }
 
diff --git a/include/fakeit/RecordedMethodBody.hpp b/include/fakeit/RecordedMethodBody.hpp
index 201000c..c57719b 100644
--- a/include/fakeit/RecordedMethodBody.hpp
+++ b/include/fakeit/RecordedMethodBody.hpp
@@ -32,8 +32,8 @@ namespace fakeit {
 
             virtual ~MatchedInvocationHandler() = default;
 
-            MatchedInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) :
+            MatchedInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) :
                     _matcher{matcher}, _invocationHandler{invocationHandler} {
             }
 
@@ -63,8 +63,8 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _actualInvocations;
 
         MatchedInvocationHandler *buildMatchedInvocationHandler(
-                typename ActualInvocation<arglist...>::Matcher *invocationMatcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+                std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> invocationMatcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             return new MatchedInvocationHandler(invocationMatcher, invocationHandler);
         }
 
@@ -107,8 +107,8 @@ namespace fakeit {
             return method.id() == _method.id();
         }
 
-        void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-            ActualInvocationHandler<R, arglist...> *invocationHandler) {
+        void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+            std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             ActualInvocationHandler<R, arglist...> *mock = buildMatchedInvocationHandler(matcher, invocationHandler);
             std::shared_ptr<Destructible> destructable{mock};
             _invocationHandlers.push_back(destructable);
-- 
2.43.0


From dbb180a8cf75ff82b59dce79cf174ace9eb8f160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:41 +0000
Subject: [PATCH 09/23] fix: carry the fixes into the packaged single headers

Generated with generate_fakeit_single_header.py from the current
sources.
---
 single_header/boost/fakeit.hpp      | 100 +++++++++++++++-------------
 single_header/catch/fakeit.hpp      | 100 +++++++++++++++-------------
 single_header/cute/fakeit.hpp       | 100 +++++++++++++++-------------
 single_header/doctest/fakeit.hpp    | 100 +++++++++++++++-------------
 single_header/gtest/fakeit.hpp      | 100 +++++++++++++++-------------
 single_header/mettle/fakeit.hpp     | 100 +++++++++++++++-------------
 single_header/mstest/fakeit.hpp     | 100 +++++++++++++++-------------
 single_header/nunit/fakeit.hpp      | 100 +++++++++++++++-------------
 single_header/qtest/fakeit.hpp      | 100 +++++++++++++++-------------
 single_header/standalone/fakeit.hpp | 100 +++++++++++++++-------------
 single_header/tpunit/fakeit.hpp     | 100 +++++++++++++++-------------
 11 files changed, 572 insertions(+), 528 deletions(-)

diff --git a/single_header/boost/fakeit.hpp b/single_header/boost/fakeit.hpp
index 06536e0..996fd67 100644
--- a/single_header/boost/fakeit.hpp
+++ b/single_header/boost/fakeit.hpp
@@ -6074,7 +6074,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -7215,8 +7215,8 @@ namespace fakeit {
 
             virtual ~MatchedInvocationHandler() = default;
 
-            MatchedInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) :
+            MatchedInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) :
                     _matcher{matcher}, _invocationHandler{invocationHandler} {
             }
 
@@ -7246,8 +7246,8 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _actualInvocations;
 
         MatchedInvocationHandler *buildMatchedInvocationHandler(
-                typename ActualInvocation<arglist...>::Matcher *invocationMatcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+                std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> invocationMatcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             return new MatchedInvocationHandler(invocationMatcher, invocationHandler);
         }
 
@@ -7290,8 +7290,8 @@ namespace fakeit {
             return method.id() == _method.id();
         }
 
-        void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-            ActualInvocationHandler<R, arglist...> *invocationHandler) {
+        void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+            std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             ActualInvocationHandler<R, arglist...> *mock = buildMatchedInvocationHandler(matcher, invocationHandler);
             std::shared_ptr<Destructible> destructable{mock};
             _invocationHandlers.push_back(destructable);
@@ -8031,18 +8031,15 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+
+            while (asAction(*_recordedActions.front()).isDone())
+            {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
-            Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
-            std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
-            };
-            Finally onExit(finallyClause);
-            return action.invoke(args);
+            return asAction(*destructablePtr).invoke(args);
         }
 
     private:
@@ -8064,6 +8061,10 @@ namespace fakeit {
             }
         };
 
+        static Action<R, arglist...> &asAction(Destructible &destructable) {
+            return dynamic_cast<Action<R, arglist...> &>(destructable);
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
@@ -8228,8 +8229,8 @@ namespace fakeit {
 
             virtual std::string getMethodName() = 0;
 
-            virtual void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) = 0;
+            virtual void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) = 0;
 
             virtual void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) = 0;
 
@@ -8244,9 +8245,9 @@ namespace fakeit {
         class Implementation {
 
             Context *_stubbingContext;
-            ActionSequence<R, arglist...> *_recordedActionSequence;
-            typename ActualInvocation<arglist...>::Matcher *_invocationMatcher;
-            bool _commited;
+
+            std::shared_ptr<ActionSequence<R, arglist...>> _recordedActionSequence;
+            std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> _invocationMatcher;
 
             Context &getStubbingContext() const {
                 return *_stubbingContext;
@@ -8259,16 +8260,11 @@ namespace fakeit {
                       _recordedActionSequence(new ActionSequence<R, arglist...>()),
                       _invocationMatcher
                               {
-                                      new DefaultInvocationMatcher<arglist...>()}, _commited(false) {
+                                      new DefaultInvocationMatcher<arglist...>()} {
             }
 
             ~Implementation() {
                 delete _stubbingContext;
-                if (!_commited) {
-
-                    delete _recordedActionSequence;
-                    delete _invocationMatcher;
-                }
             }
 
             ActionSequence<R, arglist...> &getRecordedActionSequence() {
@@ -8303,7 +8299,6 @@ namespace fakeit {
 
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                _commited = true;
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8332,8 +8327,7 @@ namespace fakeit {
             }
 
             void setInvocationMatcher(typename ActualInvocation<arglist...>::Matcher *matcher) {
-                delete _invocationMatcher;
-                _invocationMatcher = matcher;
+                _invocationMatcher.reset(matcher);
             }
         };
 
@@ -8583,8 +8577,7 @@ namespace fakeit {
 
         MockImpl(FakeitContext &fakeit)
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
-            FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
-            fake->getVirtualTable().setCookie(1, this);
+            getUnmockedContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -8620,7 +8613,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
@@ -8688,8 +8680,8 @@ namespace fakeit {
 
             virtual ~MethodMockingContextBase() = default;
 
-            void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
             }
 
@@ -8807,11 +8799,9 @@ namespace fakeit {
 
         };
 
-        static MockImpl<C, baseclasses...> *getMockImpl(void *instance) {
-            FakeObject<C, baseclasses...> *fake = asFakeObject(instance);
-            MockImpl<C, baseclasses...> *mock = reinterpret_cast<MockImpl<C, baseclasses...> *>(fake->getVirtualTable().getCookie(
-                    1));
-            return mock;
+        static FakeitContext *&getUnmockedContext() {
+            static FakeitContext *context = nullptr;
+            return context;
         }
 
         bool isOwner(){ return _instanceOwner != nullptr;}
@@ -8821,7 +8811,9 @@ namespace fakeit {
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+
+
+            auto &fakeit = *getUnmockedContext();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
@@ -9379,15 +9371,17 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> matchedByPattern;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, matchedByPattern, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
             end = startSearchIndex;
+            matchedInvocations.insert(matchedInvocations.end(), matchedByPattern.begin(), matchedByPattern.end());
             return true;
         }
 
@@ -9470,6 +9464,7 @@ namespace fakeit {
         int _line;
 		const char * _testMethod;
         bool _isVerified;
+        bool _isSatisfied;
 
         SequenceVerificationExpectation(
                 VerificationEventHandler &fakeit,
@@ -9481,7 +9476,8 @@ namespace fakeit {
                 _expectedCount(-1),
                 _expectAnything(false),
                 _line(0),
-                _isVerified(false) {
+                _isVerified(false),
+                _isSatisfied(false) {
         }
 
 
@@ -9503,6 +9499,7 @@ namespace fakeit {
                 }
             }
 
+            _isSatisfied = true;
             markAsVerified(ma.matchedInvocations);
         }
 
@@ -9627,7 +9624,7 @@ namespace fakeit {
                 try {
                     ThrowFalseEventHandler eh;
                     _expectationPtr->VerifyExpectation(eh);
-                    return true;
+                    return _expectationPtr->_isSatisfied;
                 }
                 catch (bool e) {
                     return e;
@@ -9696,6 +9693,10 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
@@ -9835,13 +9836,15 @@ namespace fakeit {
             int _line;
 			const char * _callingMethod;
             bool _isVerified;
+            bool _isSatisfied;
 
             VerifyNoOtherInvocationsExpectation(VerificationEventHandler &fakeit,
                                                 std::vector<ActualInvocationsSource *> mocks) :
                     _fakeit(fakeit),
                     _mocks(mocks),
                     _line(0),
-                    _isVerified(false) {
+                    _isVerified(false),
+                    _isSatisfied(false) {
             }
 
             VerifyNoOtherInvocationsExpectation(const VerifyNoOtherInvocationsExpectation &other) = default;
@@ -9868,6 +9871,7 @@ namespace fakeit {
                     evt.setFileInfo(_file, _line, _callingMethod);
                     return verificationErrorHandler.handle(evt);
                 }
+                _isSatisfied = true;
             }
 
         };
@@ -9889,7 +9893,7 @@ namespace fakeit {
             try {
                 ThrowFalseEventHandler ev;
                 _ptr->VerifyExpectation(ev);
-                return true;
+                return _ptr->_isSatisfied;
             }
             catch (bool e) {
                 return e;
diff --git a/single_header/catch/fakeit.hpp b/single_header/catch/fakeit.hpp
index 1f35224..5ccc58a 100644
--- a/single_header/catch/fakeit.hpp
+++ b/single_header/catch/fakeit.hpp
@@ -6112,7 +6112,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -7253,8 +7253,8 @@ namespace fakeit {
 
             virtual ~MatchedInvocationHandler() = default;
 
-            MatchedInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) :
+            MatchedInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) :
                     _matcher{matcher}, _invocationHandler{invocationHandler} {
             }
 
@@ -7284,8 +7284,8 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _actualInvocations;
 
         MatchedInvocationHandler *buildMatchedInvocationHandler(
-                typename ActualInvocation<arglist...>::Matcher *invocationMatcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+                std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> invocationMatcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             return new MatchedInvocationHandler(invocationMatcher, invocationHandler);
         }
 
@@ -7328,8 +7328,8 @@ namespace fakeit {
             return method.id() == _method.id();
         }
 
-        void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-            ActualInvocationHandler<R, arglist...> *invocationHandler) {
+        void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+            std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             ActualInvocationHandler<R, arglist...> *mock = buildMatchedInvocationHandler(matcher, invocationHandler);
             std::shared_ptr<Destructible> destructable{mock};
             _invocationHandlers.push_back(destructable);
@@ -8069,18 +8069,15 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+
+            while (asAction(*_recordedActions.front()).isDone())
+            {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
-            Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
-            std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
-            };
-            Finally onExit(finallyClause);
-            return action.invoke(args);
+            return asAction(*destructablePtr).invoke(args);
         }
 
     private:
@@ -8102,6 +8099,10 @@ namespace fakeit {
             }
         };
 
+        static Action<R, arglist...> &asAction(Destructible &destructable) {
+            return dynamic_cast<Action<R, arglist...> &>(destructable);
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
@@ -8266,8 +8267,8 @@ namespace fakeit {
 
             virtual std::string getMethodName() = 0;
 
-            virtual void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) = 0;
+            virtual void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) = 0;
 
             virtual void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) = 0;
 
@@ -8282,9 +8283,9 @@ namespace fakeit {
         class Implementation {
 
             Context *_stubbingContext;
-            ActionSequence<R, arglist...> *_recordedActionSequence;
-            typename ActualInvocation<arglist...>::Matcher *_invocationMatcher;
-            bool _commited;
+
+            std::shared_ptr<ActionSequence<R, arglist...>> _recordedActionSequence;
+            std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> _invocationMatcher;
 
             Context &getStubbingContext() const {
                 return *_stubbingContext;
@@ -8297,16 +8298,11 @@ namespace fakeit {
                       _recordedActionSequence(new ActionSequence<R, arglist...>()),
                       _invocationMatcher
                               {
-                                      new DefaultInvocationMatcher<arglist...>()}, _commited(false) {
+                                      new DefaultInvocationMatcher<arglist...>()} {
             }
 
             ~Implementation() {
                 delete _stubbingContext;
-                if (!_commited) {
-
-                    delete _recordedActionSequence;
-                    delete _invocationMatcher;
-                }
             }
 
             ActionSequence<R, arglist...> &getRecordedActionSequence() {
@@ -8341,7 +8337,6 @@ namespace fakeit {
 
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                _commited = true;
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8370,8 +8365,7 @@ namespace fakeit {
             }
 
             void setInvocationMatcher(typename ActualInvocation<arglist...>::Matcher *matcher) {
-                delete _invocationMatcher;
-                _invocationMatcher = matcher;
+                _invocationMatcher.reset(matcher);
             }
         };
 
@@ -8621,8 +8615,7 @@ namespace fakeit {
 
         MockImpl(FakeitContext &fakeit)
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
-            FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
-            fake->getVirtualTable().setCookie(1, this);
+            getUnmockedContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -8658,7 +8651,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
@@ -8726,8 +8718,8 @@ namespace fakeit {
 
             virtual ~MethodMockingContextBase() = default;
 
-            void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
             }
 
@@ -8845,11 +8837,9 @@ namespace fakeit {
 
         };
 
-        static MockImpl<C, baseclasses...> *getMockImpl(void *instance) {
-            FakeObject<C, baseclasses...> *fake = asFakeObject(instance);
-            MockImpl<C, baseclasses...> *mock = reinterpret_cast<MockImpl<C, baseclasses...> *>(fake->getVirtualTable().getCookie(
-                    1));
-            return mock;
+        static FakeitContext *&getUnmockedContext() {
+            static FakeitContext *context = nullptr;
+            return context;
         }
 
         bool isOwner(){ return _instanceOwner != nullptr;}
@@ -8859,7 +8849,9 @@ namespace fakeit {
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+
+
+            auto &fakeit = *getUnmockedContext();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
@@ -9417,15 +9409,17 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> matchedByPattern;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, matchedByPattern, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
             end = startSearchIndex;
+            matchedInvocations.insert(matchedInvocations.end(), matchedByPattern.begin(), matchedByPattern.end());
             return true;
         }
 
@@ -9508,6 +9502,7 @@ namespace fakeit {
         int _line;
 		const char * _testMethod;
         bool _isVerified;
+        bool _isSatisfied;
 
         SequenceVerificationExpectation(
                 VerificationEventHandler &fakeit,
@@ -9519,7 +9514,8 @@ namespace fakeit {
                 _expectedCount(-1),
                 _expectAnything(false),
                 _line(0),
-                _isVerified(false) {
+                _isVerified(false),
+                _isSatisfied(false) {
         }
 
 
@@ -9541,6 +9537,7 @@ namespace fakeit {
                 }
             }
 
+            _isSatisfied = true;
             markAsVerified(ma.matchedInvocations);
         }
 
@@ -9651,7 +9648,7 @@ namespace fakeit {
                 try {
                     ThrowFalseEventHandler eh;
                     _expectationPtr->VerifyExpectation(eh);
-                    return true;
+                    return _expectationPtr->_isSatisfied;
                 }
                 catch (bool e) {
                     return e;
@@ -9720,6 +9717,10 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
@@ -9859,13 +9860,15 @@ namespace fakeit {
             int _line;
 			const char * _callingMethod;
             bool _isVerified;
+            bool _isSatisfied;
 
             VerifyNoOtherInvocationsExpectation(VerificationEventHandler &fakeit,
                                                 std::vector<ActualInvocationsSource *> mocks) :
                     _fakeit(fakeit),
                     _mocks(mocks),
                     _line(0),
-                    _isVerified(false) {
+                    _isVerified(false),
+                    _isSatisfied(false) {
             }
 
             VerifyNoOtherInvocationsExpectation(const VerifyNoOtherInvocationsExpectation &other) = default;
@@ -9892,6 +9895,7 @@ namespace fakeit {
                     evt.setFileInfo(_file, _line, _callingMethod);
                     return verificationErrorHandler.handle(evt);
                 }
+                _isSatisfied = true;
             }
 
         };
@@ -9913,7 +9917,7 @@ namespace fakeit {
             try {
                 ThrowFalseEventHandler ev;
                 _ptr->VerifyExpectation(ev);
-                return true;
+                return _ptr->_isSatisfied;
             }
             catch (bool e) {
                 return e;
diff --git a/single_header/cute/fakeit.hpp b/single_header/cute/fakeit.hpp
index 6465020..74480e6 100644
--- a/single_header/cute/fakeit.hpp
+++ b/single_header/cute/fakeit.hpp
@@ -6039,7 +6039,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -7180,8 +7180,8 @@ namespace fakeit {
 
             virtual ~MatchedInvocationHandler() = default;
 
-            MatchedInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) :
+            MatchedInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) :
                     _matcher{matcher}, _invocationHandler{invocationHandler} {
             }
 
@@ -7211,8 +7211,8 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _actualInvocations;
 
         MatchedInvocationHandler *buildMatchedInvocationHandler(
-                typename ActualInvocation<arglist...>::Matcher *invocationMatcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+                std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> invocationMatcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             return new MatchedInvocationHandler(invocationMatcher, invocationHandler);
         }
 
@@ -7255,8 +7255,8 @@ namespace fakeit {
             return method.id() == _method.id();
         }
 
-        void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-            ActualInvocationHandler<R, arglist...> *invocationHandler) {
+        void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+            std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             ActualInvocationHandler<R, arglist...> *mock = buildMatchedInvocationHandler(matcher, invocationHandler);
             std::shared_ptr<Destructible> destructable{mock};
             _invocationHandlers.push_back(destructable);
@@ -7996,18 +7996,15 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+
+            while (asAction(*_recordedActions.front()).isDone())
+            {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
-            Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
-            std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
-            };
-            Finally onExit(finallyClause);
-            return action.invoke(args);
+            return asAction(*destructablePtr).invoke(args);
         }
 
     private:
@@ -8029,6 +8026,10 @@ namespace fakeit {
             }
         };
 
+        static Action<R, arglist...> &asAction(Destructible &destructable) {
+            return dynamic_cast<Action<R, arglist...> &>(destructable);
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
@@ -8193,8 +8194,8 @@ namespace fakeit {
 
             virtual std::string getMethodName() = 0;
 
-            virtual void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) = 0;
+            virtual void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) = 0;
 
             virtual void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) = 0;
 
@@ -8209,9 +8210,9 @@ namespace fakeit {
         class Implementation {
 
             Context *_stubbingContext;
-            ActionSequence<R, arglist...> *_recordedActionSequence;
-            typename ActualInvocation<arglist...>::Matcher *_invocationMatcher;
-            bool _commited;
+
+            std::shared_ptr<ActionSequence<R, arglist...>> _recordedActionSequence;
+            std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> _invocationMatcher;
 
             Context &getStubbingContext() const {
                 return *_stubbingContext;
@@ -8224,16 +8225,11 @@ namespace fakeit {
                       _recordedActionSequence(new ActionSequence<R, arglist...>()),
                       _invocationMatcher
                               {
-                                      new DefaultInvocationMatcher<arglist...>()}, _commited(false) {
+                                      new DefaultInvocationMatcher<arglist...>()} {
             }
 
             ~Implementation() {
                 delete _stubbingContext;
-                if (!_commited) {
-
-                    delete _recordedActionSequence;
-                    delete _invocationMatcher;
-                }
             }
 
             ActionSequence<R, arglist...> &getRecordedActionSequence() {
@@ -8268,7 +8264,6 @@ namespace fakeit {
 
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                _commited = true;
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8297,8 +8292,7 @@ namespace fakeit {
             }
 
             void setInvocationMatcher(typename ActualInvocation<arglist...>::Matcher *matcher) {
-                delete _invocationMatcher;
-                _invocationMatcher = matcher;
+                _invocationMatcher.reset(matcher);
             }
         };
 
@@ -8548,8 +8542,7 @@ namespace fakeit {
 
         MockImpl(FakeitContext &fakeit)
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
-            FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
-            fake->getVirtualTable().setCookie(1, this);
+            getUnmockedContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -8585,7 +8578,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
@@ -8653,8 +8645,8 @@ namespace fakeit {
 
             virtual ~MethodMockingContextBase() = default;
 
-            void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
             }
 
@@ -8772,11 +8764,9 @@ namespace fakeit {
 
         };
 
-        static MockImpl<C, baseclasses...> *getMockImpl(void *instance) {
-            FakeObject<C, baseclasses...> *fake = asFakeObject(instance);
-            MockImpl<C, baseclasses...> *mock = reinterpret_cast<MockImpl<C, baseclasses...> *>(fake->getVirtualTable().getCookie(
-                    1));
-            return mock;
+        static FakeitContext *&getUnmockedContext() {
+            static FakeitContext *context = nullptr;
+            return context;
         }
 
         bool isOwner(){ return _instanceOwner != nullptr;}
@@ -8786,7 +8776,9 @@ namespace fakeit {
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+
+
+            auto &fakeit = *getUnmockedContext();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
@@ -9344,15 +9336,17 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> matchedByPattern;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, matchedByPattern, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
             end = startSearchIndex;
+            matchedInvocations.insert(matchedInvocations.end(), matchedByPattern.begin(), matchedByPattern.end());
             return true;
         }
 
@@ -9435,6 +9429,7 @@ namespace fakeit {
         int _line;
 		const char * _testMethod;
         bool _isVerified;
+        bool _isSatisfied;
 
         SequenceVerificationExpectation(
                 VerificationEventHandler &fakeit,
@@ -9446,7 +9441,8 @@ namespace fakeit {
                 _expectedCount(-1),
                 _expectAnything(false),
                 _line(0),
-                _isVerified(false) {
+                _isVerified(false),
+                _isSatisfied(false) {
         }
 
 
@@ -9468,6 +9464,7 @@ namespace fakeit {
                 }
             }
 
+            _isSatisfied = true;
             markAsVerified(ma.matchedInvocations);
         }
 
@@ -9592,7 +9589,7 @@ namespace fakeit {
                 try {
                     ThrowFalseEventHandler eh;
                     _expectationPtr->VerifyExpectation(eh);
-                    return true;
+                    return _expectationPtr->_isSatisfied;
                 }
                 catch (bool e) {
                     return e;
@@ -9661,6 +9658,10 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
@@ -9800,13 +9801,15 @@ namespace fakeit {
             int _line;
 			const char * _callingMethod;
             bool _isVerified;
+            bool _isSatisfied;
 
             VerifyNoOtherInvocationsExpectation(VerificationEventHandler &fakeit,
                                                 std::vector<ActualInvocationsSource *> mocks) :
                     _fakeit(fakeit),
                     _mocks(mocks),
                     _line(0),
-                    _isVerified(false) {
+                    _isVerified(false),
+                    _isSatisfied(false) {
             }
 
             VerifyNoOtherInvocationsExpectation(const VerifyNoOtherInvocationsExpectation &other) = default;
@@ -9833,6 +9836,7 @@ namespace fakeit {
                     evt.setFileInfo(_file, _line, _callingMethod);
                     return verificationErrorHandler.handle(evt);
                 }
+                _isSatisfied = true;
             }
 
         };
@@ -9854,7 +9858,7 @@ namespace fakeit {
             try {
                 ThrowFalseEventHandler ev;
                 _ptr->VerifyExpectation(ev);
-                return true;
+                return _ptr->_isSatisfied;
             }
             catch (bool e) {
                 return e;
diff --git a/single_header/doctest/fakeit.hpp b/single_header/doctest/fakeit.hpp
index 7facb68..7ef3b56 100644
--- a/single_header/doctest/fakeit.hpp
+++ b/single_header/doctest/fakeit.hpp
@@ -6067,7 +6067,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -7208,8 +7208,8 @@ namespace fakeit {
 
             virtual ~MatchedInvocationHandler() = default;
 
-            MatchedInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) :
+            MatchedInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) :
                     _matcher{matcher}, _invocationHandler{invocationHandler} {
             }
 
@@ -7239,8 +7239,8 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _actualInvocations;
 
         MatchedInvocationHandler *buildMatchedInvocationHandler(
-                typename ActualInvocation<arglist...>::Matcher *invocationMatcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+                std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> invocationMatcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             return new MatchedInvocationHandler(invocationMatcher, invocationHandler);
         }
 
@@ -7283,8 +7283,8 @@ namespace fakeit {
             return method.id() == _method.id();
         }
 
-        void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-            ActualInvocationHandler<R, arglist...> *invocationHandler) {
+        void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+            std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             ActualInvocationHandler<R, arglist...> *mock = buildMatchedInvocationHandler(matcher, invocationHandler);
             std::shared_ptr<Destructible> destructable{mock};
             _invocationHandlers.push_back(destructable);
@@ -8024,18 +8024,15 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+
+            while (asAction(*_recordedActions.front()).isDone())
+            {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
-            Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
-            std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
-            };
-            Finally onExit(finallyClause);
-            return action.invoke(args);
+            return asAction(*destructablePtr).invoke(args);
         }
 
     private:
@@ -8057,6 +8054,10 @@ namespace fakeit {
             }
         };
 
+        static Action<R, arglist...> &asAction(Destructible &destructable) {
+            return dynamic_cast<Action<R, arglist...> &>(destructable);
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
@@ -8221,8 +8222,8 @@ namespace fakeit {
 
             virtual std::string getMethodName() = 0;
 
-            virtual void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) = 0;
+            virtual void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) = 0;
 
             virtual void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) = 0;
 
@@ -8237,9 +8238,9 @@ namespace fakeit {
         class Implementation {
 
             Context *_stubbingContext;
-            ActionSequence<R, arglist...> *_recordedActionSequence;
-            typename ActualInvocation<arglist...>::Matcher *_invocationMatcher;
-            bool _commited;
+
+            std::shared_ptr<ActionSequence<R, arglist...>> _recordedActionSequence;
+            std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> _invocationMatcher;
 
             Context &getStubbingContext() const {
                 return *_stubbingContext;
@@ -8252,16 +8253,11 @@ namespace fakeit {
                       _recordedActionSequence(new ActionSequence<R, arglist...>()),
                       _invocationMatcher
                               {
-                                      new DefaultInvocationMatcher<arglist...>()}, _commited(false) {
+                                      new DefaultInvocationMatcher<arglist...>()} {
             }
 
             ~Implementation() {
                 delete _stubbingContext;
-                if (!_commited) {
-
-                    delete _recordedActionSequence;
-                    delete _invocationMatcher;
-                }
             }
 
             ActionSequence<R, arglist...> &getRecordedActionSequence() {
@@ -8296,7 +8292,6 @@ namespace fakeit {
 
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                _commited = true;
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8325,8 +8320,7 @@ namespace fakeit {
             }
 
             void setInvocationMatcher(typename ActualInvocation<arglist...>::Matcher *matcher) {
-                delete _invocationMatcher;
-                _invocationMatcher = matcher;
+                _invocationMatcher.reset(matcher);
             }
         };
 
@@ -8576,8 +8570,7 @@ namespace fakeit {
 
         MockImpl(FakeitContext &fakeit)
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
-            FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
-            fake->getVirtualTable().setCookie(1, this);
+            getUnmockedContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -8613,7 +8606,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
@@ -8681,8 +8673,8 @@ namespace fakeit {
 
             virtual ~MethodMockingContextBase() = default;
 
-            void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
             }
 
@@ -8800,11 +8792,9 @@ namespace fakeit {
 
         };
 
-        static MockImpl<C, baseclasses...> *getMockImpl(void *instance) {
-            FakeObject<C, baseclasses...> *fake = asFakeObject(instance);
-            MockImpl<C, baseclasses...> *mock = reinterpret_cast<MockImpl<C, baseclasses...> *>(fake->getVirtualTable().getCookie(
-                    1));
-            return mock;
+        static FakeitContext *&getUnmockedContext() {
+            static FakeitContext *context = nullptr;
+            return context;
         }
 
         bool isOwner(){ return _instanceOwner != nullptr;}
@@ -8814,7 +8804,9 @@ namespace fakeit {
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+
+
+            auto &fakeit = *getUnmockedContext();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
@@ -9372,15 +9364,17 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> matchedByPattern;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, matchedByPattern, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
             end = startSearchIndex;
+            matchedInvocations.insert(matchedInvocations.end(), matchedByPattern.begin(), matchedByPattern.end());
             return true;
         }
 
@@ -9463,6 +9457,7 @@ namespace fakeit {
         int _line;
 		const char * _testMethod;
         bool _isVerified;
+        bool _isSatisfied;
 
         SequenceVerificationExpectation(
                 VerificationEventHandler &fakeit,
@@ -9474,7 +9469,8 @@ namespace fakeit {
                 _expectedCount(-1),
                 _expectAnything(false),
                 _line(0),
-                _isVerified(false) {
+                _isVerified(false),
+                _isSatisfied(false) {
         }
 
 
@@ -9496,6 +9492,7 @@ namespace fakeit {
                 }
             }
 
+            _isSatisfied = true;
             markAsVerified(ma.matchedInvocations);
         }
 
@@ -9606,7 +9603,7 @@ namespace fakeit {
                 try {
                     ThrowFalseEventHandler eh;
                     _expectationPtr->VerifyExpectation(eh);
-                    return true;
+                    return _expectationPtr->_isSatisfied;
                 }
                 catch (bool e) {
                     return e;
@@ -9675,6 +9672,10 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
@@ -9814,13 +9815,15 @@ namespace fakeit {
             int _line;
 			const char * _callingMethod;
             bool _isVerified;
+            bool _isSatisfied;
 
             VerifyNoOtherInvocationsExpectation(VerificationEventHandler &fakeit,
                                                 std::vector<ActualInvocationsSource *> mocks) :
                     _fakeit(fakeit),
                     _mocks(mocks),
                     _line(0),
-                    _isVerified(false) {
+                    _isVerified(false),
+                    _isSatisfied(false) {
             }
 
             VerifyNoOtherInvocationsExpectation(const VerifyNoOtherInvocationsExpectation &other) = default;
@@ -9847,6 +9850,7 @@ namespace fakeit {
                     evt.setFileInfo(_file, _line, _callingMethod);
                     return verificationErrorHandler.handle(evt);
                 }
+                _isSatisfied = true;
             }
 
         };
@@ -9868,7 +9872,7 @@ namespace fakeit {
             try {
                 ThrowFalseEventHandler ev;
                 _ptr->VerifyExpectation(ev);
-                return true;
+                return _ptr->_isSatisfied;
             }
             catch (bool e) {
                 return e;
diff --git a/single_header/gtest/fakeit.hpp b/single_header/gtest/fakeit.hpp
index 3fcd6a7..776bb0a 100644
--- a/single_header/gtest/fakeit.hpp
+++ b/single_header/gtest/fakeit.hpp
@@ -6039,7 +6039,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -7180,8 +7180,8 @@ namespace fakeit {
 
             virtual ~MatchedInvocationHandler() = default;
 
-            MatchedInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) :
+            MatchedInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) :
                     _matcher{matcher}, _invocationHandler{invocationHandler} {
             }
 
@@ -7211,8 +7211,8 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _actualInvocations;
 
         MatchedInvocationHandler *buildMatchedInvocationHandler(
-                typename ActualInvocation<arglist...>::Matcher *invocationMatcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+                std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> invocationMatcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             return new MatchedInvocationHandler(invocationMatcher, invocationHandler);
         }
 
@@ -7255,8 +7255,8 @@ namespace fakeit {
             return method.id() == _method.id();
         }
 
-        void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-            ActualInvocationHandler<R, arglist...> *invocationHandler) {
+        void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+            std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             ActualInvocationHandler<R, arglist...> *mock = buildMatchedInvocationHandler(matcher, invocationHandler);
             std::shared_ptr<Destructible> destructable{mock};
             _invocationHandlers.push_back(destructable);
@@ -7996,18 +7996,15 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+
+            while (asAction(*_recordedActions.front()).isDone())
+            {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
-            Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
-            std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
-            };
-            Finally onExit(finallyClause);
-            return action.invoke(args);
+            return asAction(*destructablePtr).invoke(args);
         }
 
     private:
@@ -8029,6 +8026,10 @@ namespace fakeit {
             }
         };
 
+        static Action<R, arglist...> &asAction(Destructible &destructable) {
+            return dynamic_cast<Action<R, arglist...> &>(destructable);
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
@@ -8193,8 +8194,8 @@ namespace fakeit {
 
             virtual std::string getMethodName() = 0;
 
-            virtual void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) = 0;
+            virtual void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) = 0;
 
             virtual void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) = 0;
 
@@ -8209,9 +8210,9 @@ namespace fakeit {
         class Implementation {
 
             Context *_stubbingContext;
-            ActionSequence<R, arglist...> *_recordedActionSequence;
-            typename ActualInvocation<arglist...>::Matcher *_invocationMatcher;
-            bool _commited;
+
+            std::shared_ptr<ActionSequence<R, arglist...>> _recordedActionSequence;
+            std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> _invocationMatcher;
 
             Context &getStubbingContext() const {
                 return *_stubbingContext;
@@ -8224,16 +8225,11 @@ namespace fakeit {
                       _recordedActionSequence(new ActionSequence<R, arglist...>()),
                       _invocationMatcher
                               {
-                                      new DefaultInvocationMatcher<arglist...>()}, _commited(false) {
+                                      new DefaultInvocationMatcher<arglist...>()} {
             }
 
             ~Implementation() {
                 delete _stubbingContext;
-                if (!_commited) {
-
-                    delete _recordedActionSequence;
-                    delete _invocationMatcher;
-                }
             }
 
             ActionSequence<R, arglist...> &getRecordedActionSequence() {
@@ -8268,7 +8264,6 @@ namespace fakeit {
 
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                _commited = true;
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8297,8 +8292,7 @@ namespace fakeit {
             }
 
             void setInvocationMatcher(typename ActualInvocation<arglist...>::Matcher *matcher) {
-                delete _invocationMatcher;
-                _invocationMatcher = matcher;
+                _invocationMatcher.reset(matcher);
             }
         };
 
@@ -8548,8 +8542,7 @@ namespace fakeit {
 
         MockImpl(FakeitContext &fakeit)
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
-            FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
-            fake->getVirtualTable().setCookie(1, this);
+            getUnmockedContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -8585,7 +8578,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
@@ -8653,8 +8645,8 @@ namespace fakeit {
 
             virtual ~MethodMockingContextBase() = default;
 
-            void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
             }
 
@@ -8772,11 +8764,9 @@ namespace fakeit {
 
         };
 
-        static MockImpl<C, baseclasses...> *getMockImpl(void *instance) {
-            FakeObject<C, baseclasses...> *fake = asFakeObject(instance);
-            MockImpl<C, baseclasses...> *mock = reinterpret_cast<MockImpl<C, baseclasses...> *>(fake->getVirtualTable().getCookie(
-                    1));
-            return mock;
+        static FakeitContext *&getUnmockedContext() {
+            static FakeitContext *context = nullptr;
+            return context;
         }
 
         bool isOwner(){ return _instanceOwner != nullptr;}
@@ -8786,7 +8776,9 @@ namespace fakeit {
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+
+
+            auto &fakeit = *getUnmockedContext();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
@@ -9344,15 +9336,17 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> matchedByPattern;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, matchedByPattern, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
             end = startSearchIndex;
+            matchedInvocations.insert(matchedInvocations.end(), matchedByPattern.begin(), matchedByPattern.end());
             return true;
         }
 
@@ -9435,6 +9429,7 @@ namespace fakeit {
         int _line;
 		const char * _testMethod;
         bool _isVerified;
+        bool _isSatisfied;
 
         SequenceVerificationExpectation(
                 VerificationEventHandler &fakeit,
@@ -9446,7 +9441,8 @@ namespace fakeit {
                 _expectedCount(-1),
                 _expectAnything(false),
                 _line(0),
-                _isVerified(false) {
+                _isVerified(false),
+                _isSatisfied(false) {
         }
 
 
@@ -9468,6 +9464,7 @@ namespace fakeit {
                 }
             }
 
+            _isSatisfied = true;
             markAsVerified(ma.matchedInvocations);
         }
 
@@ -9592,7 +9589,7 @@ namespace fakeit {
                 try {
                     ThrowFalseEventHandler eh;
                     _expectationPtr->VerifyExpectation(eh);
-                    return true;
+                    return _expectationPtr->_isSatisfied;
                 }
                 catch (bool e) {
                     return e;
@@ -9661,6 +9658,10 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
@@ -9800,13 +9801,15 @@ namespace fakeit {
             int _line;
 			const char * _callingMethod;
             bool _isVerified;
+            bool _isSatisfied;
 
             VerifyNoOtherInvocationsExpectation(VerificationEventHandler &fakeit,
                                                 std::vector<ActualInvocationsSource *> mocks) :
                     _fakeit(fakeit),
                     _mocks(mocks),
                     _line(0),
-                    _isVerified(false) {
+                    _isVerified(false),
+                    _isSatisfied(false) {
             }
 
             VerifyNoOtherInvocationsExpectation(const VerifyNoOtherInvocationsExpectation &other) = default;
@@ -9833,6 +9836,7 @@ namespace fakeit {
                     evt.setFileInfo(_file, _line, _callingMethod);
                     return verificationErrorHandler.handle(evt);
                 }
+                _isSatisfied = true;
             }
 
         };
@@ -9854,7 +9858,7 @@ namespace fakeit {
             try {
                 ThrowFalseEventHandler ev;
                 _ptr->VerifyExpectation(ev);
-                return true;
+                return _ptr->_isSatisfied;
             }
             catch (bool e) {
                 return e;
diff --git a/single_header/mettle/fakeit.hpp b/single_header/mettle/fakeit.hpp
index 31b4f52..5c0d494 100644
--- a/single_header/mettle/fakeit.hpp
+++ b/single_header/mettle/fakeit.hpp
@@ -6061,7 +6061,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -7202,8 +7202,8 @@ namespace fakeit {
 
             virtual ~MatchedInvocationHandler() = default;
 
-            MatchedInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) :
+            MatchedInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) :
                     _matcher{matcher}, _invocationHandler{invocationHandler} {
             }
 
@@ -7233,8 +7233,8 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _actualInvocations;
 
         MatchedInvocationHandler *buildMatchedInvocationHandler(
-                typename ActualInvocation<arglist...>::Matcher *invocationMatcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+                std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> invocationMatcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             return new MatchedInvocationHandler(invocationMatcher, invocationHandler);
         }
 
@@ -7277,8 +7277,8 @@ namespace fakeit {
             return method.id() == _method.id();
         }
 
-        void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-            ActualInvocationHandler<R, arglist...> *invocationHandler) {
+        void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+            std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             ActualInvocationHandler<R, arglist...> *mock = buildMatchedInvocationHandler(matcher, invocationHandler);
             std::shared_ptr<Destructible> destructable{mock};
             _invocationHandlers.push_back(destructable);
@@ -8018,18 +8018,15 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+
+            while (asAction(*_recordedActions.front()).isDone())
+            {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
-            Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
-            std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
-            };
-            Finally onExit(finallyClause);
-            return action.invoke(args);
+            return asAction(*destructablePtr).invoke(args);
         }
 
     private:
@@ -8051,6 +8048,10 @@ namespace fakeit {
             }
         };
 
+        static Action<R, arglist...> &asAction(Destructible &destructable) {
+            return dynamic_cast<Action<R, arglist...> &>(destructable);
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
@@ -8215,8 +8216,8 @@ namespace fakeit {
 
             virtual std::string getMethodName() = 0;
 
-            virtual void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) = 0;
+            virtual void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) = 0;
 
             virtual void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) = 0;
 
@@ -8231,9 +8232,9 @@ namespace fakeit {
         class Implementation {
 
             Context *_stubbingContext;
-            ActionSequence<R, arglist...> *_recordedActionSequence;
-            typename ActualInvocation<arglist...>::Matcher *_invocationMatcher;
-            bool _commited;
+
+            std::shared_ptr<ActionSequence<R, arglist...>> _recordedActionSequence;
+            std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> _invocationMatcher;
 
             Context &getStubbingContext() const {
                 return *_stubbingContext;
@@ -8246,16 +8247,11 @@ namespace fakeit {
                       _recordedActionSequence(new ActionSequence<R, arglist...>()),
                       _invocationMatcher
                               {
-                                      new DefaultInvocationMatcher<arglist...>()}, _commited(false) {
+                                      new DefaultInvocationMatcher<arglist...>()} {
             }
 
             ~Implementation() {
                 delete _stubbingContext;
-                if (!_commited) {
-
-                    delete _recordedActionSequence;
-                    delete _invocationMatcher;
-                }
             }
 
             ActionSequence<R, arglist...> &getRecordedActionSequence() {
@@ -8290,7 +8286,6 @@ namespace fakeit {
 
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                _commited = true;
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8319,8 +8314,7 @@ namespace fakeit {
             }
 
             void setInvocationMatcher(typename ActualInvocation<arglist...>::Matcher *matcher) {
-                delete _invocationMatcher;
-                _invocationMatcher = matcher;
+                _invocationMatcher.reset(matcher);
             }
         };
 
@@ -8570,8 +8564,7 @@ namespace fakeit {
 
         MockImpl(FakeitContext &fakeit)
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
-            FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
-            fake->getVirtualTable().setCookie(1, this);
+            getUnmockedContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -8607,7 +8600,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
@@ -8675,8 +8667,8 @@ namespace fakeit {
 
             virtual ~MethodMockingContextBase() = default;
 
-            void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
             }
 
@@ -8794,11 +8786,9 @@ namespace fakeit {
 
         };
 
-        static MockImpl<C, baseclasses...> *getMockImpl(void *instance) {
-            FakeObject<C, baseclasses...> *fake = asFakeObject(instance);
-            MockImpl<C, baseclasses...> *mock = reinterpret_cast<MockImpl<C, baseclasses...> *>(fake->getVirtualTable().getCookie(
-                    1));
-            return mock;
+        static FakeitContext *&getUnmockedContext() {
+            static FakeitContext *context = nullptr;
+            return context;
         }
 
         bool isOwner(){ return _instanceOwner != nullptr;}
@@ -8808,7 +8798,9 @@ namespace fakeit {
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+
+
+            auto &fakeit = *getUnmockedContext();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
@@ -9366,15 +9358,17 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> matchedByPattern;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, matchedByPattern, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
             end = startSearchIndex;
+            matchedInvocations.insert(matchedInvocations.end(), matchedByPattern.begin(), matchedByPattern.end());
             return true;
         }
 
@@ -9457,6 +9451,7 @@ namespace fakeit {
         int _line;
 		const char * _testMethod;
         bool _isVerified;
+        bool _isSatisfied;
 
         SequenceVerificationExpectation(
                 VerificationEventHandler &fakeit,
@@ -9468,7 +9463,8 @@ namespace fakeit {
                 _expectedCount(-1),
                 _expectAnything(false),
                 _line(0),
-                _isVerified(false) {
+                _isVerified(false),
+                _isSatisfied(false) {
         }
 
 
@@ -9490,6 +9486,7 @@ namespace fakeit {
                 }
             }
 
+            _isSatisfied = true;
             markAsVerified(ma.matchedInvocations);
         }
 
@@ -9600,7 +9597,7 @@ namespace fakeit {
                 try {
                     ThrowFalseEventHandler eh;
                     _expectationPtr->VerifyExpectation(eh);
-                    return true;
+                    return _expectationPtr->_isSatisfied;
                 }
                 catch (bool e) {
                     return e;
@@ -9669,6 +9666,10 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
@@ -9808,13 +9809,15 @@ namespace fakeit {
             int _line;
 			const char * _callingMethod;
             bool _isVerified;
+            bool _isSatisfied;
 
             VerifyNoOtherInvocationsExpectation(VerificationEventHandler &fakeit,
                                                 std::vector<ActualInvocationsSource *> mocks) :
                     _fakeit(fakeit),
                     _mocks(mocks),
                     _line(0),
-                    _isVerified(false) {
+                    _isVerified(false),
+                    _isSatisfied(false) {
             }
 
             VerifyNoOtherInvocationsExpectation(const VerifyNoOtherInvocationsExpectation &other) = default;
@@ -9841,6 +9844,7 @@ namespace fakeit {
                     evt.setFileInfo(_file, _line, _callingMethod);
                     return verificationErrorHandler.handle(evt);
                 }
+                _isSatisfied = true;
             }
 
         };
@@ -9862,7 +9866,7 @@ namespace fakeit {
             try {
                 ThrowFalseEventHandler ev;
                 _ptr->VerifyExpectation(ev);
-                return true;
+                return _ptr->_isSatisfied;
             }
             catch (bool e) {
                 return e;
diff --git a/single_header/mstest/fakeit.hpp b/single_header/mstest/fakeit.hpp
index 8f5b59e..bd02001 100644
--- a/single_header/mstest/fakeit.hpp
+++ b/single_header/mstest/fakeit.hpp
@@ -6063,7 +6063,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -7204,8 +7204,8 @@ namespace fakeit {
 
             virtual ~MatchedInvocationHandler() = default;
 
-            MatchedInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) :
+            MatchedInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) :
                     _matcher{matcher}, _invocationHandler{invocationHandler} {
             }
 
@@ -7235,8 +7235,8 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _actualInvocations;
 
         MatchedInvocationHandler *buildMatchedInvocationHandler(
-                typename ActualInvocation<arglist...>::Matcher *invocationMatcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+                std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> invocationMatcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             return new MatchedInvocationHandler(invocationMatcher, invocationHandler);
         }
 
@@ -7279,8 +7279,8 @@ namespace fakeit {
             return method.id() == _method.id();
         }
 
-        void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-            ActualInvocationHandler<R, arglist...> *invocationHandler) {
+        void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+            std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             ActualInvocationHandler<R, arglist...> *mock = buildMatchedInvocationHandler(matcher, invocationHandler);
             std::shared_ptr<Destructible> destructable{mock};
             _invocationHandlers.push_back(destructable);
@@ -8020,18 +8020,15 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+
+            while (asAction(*_recordedActions.front()).isDone())
+            {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
-            Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
-            std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
-            };
-            Finally onExit(finallyClause);
-            return action.invoke(args);
+            return asAction(*destructablePtr).invoke(args);
         }
 
     private:
@@ -8053,6 +8050,10 @@ namespace fakeit {
             }
         };
 
+        static Action<R, arglist...> &asAction(Destructible &destructable) {
+            return dynamic_cast<Action<R, arglist...> &>(destructable);
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
@@ -8217,8 +8218,8 @@ namespace fakeit {
 
             virtual std::string getMethodName() = 0;
 
-            virtual void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) = 0;
+            virtual void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) = 0;
 
             virtual void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) = 0;
 
@@ -8233,9 +8234,9 @@ namespace fakeit {
         class Implementation {
 
             Context *_stubbingContext;
-            ActionSequence<R, arglist...> *_recordedActionSequence;
-            typename ActualInvocation<arglist...>::Matcher *_invocationMatcher;
-            bool _commited;
+
+            std::shared_ptr<ActionSequence<R, arglist...>> _recordedActionSequence;
+            std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> _invocationMatcher;
 
             Context &getStubbingContext() const {
                 return *_stubbingContext;
@@ -8248,16 +8249,11 @@ namespace fakeit {
                       _recordedActionSequence(new ActionSequence<R, arglist...>()),
                       _invocationMatcher
                               {
-                                      new DefaultInvocationMatcher<arglist...>()}, _commited(false) {
+                                      new DefaultInvocationMatcher<arglist...>()} {
             }
 
             ~Implementation() {
                 delete _stubbingContext;
-                if (!_commited) {
-
-                    delete _recordedActionSequence;
-                    delete _invocationMatcher;
-                }
             }
 
             ActionSequence<R, arglist...> &getRecordedActionSequence() {
@@ -8292,7 +8288,6 @@ namespace fakeit {
 
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                _commited = true;
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8321,8 +8316,7 @@ namespace fakeit {
             }
 
             void setInvocationMatcher(typename ActualInvocation<arglist...>::Matcher *matcher) {
-                delete _invocationMatcher;
-                _invocationMatcher = matcher;
+                _invocationMatcher.reset(matcher);
             }
         };
 
@@ -8572,8 +8566,7 @@ namespace fakeit {
 
         MockImpl(FakeitContext &fakeit)
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
-            FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
-            fake->getVirtualTable().setCookie(1, this);
+            getUnmockedContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -8609,7 +8602,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
@@ -8677,8 +8669,8 @@ namespace fakeit {
 
             virtual ~MethodMockingContextBase() = default;
 
-            void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
             }
 
@@ -8796,11 +8788,9 @@ namespace fakeit {
 
         };
 
-        static MockImpl<C, baseclasses...> *getMockImpl(void *instance) {
-            FakeObject<C, baseclasses...> *fake = asFakeObject(instance);
-            MockImpl<C, baseclasses...> *mock = reinterpret_cast<MockImpl<C, baseclasses...> *>(fake->getVirtualTable().getCookie(
-                    1));
-            return mock;
+        static FakeitContext *&getUnmockedContext() {
+            static FakeitContext *context = nullptr;
+            return context;
         }
 
         bool isOwner(){ return _instanceOwner != nullptr;}
@@ -8810,7 +8800,9 @@ namespace fakeit {
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+
+
+            auto &fakeit = *getUnmockedContext();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
@@ -9368,15 +9360,17 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> matchedByPattern;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, matchedByPattern, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
             end = startSearchIndex;
+            matchedInvocations.insert(matchedInvocations.end(), matchedByPattern.begin(), matchedByPattern.end());
             return true;
         }
 
@@ -9459,6 +9453,7 @@ namespace fakeit {
         int _line;
 		const char * _testMethod;
         bool _isVerified;
+        bool _isSatisfied;
 
         SequenceVerificationExpectation(
                 VerificationEventHandler &fakeit,
@@ -9470,7 +9465,8 @@ namespace fakeit {
                 _expectedCount(-1),
                 _expectAnything(false),
                 _line(0),
-                _isVerified(false) {
+                _isVerified(false),
+                _isSatisfied(false) {
         }
 
 
@@ -9492,6 +9488,7 @@ namespace fakeit {
                 }
             }
 
+            _isSatisfied = true;
             markAsVerified(ma.matchedInvocations);
         }
 
@@ -9616,7 +9613,7 @@ namespace fakeit {
                 try {
                     ThrowFalseEventHandler eh;
                     _expectationPtr->VerifyExpectation(eh);
-                    return true;
+                    return _expectationPtr->_isSatisfied;
                 }
                 catch (bool e) {
                     return e;
@@ -9685,6 +9682,10 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
@@ -9824,13 +9825,15 @@ namespace fakeit {
             int _line;
 			const char * _callingMethod;
             bool _isVerified;
+            bool _isSatisfied;
 
             VerifyNoOtherInvocationsExpectation(VerificationEventHandler &fakeit,
                                                 std::vector<ActualInvocationsSource *> mocks) :
                     _fakeit(fakeit),
                     _mocks(mocks),
                     _line(0),
-                    _isVerified(false) {
+                    _isVerified(false),
+                    _isSatisfied(false) {
             }
 
             VerifyNoOtherInvocationsExpectation(const VerifyNoOtherInvocationsExpectation &other) = default;
@@ -9857,6 +9860,7 @@ namespace fakeit {
                     evt.setFileInfo(_file, _line, _callingMethod);
                     return verificationErrorHandler.handle(evt);
                 }
+                _isSatisfied = true;
             }
 
         };
@@ -9878,7 +9882,7 @@ namespace fakeit {
             try {
                 ThrowFalseEventHandler ev;
                 _ptr->VerifyExpectation(ev);
-                return true;
+                return _ptr->_isSatisfied;
             }
             catch (bool e) {
                 return e;
diff --git a/single_header/nunit/fakeit.hpp b/single_header/nunit/fakeit.hpp
index 31b5322..c480551 100644
--- a/single_header/nunit/fakeit.hpp
+++ b/single_header/nunit/fakeit.hpp
@@ -6046,7 +6046,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -7187,8 +7187,8 @@ namespace fakeit {
 
             virtual ~MatchedInvocationHandler() = default;
 
-            MatchedInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) :
+            MatchedInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) :
                     _matcher{matcher}, _invocationHandler{invocationHandler} {
             }
 
@@ -7218,8 +7218,8 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _actualInvocations;
 
         MatchedInvocationHandler *buildMatchedInvocationHandler(
-                typename ActualInvocation<arglist...>::Matcher *invocationMatcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+                std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> invocationMatcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             return new MatchedInvocationHandler(invocationMatcher, invocationHandler);
         }
 
@@ -7262,8 +7262,8 @@ namespace fakeit {
             return method.id() == _method.id();
         }
 
-        void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-            ActualInvocationHandler<R, arglist...> *invocationHandler) {
+        void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+            std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             ActualInvocationHandler<R, arglist...> *mock = buildMatchedInvocationHandler(matcher, invocationHandler);
             std::shared_ptr<Destructible> destructable{mock};
             _invocationHandlers.push_back(destructable);
@@ -8003,18 +8003,15 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+
+            while (asAction(*_recordedActions.front()).isDone())
+            {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
-            Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
-            std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
-            };
-            Finally onExit(finallyClause);
-            return action.invoke(args);
+            return asAction(*destructablePtr).invoke(args);
         }
 
     private:
@@ -8036,6 +8033,10 @@ namespace fakeit {
             }
         };
 
+        static Action<R, arglist...> &asAction(Destructible &destructable) {
+            return dynamic_cast<Action<R, arglist...> &>(destructable);
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
@@ -8200,8 +8201,8 @@ namespace fakeit {
 
             virtual std::string getMethodName() = 0;
 
-            virtual void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) = 0;
+            virtual void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) = 0;
 
             virtual void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) = 0;
 
@@ -8216,9 +8217,9 @@ namespace fakeit {
         class Implementation {
 
             Context *_stubbingContext;
-            ActionSequence<R, arglist...> *_recordedActionSequence;
-            typename ActualInvocation<arglist...>::Matcher *_invocationMatcher;
-            bool _commited;
+
+            std::shared_ptr<ActionSequence<R, arglist...>> _recordedActionSequence;
+            std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> _invocationMatcher;
 
             Context &getStubbingContext() const {
                 return *_stubbingContext;
@@ -8231,16 +8232,11 @@ namespace fakeit {
                       _recordedActionSequence(new ActionSequence<R, arglist...>()),
                       _invocationMatcher
                               {
-                                      new DefaultInvocationMatcher<arglist...>()}, _commited(false) {
+                                      new DefaultInvocationMatcher<arglist...>()} {
             }
 
             ~Implementation() {
                 delete _stubbingContext;
-                if (!_commited) {
-
-                    delete _recordedActionSequence;
-                    delete _invocationMatcher;
-                }
             }
 
             ActionSequence<R, arglist...> &getRecordedActionSequence() {
@@ -8275,7 +8271,6 @@ namespace fakeit {
 
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                _commited = true;
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8304,8 +8299,7 @@ namespace fakeit {
             }
 
             void setInvocationMatcher(typename ActualInvocation<arglist...>::Matcher *matcher) {
-                delete _invocationMatcher;
-                _invocationMatcher = matcher;
+                _invocationMatcher.reset(matcher);
             }
         };
 
@@ -8555,8 +8549,7 @@ namespace fakeit {
 
         MockImpl(FakeitContext &fakeit)
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
-            FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
-            fake->getVirtualTable().setCookie(1, this);
+            getUnmockedContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -8592,7 +8585,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
@@ -8660,8 +8652,8 @@ namespace fakeit {
 
             virtual ~MethodMockingContextBase() = default;
 
-            void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
             }
 
@@ -8779,11 +8771,9 @@ namespace fakeit {
 
         };
 
-        static MockImpl<C, baseclasses...> *getMockImpl(void *instance) {
-            FakeObject<C, baseclasses...> *fake = asFakeObject(instance);
-            MockImpl<C, baseclasses...> *mock = reinterpret_cast<MockImpl<C, baseclasses...> *>(fake->getVirtualTable().getCookie(
-                    1));
-            return mock;
+        static FakeitContext *&getUnmockedContext() {
+            static FakeitContext *context = nullptr;
+            return context;
         }
 
         bool isOwner(){ return _instanceOwner != nullptr;}
@@ -8793,7 +8783,9 @@ namespace fakeit {
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+
+
+            auto &fakeit = *getUnmockedContext();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
@@ -9351,15 +9343,17 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> matchedByPattern;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, matchedByPattern, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
             end = startSearchIndex;
+            matchedInvocations.insert(matchedInvocations.end(), matchedByPattern.begin(), matchedByPattern.end());
             return true;
         }
 
@@ -9442,6 +9436,7 @@ namespace fakeit {
         int _line;
 		const char * _testMethod;
         bool _isVerified;
+        bool _isSatisfied;
 
         SequenceVerificationExpectation(
                 VerificationEventHandler &fakeit,
@@ -9453,7 +9448,8 @@ namespace fakeit {
                 _expectedCount(-1),
                 _expectAnything(false),
                 _line(0),
-                _isVerified(false) {
+                _isVerified(false),
+                _isSatisfied(false) {
         }
 
 
@@ -9475,6 +9471,7 @@ namespace fakeit {
                 }
             }
 
+            _isSatisfied = true;
             markAsVerified(ma.matchedInvocations);
         }
 
@@ -9599,7 +9596,7 @@ namespace fakeit {
                 try {
                     ThrowFalseEventHandler eh;
                     _expectationPtr->VerifyExpectation(eh);
-                    return true;
+                    return _expectationPtr->_isSatisfied;
                 }
                 catch (bool e) {
                     return e;
@@ -9668,6 +9665,10 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
@@ -9807,13 +9808,15 @@ namespace fakeit {
             int _line;
 			const char * _callingMethod;
             bool _isVerified;
+            bool _isSatisfied;
 
             VerifyNoOtherInvocationsExpectation(VerificationEventHandler &fakeit,
                                                 std::vector<ActualInvocationsSource *> mocks) :
                     _fakeit(fakeit),
                     _mocks(mocks),
                     _line(0),
-                    _isVerified(false) {
+                    _isVerified(false),
+                    _isSatisfied(false) {
             }
 
             VerifyNoOtherInvocationsExpectation(const VerifyNoOtherInvocationsExpectation &other) = default;
@@ -9840,6 +9843,7 @@ namespace fakeit {
                     evt.setFileInfo(_file, _line, _callingMethod);
                     return verificationErrorHandler.handle(evt);
                 }
+                _isSatisfied = true;
             }
 
         };
@@ -9861,7 +9865,7 @@ namespace fakeit {
             try {
                 ThrowFalseEventHandler ev;
                 _ptr->VerifyExpectation(ev);
-                return true;
+                return _ptr->_isSatisfied;
             }
             catch (bool e) {
                 return e;
diff --git a/single_header/qtest/fakeit.hpp b/single_header/qtest/fakeit.hpp
index 51d2998..1e92c86 100644
--- a/single_header/qtest/fakeit.hpp
+++ b/single_header/qtest/fakeit.hpp
@@ -6047,7 +6047,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -7188,8 +7188,8 @@ namespace fakeit {
 
             virtual ~MatchedInvocationHandler() = default;
 
-            MatchedInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) :
+            MatchedInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) :
                     _matcher{matcher}, _invocationHandler{invocationHandler} {
             }
 
@@ -7219,8 +7219,8 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _actualInvocations;
 
         MatchedInvocationHandler *buildMatchedInvocationHandler(
-                typename ActualInvocation<arglist...>::Matcher *invocationMatcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+                std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> invocationMatcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             return new MatchedInvocationHandler(invocationMatcher, invocationHandler);
         }
 
@@ -7263,8 +7263,8 @@ namespace fakeit {
             return method.id() == _method.id();
         }
 
-        void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-            ActualInvocationHandler<R, arglist...> *invocationHandler) {
+        void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+            std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             ActualInvocationHandler<R, arglist...> *mock = buildMatchedInvocationHandler(matcher, invocationHandler);
             std::shared_ptr<Destructible> destructable{mock};
             _invocationHandlers.push_back(destructable);
@@ -8004,18 +8004,15 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+
+            while (asAction(*_recordedActions.front()).isDone())
+            {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
-            Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
-            std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
-            };
-            Finally onExit(finallyClause);
-            return action.invoke(args);
+            return asAction(*destructablePtr).invoke(args);
         }
 
     private:
@@ -8037,6 +8034,10 @@ namespace fakeit {
             }
         };
 
+        static Action<R, arglist...> &asAction(Destructible &destructable) {
+            return dynamic_cast<Action<R, arglist...> &>(destructable);
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
@@ -8201,8 +8202,8 @@ namespace fakeit {
 
             virtual std::string getMethodName() = 0;
 
-            virtual void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) = 0;
+            virtual void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) = 0;
 
             virtual void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) = 0;
 
@@ -8217,9 +8218,9 @@ namespace fakeit {
         class Implementation {
 
             Context *_stubbingContext;
-            ActionSequence<R, arglist...> *_recordedActionSequence;
-            typename ActualInvocation<arglist...>::Matcher *_invocationMatcher;
-            bool _commited;
+
+            std::shared_ptr<ActionSequence<R, arglist...>> _recordedActionSequence;
+            std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> _invocationMatcher;
 
             Context &getStubbingContext() const {
                 return *_stubbingContext;
@@ -8232,16 +8233,11 @@ namespace fakeit {
                       _recordedActionSequence(new ActionSequence<R, arglist...>()),
                       _invocationMatcher
                               {
-                                      new DefaultInvocationMatcher<arglist...>()}, _commited(false) {
+                                      new DefaultInvocationMatcher<arglist...>()} {
             }
 
             ~Implementation() {
                 delete _stubbingContext;
-                if (!_commited) {
-
-                    delete _recordedActionSequence;
-                    delete _invocationMatcher;
-                }
             }
 
             ActionSequence<R, arglist...> &getRecordedActionSequence() {
@@ -8276,7 +8272,6 @@ namespace fakeit {
 
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                _commited = true;
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8305,8 +8300,7 @@ namespace fakeit {
             }
 
             void setInvocationMatcher(typename ActualInvocation<arglist...>::Matcher *matcher) {
-                delete _invocationMatcher;
-                _invocationMatcher = matcher;
+                _invocationMatcher.reset(matcher);
             }
         };
 
@@ -8556,8 +8550,7 @@ namespace fakeit {
 
         MockImpl(FakeitContext &fakeit)
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
-            FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
-            fake->getVirtualTable().setCookie(1, this);
+            getUnmockedContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -8593,7 +8586,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
@@ -8661,8 +8653,8 @@ namespace fakeit {
 
             virtual ~MethodMockingContextBase() = default;
 
-            void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
             }
 
@@ -8780,11 +8772,9 @@ namespace fakeit {
 
         };
 
-        static MockImpl<C, baseclasses...> *getMockImpl(void *instance) {
-            FakeObject<C, baseclasses...> *fake = asFakeObject(instance);
-            MockImpl<C, baseclasses...> *mock = reinterpret_cast<MockImpl<C, baseclasses...> *>(fake->getVirtualTable().getCookie(
-                    1));
-            return mock;
+        static FakeitContext *&getUnmockedContext() {
+            static FakeitContext *context = nullptr;
+            return context;
         }
 
         bool isOwner(){ return _instanceOwner != nullptr;}
@@ -8794,7 +8784,9 @@ namespace fakeit {
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+
+
+            auto &fakeit = *getUnmockedContext();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
@@ -9352,15 +9344,17 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> matchedByPattern;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, matchedByPattern, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
             end = startSearchIndex;
+            matchedInvocations.insert(matchedInvocations.end(), matchedByPattern.begin(), matchedByPattern.end());
             return true;
         }
 
@@ -9443,6 +9437,7 @@ namespace fakeit {
         int _line;
 		const char * _testMethod;
         bool _isVerified;
+        bool _isSatisfied;
 
         SequenceVerificationExpectation(
                 VerificationEventHandler &fakeit,
@@ -9454,7 +9449,8 @@ namespace fakeit {
                 _expectedCount(-1),
                 _expectAnything(false),
                 _line(0),
-                _isVerified(false) {
+                _isVerified(false),
+                _isSatisfied(false) {
         }
 
 
@@ -9476,6 +9472,7 @@ namespace fakeit {
                 }
             }
 
+            _isSatisfied = true;
             markAsVerified(ma.matchedInvocations);
         }
 
@@ -9600,7 +9597,7 @@ namespace fakeit {
                 try {
                     ThrowFalseEventHandler eh;
                     _expectationPtr->VerifyExpectation(eh);
-                    return true;
+                    return _expectationPtr->_isSatisfied;
                 }
                 catch (bool e) {
                     return e;
@@ -9669,6 +9666,10 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
@@ -9808,13 +9809,15 @@ namespace fakeit {
             int _line;
 			const char * _callingMethod;
             bool _isVerified;
+            bool _isSatisfied;
 
             VerifyNoOtherInvocationsExpectation(VerificationEventHandler &fakeit,
                                                 std::vector<ActualInvocationsSource *> mocks) :
                     _fakeit(fakeit),
                     _mocks(mocks),
                     _line(0),
-                    _isVerified(false) {
+                    _isVerified(false),
+                    _isSatisfied(false) {
             }
 
             VerifyNoOtherInvocationsExpectation(const VerifyNoOtherInvocationsExpectation &other) = default;
@@ -9841,6 +9844,7 @@ namespace fakeit {
                     evt.setFileInfo(_file, _line, _callingMethod);
                     return verificationErrorHandler.handle(evt);
                 }
+                _isSatisfied = true;
             }
 
         };
@@ -9862,7 +9866,7 @@ namespace fakeit {
             try {
                 ThrowFalseEventHandler ev;
                 _ptr->VerifyExpectation(ev);
-                return true;
+                return _ptr->_isSatisfied;
             }
             catch (bool e) {
                 return e;
diff --git a/single_header/standalone/fakeit.hpp b/single_header/standalone/fakeit.hpp
index 0484739..99dba56 100644
--- a/single_header/standalone/fakeit.hpp
+++ b/single_header/standalone/fakeit.hpp
@@ -6115,7 +6115,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -7256,8 +7256,8 @@ namespace fakeit {
 
             virtual ~MatchedInvocationHandler() = default;
 
-            MatchedInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) :
+            MatchedInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) :
                     _matcher{matcher}, _invocationHandler{invocationHandler} {
             }
 
@@ -7287,8 +7287,8 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _actualInvocations;
 
         MatchedInvocationHandler *buildMatchedInvocationHandler(
-                typename ActualInvocation<arglist...>::Matcher *invocationMatcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+                std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> invocationMatcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             return new MatchedInvocationHandler(invocationMatcher, invocationHandler);
         }
 
@@ -7331,8 +7331,8 @@ namespace fakeit {
             return method.id() == _method.id();
         }
 
-        void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-            ActualInvocationHandler<R, arglist...> *invocationHandler) {
+        void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+            std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             ActualInvocationHandler<R, arglist...> *mock = buildMatchedInvocationHandler(matcher, invocationHandler);
             std::shared_ptr<Destructible> destructable{mock};
             _invocationHandlers.push_back(destructable);
@@ -8072,18 +8072,15 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+
+            while (asAction(*_recordedActions.front()).isDone())
+            {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
-            Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
-            std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
-            };
-            Finally onExit(finallyClause);
-            return action.invoke(args);
+            return asAction(*destructablePtr).invoke(args);
         }
 
     private:
@@ -8105,6 +8102,10 @@ namespace fakeit {
             }
         };
 
+        static Action<R, arglist...> &asAction(Destructible &destructable) {
+            return dynamic_cast<Action<R, arglist...> &>(destructable);
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
@@ -8269,8 +8270,8 @@ namespace fakeit {
 
             virtual std::string getMethodName() = 0;
 
-            virtual void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) = 0;
+            virtual void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) = 0;
 
             virtual void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) = 0;
 
@@ -8285,9 +8286,9 @@ namespace fakeit {
         class Implementation {
 
             Context *_stubbingContext;
-            ActionSequence<R, arglist...> *_recordedActionSequence;
-            typename ActualInvocation<arglist...>::Matcher *_invocationMatcher;
-            bool _commited;
+
+            std::shared_ptr<ActionSequence<R, arglist...>> _recordedActionSequence;
+            std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> _invocationMatcher;
 
             Context &getStubbingContext() const {
                 return *_stubbingContext;
@@ -8300,16 +8301,11 @@ namespace fakeit {
                       _recordedActionSequence(new ActionSequence<R, arglist...>()),
                       _invocationMatcher
                               {
-                                      new DefaultInvocationMatcher<arglist...>()}, _commited(false) {
+                                      new DefaultInvocationMatcher<arglist...>()} {
             }
 
             ~Implementation() {
                 delete _stubbingContext;
-                if (!_commited) {
-
-                    delete _recordedActionSequence;
-                    delete _invocationMatcher;
-                }
             }
 
             ActionSequence<R, arglist...> &getRecordedActionSequence() {
@@ -8344,7 +8340,6 @@ namespace fakeit {
 
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                _commited = true;
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8373,8 +8368,7 @@ namespace fakeit {
             }
 
             void setInvocationMatcher(typename ActualInvocation<arglist...>::Matcher *matcher) {
-                delete _invocationMatcher;
-                _invocationMatcher = matcher;
+                _invocationMatcher.reset(matcher);
             }
         };
 
@@ -8624,8 +8618,7 @@ namespace fakeit {
 
         MockImpl(FakeitContext &fakeit)
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
-            FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
-            fake->getVirtualTable().setCookie(1, this);
+            getUnmockedContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -8661,7 +8654,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
@@ -8729,8 +8721,8 @@ namespace fakeit {
 
             virtual ~MethodMockingContextBase() = default;
 
-            void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
             }
 
@@ -8848,11 +8840,9 @@ namespace fakeit {
 
         };
 
-        static MockImpl<C, baseclasses...> *getMockImpl(void *instance) {
-            FakeObject<C, baseclasses...> *fake = asFakeObject(instance);
-            MockImpl<C, baseclasses...> *mock = reinterpret_cast<MockImpl<C, baseclasses...> *>(fake->getVirtualTable().getCookie(
-                    1));
-            return mock;
+        static FakeitContext *&getUnmockedContext() {
+            static FakeitContext *context = nullptr;
+            return context;
         }
 
         bool isOwner(){ return _instanceOwner != nullptr;}
@@ -8862,7 +8852,9 @@ namespace fakeit {
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+
+
+            auto &fakeit = *getUnmockedContext();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
@@ -9420,15 +9412,17 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> matchedByPattern;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, matchedByPattern, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
             end = startSearchIndex;
+            matchedInvocations.insert(matchedInvocations.end(), matchedByPattern.begin(), matchedByPattern.end());
             return true;
         }
 
@@ -9511,6 +9505,7 @@ namespace fakeit {
         int _line;
 		const char * _testMethod;
         bool _isVerified;
+        bool _isSatisfied;
 
         SequenceVerificationExpectation(
                 VerificationEventHandler &fakeit,
@@ -9522,7 +9517,8 @@ namespace fakeit {
                 _expectedCount(-1),
                 _expectAnything(false),
                 _line(0),
-                _isVerified(false) {
+                _isVerified(false),
+                _isSatisfied(false) {
         }
 
 
@@ -9544,6 +9540,7 @@ namespace fakeit {
                 }
             }
 
+            _isSatisfied = true;
             markAsVerified(ma.matchedInvocations);
         }
 
@@ -9654,7 +9651,7 @@ namespace fakeit {
                 try {
                     ThrowFalseEventHandler eh;
                     _expectationPtr->VerifyExpectation(eh);
-                    return true;
+                    return _expectationPtr->_isSatisfied;
                 }
                 catch (bool e) {
                     return e;
@@ -9723,6 +9720,10 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
@@ -9862,13 +9863,15 @@ namespace fakeit {
             int _line;
 			const char * _callingMethod;
             bool _isVerified;
+            bool _isSatisfied;
 
             VerifyNoOtherInvocationsExpectation(VerificationEventHandler &fakeit,
                                                 std::vector<ActualInvocationsSource *> mocks) :
                     _fakeit(fakeit),
                     _mocks(mocks),
                     _line(0),
-                    _isVerified(false) {
+                    _isVerified(false),
+                    _isSatisfied(false) {
             }
 
             VerifyNoOtherInvocationsExpectation(const VerifyNoOtherInvocationsExpectation &other) = default;
@@ -9895,6 +9898,7 @@ namespace fakeit {
                     evt.setFileInfo(_file, _line, _callingMethod);
                     return verificationErrorHandler.handle(evt);
                 }
+                _isSatisfied = true;
             }
 
         };
@@ -9916,7 +9920,7 @@ namespace fakeit {
             try {
                 ThrowFalseEventHandler ev;
                 _ptr->VerifyExpectation(ev);
-                return true;
+                return _ptr->_isSatisfied;
             }
             catch (bool e) {
                 return e;
diff --git a/single_header/tpunit/fakeit.hpp b/single_header/tpunit/fakeit.hpp
index a56df19..ff4e23f 100644
--- a/single_header/tpunit/fakeit.hpp
+++ b/single_header/tpunit/fakeit.hpp
@@ -6098,7 +6098,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -7239,8 +7239,8 @@ namespace fakeit {
 
             virtual ~MatchedInvocationHandler() = default;
 
-            MatchedInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) :
+            MatchedInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) :
                     _matcher{matcher}, _invocationHandler{invocationHandler} {
             }
 
@@ -7270,8 +7270,8 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _actualInvocations;
 
         MatchedInvocationHandler *buildMatchedInvocationHandler(
-                typename ActualInvocation<arglist...>::Matcher *invocationMatcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+                std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> invocationMatcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             return new MatchedInvocationHandler(invocationMatcher, invocationHandler);
         }
 
@@ -7314,8 +7314,8 @@ namespace fakeit {
             return method.id() == _method.id();
         }
 
-        void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-            ActualInvocationHandler<R, arglist...> *invocationHandler) {
+        void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+            std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
             ActualInvocationHandler<R, arglist...> *mock = buildMatchedInvocationHandler(matcher, invocationHandler);
             std::shared_ptr<Destructible> destructable{mock};
             _invocationHandlers.push_back(destructable);
@@ -8055,18 +8055,15 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+
+            while (asAction(*_recordedActions.front()).isDone())
+            {
+                _usedActions.push_back(_recordedActions.front());
+                _recordedActions.erase(_recordedActions.begin());
+            }
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
-            Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
-            std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
-                {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
-                }
-            };
-            Finally onExit(finallyClause);
-            return action.invoke(args);
+            return asAction(*destructablePtr).invoke(args);
         }
 
     private:
@@ -8088,6 +8085,10 @@ namespace fakeit {
             }
         };
 
+        static Action<R, arglist...> &asAction(Destructible &destructable) {
+            return dynamic_cast<Action<R, arglist...> &>(destructable);
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
@@ -8252,8 +8253,8 @@ namespace fakeit {
 
             virtual std::string getMethodName() = 0;
 
-            virtual void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) = 0;
+            virtual void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) = 0;
 
             virtual void scanActualInvocations(const std::function<void(ActualInvocation<arglist...> &)> &scanner) = 0;
 
@@ -8268,9 +8269,9 @@ namespace fakeit {
         class Implementation {
 
             Context *_stubbingContext;
-            ActionSequence<R, arglist...> *_recordedActionSequence;
-            typename ActualInvocation<arglist...>::Matcher *_invocationMatcher;
-            bool _commited;
+
+            std::shared_ptr<ActionSequence<R, arglist...>> _recordedActionSequence;
+            std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> _invocationMatcher;
 
             Context &getStubbingContext() const {
                 return *_stubbingContext;
@@ -8283,16 +8284,11 @@ namespace fakeit {
                       _recordedActionSequence(new ActionSequence<R, arglist...>()),
                       _invocationMatcher
                               {
-                                      new DefaultInvocationMatcher<arglist...>()}, _commited(false) {
+                                      new DefaultInvocationMatcher<arglist...>()} {
             }
 
             ~Implementation() {
                 delete _stubbingContext;
-                if (!_commited) {
-
-                    delete _recordedActionSequence;
-                    delete _invocationMatcher;
-                }
             }
 
             ActionSequence<R, arglist...> &getRecordedActionSequence() {
@@ -8327,7 +8323,6 @@ namespace fakeit {
 
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                _commited = true;
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8356,8 +8351,7 @@ namespace fakeit {
             }
 
             void setInvocationMatcher(typename ActualInvocation<arglist...>::Matcher *matcher) {
-                delete _invocationMatcher;
-                _invocationMatcher = matcher;
+                _invocationMatcher.reset(matcher);
             }
         };
 
@@ -8607,8 +8601,7 @@ namespace fakeit {
 
         MockImpl(FakeitContext &fakeit)
                 : MockImpl<C, baseclasses...>(fakeit, *(createFakeInstance()), false){
-            FakeObject<C, baseclasses...> *fake = asFakeObject(_instanceOwner.get());
-            fake->getVirtualTable().setCookie(1, this);
+            getUnmockedContext() = &fakeit;
         }
 
         virtual ~MockImpl() FAKEIT_NO_THROWS {
@@ -8644,7 +8637,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
@@ -8712,8 +8704,8 @@ namespace fakeit {
 
             virtual ~MethodMockingContextBase() = default;
 
-            void addMethodInvocationHandler(typename ActualInvocation<arglist...>::Matcher *matcher,
-                ActualInvocationHandler<R, arglist...> *invocationHandler) {
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) {
                 getRecordedMethodBody().addMethodInvocationHandler(matcher, invocationHandler);
             }
 
@@ -8831,11 +8823,9 @@ namespace fakeit {
 
         };
 
-        static MockImpl<C, baseclasses...> *getMockImpl(void *instance) {
-            FakeObject<C, baseclasses...> *fake = asFakeObject(instance);
-            MockImpl<C, baseclasses...> *mock = reinterpret_cast<MockImpl<C, baseclasses...> *>(fake->getVirtualTable().getCookie(
-                    1));
-            return mock;
+        static FakeitContext *&getUnmockedContext() {
+            static FakeitContext *context = nullptr;
+            return context;
         }
 
         bool isOwner(){ return _instanceOwner != nullptr;}
@@ -8845,7 +8835,9 @@ namespace fakeit {
         void unmocked() {
             ActualInvocation<> invocation(Invocation::nextInvocationOrdinal(), UnknownMethod::instance());
             UnexpectedMethodCallEvent event(UnexpectedType::Unmocked, invocation);
-            auto &fakeit = getMockImpl(this)->_fakeit;
+
+
+            auto &fakeit = *getUnmockedContext();
             fakeit.handle(event);
 
             std::string format = fakeit.format(event);
@@ -9403,15 +9395,17 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> matchedByPattern;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, matchedByPattern, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
             end = startSearchIndex;
+            matchedInvocations.insert(matchedInvocations.end(), matchedByPattern.begin(), matchedByPattern.end());
             return true;
         }
 
@@ -9494,6 +9488,7 @@ namespace fakeit {
         int _line;
 		const char * _testMethod;
         bool _isVerified;
+        bool _isSatisfied;
 
         SequenceVerificationExpectation(
                 VerificationEventHandler &fakeit,
@@ -9505,7 +9500,8 @@ namespace fakeit {
                 _expectedCount(-1),
                 _expectAnything(false),
                 _line(0),
-                _isVerified(false) {
+                _isVerified(false),
+                _isSatisfied(false) {
         }
 
 
@@ -9527,6 +9523,7 @@ namespace fakeit {
                 }
             }
 
+            _isSatisfied = true;
             markAsVerified(ma.matchedInvocations);
         }
 
@@ -9637,7 +9634,7 @@ namespace fakeit {
                 try {
                     ThrowFalseEventHandler eh;
                     _expectationPtr->VerifyExpectation(eh);
-                    return true;
+                    return _expectationPtr->_isSatisfied;
                 }
                 catch (bool e) {
                     return e;
@@ -9706,6 +9703,10 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
@@ -9845,13 +9846,15 @@ namespace fakeit {
             int _line;
 			const char * _callingMethod;
             bool _isVerified;
+            bool _isSatisfied;
 
             VerifyNoOtherInvocationsExpectation(VerificationEventHandler &fakeit,
                                                 std::vector<ActualInvocationsSource *> mocks) :
                     _fakeit(fakeit),
                     _mocks(mocks),
                     _line(0),
-                    _isVerified(false) {
+                    _isVerified(false),
+                    _isSatisfied(false) {
             }
 
             VerifyNoOtherInvocationsExpectation(const VerifyNoOtherInvocationsExpectation &other) = default;
@@ -9878,6 +9881,7 @@ namespace fakeit {
                     evt.setFileInfo(_file, _line, _callingMethod);
                     return verificationErrorHandler.handle(evt);
                 }
+                _isSatisfied = true;
             }
 
         };
@@ -9899,7 +9903,7 @@ namespace fakeit {
             try {
                 ThrowFalseEventHandler ev;
                 _ptr->VerifyExpectation(ev);
-                return true;
+                return _ptr->_isSatisfied;
             }
             catch (bool e) {
                 return e;
-- 
2.43.0


From e492a9ab0ab9712f97578d7caebcd7c32076b600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:48 +0000
Subject: [PATCH 10/23] fix: copy the values given to ReturnAndSet

Values passed as lvalues were kept by reference, so the stub wrote whatever
the variable held at call time, or read it after it was gone.
---
 include/fakeit/StubbingProgress.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fakeit/StubbingProgress.hpp b/include/fakeit/StubbingProgress.hpp
index a93252e..53b3c5c 100644
--- a/include/fakeit/StubbingProgress.hpp
+++ b/include/fakeit/StubbingProgress.hpp
@@ -190,7 +190,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<R, valuelist...> vals_tuple;
+                ArgumentsTuple<R, typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<R>(r), std::forward<valuelist>(arg_vals)...);
@@ -333,7 +333,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<valuelist...> vals_tuple;
+                ArgumentsTuple<typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<valuelist>(arg_vals)...);
@@ -373,7 +373,7 @@ namespace fakeit {
         {
             ArgValue(T &&v): value ( std::forward<T>(v) ) {}
             constexpr static int pos = N;
-            T value;
+            typename std::decay<T>::type value;
         };
 
         template <int max_index, int tuple_index>
-- 
2.43.0


From 7d9b8026401344f31f841acb3382868c003639af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:48 +0000
Subject: [PATCH 11/23] fix: keep the original method of a spied object until
 it is stubbed

Naming a method of a spied object, for example in Verify or in a stubbing
statement that is abandoned, disconnected the original method although no
behavior was recorded for it.
---
 include/fakeit/MockImpl.hpp        | 10 ++++++++++
 include/mockutils/DynamicProxy.hpp | 20 ++++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/include/fakeit/MockImpl.hpp b/include/fakeit/MockImpl.hpp
index 03d0f19..2673698 100644
--- a/include/fakeit/MockImpl.hpp
+++ b/include/fakeit/MockImpl.hpp
@@ -227,6 +227,13 @@ namespace fakeit {
             UniqueMethodMockingContextImpl(MockImpl<C, baseclasses...> &mock, R (C::*vMethod)(arglist...))
                     : MethodMockingContextImpl<R, arglist...>(mock, vMethod) {
             }
+
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) override {
+                MethodMockingContextBase<R, arglist...>::addMethodInvocationHandler(matcher, invocationHandler);
+                MethodMockingContextBase<R, arglist...>::_mock._proxy.resumeMethod(
+                        MethodMockingContextImpl<R, arglist...>::_vMethod);
+            }
         };
 
         class DtorMockingContextImpl : public MethodMockingContextBase<void> {
@@ -314,6 +321,9 @@ namespace fakeit {
                                                                   R (C::*vMethod)(arglist...)) {
             if (!proxy.isMethodStubbed(vMethod)) {
                 proxy.template stubMethod<id>(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
+                // A spied object keeps its original method until some behavior is recorded.
+                if (!isOwner())
+                    proxy.suspendMethod(vMethod);
             }
             Destructible *d = proxy.getMethodMock(vMethod);
             RecordedMethodBody<R, arglist...> *methodMock = dynamic_cast<RecordedMethodBody<R, arglist...> *>(d);
diff --git a/include/mockutils/DynamicProxy.hpp b/include/mockutils/DynamicProxy.hpp
index f7cea28..cdd1c7e 100644
--- a/include/mockutils/DynamicProxy.hpp
+++ b/include/mockutils/DynamicProxy.hpp
@@ -10,6 +10,7 @@
 #undef max
 #include <functional>
 #include <type_traits>
+#include <map>
 #include <vector>
 #include <array>
 #include <new>
@@ -94,6 +95,7 @@ namespace fakeit {
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
+            _suspendedProxies = {};
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -186,6 +188,23 @@ namespace fakeit {
             }};
         }
 
+        // Let the calls of a stubbed method reach the original method until the method is resumed.
+        template<typename R, typename ... arglist>
+        void suspendMethod(R(C::*vMethod)(arglist...)) {
+            auto offset = VTUtils::getOffset(vMethod);
+            _suspendedProxies[offset] = getFake().getVirtualTable().getMethod(offset);
+            getFake().setMethod(offset, getOriginalVT().getMethod(offset));
+        }
+
+        template<typename R, typename ... arglist>
+        void resumeMethod(R(C::*vMethod)(arglist...)) {
+            auto proxy = _suspendedProxies.find(VTUtils::getOffset(vMethod));
+            if (proxy != _suspendedProxies.end()) {
+                getFake().setMethod(proxy->first, proxy->second);
+                _suspendedProxies.erase(proxy);
+            }
+        }
+
     private:
 
         template<typename DataType, typename ... arglist>
@@ -213,6 +232,7 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
         std::vector<std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
+        std::map<unsigned int, void *> _suspendedProxies;
         InvocationHandlers _invocationHandlers;
 
         FakeObject<C, baseclasses...> &getFake() {
-- 
2.43.0


From 327832c4070f7426fa8273bc38456dbbd6224d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:51 +0000
Subject: [PATCH 12/23] fix: carry the spy and ReturnAndSet fixes into the
 packaged single headers

---
 single_header/boost/fakeit.hpp      | 36 ++++++++++++++++++++++++++---
 single_header/catch/fakeit.hpp      | 36 ++++++++++++++++++++++++++---
 single_header/cute/fakeit.hpp       | 36 ++++++++++++++++++++++++++---
 single_header/doctest/fakeit.hpp    | 36 ++++++++++++++++++++++++++---
 single_header/gtest/fakeit.hpp      | 36 ++++++++++++++++++++++++++---
 single_header/mettle/fakeit.hpp     | 36 ++++++++++++++++++++++++++---
 single_header/mstest/fakeit.hpp     | 36 ++++++++++++++++++++++++++---
 single_header/nunit/fakeit.hpp      | 36 ++++++++++++++++++++++++++---
 single_header/qtest/fakeit.hpp      | 36 ++++++++++++++++++++++++++---
 single_header/standalone/fakeit.hpp | 36 ++++++++++++++++++++++++++---
 single_header/tpunit/fakeit.hpp     | 36 ++++++++++++++++++++++++++---
 11 files changed, 363 insertions(+), 33 deletions(-)

diff --git a/single_header/boost/fakeit.hpp b/single_header/boost/fakeit.hpp
index 996fd67..361af0a 100644
--- a/single_header/boost/fakeit.hpp
+++ b/single_header/boost/fakeit.hpp
@@ -1247,6 +1247,7 @@ static fakeit::DefaultFakeit& Fakeit = fakeit::BoostTestFakeit::getInstance();
 #undef max
 #include <functional>
 #include <type_traits>
+#include <map>
 #include <vector>
 #include <array>
 #include <new>
@@ -6075,6 +6076,7 @@ namespace fakeit {
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
+            _suspendedProxies = {};
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -6167,6 +6169,23 @@ namespace fakeit {
             }};
         }
 
+
+        template<typename R, typename ... arglist>
+        void suspendMethod(R(C::*vMethod)(arglist...)) {
+            auto offset = VTUtils::getOffset(vMethod);
+            _suspendedProxies[offset] = getFake().getVirtualTable().getMethod(offset);
+            getFake().setMethod(offset, getOriginalVT().getMethod(offset));
+        }
+
+        template<typename R, typename ... arglist>
+        void resumeMethod(R(C::*vMethod)(arglist...)) {
+            auto proxy = _suspendedProxies.find(VTUtils::getOffset(vMethod));
+            if (proxy != _suspendedProxies.end()) {
+                getFake().setMethod(proxy->first, proxy->second);
+                _suspendedProxies.erase(proxy);
+            }
+        }
+
     private:
 
         template<typename DataType, typename ... arglist>
@@ -6194,6 +6213,7 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
         std::vector<std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
+        std::map<unsigned int, void *> _suspendedProxies;
         InvocationHandlers _invocationHandlers;
 
         FakeObject<C, baseclasses...> &getFake() {
@@ -7699,7 +7719,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<R, valuelist...> vals_tuple;
+                ArgumentsTuple<R, typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<R>(r), std::forward<valuelist>(arg_vals)...);
@@ -7842,7 +7862,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<valuelist...> vals_tuple;
+                ArgumentsTuple<typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<valuelist>(arg_vals)...);
@@ -7882,7 +7902,7 @@ namespace fakeit {
         {
             ArgValue(T &&v): value ( std::forward<T>(v) ) {}
             constexpr static int pos = N;
-            T value;
+            typename std::decay<T>::type value;
         };
 
         template <int max_index, int tuple_index>
@@ -8769,6 +8789,13 @@ namespace fakeit {
             UniqueMethodMockingContextImpl(MockImpl<C, baseclasses...> &mock, R (C::*vMethod)(arglist...))
                     : MethodMockingContextImpl<R, arglist...>(mock, vMethod) {
             }
+
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) override {
+                MethodMockingContextBase<R, arglist...>::addMethodInvocationHandler(matcher, invocationHandler);
+                MethodMockingContextBase<R, arglist...>::_mock._proxy.resumeMethod(
+                        MethodMockingContextImpl<R, arglist...>::_vMethod);
+            }
         };
 
         class DtorMockingContextImpl : public MethodMockingContextBase<void> {
@@ -8856,6 +8883,9 @@ namespace fakeit {
                                                                   R (C::*vMethod)(arglist...)) {
             if (!proxy.isMethodStubbed(vMethod)) {
                 proxy.template stubMethod<id>(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
+
+                if (!isOwner())
+                    proxy.suspendMethod(vMethod);
             }
             Destructible *d = proxy.getMethodMock(vMethod);
             RecordedMethodBody<R, arglist...> *methodMock = dynamic_cast<RecordedMethodBody<R, arglist...> *>(d);
diff --git a/single_header/catch/fakeit.hpp b/single_header/catch/fakeit.hpp
index 5ccc58a..011ca4d 100644
--- a/single_header/catch/fakeit.hpp
+++ b/single_header/catch/fakeit.hpp
@@ -1285,6 +1285,7 @@ static fakeit::DefaultFakeit& Fakeit = fakeit::CatchFakeit::getInstance();
 #undef max
 #include <functional>
 #include <type_traits>
+#include <map>
 #include <vector>
 #include <array>
 #include <new>
@@ -6113,6 +6114,7 @@ namespace fakeit {
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
+            _suspendedProxies = {};
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -6205,6 +6207,23 @@ namespace fakeit {
             }};
         }
 
+
+        template<typename R, typename ... arglist>
+        void suspendMethod(R(C::*vMethod)(arglist...)) {
+            auto offset = VTUtils::getOffset(vMethod);
+            _suspendedProxies[offset] = getFake().getVirtualTable().getMethod(offset);
+            getFake().setMethod(offset, getOriginalVT().getMethod(offset));
+        }
+
+        template<typename R, typename ... arglist>
+        void resumeMethod(R(C::*vMethod)(arglist...)) {
+            auto proxy = _suspendedProxies.find(VTUtils::getOffset(vMethod));
+            if (proxy != _suspendedProxies.end()) {
+                getFake().setMethod(proxy->first, proxy->second);
+                _suspendedProxies.erase(proxy);
+            }
+        }
+
     private:
 
         template<typename DataType, typename ... arglist>
@@ -6232,6 +6251,7 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
         std::vector<std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
+        std::map<unsigned int, void *> _suspendedProxies;
         InvocationHandlers _invocationHandlers;
 
         FakeObject<C, baseclasses...> &getFake() {
@@ -7737,7 +7757,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<R, valuelist...> vals_tuple;
+                ArgumentsTuple<R, typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<R>(r), std::forward<valuelist>(arg_vals)...);
@@ -7880,7 +7900,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<valuelist...> vals_tuple;
+                ArgumentsTuple<typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<valuelist>(arg_vals)...);
@@ -7920,7 +7940,7 @@ namespace fakeit {
         {
             ArgValue(T &&v): value ( std::forward<T>(v) ) {}
             constexpr static int pos = N;
-            T value;
+            typename std::decay<T>::type value;
         };
 
         template <int max_index, int tuple_index>
@@ -8807,6 +8827,13 @@ namespace fakeit {
             UniqueMethodMockingContextImpl(MockImpl<C, baseclasses...> &mock, R (C::*vMethod)(arglist...))
                     : MethodMockingContextImpl<R, arglist...>(mock, vMethod) {
             }
+
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) override {
+                MethodMockingContextBase<R, arglist...>::addMethodInvocationHandler(matcher, invocationHandler);
+                MethodMockingContextBase<R, arglist...>::_mock._proxy.resumeMethod(
+                        MethodMockingContextImpl<R, arglist...>::_vMethod);
+            }
         };
 
         class DtorMockingContextImpl : public MethodMockingContextBase<void> {
@@ -8894,6 +8921,9 @@ namespace fakeit {
                                                                   R (C::*vMethod)(arglist...)) {
             if (!proxy.isMethodStubbed(vMethod)) {
                 proxy.template stubMethod<id>(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
+
+                if (!isOwner())
+                    proxy.suspendMethod(vMethod);
             }
             Destructible *d = proxy.getMethodMock(vMethod);
             RecordedMethodBody<R, arglist...> *methodMock = dynamic_cast<RecordedMethodBody<R, arglist...> *>(d);
diff --git a/single_header/cute/fakeit.hpp b/single_header/cute/fakeit.hpp
index 74480e6..165d556 100644
--- a/single_header/cute/fakeit.hpp
+++ b/single_header/cute/fakeit.hpp
@@ -1212,6 +1212,7 @@ static fakeit::DefaultFakeit& Fakeit = fakeit::CuteFakeit::getInstance();
 #undef max
 #include <functional>
 #include <type_traits>
+#include <map>
 #include <vector>
 #include <array>
 #include <new>
@@ -6040,6 +6041,7 @@ namespace fakeit {
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
+            _suspendedProxies = {};
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -6132,6 +6134,23 @@ namespace fakeit {
             }};
         }
 
+
+        template<typename R, typename ... arglist>
+        void suspendMethod(R(C::*vMethod)(arglist...)) {
+            auto offset = VTUtils::getOffset(vMethod);
+            _suspendedProxies[offset] = getFake().getVirtualTable().getMethod(offset);
+            getFake().setMethod(offset, getOriginalVT().getMethod(offset));
+        }
+
+        template<typename R, typename ... arglist>
+        void resumeMethod(R(C::*vMethod)(arglist...)) {
+            auto proxy = _suspendedProxies.find(VTUtils::getOffset(vMethod));
+            if (proxy != _suspendedProxies.end()) {
+                getFake().setMethod(proxy->first, proxy->second);
+                _suspendedProxies.erase(proxy);
+            }
+        }
+
     private:
 
         template<typename DataType, typename ... arglist>
@@ -6159,6 +6178,7 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
         std::vector<std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
+        std::map<unsigned int, void *> _suspendedProxies;
         InvocationHandlers _invocationHandlers;
 
         FakeObject<C, baseclasses...> &getFake() {
@@ -7664,7 +7684,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<R, valuelist...> vals_tuple;
+                ArgumentsTuple<R, typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<R>(r), std::forward<valuelist>(arg_vals)...);
@@ -7807,7 +7827,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<valuelist...> vals_tuple;
+                ArgumentsTuple<typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<valuelist>(arg_vals)...);
@@ -7847,7 +7867,7 @@ namespace fakeit {
         {
             ArgValue(T &&v): value ( std::forward<T>(v) ) {}
             constexpr static int pos = N;
-            T value;
+            typename std::decay<T>::type value;
         };
 
         template <int max_index, int tuple_index>
@@ -8734,6 +8754,13 @@ namespace fakeit {
             UniqueMethodMockingContextImpl(MockImpl<C, baseclasses...> &mock, R (C::*vMethod)(arglist...))
                     : MethodMockingContextImpl<R, arglist...>(mock, vMethod) {
             }
+
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) override {
+                MethodMockingContextBase<R, arglist...>::addMethodInvocationHandler(matcher, invocationHandler);
+                MethodMockingContextBase<R, arglist...>::_mock._proxy.resumeMethod(
+                        MethodMockingContextImpl<R, arglist...>::_vMethod);
+            }
         };
 
         class DtorMockingContextImpl : public MethodMockingContextBase<void> {
@@ -8821,6 +8848,9 @@ namespace fakeit {
                                                                   R (C::*vMethod)(arglist...)) {
             if (!proxy.isMethodStubbed(vMethod)) {
                 proxy.template stubMethod<id>(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
+
+                if (!isOwner())
+                    proxy.suspendMethod(vMethod);
             }
             Destructible *d = proxy.getMethodMock(vMethod);
             RecordedMethodBody<R, arglist...> *methodMock = dynamic_cast<RecordedMethodBody<R, arglist...> *>(d);
diff --git a/single_header/doctest/fakeit.hpp b/single_header/doctest/fakeit.hpp
index 7ef3b56..e74113a 100644
--- a/single_header/doctest/fakeit.hpp
+++ b/single_header/doctest/fakeit.hpp
@@ -1240,6 +1240,7 @@ static fakeit::DefaultFakeit& Fakeit = fakeit::DoctestFakeit::getInstance();
 #undef max
 #include <functional>
 #include <type_traits>
+#include <map>
 #include <vector>
 #include <array>
 #include <new>
@@ -6068,6 +6069,7 @@ namespace fakeit {
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
+            _suspendedProxies = {};
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -6160,6 +6162,23 @@ namespace fakeit {
             }};
         }
 
+
+        template<typename R, typename ... arglist>
+        void suspendMethod(R(C::*vMethod)(arglist...)) {
+            auto offset = VTUtils::getOffset(vMethod);
+            _suspendedProxies[offset] = getFake().getVirtualTable().getMethod(offset);
+            getFake().setMethod(offset, getOriginalVT().getMethod(offset));
+        }
+
+        template<typename R, typename ... arglist>
+        void resumeMethod(R(C::*vMethod)(arglist...)) {
+            auto proxy = _suspendedProxies.find(VTUtils::getOffset(vMethod));
+            if (proxy != _suspendedProxies.end()) {
+                getFake().setMethod(proxy->first, proxy->second);
+                _suspendedProxies.erase(proxy);
+            }
+        }
+
     private:
 
         template<typename DataType, typename ... arglist>
@@ -6187,6 +6206,7 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
         std::vector<std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
+        std::map<unsigned int, void *> _suspendedProxies;
         InvocationHandlers _invocationHandlers;
 
         FakeObject<C, baseclasses...> &getFake() {
@@ -7692,7 +7712,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<R, valuelist...> vals_tuple;
+                ArgumentsTuple<R, typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<R>(r), std::forward<valuelist>(arg_vals)...);
@@ -7835,7 +7855,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<valuelist...> vals_tuple;
+                ArgumentsTuple<typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<valuelist>(arg_vals)...);
@@ -7875,7 +7895,7 @@ namespace fakeit {
         {
             ArgValue(T &&v): value ( std::forward<T>(v) ) {}
             constexpr static int pos = N;
-            T value;
+            typename std::decay<T>::type value;
         };
 
         template <int max_index, int tuple_index>
@@ -8762,6 +8782,13 @@ namespace fakeit {
             UniqueMethodMockingContextImpl(MockImpl<C, baseclasses...> &mock, R (C::*vMethod)(arglist...))
                     : MethodMockingContextImpl<R, arglist...>(mock, vMethod) {
             }
+
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) override {
+                MethodMockingContextBase<R, arglist...>::addMethodInvocationHandler(matcher, invocationHandler);
+                MethodMockingContextBase<R, arglist...>::_mock._proxy.resumeMethod(
+                        MethodMockingContextImpl<R, arglist...>::_vMethod);
+            }
         };
 
         class DtorMockingContextImpl : public MethodMockingContextBase<void> {
@@ -8849,6 +8876,9 @@ namespace fakeit {
                                                                   R (C::*vMethod)(arglist...)) {
             if (!proxy.isMethodStubbed(vMethod)) {
                 proxy.template stubMethod<id>(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
+
+                if (!isOwner())
+                    proxy.suspendMethod(vMethod);
             }
             Destructible *d = proxy.getMethodMock(vMethod);
             RecordedMethodBody<R, arglist...> *methodMock = dynamic_cast<RecordedMethodBody<R, arglist...> *>(d);
diff --git a/single_header/gtest/fakeit.hpp b/single_header/gtest/fakeit.hpp
index 776bb0a..bc3ea65 100644
--- a/single_header/gtest/fakeit.hpp
+++ b/single_header/gtest/fakeit.hpp
@@ -1212,6 +1212,7 @@ static fakeit::DefaultFakeit& Fakeit = fakeit::GTestFakeit::getInstance();
 #undef max
 #include <functional>
 #include <type_traits>
+#include <map>
 #include <vector>
 #include <array>
 #include <new>
@@ -6040,6 +6041,7 @@ namespace fakeit {
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
+            _suspendedProxies = {};
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -6132,6 +6134,23 @@ namespace fakeit {
             }};
         }
 
+
+        template<typename R, typename ... arglist>
+        void suspendMethod(R(C::*vMethod)(arglist...)) {
+            auto offset = VTUtils::getOffset(vMethod);
+            _suspendedProxies[offset] = getFake().getVirtualTable().getMethod(offset);
+            getFake().setMethod(offset, getOriginalVT().getMethod(offset));
+        }
+
+        template<typename R, typename ... arglist>
+        void resumeMethod(R(C::*vMethod)(arglist...)) {
+            auto proxy = _suspendedProxies.find(VTUtils::getOffset(vMethod));
+            if (proxy != _suspendedProxies.end()) {
+                getFake().setMethod(proxy->first, proxy->second);
+                _suspendedProxies.erase(proxy);
+            }
+        }
+
     private:
 
         template<typename DataType, typename ... arglist>
@@ -6159,6 +6178,7 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
         std::vector<std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
+        std::map<unsigned int, void *> _suspendedProxies;
         InvocationHandlers _invocationHandlers;
 
         FakeObject<C, baseclasses...> &getFake() {
@@ -7664,7 +7684,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<R, valuelist...> vals_tuple;
+                ArgumentsTuple<R, typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<R>(r), std::forward<valuelist>(arg_vals)...);
@@ -7807,7 +7827,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<valuelist...> vals_tuple;
+                ArgumentsTuple<typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<valuelist>(arg_vals)...);
@@ -7847,7 +7867,7 @@ namespace fakeit {
         {
             ArgValue(T &&v): value ( std::forward<T>(v) ) {}
             constexpr static int pos = N;
-            T value;
+            typename std::decay<T>::type value;
         };
 
         template <int max_index, int tuple_index>
@@ -8734,6 +8754,13 @@ namespace fakeit {
             UniqueMethodMockingContextImpl(MockImpl<C, baseclasses...> &mock, R (C::*vMethod)(arglist...))
                     : MethodMockingContextImpl<R, arglist...>(mock, vMethod) {
             }
+
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) override {
+                MethodMockingContextBase<R, arglist...>::addMethodInvocationHandler(matcher, invocationHandler);
+                MethodMockingContextBase<R, arglist...>::_mock._proxy.resumeMethod(
+                        MethodMockingContextImpl<R, arglist...>::_vMethod);
+            }
         };
 
         class DtorMockingContextImpl : public MethodMockingContextBase<void> {
@@ -8821,6 +8848,9 @@ namespace fakeit {
                                                                   R (C::*vMethod)(arglist...)) {
             if (!proxy.isMethodStubbed(vMethod)) {
                 proxy.template stubMethod<id>(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
+
+                if (!isOwner())
+                    proxy.suspendMethod(vMethod);
             }
             Destructible *d = proxy.getMethodMock(vMethod);
             RecordedMethodBody<R, arglist...> *methodMock = dynamic_cast<RecordedMethodBody<R, arglist...> *>(d);
diff --git a/single_header/mettle/fakeit.hpp b/single_header/mettle/fakeit.hpp
index 5c0d494..a6af8a4 100644
--- a/single_header/mettle/fakeit.hpp
+++ b/single_header/mettle/fakeit.hpp
@@ -1234,6 +1234,7 @@ static fakeit::DefaultFakeit& Fakeit = fakeit::MettleFakeit::getInstance();
 #undef max
 #include <functional>
 #include <type_traits>
+#include <map>
 #include <vector>
 #include <array>
 #include <new>
@@ -6062,6 +6063,7 @@ namespace fakeit {
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
+            _suspendedProxies = {};
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -6154,6 +6156,23 @@ namespace fakeit {
             }};
         }
 
+
+        template<typename R, typename ... arglist>
+        void suspendMethod(R(C::*vMethod)(arglist...)) {
+            auto offset = VTUtils::getOffset(vMethod);
+            _suspendedProxies[offset] = getFake().getVirtualTable().getMethod(offset);
+            getFake().setMethod(offset, getOriginalVT().getMethod(offset));
+        }
+
+        template<typename R, typename ... arglist>
+        void resumeMethod(R(C::*vMethod)(arglist...)) {
+            auto proxy = _suspendedProxies.find(VTUtils::getOffset(vMethod));
+            if (proxy != _suspendedProxies.end()) {
+                getFake().setMethod(proxy->first, proxy->second);
+                _suspendedProxies.erase(proxy);
+            }
+        }
+
     private:
 
         template<typename DataType, typename ... arglist>
@@ -6181,6 +6200,7 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
         std::vector<std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
+        std::map<unsigned int, void *> _suspendedProxies;
         InvocationHandlers _invocationHandlers;
 
         FakeObject<C, baseclasses...> &getFake() {
@@ -7686,7 +7706,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<R, valuelist...> vals_tuple;
+                ArgumentsTuple<R, typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<R>(r), std::forward<valuelist>(arg_vals)...);
@@ -7829,7 +7849,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<valuelist...> vals_tuple;
+                ArgumentsTuple<typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<valuelist>(arg_vals)...);
@@ -7869,7 +7889,7 @@ namespace fakeit {
         {
             ArgValue(T &&v): value ( std::forward<T>(v) ) {}
             constexpr static int pos = N;
-            T value;
+            typename std::decay<T>::type value;
         };
 
         template <int max_index, int tuple_index>
@@ -8756,6 +8776,13 @@ namespace fakeit {
             UniqueMethodMockingContextImpl(MockImpl<C, baseclasses...> &mock, R (C::*vMethod)(arglist...))
                     : MethodMockingContextImpl<R, arglist...>(mock, vMethod) {
             }
+
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) override {
+                MethodMockingContextBase<R, arglist...>::addMethodInvocationHandler(matcher, invocationHandler);
+                MethodMockingContextBase<R, arglist...>::_mock._proxy.resumeMethod(
+                        MethodMockingContextImpl<R, arglist...>::_vMethod);
+            }
         };
 
         class DtorMockingContextImpl : public MethodMockingContextBase<void> {
@@ -8843,6 +8870,9 @@ namespace fakeit {
                                                                   R (C::*vMethod)(arglist...)) {
             if (!proxy.isMethodStubbed(vMethod)) {
                 proxy.template stubMethod<id>(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
+
+                if (!isOwner())
+                    proxy.suspendMethod(vMethod);
             }
             Destructible *d = proxy.getMethodMock(vMethod);
             RecordedMethodBody<R, arglist...> *methodMock = dynamic_cast<RecordedMethodBody<R, arglist...> *>(d);
diff --git a/single_header/mstest/fakeit.hpp b/single_header/mstest/fakeit.hpp
index bd02001..27460be 100644
--- a/single_header/mstest/fakeit.hpp
+++ b/single_header/mstest/fakeit.hpp
@@ -1236,6 +1236,7 @@ static fakeit::DefaultFakeit& Fakeit = fakeit::MsTestFakeit::getInstance();
 #undef max
 #include <functional>
 #include <type_traits>
+#include <map>
 #include <vector>
 #include <array>
 #include <new>
@@ -6064,6 +6065,7 @@ namespace fakeit {
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
+            _suspendedProxies = {};
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -6156,6 +6158,23 @@ namespace fakeit {
             }};
         }
 
+
+        template<typename R, typename ... arglist>
+        void suspendMethod(R(C::*vMethod)(arglist...)) {
+            auto offset = VTUtils::getOffset(vMethod);
+            _suspendedProxies[offset] = getFake().getVirtualTable().getMethod(offset);
+            getFake().setMethod(offset, getOriginalVT().getMethod(offset));
+        }
+
+        template<typename R, typename ... arglist>
+        void resumeMethod(R(C::*vMethod)(arglist...)) {
+            auto proxy = _suspendedProxies.find(VTUtils::getOffset(vMethod));
+            if (proxy != _suspendedProxies.end()) {
+                getFake().setMethod(proxy->first, proxy->second);
+                _suspendedProxies.erase(proxy);
+            }
+        }
+
     private:
 
         template<typename DataType, typename ... arglist>
@@ -6183,6 +6202,7 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
         std::vector<std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
+        std::map<unsigned int, void *> _suspendedProxies;
         InvocationHandlers _invocationHandlers;
 
         FakeObject<C, baseclasses...> &getFake() {
@@ -7688,7 +7708,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<R, valuelist...> vals_tuple;
+                ArgumentsTuple<R, typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<R>(r), std::forward<valuelist>(arg_vals)...);
@@ -7831,7 +7851,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<valuelist...> vals_tuple;
+                ArgumentsTuple<typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<valuelist>(arg_vals)...);
@@ -7871,7 +7891,7 @@ namespace fakeit {
         {
             ArgValue(T &&v): value ( std::forward<T>(v) ) {}
             constexpr static int pos = N;
-            T value;
+            typename std::decay<T>::type value;
         };
 
         template <int max_index, int tuple_index>
@@ -8758,6 +8778,13 @@ namespace fakeit {
             UniqueMethodMockingContextImpl(MockImpl<C, baseclasses...> &mock, R (C::*vMethod)(arglist...))
                     : MethodMockingContextImpl<R, arglist...>(mock, vMethod) {
             }
+
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) override {
+                MethodMockingContextBase<R, arglist...>::addMethodInvocationHandler(matcher, invocationHandler);
+                MethodMockingContextBase<R, arglist...>::_mock._proxy.resumeMethod(
+                        MethodMockingContextImpl<R, arglist...>::_vMethod);
+            }
         };
 
         class DtorMockingContextImpl : public MethodMockingContextBase<void> {
@@ -8845,6 +8872,9 @@ namespace fakeit {
                                                                   R (C::*vMethod)(arglist...)) {
             if (!proxy.isMethodStubbed(vMethod)) {
                 proxy.template stubMethod<id>(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
+
+                if (!isOwner())
+                    proxy.suspendMethod(vMethod);
             }
             Destructible *d = proxy.getMethodMock(vMethod);
             RecordedMethodBody<R, arglist...> *methodMock = dynamic_cast<RecordedMethodBody<R, arglist...> *>(d);
diff --git a/single_header/nunit/fakeit.hpp b/single_header/nunit/fakeit.hpp
index c480551..02d52fc 100644
--- a/single_header/nunit/fakeit.hpp
+++ b/single_header/nunit/fakeit.hpp
@@ -1219,6 +1219,7 @@ static fakeit::MethodInfo& scopeFixer = fakeit::UnknownMethod::instance();
 #undef max
 #include <functional>
 #include <type_traits>
+#include <map>
 #include <vector>
 #include <array>
 #include <new>
@@ -6047,6 +6048,7 @@ namespace fakeit {
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
+            _suspendedProxies = {};
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -6139,6 +6141,23 @@ namespace fakeit {
             }};
         }
 
+
+        template<typename R, typename ... arglist>
+        void suspendMethod(R(C::*vMethod)(arglist...)) {
+            auto offset = VTUtils::getOffset(vMethod);
+            _suspendedProxies[offset] = getFake().getVirtualTable().getMethod(offset);
+            getFake().setMethod(offset, getOriginalVT().getMethod(offset));
+        }
+
+        template<typename R, typename ... arglist>
+        void resumeMethod(R(C::*vMethod)(arglist...)) {
+            auto proxy = _suspendedProxies.find(VTUtils::getOffset(vMethod));
+            if (proxy != _suspendedProxies.end()) {
+                getFake().setMethod(proxy->first, proxy->second);
+                _suspendedProxies.erase(proxy);
+            }
+        }
+
     private:
 
         template<typename DataType, typename ... arglist>
@@ -6166,6 +6185,7 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
         std::vector<std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
+        std::map<unsigned int, void *> _suspendedProxies;
         InvocationHandlers _invocationHandlers;
 
         FakeObject<C, baseclasses...> &getFake() {
@@ -7671,7 +7691,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<R, valuelist...> vals_tuple;
+                ArgumentsTuple<R, typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<R>(r), std::forward<valuelist>(arg_vals)...);
@@ -7814,7 +7834,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<valuelist...> vals_tuple;
+                ArgumentsTuple<typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<valuelist>(arg_vals)...);
@@ -7854,7 +7874,7 @@ namespace fakeit {
         {
             ArgValue(T &&v): value ( std::forward<T>(v) ) {}
             constexpr static int pos = N;
-            T value;
+            typename std::decay<T>::type value;
         };
 
         template <int max_index, int tuple_index>
@@ -8741,6 +8761,13 @@ namespace fakeit {
             UniqueMethodMockingContextImpl(MockImpl<C, baseclasses...> &mock, R (C::*vMethod)(arglist...))
                     : MethodMockingContextImpl<R, arglist...>(mock, vMethod) {
             }
+
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) override {
+                MethodMockingContextBase<R, arglist...>::addMethodInvocationHandler(matcher, invocationHandler);
+                MethodMockingContextBase<R, arglist...>::_mock._proxy.resumeMethod(
+                        MethodMockingContextImpl<R, arglist...>::_vMethod);
+            }
         };
 
         class DtorMockingContextImpl : public MethodMockingContextBase<void> {
@@ -8828,6 +8855,9 @@ namespace fakeit {
                                                                   R (C::*vMethod)(arglist...)) {
             if (!proxy.isMethodStubbed(vMethod)) {
                 proxy.template stubMethod<id>(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
+
+                if (!isOwner())
+                    proxy.suspendMethod(vMethod);
             }
             Destructible *d = proxy.getMethodMock(vMethod);
             RecordedMethodBody<R, arglist...> *methodMock = dynamic_cast<RecordedMethodBody<R, arglist...> *>(d);
diff --git a/single_header/qtest/fakeit.hpp b/single_header/qtest/fakeit.hpp
index 1e92c86..8b54abc 100644
--- a/single_header/qtest/fakeit.hpp
+++ b/single_header/qtest/fakeit.hpp
@@ -1220,6 +1220,7 @@ static fakeit::DefaultFakeit& Fakeit = fakeit::QTestFakeit::getInstance();
 #undef max
 #include <functional>
 #include <type_traits>
+#include <map>
 #include <vector>
 #include <array>
 #include <new>
@@ -6048,6 +6049,7 @@ namespace fakeit {
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
+            _suspendedProxies = {};
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -6140,6 +6142,23 @@ namespace fakeit {
             }};
         }
 
+
+        template<typename R, typename ... arglist>
+        void suspendMethod(R(C::*vMethod)(arglist...)) {
+            auto offset = VTUtils::getOffset(vMethod);
+            _suspendedProxies[offset] = getFake().getVirtualTable().getMethod(offset);
+            getFake().setMethod(offset, getOriginalVT().getMethod(offset));
+        }
+
+        template<typename R, typename ... arglist>
+        void resumeMethod(R(C::*vMethod)(arglist...)) {
+            auto proxy = _suspendedProxies.find(VTUtils::getOffset(vMethod));
+            if (proxy != _suspendedProxies.end()) {
+                getFake().setMethod(proxy->first, proxy->second);
+                _suspendedProxies.erase(proxy);
+            }
+        }
+
     private:
 
         template<typename DataType, typename ... arglist>
@@ -6167,6 +6186,7 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
         std::vector<std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
+        std::map<unsigned int, void *> _suspendedProxies;
         InvocationHandlers _invocationHandlers;
 
         FakeObject<C, baseclasses...> &getFake() {
@@ -7672,7 +7692,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<R, valuelist...> vals_tuple;
+                ArgumentsTuple<R, typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<R>(r), std::forward<valuelist>(arg_vals)...);
@@ -7815,7 +7835,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<valuelist...> vals_tuple;
+                ArgumentsTuple<typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<valuelist>(arg_vals)...);
@@ -7855,7 +7875,7 @@ namespace fakeit {
         {
             ArgValue(T &&v): value ( std::forward<T>(v) ) {}
             constexpr static int pos = N;
-            T value;
+            typename std::decay<T>::type value;
         };
 
         template <int max_index, int tuple_index>
@@ -8742,6 +8762,13 @@ namespace fakeit {
             UniqueMethodMockingContextImpl(MockImpl<C, baseclasses...> &mock, R (C::*vMethod)(arglist...))
                     : MethodMockingContextImpl<R, arglist...>(mock, vMethod) {
             }
+
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) override {
+                MethodMockingContextBase<R, arglist...>::addMethodInvocationHandler(matcher, invocationHandler);
+                MethodMockingContextBase<R, arglist...>::_mock._proxy.resumeMethod(
+                        MethodMockingContextImpl<R, arglist...>::_vMethod);
+            }
         };
 
         class DtorMockingContextImpl : public MethodMockingContextBase<void> {
@@ -8829,6 +8856,9 @@ namespace fakeit {
                                                                   R (C::*vMethod)(arglist...)) {
             if (!proxy.isMethodStubbed(vMethod)) {
                 proxy.template stubMethod<id>(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
+
+                if (!isOwner())
+                    proxy.suspendMethod(vMethod);
             }
             Destructible *d = proxy.getMethodMock(vMethod);
             RecordedMethodBody<R, arglist...> *methodMock = dynamic_cast<RecordedMethodBody<R, arglist...> *>(d);
diff --git a/single_header/standalone/fakeit.hpp b/single_header/standalone/fakeit.hpp
index 99dba56..79981cb 100644
--- a/single_header/standalone/fakeit.hpp
+++ b/single_header/standalone/fakeit.hpp
@@ -1288,6 +1288,7 @@ static fakeit::DefaultFakeit& Fakeit = fakeit::StandaloneFakeit::getInstance();
 #undef max
 #include <functional>
 #include <type_traits>
+#include <map>
 #include <vector>
 #include <array>
 #include <new>
@@ -6116,6 +6117,7 @@ namespace fakeit {
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
+            _suspendedProxies = {};
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -6208,6 +6210,23 @@ namespace fakeit {
             }};
         }
 
+
+        template<typename R, typename ... arglist>
+        void suspendMethod(R(C::*vMethod)(arglist...)) {
+            auto offset = VTUtils::getOffset(vMethod);
+            _suspendedProxies[offset] = getFake().getVirtualTable().getMethod(offset);
+            getFake().setMethod(offset, getOriginalVT().getMethod(offset));
+        }
+
+        template<typename R, typename ... arglist>
+        void resumeMethod(R(C::*vMethod)(arglist...)) {
+            auto proxy = _suspendedProxies.find(VTUtils::getOffset(vMethod));
+            if (proxy != _suspendedProxies.end()) {
+                getFake().setMethod(proxy->first, proxy->second);
+                _suspendedProxies.erase(proxy);
+            }
+        }
+
     private:
 
         template<typename DataType, typename ... arglist>
@@ -6235,6 +6254,7 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
         std::vector<std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
+        std::map<unsigned int, void *> _suspendedProxies;
         InvocationHandlers _invocationHandlers;
 
         FakeObject<C, baseclasses...> &getFake() {
@@ -7740,7 +7760,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<R, valuelist...> vals_tuple;
+                ArgumentsTuple<R, typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<R>(r), std::forward<valuelist>(arg_vals)...);
@@ -7883,7 +7903,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<valuelist...> vals_tuple;
+                ArgumentsTuple<typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<valuelist>(arg_vals)...);
@@ -7923,7 +7943,7 @@ namespace fakeit {
         {
             ArgValue(T &&v): value ( std::forward<T>(v) ) {}
             constexpr static int pos = N;
-            T value;
+            typename std::decay<T>::type value;
         };
 
         template <int max_index, int tuple_index>
@@ -8810,6 +8830,13 @@ namespace fakeit {
             UniqueMethodMockingContextImpl(MockImpl<C, baseclasses...> &mock, R (C::*vMethod)(arglist...))
                     : MethodMockingContextImpl<R, arglist...>(mock, vMethod) {
             }
+
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) override {
+                MethodMockingContextBase<R, arglist...>::addMethodInvocationHandler(matcher, invocationHandler);
+                MethodMockingContextBase<R, arglist...>::_mock._proxy.resumeMethod(
+                        MethodMockingContextImpl<R, arglist...>::_vMethod);
+            }
         };
 
         class DtorMockingContextImpl : public MethodMockingContextBase<void> {
@@ -8897,6 +8924,9 @@ namespace fakeit {
                                                                   R (C::*vMethod)(arglist...)) {
             if (!proxy.isMethodStubbed(vMethod)) {
                 proxy.template stubMethod<id>(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
+
+                if (!isOwner())
+                    proxy.suspendMethod(vMethod);
             }
             Destructible *d = proxy.getMethodMock(vMethod);
             RecordedMethodBody<R, arglist...> *methodMock = dynamic_cast<RecordedMethodBody<R, arglist...> *>(d);
diff --git a/single_header/tpunit/fakeit.hpp b/single_header/tpunit/fakeit.hpp
index ff4e23f..c57f36c 100644
--- a/single_header/tpunit/fakeit.hpp
+++ b/single_header/tpunit/fakeit.hpp
@@ -1271,6 +1271,7 @@ static fakeit::DefaultFakeit& Fakeit = fakeit::TpUnitFakeit::getInstance();
 #undef max
 #include <functional>
 #include <type_traits>
+#include <map>
 #include <vector>
 #include <array>
 #include <new>
@@ -6099,6 +6100,7 @@ namespace fakeit {
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
+            _suspendedProxies = {};
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
@@ -6191,6 +6193,23 @@ namespace fakeit {
             }};
         }
 
+
+        template<typename R, typename ... arglist>
+        void suspendMethod(R(C::*vMethod)(arglist...)) {
+            auto offset = VTUtils::getOffset(vMethod);
+            _suspendedProxies[offset] = getFake().getVirtualTable().getMethod(offset);
+            getFake().setMethod(offset, getOriginalVT().getMethod(offset));
+        }
+
+        template<typename R, typename ... arglist>
+        void resumeMethod(R(C::*vMethod)(arglist...)) {
+            auto proxy = _suspendedProxies.find(VTUtils::getOffset(vMethod));
+            if (proxy != _suspendedProxies.end()) {
+                getFake().setMethod(proxy->first, proxy->second);
+                _suspendedProxies.erase(proxy);
+            }
+        }
+
     private:
 
         template<typename DataType, typename ... arglist>
@@ -6218,6 +6237,7 @@ namespace fakeit {
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
         std::vector<std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
+        std::map<unsigned int, void *> _suspendedProxies;
         InvocationHandlers _invocationHandlers;
 
         FakeObject<C, baseclasses...> &getFake() {
@@ -7723,7 +7743,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<R, valuelist...> vals_tuple;
+                ArgumentsTuple<R, typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<R>(r), std::forward<valuelist>(arg_vals)...);
@@ -7866,7 +7886,7 @@ namespace fakeit {
                 }
 
             private:
-                ArgumentsTuple<valuelist...> vals_tuple;
+                ArgumentsTuple<typename std::decay<valuelist>::type...> vals_tuple;
             };
 
             return Lambda(std::forward<valuelist>(arg_vals)...);
@@ -7906,7 +7926,7 @@ namespace fakeit {
         {
             ArgValue(T &&v): value ( std::forward<T>(v) ) {}
             constexpr static int pos = N;
-            T value;
+            typename std::decay<T>::type value;
         };
 
         template <int max_index, int tuple_index>
@@ -8793,6 +8813,13 @@ namespace fakeit {
             UniqueMethodMockingContextImpl(MockImpl<C, baseclasses...> &mock, R (C::*vMethod)(arglist...))
                     : MethodMockingContextImpl<R, arglist...>(mock, vMethod) {
             }
+
+            void addMethodInvocationHandler(std::shared_ptr<typename ActualInvocation<arglist...>::Matcher> matcher,
+                std::shared_ptr<ActualInvocationHandler<R, arglist...>> invocationHandler) override {
+                MethodMockingContextBase<R, arglist...>::addMethodInvocationHandler(matcher, invocationHandler);
+                MethodMockingContextBase<R, arglist...>::_mock._proxy.resumeMethod(
+                        MethodMockingContextImpl<R, arglist...>::_vMethod);
+            }
         };
 
         class DtorMockingContextImpl : public MethodMockingContextBase<void> {
@@ -8880,6 +8907,9 @@ namespace fakeit {
                                                                   R (C::*vMethod)(arglist...)) {
             if (!proxy.isMethodStubbed(vMethod)) {
                 proxy.template stubMethod<id>(vMethod, createRecordedMethodBody < R, arglist... > (*this, vMethod));
+
+                if (!isOwner())
+                    proxy.suspendMethod(vMethod);
             }
             Destructible *d = proxy.getMethodMock(vMethod);
             RecordedMethodBody<R, arglist...> *methodMock = dynamic_cast<RecordedMethodBody<R, arglist...> *>(d);
-- 
2.43.0


From faaacfeb65c2c4a622dfe706bca89fc52b1d5474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:54 +0000
Subject: [PATCH 13/23] fix: give every stubbing statement of a stored method
 handle its own actions

The actions of a second statement were appended to the first one, and the
actions of an abandoned statement were kept and run later.
---
 include/fakeit/MethodMockingContext.hpp | 12 ++++++++++++
 include/fakeit/WhenFunctor.hpp          |  1 +
 include/fakeit/Xaction.hpp              |  2 ++
 3 files changed, 15 insertions(+)

diff --git a/include/fakeit/MethodMockingContext.hpp b/include/fakeit/MethodMockingContext.hpp
index 029c278..6a9a383 100644
--- a/include/fakeit/MethodMockingContext.hpp
+++ b/include/fakeit/MethodMockingContext.hpp
@@ -127,8 +127,16 @@ namespace fakeit {
                 return _invocationMatcher->matches(actualInvocation);
             }
 
+            /**
+             * Every stubbing statement records its own actions, also when a stored context is used again.
+             */
+            void begin() {
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
+            }
+
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
+                begin();
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -212,6 +220,10 @@ namespace fakeit {
             return _impl->matches(invocation);
         }
 
+        void begin() override {
+            _impl->begin();
+        }
+
         void commit() override {
             _impl->commit();
         }
diff --git a/include/fakeit/WhenFunctor.hpp b/include/fakeit/WhenFunctor.hpp
index 21bb34b..a596b2e 100644
--- a/include/fakeit/WhenFunctor.hpp
+++ b/include/fakeit/WhenFunctor.hpp
@@ -41,6 +41,7 @@ namespace fakeit {
 
             StubbingChange(Xaction &xaction)
                     : _xaction(xaction) {
+                _xaction.begin();
             }
 
             Xaction &_xaction;
diff --git a/include/fakeit/Xaction.hpp b/include/fakeit/Xaction.hpp
index be95c27..5e798d4 100644
--- a/include/fakeit/Xaction.hpp
+++ b/include/fakeit/Xaction.hpp
@@ -11,6 +11,8 @@
 namespace fakeit {
 
     struct Xaction {
+        virtual void begin() = 0;
+
         virtual void commit() = 0;
     };
 }
-- 
2.43.0


From e67b95ac5f655c46cd520b6e9bf8aff0a584a3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:58 +0000
Subject: [PATCH 14/23] fix: carry the stored handle fix into the packaged
 single headers

---
 single_header/boost/fakeit.hpp      | 13 +++++++++++++
 single_header/catch/fakeit.hpp      | 13 +++++++++++++
 single_header/cute/fakeit.hpp       | 13 +++++++++++++
 single_header/doctest/fakeit.hpp    | 13 +++++++++++++
 single_header/gtest/fakeit.hpp      | 13 +++++++++++++
 single_header/mettle/fakeit.hpp     | 13 +++++++++++++
 single_header/mstest/fakeit.hpp     | 13 +++++++++++++
 single_header/nunit/fakeit.hpp      | 13 +++++++++++++
 single_header/qtest/fakeit.hpp      | 13 +++++++++++++
 single_header/standalone/fakeit.hpp | 13 +++++++++++++
 single_header/tpunit/fakeit.hpp     | 13 +++++++++++++
 11 files changed, 143 insertions(+)

diff --git a/single_header/boost/fakeit.hpp b/single_header/boost/fakeit.hpp
index 361af0a..56f1243 100644
--- a/single_header/boost/fakeit.hpp
+++ b/single_header/boost/fakeit.hpp
@@ -8132,6 +8132,8 @@ namespace fakeit {
 namespace fakeit {
 
     struct Xaction {
+        virtual void begin() = 0;
+
         virtual void commit() = 0;
     };
 }
@@ -8317,8 +8319,14 @@ namespace fakeit {
                 return _invocationMatcher->matches(actualInvocation);
             }
 
+
+            void begin() {
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
+            }
+
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
+                begin();
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8396,6 +8404,10 @@ namespace fakeit {
             return _impl->matches(invocation);
         }
 
+        void begin() override {
+            _impl->begin();
+        }
+
         void commit() override {
             _impl->commit();
         }
@@ -9211,6 +9223,7 @@ namespace fakeit {
 
             StubbingChange(Xaction &xaction)
                     : _xaction(xaction) {
+                _xaction.begin();
             }
 
             Xaction &_xaction;
diff --git a/single_header/catch/fakeit.hpp b/single_header/catch/fakeit.hpp
index 011ca4d..cdd4924 100644
--- a/single_header/catch/fakeit.hpp
+++ b/single_header/catch/fakeit.hpp
@@ -8170,6 +8170,8 @@ namespace fakeit {
 namespace fakeit {
 
     struct Xaction {
+        virtual void begin() = 0;
+
         virtual void commit() = 0;
     };
 }
@@ -8355,8 +8357,14 @@ namespace fakeit {
                 return _invocationMatcher->matches(actualInvocation);
             }
 
+
+            void begin() {
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
+            }
+
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
+                begin();
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8434,6 +8442,10 @@ namespace fakeit {
             return _impl->matches(invocation);
         }
 
+        void begin() override {
+            _impl->begin();
+        }
+
         void commit() override {
             _impl->commit();
         }
@@ -9249,6 +9261,7 @@ namespace fakeit {
 
             StubbingChange(Xaction &xaction)
                     : _xaction(xaction) {
+                _xaction.begin();
             }
 
             Xaction &_xaction;
diff --git a/single_header/cute/fakeit.hpp b/single_header/cute/fakeit.hpp
index 165d556..be45239 100644
--- a/single_header/cute/fakeit.hpp
+++ b/single_header/cute/fakeit.hpp
@@ -8097,6 +8097,8 @@ namespace fakeit {
 namespace fakeit {
 
     struct Xaction {
+        virtual void begin() = 0;
+
         virtual void commit() = 0;
     };
 }
@@ -8282,8 +8284,14 @@ namespace fakeit {
                 return _invocationMatcher->matches(actualInvocation);
             }
 
+
+            void begin() {
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
+            }
+
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
+                begin();
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8361,6 +8369,10 @@ namespace fakeit {
             return _impl->matches(invocation);
         }
 
+        void begin() override {
+            _impl->begin();
+        }
+
         void commit() override {
             _impl->commit();
         }
@@ -9176,6 +9188,7 @@ namespace fakeit {
 
             StubbingChange(Xaction &xaction)
                     : _xaction(xaction) {
+                _xaction.begin();
             }
 
             Xaction &_xaction;
diff --git a/single_header/doctest/fakeit.hpp b/single_header/doctest/fakeit.hpp
index e74113a..d778cf9 100644
--- a/single_header/doctest/fakeit.hpp
+++ b/single_header/doctest/fakeit.hpp
@@ -8125,6 +8125,8 @@ namespace fakeit {
 namespace fakeit {
 
     struct Xaction {
+        virtual void begin() = 0;
+
         virtual void commit() = 0;
     };
 }
@@ -8310,8 +8312,14 @@ namespace fakeit {
                 return _invocationMatcher->matches(actualInvocation);
             }
 
+
+            void begin() {
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
+            }
+
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
+                begin();
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8389,6 +8397,10 @@ namespace fakeit {
             return _impl->matches(invocation);
         }
 
+        void begin() override {
+            _impl->begin();
+        }
+
         void commit() override {
             _impl->commit();
         }
@@ -9204,6 +9216,7 @@ namespace fakeit {
 
             StubbingChange(Xaction &xaction)
                     : _xaction(xaction) {
+                _xaction.begin();
             }
 
             Xaction &_xaction;
diff --git a/single_header/gtest/fakeit.hpp b/single_header/gtest/fakeit.hpp
index bc3ea65..a31d17f 100644
--- a/single_header/gtest/fakeit.hpp
+++ b/single_header/gtest/fakeit.hpp
@@ -8097,6 +8097,8 @@ namespace fakeit {
 namespace fakeit {
 
     struct Xaction {
+        virtual void begin() = 0;
+
         virtual void commit() = 0;
     };
 }
@@ -8282,8 +8284,14 @@ namespace fakeit {
                 return _invocationMatcher->matches(actualInvocation);
             }
 
+
+            void begin() {
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
+            }
+
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
+                begin();
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8361,6 +8369,10 @@ namespace fakeit {
             return _impl->matches(invocation);
         }
 
+        void begin() override {
+            _impl->begin();
+        }
+
         void commit() override {
             _impl->commit();
         }
@@ -9176,6 +9188,7 @@ namespace fakeit {
 
             StubbingChange(Xaction &xaction)
                     : _xaction(xaction) {
+                _xaction.begin();
             }
 
             Xaction &_xaction;
diff --git a/single_header/mettle/fakeit.hpp b/single_header/mettle/fakeit.hpp
index a6af8a4..94f6766 100644
--- a/single_header/mettle/fakeit.hpp
+++ b/single_header/mettle/fakeit.hpp
@@ -8119,6 +8119,8 @@ namespace fakeit {
 namespace fakeit {
 
     struct Xaction {
+        virtual void begin() = 0;
+
         virtual void commit() = 0;
     };
 }
@@ -8304,8 +8306,14 @@ namespace fakeit {
                 return _invocationMatcher->matches(actualInvocation);
             }
 
+
+            void begin() {
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
+            }
+
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
+                begin();
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8383,6 +8391,10 @@ namespace fakeit {
             return _impl->matches(invocation);
         }
 
+        void begin() override {
+            _impl->begin();
+        }
+
         void commit() override {
             _impl->commit();
         }
@@ -9198,6 +9210,7 @@ namespace fakeit {
 
             StubbingChange(Xaction &xaction)
                     : _xaction(xaction) {
+                _xaction.begin();
             }
 
             Xaction &_xaction;
diff --git a/single_header/mstest/fakeit.hpp b/single_header/mstest/fakeit.hpp
index 27460be..b1f7e2a 100644
--- a/single_header/mstest/fakeit.hpp
+++ b/single_header/mstest/fakeit.hpp
@@ -8121,6 +8121,8 @@ namespace fakeit {
 namespace fakeit {
 
     struct Xaction {
+        virtual void begin() = 0;
+
         virtual void commit() = 0;
     };
 }
@@ -8306,8 +8308,14 @@ namespace fakeit {
                 return _invocationMatcher->matches(actualInvocation);
             }
 
+
+            void begin() {
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
+            }
+
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
+                begin();
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8385,6 +8393,10 @@ namespace fakeit {
             return _impl->matches(invocation);
         }
 
+        void begin() override {
+            _impl->begin();
+        }
+
         void commit() override {
             _impl->commit();
         }
@@ -9200,6 +9212,7 @@ namespace fakeit {
 
             StubbingChange(Xaction &xaction)
                     : _xaction(xaction) {
+                _xaction.begin();
             }
 
             Xaction &_xaction;
diff --git a/single_header/nunit/fakeit.hpp b/single_header/nunit/fakeit.hpp
index 02d52fc..025d633 100644
--- a/single_header/nunit/fakeit.hpp
+++ b/single_header/nunit/fakeit.hpp
@@ -8104,6 +8104,8 @@ namespace fakeit {
 namespace fakeit {
 
     struct Xaction {
+        virtual void begin() = 0;
+
         virtual void commit() = 0;
     };
 }
@@ -8289,8 +8291,14 @@ namespace fakeit {
                 return _invocationMatcher->matches(actualInvocation);
             }
 
+
+            void begin() {
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
+            }
+
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
+                begin();
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8368,6 +8376,10 @@ namespace fakeit {
             return _impl->matches(invocation);
         }
 
+        void begin() override {
+            _impl->begin();
+        }
+
         void commit() override {
             _impl->commit();
         }
@@ -9183,6 +9195,7 @@ namespace fakeit {
 
             StubbingChange(Xaction &xaction)
                     : _xaction(xaction) {
+                _xaction.begin();
             }
 
             Xaction &_xaction;
diff --git a/single_header/qtest/fakeit.hpp b/single_header/qtest/fakeit.hpp
index 8b54abc..856e8bb 100644
--- a/single_header/qtest/fakeit.hpp
+++ b/single_header/qtest/fakeit.hpp
@@ -8105,6 +8105,8 @@ namespace fakeit {
 namespace fakeit {
 
     struct Xaction {
+        virtual void begin() = 0;
+
         virtual void commit() = 0;
     };
 }
@@ -8290,8 +8292,14 @@ namespace fakeit {
                 return _invocationMatcher->matches(actualInvocation);
             }
 
+
+            void begin() {
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
+            }
+
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
+                begin();
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8369,6 +8377,10 @@ namespace fakeit {
             return _impl->matches(invocation);
         }
 
+        void begin() override {
+            _impl->begin();
+        }
+
         void commit() override {
             _impl->commit();
         }
@@ -9184,6 +9196,7 @@ namespace fakeit {
 
             StubbingChange(Xaction &xaction)
                     : _xaction(xaction) {
+                _xaction.begin();
             }
 
             Xaction &_xaction;
diff --git a/single_header/standalone/fakeit.hpp b/single_header/standalone/fakeit.hpp
index 79981cb..fb227e0 100644
--- a/single_header/standalone/fakeit.hpp
+++ b/single_header/standalone/fakeit.hpp
@@ -8173,6 +8173,8 @@ namespace fakeit {
 namespace fakeit {
 
     struct Xaction {
+        virtual void begin() = 0;
+
         virtual void commit() = 0;
     };
 }
@@ -8358,8 +8360,14 @@ namespace fakeit {
                 return _invocationMatcher->matches(actualInvocation);
             }
 
+
+            void begin() {
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
+            }
+
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
+                begin();
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8437,6 +8445,10 @@ namespace fakeit {
             return _impl->matches(invocation);
         }
 
+        void begin() override {
+            _impl->begin();
+        }
+
         void commit() override {
             _impl->commit();
         }
@@ -9252,6 +9264,7 @@ namespace fakeit {
 
             StubbingChange(Xaction &xaction)
                     : _xaction(xaction) {
+                _xaction.begin();
             }
 
             Xaction &_xaction;
diff --git a/single_header/tpunit/fakeit.hpp b/single_header/tpunit/fakeit.hpp
index c57f36c..2f661a5 100644
--- a/single_header/tpunit/fakeit.hpp
+++ b/single_header/tpunit/fakeit.hpp
@@ -8156,6 +8156,8 @@ namespace fakeit {
 namespace fakeit {
 
     struct Xaction {
+        virtual void begin() = 0;
+
         virtual void commit() = 0;
     };
 }
@@ -8341,8 +8343,14 @@ namespace fakeit {
                 return _invocationMatcher->matches(actualInvocation);
             }
 
+
+            void begin() {
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
+            }
+
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
+                begin();
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8420,6 +8428,10 @@ namespace fakeit {
             return _impl->matches(invocation);
         }
 
+        void begin() override {
+            _impl->begin();
+        }
+
         void commit() override {
             _impl->commit();
         }
@@ -9235,6 +9247,7 @@ namespace fakeit {
 
             StubbingChange(Xaction &xaction)
                     : _xaction(xaction) {
+                _xaction.begin();
             }
 
             Xaction &_xaction;
-- 
2.43.0


From 5099ddeff5f8e2c0e286715947284d0fd3f91188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:28:34 +0000
Subject: [PATCH 15/23] fix: let the Catch adapter use the formatter in force

The adapter was created with the default formatter, so a formatter set with
setCustomEventFormatter had no effect on its messages. Hand it the
configuration itself, as the other adapters do.
---
 config/catch/CatchFakeit.hpp   | 2 +-
 single_header/catch/fakeit.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/config/catch/CatchFakeit.hpp b/config/catch/CatchFakeit.hpp
index 616a369..1261961 100644
--- a/config/catch/CatchFakeit.hpp
+++ b/config/catch/CatchFakeit.hpp
@@ -92,7 +92,7 @@ namespace fakeit {
 
         virtual ~CatchFakeit() = default;
 
-        CatchFakeit() : _formatter(), _catchAdapter(_formatter) {}
+        CatchFakeit() : _formatter(), _catchAdapter(*this) {}
 
         static CatchFakeit &getInstance() {
             static CatchFakeit instance;
diff --git a/single_header/catch/fakeit.hpp b/single_header/catch/fakeit.hpp
index cdd4924..6ecbdd6 100644
--- a/single_header/catch/fakeit.hpp
+++ b/single_header/catch/fakeit.hpp
@@ -1250,7 +1250,7 @@ namespace fakeit {
 
         virtual ~CatchFakeit() = default;
 
-        CatchFakeit() : _formatter(), _catchAdapter(_formatter) {}
+        CatchFakeit() : _formatter(), _catchAdapter(*this) {}
 
         static CatchFakeit &getInstance() {
             static CatchFakeit instance;
-- 
2.43.0


From e999ccdff30195fb1a11a0b3189bb2964b4d73f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:28:34 +0000
Subject: [PATCH 16/23] fix: destroy a stubbed data member exactly once

Stubbing the same data member a second time constructed a new object over
the first one and later destroyed the memory twice. Stubbing a data member
of an existing object was never matched by a destruction of the old value,
and the new value was destroyed by both the mock and the owner of the object.
---
 include/fakeit/MockImpl.hpp        |  6 +++++-
 include/mockutils/DynamicProxy.hpp | 19 ++++++++++++++-----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/fakeit/MockImpl.hpp b/include/fakeit/MockImpl.hpp
index 2673698..059273f 100644
--- a/include/fakeit/MockImpl.hpp
+++ b/include/fakeit/MockImpl.hpp
@@ -83,7 +83,11 @@ namespace fakeit {
 
         template<class DataType, typename T, typename ... arglist, class = typename std::enable_if<std::is_base_of<T, C>::value>::type>
         DataMemberStubbingRoot<C, DataType> stubDataMember(DataType T::*member, const arglist &... ctorargs) {
-            _proxy.stubDataMember(member, ctorargs...);
+            if (isOwner()) {
+                _proxy.stubDataMember(member, ctorargs...);
+            } else {
+                _proxy.replaceDataMember(member, ctorargs...);
+            }
             return DataMemberStubbingRoot<T, DataType>();
         }
 
diff --git a/include/mockutils/DynamicProxy.hpp b/include/mockutils/DynamicProxy.hpp
index cdd1c7e..1860a8b 100644
--- a/include/mockutils/DynamicProxy.hpp
+++ b/include/mockutils/DynamicProxy.hpp
@@ -155,10 +155,19 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
-            _members.push_back(
-                    std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
-                    {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
-                    initargs...)});
+            // Destroy the value of a previous stubbing first.
+            std::shared_ptr<Destructible> &wrapper = _members[memberPtr];
+            wrapper.reset();
+            wrapper.reset(new DataMemeberWrapper < DataType, arglist...>(memberPtr,
+                    initargs...));
+        }
+
+        // The member of an existing object is a live object: it is replaced, and destroyed by its owner.
+        template<typename DataType, typename ... arglist>
+        void replaceDataMember(DataType C::*member, const arglist &... initargs) {
+            DataType *memberPtr = &(get().*member);
+            memberPtr->~DataType();
+            new(memberPtr) DataType{initargs ...};
         }
 
         template<typename DataType>
@@ -230,7 +239,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
         //
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::map<void *, std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
         std::map<unsigned int, void *> _suspendedProxies;
         InvocationHandlers _invocationHandlers;
-- 
2.43.0


From ac14dc6ce5add1b3cd6f12075f88c916f241ceac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:29:07 +0000
Subject: [PATCH 17/23] fix: carry the data member fix into the packaged single
 headers

---
 single_header/boost/fakeit.hpp      | 25 +++++++++++++++++++------
 single_header/catch/fakeit.hpp      | 25 +++++++++++++++++++------
 single_header/cute/fakeit.hpp       | 25 +++++++++++++++++++------
 single_header/doctest/fakeit.hpp    | 25 +++++++++++++++++++------
 single_header/gtest/fakeit.hpp      | 25 +++++++++++++++++++------
 single_header/mettle/fakeit.hpp     | 25 +++++++++++++++++++------
 single_header/mstest/fakeit.hpp     | 25 +++++++++++++++++++------
 single_header/nunit/fakeit.hpp      | 25 +++++++++++++++++++------
 single_header/qtest/fakeit.hpp      | 25 +++++++++++++++++++------
 single_header/standalone/fakeit.hpp | 25 +++++++++++++++++++------
 single_header/tpunit/fakeit.hpp     | 25 +++++++++++++++++++------
 11 files changed, 209 insertions(+), 66 deletions(-)

diff --git a/single_header/boost/fakeit.hpp b/single_header/boost/fakeit.hpp
index 56f1243..05ecee0 100644
--- a/single_header/boost/fakeit.hpp
+++ b/single_header/boost/fakeit.hpp
@@ -6136,10 +6136,19 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
-            _members.push_back(
-                    std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
-                    {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
-                    initargs...)});
+
+            std::shared_ptr<Destructible> &wrapper = _members[memberPtr];
+            wrapper.reset();
+            wrapper.reset(new DataMemeberWrapper < DataType, arglist...>(memberPtr,
+                    initargs...));
+        }
+
+
+        template<typename DataType, typename ... arglist>
+        void replaceDataMember(DataType C::*member, const arglist &... initargs) {
+            DataType *memberPtr = &(get().*member);
+            memberPtr->~DataType();
+            new(memberPtr) DataType{initargs ...};
         }
 
         template<typename DataType>
@@ -6211,7 +6220,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
 
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::map<void *, std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
         std::map<unsigned int, void *> _suspendedProxies;
         InvocationHandlers _invocationHandlers;
@@ -8657,7 +8666,11 @@ namespace fakeit {
 
         template<class DataType, typename T, typename ... arglist, class = typename std::enable_if<std::is_base_of<T, C>::value>::type>
         DataMemberStubbingRoot<C, DataType> stubDataMember(DataType T::*member, const arglist &... ctorargs) {
-            _proxy.stubDataMember(member, ctorargs...);
+            if (isOwner()) {
+                _proxy.stubDataMember(member, ctorargs...);
+            } else {
+                _proxy.replaceDataMember(member, ctorargs...);
+            }
             return DataMemberStubbingRoot<T, DataType>();
         }
 
diff --git a/single_header/catch/fakeit.hpp b/single_header/catch/fakeit.hpp
index 6ecbdd6..bb76166 100644
--- a/single_header/catch/fakeit.hpp
+++ b/single_header/catch/fakeit.hpp
@@ -6174,10 +6174,19 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
-            _members.push_back(
-                    std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
-                    {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
-                    initargs...)});
+
+            std::shared_ptr<Destructible> &wrapper = _members[memberPtr];
+            wrapper.reset();
+            wrapper.reset(new DataMemeberWrapper < DataType, arglist...>(memberPtr,
+                    initargs...));
+        }
+
+
+        template<typename DataType, typename ... arglist>
+        void replaceDataMember(DataType C::*member, const arglist &... initargs) {
+            DataType *memberPtr = &(get().*member);
+            memberPtr->~DataType();
+            new(memberPtr) DataType{initargs ...};
         }
 
         template<typename DataType>
@@ -6249,7 +6258,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
 
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::map<void *, std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
         std::map<unsigned int, void *> _suspendedProxies;
         InvocationHandlers _invocationHandlers;
@@ -8695,7 +8704,11 @@ namespace fakeit {
 
         template<class DataType, typename T, typename ... arglist, class = typename std::enable_if<std::is_base_of<T, C>::value>::type>
         DataMemberStubbingRoot<C, DataType> stubDataMember(DataType T::*member, const arglist &... ctorargs) {
-            _proxy.stubDataMember(member, ctorargs...);
+            if (isOwner()) {
+                _proxy.stubDataMember(member, ctorargs...);
+            } else {
+                _proxy.replaceDataMember(member, ctorargs...);
+            }
             return DataMemberStubbingRoot<T, DataType>();
         }
 
diff --git a/single_header/cute/fakeit.hpp b/single_header/cute/fakeit.hpp
index be45239..2bf531d 100644
--- a/single_header/cute/fakeit.hpp
+++ b/single_header/cute/fakeit.hpp
@@ -6101,10 +6101,19 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
-            _members.push_back(
-                    std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
-                    {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
-                    initargs...)});
+
+            std::shared_ptr<Destructible> &wrapper = _members[memberPtr];
+            wrapper.reset();
+            wrapper.reset(new DataMemeberWrapper < DataType, arglist...>(memberPtr,
+                    initargs...));
+        }
+
+
+        template<typename DataType, typename ... arglist>
+        void replaceDataMember(DataType C::*member, const arglist &... initargs) {
+            DataType *memberPtr = &(get().*member);
+            memberPtr->~DataType();
+            new(memberPtr) DataType{initargs ...};
         }
 
         template<typename DataType>
@@ -6176,7 +6185,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
 
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::map<void *, std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
         std::map<unsigned int, void *> _suspendedProxies;
         InvocationHandlers _invocationHandlers;
@@ -8622,7 +8631,11 @@ namespace fakeit {
 
         template<class DataType, typename T, typename ... arglist, class = typename std::enable_if<std::is_base_of<T, C>::value>::type>
         DataMemberStubbingRoot<C, DataType> stubDataMember(DataType T::*member, const arglist &... ctorargs) {
-            _proxy.stubDataMember(member, ctorargs...);
+            if (isOwner()) {
+                _proxy.stubDataMember(member, ctorargs...);
+            } else {
+                _proxy.replaceDataMember(member, ctorargs...);
+            }
             return DataMemberStubbingRoot<T, DataType>();
         }
 
diff --git a/single_header/doctest/fakeit.hpp b/single_header/doctest/fakeit.hpp
index d778cf9..75c9cf5 100644
--- a/single_header/doctest/fakeit.hpp
+++ b/single_header/doctest/fakeit.hpp
@@ -6129,10 +6129,19 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
-            _members.push_back(
-                    std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
-                    {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
-                    initargs...)});
+
+            std::shared_ptr<Destructible> &wrapper = _members[memberPtr];
+            wrapper.reset();
+            wrapper.reset(new DataMemeberWrapper < DataType, arglist...>(memberPtr,
+                    initargs...));
+        }
+
+
+        template<typename DataType, typename ... arglist>
+        void replaceDataMember(DataType C::*member, const arglist &... initargs) {
+            DataType *memberPtr = &(get().*member);
+            memberPtr->~DataType();
+            new(memberPtr) DataType{initargs ...};
         }
 
         template<typename DataType>
@@ -6204,7 +6213,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
 
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::map<void *, std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
         std::map<unsigned int, void *> _suspendedProxies;
         InvocationHandlers _invocationHandlers;
@@ -8650,7 +8659,11 @@ namespace fakeit {
 
         template<class DataType, typename T, typename ... arglist, class = typename std::enable_if<std::is_base_of<T, C>::value>::type>
         DataMemberStubbingRoot<C, DataType> stubDataMember(DataType T::*member, const arglist &... ctorargs) {
-            _proxy.stubDataMember(member, ctorargs...);
+            if (isOwner()) {
+                _proxy.stubDataMember(member, ctorargs...);
+            } else {
+                _proxy.replaceDataMember(member, ctorargs...);
+            }
             return DataMemberStubbingRoot<T, DataType>();
         }
 
diff --git a/single_header/gtest/fakeit.hpp b/single_header/gtest/fakeit.hpp
index a31d17f..b225d01 100644
--- a/single_header/gtest/fakeit.hpp
+++ b/single_header/gtest/fakeit.hpp
@@ -6101,10 +6101,19 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
-            _members.push_back(
-                    std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
-                    {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
-                    initargs...)});
+
+            std::shared_ptr<Destructible> &wrapper = _members[memberPtr];
+            wrapper.reset();
+            wrapper.reset(new DataMemeberWrapper < DataType, arglist...>(memberPtr,
+                    initargs...));
+        }
+
+
+        template<typename DataType, typename ... arglist>
+        void replaceDataMember(DataType C::*member, const arglist &... initargs) {
+            DataType *memberPtr = &(get().*member);
+            memberPtr->~DataType();
+            new(memberPtr) DataType{initargs ...};
         }
 
         template<typename DataType>
@@ -6176,7 +6185,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
 
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::map<void *, std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
         std::map<unsigned int, void *> _suspendedProxies;
         InvocationHandlers _invocationHandlers;
@@ -8622,7 +8631,11 @@ namespace fakeit {
 
         template<class DataType, typename T, typename ... arglist, class = typename std::enable_if<std::is_base_of<T, C>::value>::type>
         DataMemberStubbingRoot<C, DataType> stubDataMember(DataType T::*member, const arglist &... ctorargs) {
-            _proxy.stubDataMember(member, ctorargs...);
+            if (isOwner()) {
+                _proxy.stubDataMember(member, ctorargs...);
+            } else {
+                _proxy.replaceDataMember(member, ctorargs...);
+            }
             return DataMemberStubbingRoot<T, DataType>();
         }
 
diff --git a/single_header/mettle/fakeit.hpp b/single_header/mettle/fakeit.hpp
index 94f6766..6ee6877 100644
--- a/single_header/mettle/fakeit.hpp
+++ b/single_header/mettle/fakeit.hpp
@@ -6123,10 +6123,19 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
-            _members.push_back(
-                    std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
-                    {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
-                    initargs...)});
+
+            std::shared_ptr<Destructible> &wrapper = _members[memberPtr];
+            wrapper.reset();
+            wrapper.reset(new DataMemeberWrapper < DataType, arglist...>(memberPtr,
+                    initargs...));
+        }
+
+
+        template<typename DataType, typename ... arglist>
+        void replaceDataMember(DataType C::*member, const arglist &... initargs) {
+            DataType *memberPtr = &(get().*member);
+            memberPtr->~DataType();
+            new(memberPtr) DataType{initargs ...};
         }
 
         template<typename DataType>
@@ -6198,7 +6207,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
 
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::map<void *, std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
         std::map<unsigned int, void *> _suspendedProxies;
         InvocationHandlers _invocationHandlers;
@@ -8644,7 +8653,11 @@ namespace fakeit {
 
         template<class DataType, typename T, typename ... arglist, class = typename std::enable_if<std::is_base_of<T, C>::value>::type>
         DataMemberStubbingRoot<C, DataType> stubDataMember(DataType T::*member, const arglist &... ctorargs) {
-            _proxy.stubDataMember(member, ctorargs...);
+            if (isOwner()) {
+                _proxy.stubDataMember(member, ctorargs...);
+            } else {
+                _proxy.replaceDataMember(member, ctorargs...);
+            }
             return DataMemberStubbingRoot<T, DataType>();
         }
 
diff --git a/single_header/mstest/fakeit.hpp b/single_header/mstest/fakeit.hpp
index b1f7e2a..984fa26 100644
--- a/single_header/mstest/fakeit.hpp
+++ b/single_header/mstest/fakeit.hpp
@@ -6125,10 +6125,19 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
-            _members.push_back(
-                    std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
-                    {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
-                    initargs...)});
+
+            std::shared_ptr<Destructible> &wrapper = _members[memberPtr];
+            wrapper.reset();
+            wrapper.reset(new DataMemeberWrapper < DataType, arglist...>(memberPtr,
+                    initargs...));
+        }
+
+
+        template<typename DataType, typename ... arglist>
+        void replaceDataMember(DataType C::*member, const arglist &... initargs) {
+            DataType *memberPtr = &(get().*member);
+            memberPtr->~DataType();
+            new(memberPtr) DataType{initargs ...};
         }
 
         template<typename DataType>
@@ -6200,7 +6209,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
 
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::map<void *, std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
         std::map<unsigned int, void *> _suspendedProxies;
         InvocationHandlers _invocationHandlers;
@@ -8646,7 +8655,11 @@ namespace fakeit {
 
         template<class DataType, typename T, typename ... arglist, class = typename std::enable_if<std::is_base_of<T, C>::value>::type>
         DataMemberStubbingRoot<C, DataType> stubDataMember(DataType T::*member, const arglist &... ctorargs) {
-            _proxy.stubDataMember(member, ctorargs...);
+            if (isOwner()) {
+                _proxy.stubDataMember(member, ctorargs...);
+            } else {
+                _proxy.replaceDataMember(member, ctorargs...);
+            }
             return DataMemberStubbingRoot<T, DataType>();
         }
 
diff --git a/single_header/nunit/fakeit.hpp b/single_header/nunit/fakeit.hpp
index 025d633..ce82dcb 100644
--- a/single_header/nunit/fakeit.hpp
+++ b/single_header/nunit/fakeit.hpp
@@ -6108,10 +6108,19 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
-            _members.push_back(
-                    std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
-                    {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
-                    initargs...)});
+
+            std::shared_ptr<Destructible> &wrapper = _members[memberPtr];
+            wrapper.reset();
+            wrapper.reset(new DataMemeberWrapper < DataType, arglist...>(memberPtr,
+                    initargs...));
+        }
+
+
+        template<typename DataType, typename ... arglist>
+        void replaceDataMember(DataType C::*member, const arglist &... initargs) {
+            DataType *memberPtr = &(get().*member);
+            memberPtr->~DataType();
+            new(memberPtr) DataType{initargs ...};
         }
 
         template<typename DataType>
@@ -6183,7 +6192,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
 
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::map<void *, std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
         std::map<unsigned int, void *> _suspendedProxies;
         InvocationHandlers _invocationHandlers;
@@ -8629,7 +8638,11 @@ namespace fakeit {
 
         template<class DataType, typename T, typename ... arglist, class = typename std::enable_if<std::is_base_of<T, C>::value>::type>
         DataMemberStubbingRoot<C, DataType> stubDataMember(DataType T::*member, const arglist &... ctorargs) {
-            _proxy.stubDataMember(member, ctorargs...);
+            if (isOwner()) {
+                _proxy.stubDataMember(member, ctorargs...);
+            } else {
+                _proxy.replaceDataMember(member, ctorargs...);
+            }
             return DataMemberStubbingRoot<T, DataType>();
         }
 
diff --git a/single_header/qtest/fakeit.hpp b/single_header/qtest/fakeit.hpp
index 856e8bb..63120d7 100644
--- a/single_header/qtest/fakeit.hpp
+++ b/single_header/qtest/fakeit.hpp
@@ -6109,10 +6109,19 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
-            _members.push_back(
-                    std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
-                    {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
-                    initargs...)});
+
+            std::shared_ptr<Destructible> &wrapper = _members[memberPtr];
+            wrapper.reset();
+            wrapper.reset(new DataMemeberWrapper < DataType, arglist...>(memberPtr,
+                    initargs...));
+        }
+
+
+        template<typename DataType, typename ... arglist>
+        void replaceDataMember(DataType C::*member, const arglist &... initargs) {
+            DataType *memberPtr = &(get().*member);
+            memberPtr->~DataType();
+            new(memberPtr) DataType{initargs ...};
         }
 
         template<typename DataType>
@@ -6184,7 +6193,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
 
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::map<void *, std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
         std::map<unsigned int, void *> _suspendedProxies;
         InvocationHandlers _invocationHandlers;
@@ -8630,7 +8639,11 @@ namespace fakeit {
 
         template<class DataType, typename T, typename ... arglist, class = typename std::enable_if<std::is_base_of<T, C>::value>::type>
         DataMemberStubbingRoot<C, DataType> stubDataMember(DataType T::*member, const arglist &... ctorargs) {
-            _proxy.stubDataMember(member, ctorargs...);
+            if (isOwner()) {
+                _proxy.stubDataMember(member, ctorargs...);
+            } else {
+                _proxy.replaceDataMember(member, ctorargs...);
+            }
             return DataMemberStubbingRoot<T, DataType>();
         }
 
diff --git a/single_header/standalone/fakeit.hpp b/single_header/standalone/fakeit.hpp
index fb227e0..9920b1c 100644
--- a/single_header/standalone/fakeit.hpp
+++ b/single_header/standalone/fakeit.hpp
@@ -6177,10 +6177,19 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
-            _members.push_back(
-                    std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
-                    {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
-                    initargs...)});
+
+            std::shared_ptr<Destructible> &wrapper = _members[memberPtr];
+            wrapper.reset();
+            wrapper.reset(new DataMemeberWrapper < DataType, arglist...>(memberPtr,
+                    initargs...));
+        }
+
+
+        template<typename DataType, typename ... arglist>
+        void replaceDataMember(DataType C::*member, const arglist &... initargs) {
+            DataType *memberPtr = &(get().*member);
+            memberPtr->~DataType();
+            new(memberPtr) DataType{initargs ...};
         }
 
         template<typename DataType>
@@ -6252,7 +6261,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
 
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::map<void *, std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
         std::map<unsigned int, void *> _suspendedProxies;
         InvocationHandlers _invocationHandlers;
@@ -8698,7 +8707,11 @@ namespace fakeit {
 
         template<class DataType, typename T, typename ... arglist, class = typename std::enable_if<std::is_base_of<T, C>::value>::type>
         DataMemberStubbingRoot<C, DataType> stubDataMember(DataType T::*member, const arglist &... ctorargs) {
-            _proxy.stubDataMember(member, ctorargs...);
+            if (isOwner()) {
+                _proxy.stubDataMember(member, ctorargs...);
+            } else {
+                _proxy.replaceDataMember(member, ctorargs...);
+            }
             return DataMemberStubbingRoot<T, DataType>();
         }
 
diff --git a/single_header/tpunit/fakeit.hpp b/single_header/tpunit/fakeit.hpp
index 2f661a5..f7e6458 100644
--- a/single_header/tpunit/fakeit.hpp
+++ b/single_header/tpunit/fakeit.hpp
@@ -6160,10 +6160,19 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
-            _members.push_back(
-                    std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
-                    {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
-                    initargs...)});
+
+            std::shared_ptr<Destructible> &wrapper = _members[memberPtr];
+            wrapper.reset();
+            wrapper.reset(new DataMemeberWrapper < DataType, arglist...>(memberPtr,
+                    initargs...));
+        }
+
+
+        template<typename DataType, typename ... arglist>
+        void replaceDataMember(DataType C::*member, const arglist &... initargs) {
+            DataType *memberPtr = &(get().*member);
+            memberPtr->~DataType();
+            new(memberPtr) DataType{initargs ...};
         }
 
         template<typename DataType>
@@ -6235,7 +6244,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
 
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::map<void *, std::shared_ptr<Destructible>> _members;
         std::vector<unsigned int> _offsets;
         std::map<unsigned int, void *> _suspendedProxies;
         InvocationHandlers _invocationHandlers;
@@ -8681,7 +8690,11 @@ namespace fakeit {
 
         template<class DataType, typename T, typename ... arglist, class = typename std::enable_if<std::is_base_of<T, C>::value>::type>
         DataMemberStubbingRoot<C, DataType> stubDataMember(DataType T::*member, const arglist &... ctorargs) {
-            _proxy.stubDataMember(member, ctorargs...);
+            if (isOwner()) {
+                _proxy.stubDataMember(member, ctorargs...);
+            } else {
+                _proxy.replaceDataMember(member, ctorargs...);
+            }
             return DataMemberStubbingRoot<T, DataType>();
         }
 
-- 
2.43.0


From eb316aedf221d2569d01e563149fd448df8e148f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:51:45 +0000
Subject: [PATCH 18/23] fix: record the actions of a stubbing statement when it
 is complete

The actions went into the stored method handle while the statement was being
written. A statement abandoned by an exception left its actions behind for
the next Fake, Spy or assignment made with the same handle, and two
statements of one handle that were open at the same time mixed their actions.
---
 include/fakeit/MethodMockingContext.hpp | 14 ++-----------
 include/fakeit/WhenFunctor.hpp          | 27 ++++++++++++++-----------
 include/fakeit/Xaction.hpp              |  2 --
 3 files changed, 17 insertions(+), 26 deletions(-)

diff --git a/include/fakeit/MethodMockingContext.hpp b/include/fakeit/MethodMockingContext.hpp
index 6a9a383..9fd2601 100644
--- a/include/fakeit/MethodMockingContext.hpp
+++ b/include/fakeit/MethodMockingContext.hpp
@@ -127,16 +127,10 @@ namespace fakeit {
                 return _invocationMatcher->matches(actualInvocation);
             }
 
-            /**
-             * Every stubbing statement records its own actions, also when a stored context is used again.
-             */
-            void begin() {
-                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
-            }
-
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                begin();
+                // the next stubbing statement records its own actions, also when a stored context is used again.
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -220,10 +214,6 @@ namespace fakeit {
             return _impl->matches(invocation);
         }
 
-        void begin() override {
-            _impl->begin();
-        }
-
         void commit() override {
             _impl->commit();
         }
diff --git a/include/fakeit/WhenFunctor.hpp b/include/fakeit/WhenFunctor.hpp
index a596b2e..703620b 100644
--- a/include/fakeit/WhenFunctor.hpp
+++ b/include/fakeit/WhenFunctor.hpp
@@ -7,6 +7,9 @@
  */
 #pragma once
 
+#include <memory>
+#include <vector>
+
 #include "fakeit/StubbingImpl.hpp"
 #include "fakeit/StubbingProgress.hpp"
 #include "fakeit/FakeitContext.hpp"
@@ -20,6 +23,7 @@ namespace fakeit {
 
     class WhenFunctor {
 
+        template<typename R, typename ... arglist>
         struct StubbingChange {
 
             friend class WhenFunctor;
@@ -30,21 +34,21 @@ namespace fakeit {
                     return;
                 }
 
+                // the actions of a statement are recorded together, when it is complete.
+                for (auto &action : _actions) {
+                    _xaction.appendAction(action.release());
+                }
                 _xaction.commit();
             }
 
-            StubbingChange(const StubbingChange &other) :
-                    _xaction(other._xaction) {
-            }
-
         private:
 
-            StubbingChange(Xaction &xaction)
+            StubbingChange(StubbingContext<R, arglist...> &xaction)
                     : _xaction(xaction) {
-                _xaction.begin();
             }
 
-            Xaction &_xaction;
+            StubbingContext<R, arglist...> &_xaction;
+            std::vector<std::unique_ptr<Action<R, arglist...>>> _actions;
         };
 
     public:
@@ -57,23 +61,22 @@ namespace fakeit {
             virtual ~MethodProgress() override = default;
 
             MethodProgress(const MethodProgress &other) :
-                    _progress(other._progress), _context(other._context) {
+                    _progress(other._progress) {
             }
 
             MethodProgress(StubbingContext<R, arglist...> &xaction) :
-                    _progress(new StubbingChange(xaction)), _context(xaction) {
+                    _progress(new StubbingChange<R, arglist...>(xaction)) {
             }
 
         protected:
 
             virtual MethodStubbingProgress<R, arglist...> &DoImpl(Action<R, arglist...> *action) override {
-                _context.appendAction(action);
+                _progress->_actions.emplace_back(action);
                 return *this;
             }
 
         private:
-            smart_ptr<StubbingChange> _progress;
-            StubbingContext<R, arglist...> &_context;
+            smart_ptr<StubbingChange<R, arglist...>> _progress;
         };
 
 
diff --git a/include/fakeit/Xaction.hpp b/include/fakeit/Xaction.hpp
index 5e798d4..be95c27 100644
--- a/include/fakeit/Xaction.hpp
+++ b/include/fakeit/Xaction.hpp
@@ -11,8 +11,6 @@
 namespace fakeit {
 
     struct Xaction {
-        virtual void begin() = 0;
-
         virtual void commit() = 0;
     };
 }
-- 
2.43.0


From 0431cb80701f51d7e81e9b9123293bc344c59a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:51:45 +0000
Subject: [PATCH 19/23] fix: carry the stubbing statement fix into the packaged
 single headers

---
 single_header/boost/fakeit.hpp      | 41 +++++++++++------------------
 single_header/catch/fakeit.hpp      | 41 +++++++++++------------------
 single_header/cute/fakeit.hpp       | 41 +++++++++++------------------
 single_header/doctest/fakeit.hpp    | 41 +++++++++++------------------
 single_header/gtest/fakeit.hpp      | 41 +++++++++++------------------
 single_header/mettle/fakeit.hpp     | 41 +++++++++++------------------
 single_header/mstest/fakeit.hpp     | 41 +++++++++++------------------
 single_header/nunit/fakeit.hpp      | 41 +++++++++++------------------
 single_header/qtest/fakeit.hpp      | 41 +++++++++++------------------
 single_header/standalone/fakeit.hpp | 41 +++++++++++------------------
 single_header/tpunit/fakeit.hpp     | 41 +++++++++++------------------
 11 files changed, 176 insertions(+), 275 deletions(-)

diff --git a/single_header/boost/fakeit.hpp b/single_header/boost/fakeit.hpp
index 05ecee0..43d2831 100644
--- a/single_header/boost/fakeit.hpp
+++ b/single_header/boost/fakeit.hpp
@@ -8141,8 +8141,6 @@ namespace fakeit {
 namespace fakeit {
 
     struct Xaction {
-        virtual void begin() = 0;
-
         virtual void commit() = 0;
     };
 }
@@ -8328,14 +8326,10 @@ namespace fakeit {
                 return _invocationMatcher->matches(actualInvocation);
             }
 
-
-            void begin() {
-                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
-            }
-
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                begin();
+
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8413,10 +8407,6 @@ namespace fakeit {
             return _impl->matches(invocation);
         }
 
-        void begin() override {
-            _impl->begin();
-        }
-
         void commit() override {
             _impl->commit();
         }
@@ -9135,7 +9125,8 @@ namespace fakeit {
     };
 
 }
-
+#include <memory>
+#include <vector>
 #include <exception>
 
 namespace fakeit {
@@ -9215,6 +9206,7 @@ namespace fakeit {
 
     class WhenFunctor {
 
+        template<typename R, typename ... arglist>
         struct StubbingChange {
 
             friend class WhenFunctor;
@@ -9225,21 +9217,21 @@ namespace fakeit {
                     return;
                 }
 
-                _xaction.commit();
-            }
 
-            StubbingChange(const StubbingChange &other) :
-                    _xaction(other._xaction) {
+                for (auto &action : _actions) {
+                    _xaction.appendAction(action.release());
+                }
+                _xaction.commit();
             }
 
         private:
 
-            StubbingChange(Xaction &xaction)
+            StubbingChange(StubbingContext<R, arglist...> &xaction)
                     : _xaction(xaction) {
-                _xaction.begin();
             }
 
-            Xaction &_xaction;
+            StubbingContext<R, arglist...> &_xaction;
+            std::vector<std::unique_ptr<Action<R, arglist...>>> _actions;
         };
 
     public:
@@ -9252,23 +9244,22 @@ namespace fakeit {
             virtual ~MethodProgress() override = default;
 
             MethodProgress(const MethodProgress &other) :
-                    _progress(other._progress), _context(other._context) {
+                    _progress(other._progress) {
             }
 
             MethodProgress(StubbingContext<R, arglist...> &xaction) :
-                    _progress(new StubbingChange(xaction)), _context(xaction) {
+                    _progress(new StubbingChange<R, arglist...>(xaction)) {
             }
 
         protected:
 
             virtual MethodStubbingProgress<R, arglist...> &DoImpl(Action<R, arglist...> *action) override {
-                _context.appendAction(action);
+                _progress->_actions.emplace_back(action);
                 return *this;
             }
 
         private:
-            smart_ptr<StubbingChange> _progress;
-            StubbingContext<R, arglist...> &_context;
+            smart_ptr<StubbingChange<R, arglist...>> _progress;
         };
 
 
diff --git a/single_header/catch/fakeit.hpp b/single_header/catch/fakeit.hpp
index bb76166..34df77c 100644
--- a/single_header/catch/fakeit.hpp
+++ b/single_header/catch/fakeit.hpp
@@ -8179,8 +8179,6 @@ namespace fakeit {
 namespace fakeit {
 
     struct Xaction {
-        virtual void begin() = 0;
-
         virtual void commit() = 0;
     };
 }
@@ -8366,14 +8364,10 @@ namespace fakeit {
                 return _invocationMatcher->matches(actualInvocation);
             }
 
-
-            void begin() {
-                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
-            }
-
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                begin();
+
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8451,10 +8445,6 @@ namespace fakeit {
             return _impl->matches(invocation);
         }
 
-        void begin() override {
-            _impl->begin();
-        }
-
         void commit() override {
             _impl->commit();
         }
@@ -9173,7 +9163,8 @@ namespace fakeit {
     };
 
 }
-
+#include <memory>
+#include <vector>
 #include <exception>
 
 namespace fakeit {
@@ -9253,6 +9244,7 @@ namespace fakeit {
 
     class WhenFunctor {
 
+        template<typename R, typename ... arglist>
         struct StubbingChange {
 
             friend class WhenFunctor;
@@ -9263,21 +9255,21 @@ namespace fakeit {
                     return;
                 }
 
-                _xaction.commit();
-            }
 
-            StubbingChange(const StubbingChange &other) :
-                    _xaction(other._xaction) {
+                for (auto &action : _actions) {
+                    _xaction.appendAction(action.release());
+                }
+                _xaction.commit();
             }
 
         private:
 
-            StubbingChange(Xaction &xaction)
+            StubbingChange(StubbingContext<R, arglist...> &xaction)
                     : _xaction(xaction) {
-                _xaction.begin();
             }
 
-            Xaction &_xaction;
+            StubbingContext<R, arglist...> &_xaction;
+            std::vector<std::unique_ptr<Action<R, arglist...>>> _actions;
         };
 
     public:
@@ -9290,23 +9282,22 @@ namespace fakeit {
             virtual ~MethodProgress() override = default;
 
             MethodProgress(const MethodProgress &other) :
-                    _progress(other._progress), _context(other._context) {
+                    _progress(other._progress) {
             }
 
             MethodProgress(StubbingContext<R, arglist...> &xaction) :
-                    _progress(new StubbingChange(xaction)), _context(xaction) {
+                    _progress(new StubbingChange<R, arglist...>(xaction)) {
             }
 
         protected:
 
             virtual MethodStubbingProgress<R, arglist...> &DoImpl(Action<R, arglist...> *action) override {
-                _context.appendAction(action);
+                _progress->_actions.emplace_back(action);
                 return *this;
             }
 
         private:
-            smart_ptr<StubbingChange> _progress;
-            StubbingContext<R, arglist...> &_context;
+            smart_ptr<StubbingChange<R, arglist...>> _progress;
         };
 
 
diff --git a/single_header/cute/fakeit.hpp b/single_header/cute/fakeit.hpp
index 2bf531d..3b84c9a 100644
--- a/single_header/cute/fakeit.hpp
+++ b/single_header/cute/fakeit.hpp
@@ -8106,8 +8106,6 @@ namespace fakeit {
 namespace fakeit {
 
     struct Xaction {
-        virtual void begin() = 0;
-
         virtual void commit() = 0;
     };
 }
@@ -8293,14 +8291,10 @@ namespace fakeit {
                 return _invocationMatcher->matches(actualInvocation);
             }
 
-
-            void begin() {
-                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
-            }
-
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                begin();
+
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8378,10 +8372,6 @@ namespace fakeit {
             return _impl->matches(invocation);
         }
 
-        void begin() override {
-            _impl->begin();
-        }
-
         void commit() override {
             _impl->commit();
         }
@@ -9100,7 +9090,8 @@ namespace fakeit {
     };
 
 }
-
+#include <memory>
+#include <vector>
 #include <exception>
 
 namespace fakeit {
@@ -9180,6 +9171,7 @@ namespace fakeit {
 
     class WhenFunctor {
 
+        template<typename R, typename ... arglist>
         struct StubbingChange {
 
             friend class WhenFunctor;
@@ -9190,21 +9182,21 @@ namespace fakeit {
                     return;
                 }
 
-                _xaction.commit();
-            }
 
-            StubbingChange(const StubbingChange &other) :
-                    _xaction(other._xaction) {
+                for (auto &action : _actions) {
+                    _xaction.appendAction(action.release());
+                }
+                _xaction.commit();
             }
 
         private:
 
-            StubbingChange(Xaction &xaction)
+            StubbingChange(StubbingContext<R, arglist...> &xaction)
                     : _xaction(xaction) {
-                _xaction.begin();
             }
 
-            Xaction &_xaction;
+            StubbingContext<R, arglist...> &_xaction;
+            std::vector<std::unique_ptr<Action<R, arglist...>>> _actions;
         };
 
     public:
@@ -9217,23 +9209,22 @@ namespace fakeit {
             virtual ~MethodProgress() override = default;
 
             MethodProgress(const MethodProgress &other) :
-                    _progress(other._progress), _context(other._context) {
+                    _progress(other._progress) {
             }
 
             MethodProgress(StubbingContext<R, arglist...> &xaction) :
-                    _progress(new StubbingChange(xaction)), _context(xaction) {
+                    _progress(new StubbingChange<R, arglist...>(xaction)) {
             }
 
         protected:
 
             virtual MethodStubbingProgress<R, arglist...> &DoImpl(Action<R, arglist...> *action) override {
-                _context.appendAction(action);
+                _progress->_actions.emplace_back(action);
                 return *this;
             }
 
         private:
-            smart_ptr<StubbingChange> _progress;
-            StubbingContext<R, arglist...> &_context;
+            smart_ptr<StubbingChange<R, arglist...>> _progress;
         };
 
 
diff --git a/single_header/doctest/fakeit.hpp b/single_header/doctest/fakeit.hpp
index 75c9cf5..9ad8a11 100644
--- a/single_header/doctest/fakeit.hpp
+++ b/single_header/doctest/fakeit.hpp
@@ -8134,8 +8134,6 @@ namespace fakeit {
 namespace fakeit {
 
     struct Xaction {
-        virtual void begin() = 0;
-
         virtual void commit() = 0;
     };
 }
@@ -8321,14 +8319,10 @@ namespace fakeit {
                 return _invocationMatcher->matches(actualInvocation);
             }
 
-
-            void begin() {
-                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
-            }
-
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                begin();
+
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8406,10 +8400,6 @@ namespace fakeit {
             return _impl->matches(invocation);
         }
 
-        void begin() override {
-            _impl->begin();
-        }
-
         void commit() override {
             _impl->commit();
         }
@@ -9128,7 +9118,8 @@ namespace fakeit {
     };
 
 }
-
+#include <memory>
+#include <vector>
 #include <exception>
 
 namespace fakeit {
@@ -9208,6 +9199,7 @@ namespace fakeit {
 
     class WhenFunctor {
 
+        template<typename R, typename ... arglist>
         struct StubbingChange {
 
             friend class WhenFunctor;
@@ -9218,21 +9210,21 @@ namespace fakeit {
                     return;
                 }
 
-                _xaction.commit();
-            }
 
-            StubbingChange(const StubbingChange &other) :
-                    _xaction(other._xaction) {
+                for (auto &action : _actions) {
+                    _xaction.appendAction(action.release());
+                }
+                _xaction.commit();
             }
 
         private:
 
-            StubbingChange(Xaction &xaction)
+            StubbingChange(StubbingContext<R, arglist...> &xaction)
                     : _xaction(xaction) {
-                _xaction.begin();
             }
 
-            Xaction &_xaction;
+            StubbingContext<R, arglist...> &_xaction;
+            std::vector<std::unique_ptr<Action<R, arglist...>>> _actions;
         };
 
     public:
@@ -9245,23 +9237,22 @@ namespace fakeit {
             virtual ~MethodProgress() override = default;
 
             MethodProgress(const MethodProgress &other) :
-                    _progress(other._progress), _context(other._context) {
+                    _progress(other._progress) {
             }
 
             MethodProgress(StubbingContext<R, arglist...> &xaction) :
-                    _progress(new StubbingChange(xaction)), _context(xaction) {
+                    _progress(new StubbingChange<R, arglist...>(xaction)) {
             }
 
         protected:
 
             virtual MethodStubbingProgress<R, arglist...> &DoImpl(Action<R, arglist...> *action) override {
-                _context.appendAction(action);
+                _progress->_actions.emplace_back(action);
                 return *this;
             }
 
         private:
-            smart_ptr<StubbingChange> _progress;
-            StubbingContext<R, arglist...> &_context;
+            smart_ptr<StubbingChange<R, arglist...>> _progress;
         };
 
 
diff --git a/single_header/gtest/fakeit.hpp b/single_header/gtest/fakeit.hpp
index b225d01..5fcadb1 100644
--- a/single_header/gtest/fakeit.hpp
+++ b/single_header/gtest/fakeit.hpp
@@ -8106,8 +8106,6 @@ namespace fakeit {
 namespace fakeit {
 
     struct Xaction {
-        virtual void begin() = 0;
-
         virtual void commit() = 0;
     };
 }
@@ -8293,14 +8291,10 @@ namespace fakeit {
                 return _invocationMatcher->matches(actualInvocation);
             }
 
-
-            void begin() {
-                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
-            }
-
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                begin();
+
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8378,10 +8372,6 @@ namespace fakeit {
             return _impl->matches(invocation);
         }
 
-        void begin() override {
-            _impl->begin();
-        }
-
         void commit() override {
             _impl->commit();
         }
@@ -9100,7 +9090,8 @@ namespace fakeit {
     };
 
 }
-
+#include <memory>
+#include <vector>
 #include <exception>
 
 namespace fakeit {
@@ -9180,6 +9171,7 @@ namespace fakeit {
 
     class WhenFunctor {
 
+        template<typename R, typename ... arglist>
         struct StubbingChange {
 
             friend class WhenFunctor;
@@ -9190,21 +9182,21 @@ namespace fakeit {
                     return;
                 }
 
-                _xaction.commit();
-            }
 
-            StubbingChange(const StubbingChange &other) :
-                    _xaction(other._xaction) {
+                for (auto &action : _actions) {
+                    _xaction.appendAction(action.release());
+                }
+                _xaction.commit();
             }
 
         private:
 
-            StubbingChange(Xaction &xaction)
+            StubbingChange(StubbingContext<R, arglist...> &xaction)
                     : _xaction(xaction) {
-                _xaction.begin();
             }
 
-            Xaction &_xaction;
+            StubbingContext<R, arglist...> &_xaction;
+            std::vector<std::unique_ptr<Action<R, arglist...>>> _actions;
         };
 
     public:
@@ -9217,23 +9209,22 @@ namespace fakeit {
             virtual ~MethodProgress() override = default;
 
             MethodProgress(const MethodProgress &other) :
-                    _progress(other._progress), _context(other._context) {
+                    _progress(other._progress) {
             }
 
             MethodProgress(StubbingContext<R, arglist...> &xaction) :
-                    _progress(new StubbingChange(xaction)), _context(xaction) {
+                    _progress(new StubbingChange<R, arglist...>(xaction)) {
             }
 
         protected:
 
             virtual MethodStubbingProgress<R, arglist...> &DoImpl(Action<R, arglist...> *action) override {
-                _context.appendAction(action);
+                _progress->_actions.emplace_back(action);
                 return *this;
             }
 
         private:
-            smart_ptr<StubbingChange> _progress;
-            StubbingContext<R, arglist...> &_context;
+            smart_ptr<StubbingChange<R, arglist...>> _progress;
         };
 
 
diff --git a/single_header/mettle/fakeit.hpp b/single_header/mettle/fakeit.hpp
index 6ee6877..c27e69f 100644
--- a/single_header/mettle/fakeit.hpp
+++ b/single_header/mettle/fakeit.hpp
@@ -8128,8 +8128,6 @@ namespace fakeit {
 namespace fakeit {
 
     struct Xaction {
-        virtual void begin() = 0;
-
         virtual void commit() = 0;
     };
 }
@@ -8315,14 +8313,10 @@ namespace fakeit {
                 return _invocationMatcher->matches(actualInvocation);
             }
 
-
-            void begin() {
-                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
-            }
-
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                begin();
+
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8400,10 +8394,6 @@ namespace fakeit {
             return _impl->matches(invocation);
         }
 
-        void begin() override {
-            _impl->begin();
-        }
-
         void commit() override {
             _impl->commit();
         }
@@ -9122,7 +9112,8 @@ namespace fakeit {
     };
 
 }
-
+#include <memory>
+#include <vector>
 #include <exception>
 
 namespace fakeit {
@@ -9202,6 +9193,7 @@ namespace fakeit {
 
     class WhenFunctor {
 
+        template<typename R, typename ... arglist>
         struct StubbingChange {
 
             friend class WhenFunctor;
@@ -9212,21 +9204,21 @@ namespace fakeit {
                     return;
                 }
 
-                _xaction.commit();
-            }
 
-            StubbingChange(const StubbingChange &other) :
-                    _xaction(other._xaction) {
+                for (auto &action : _actions) {
+                    _xaction.appendAction(action.release());
+                }
+                _xaction.commit();
             }
 
         private:
 
-            StubbingChange(Xaction &xaction)
+            StubbingChange(StubbingContext<R, arglist...> &xaction)
                     : _xaction(xaction) {
-                _xaction.begin();
             }
 
-            Xaction &_xaction;
+            StubbingContext<R, arglist...> &_xaction;
+            std::vector<std::unique_ptr<Action<R, arglist...>>> _actions;
         };
 
     public:
@@ -9239,23 +9231,22 @@ namespace fakeit {
             virtual ~MethodProgress() override = default;
 
             MethodProgress(const MethodProgress &other) :
-                    _progress(other._progress), _context(other._context) {
+                    _progress(other._progress) {
             }
 
             MethodProgress(StubbingContext<R, arglist...> &xaction) :
-                    _progress(new StubbingChange(xaction)), _context(xaction) {
+                    _progress(new StubbingChange<R, arglist...>(xaction)) {
             }
 
         protected:
 
             virtual MethodStubbingProgress<R, arglist...> &DoImpl(Action<R, arglist...> *action) override {
-                _context.appendAction(action);
+                _progress->_actions.emplace_back(action);
                 return *this;
             }
 
         private:
-            smart_ptr<StubbingChange> _progress;
-            StubbingContext<R, arglist...> &_context;
+            smart_ptr<StubbingChange<R, arglist...>> _progress;
         };
 
 
diff --git a/single_header/mstest/fakeit.hpp b/single_header/mstest/fakeit.hpp
index 984fa26..734c9dd 100644
--- a/single_header/mstest/fakeit.hpp
+++ b/single_header/mstest/fakeit.hpp
@@ -8130,8 +8130,6 @@ namespace fakeit {
 namespace fakeit {
 
     struct Xaction {
-        virtual void begin() = 0;
-
         virtual void commit() = 0;
     };
 }
@@ -8317,14 +8315,10 @@ namespace fakeit {
                 return _invocationMatcher->matches(actualInvocation);
             }
 
-
-            void begin() {
-                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
-            }
-
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                begin();
+
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8402,10 +8396,6 @@ namespace fakeit {
             return _impl->matches(invocation);
         }
 
-        void begin() override {
-            _impl->begin();
-        }
-
         void commit() override {
             _impl->commit();
         }
@@ -9124,7 +9114,8 @@ namespace fakeit {
     };
 
 }
-
+#include <memory>
+#include <vector>
 #include <exception>
 
 namespace fakeit {
@@ -9204,6 +9195,7 @@ namespace fakeit {
 
     class WhenFunctor {
 
+        template<typename R, typename ... arglist>
         struct StubbingChange {
 
             friend class WhenFunctor;
@@ -9214,21 +9206,21 @@ namespace fakeit {
                     return;
                 }
 
-                _xaction.commit();
-            }
 
-            StubbingChange(const StubbingChange &other) :
-                    _xaction(other._xaction) {
+                for (auto &action : _actions) {
+                    _xaction.appendAction(action.release());
+                }
+                _xaction.commit();
             }
 
         private:
 
-            StubbingChange(Xaction &xaction)
+            StubbingChange(StubbingContext<R, arglist...> &xaction)
                     : _xaction(xaction) {
-                _xaction.begin();
             }
 
-            Xaction &_xaction;
+            StubbingContext<R, arglist...> &_xaction;
+            std::vector<std::unique_ptr<Action<R, arglist...>>> _actions;
         };
 
     public:
@@ -9241,23 +9233,22 @@ namespace fakeit {
             virtual ~MethodProgress() override = default;
 
             MethodProgress(const MethodProgress &other) :
-                    _progress(other._progress), _context(other._context) {
+                    _progress(other._progress) {
             }
 
             MethodProgress(StubbingContext<R, arglist...> &xaction) :
-                    _progress(new StubbingChange(xaction)), _context(xaction) {
+                    _progress(new StubbingChange<R, arglist...>(xaction)) {
             }
 
         protected:
 
             virtual MethodStubbingProgress<R, arglist...> &DoImpl(Action<R, arglist...> *action) override {
-                _context.appendAction(action);
+                _progress->_actions.emplace_back(action);
                 return *this;
             }
 
         private:
-            smart_ptr<StubbingChange> _progress;
-            StubbingContext<R, arglist...> &_context;
+            smart_ptr<StubbingChange<R, arglist...>> _progress;
         };
 
 
diff --git a/single_header/nunit/fakeit.hpp b/single_header/nunit/fakeit.hpp
index ce82dcb..c11e6b7 100644
--- a/single_header/nunit/fakeit.hpp
+++ b/single_header/nunit/fakeit.hpp
@@ -8113,8 +8113,6 @@ namespace fakeit {
 namespace fakeit {
 
     struct Xaction {
-        virtual void begin() = 0;
-
         virtual void commit() = 0;
     };
 }
@@ -8300,14 +8298,10 @@ namespace fakeit {
                 return _invocationMatcher->matches(actualInvocation);
             }
 
-
-            void begin() {
-                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
-            }
-
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                begin();
+
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8385,10 +8379,6 @@ namespace fakeit {
             return _impl->matches(invocation);
         }
 
-        void begin() override {
-            _impl->begin();
-        }
-
         void commit() override {
             _impl->commit();
         }
@@ -9107,7 +9097,8 @@ namespace fakeit {
     };
 
 }
-
+#include <memory>
+#include <vector>
 #include <exception>
 
 namespace fakeit {
@@ -9187,6 +9178,7 @@ namespace fakeit {
 
     class WhenFunctor {
 
+        template<typename R, typename ... arglist>
         struct StubbingChange {
 
             friend class WhenFunctor;
@@ -9197,21 +9189,21 @@ namespace fakeit {
                     return;
                 }
 
-                _xaction.commit();
-            }
 
-            StubbingChange(const StubbingChange &other) :
-                    _xaction(other._xaction) {
+                for (auto &action : _actions) {
+                    _xaction.appendAction(action.release());
+                }
+                _xaction.commit();
             }
 
         private:
 
-            StubbingChange(Xaction &xaction)
+            StubbingChange(StubbingContext<R, arglist...> &xaction)
                     : _xaction(xaction) {
-                _xaction.begin();
             }
 
-            Xaction &_xaction;
+            StubbingContext<R, arglist...> &_xaction;
+            std::vector<std::unique_ptr<Action<R, arglist...>>> _actions;
         };
 
     public:
@@ -9224,23 +9216,22 @@ namespace fakeit {
             virtual ~MethodProgress() override = default;
 
             MethodProgress(const MethodProgress &other) :
-                    _progress(other._progress), _context(other._context) {
+                    _progress(other._progress) {
             }
 
             MethodProgress(StubbingContext<R, arglist...> &xaction) :
-                    _progress(new StubbingChange(xaction)), _context(xaction) {
+                    _progress(new StubbingChange<R, arglist...>(xaction)) {
             }
 
         protected:
 
             virtual MethodStubbingProgress<R, arglist...> &DoImpl(Action<R, arglist...> *action) override {
-                _context.appendAction(action);
+                _progress->_actions.emplace_back(action);
                 return *this;
             }
 
         private:
-            smart_ptr<StubbingChange> _progress;
-            StubbingContext<R, arglist...> &_context;
+            smart_ptr<StubbingChange<R, arglist...>> _progress;
         };
 
 
diff --git a/single_header/qtest/fakeit.hpp b/single_header/qtest/fakeit.hpp
index 63120d7..abb98fa 100644
--- a/single_header/qtest/fakeit.hpp
+++ b/single_header/qtest/fakeit.hpp
@@ -8114,8 +8114,6 @@ namespace fakeit {
 namespace fakeit {
 
     struct Xaction {
-        virtual void begin() = 0;
-
         virtual void commit() = 0;
     };
 }
@@ -8301,14 +8299,10 @@ namespace fakeit {
                 return _invocationMatcher->matches(actualInvocation);
             }
 
-
-            void begin() {
-                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
-            }
-
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                begin();
+
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8386,10 +8380,6 @@ namespace fakeit {
             return _impl->matches(invocation);
         }
 
-        void begin() override {
-            _impl->begin();
-        }
-
         void commit() override {
             _impl->commit();
         }
@@ -9108,7 +9098,8 @@ namespace fakeit {
     };
 
 }
-
+#include <memory>
+#include <vector>
 #include <exception>
 
 namespace fakeit {
@@ -9188,6 +9179,7 @@ namespace fakeit {
 
     class WhenFunctor {
 
+        template<typename R, typename ... arglist>
         struct StubbingChange {
 
             friend class WhenFunctor;
@@ -9198,21 +9190,21 @@ namespace fakeit {
                     return;
                 }
 
-                _xaction.commit();
-            }
 
-            StubbingChange(const StubbingChange &other) :
-                    _xaction(other._xaction) {
+                for (auto &action : _actions) {
+                    _xaction.appendAction(action.release());
+                }
+                _xaction.commit();
             }
 
         private:
 
-            StubbingChange(Xaction &xaction)
+            StubbingChange(StubbingContext<R, arglist...> &xaction)
                     : _xaction(xaction) {
-                _xaction.begin();
             }
 
-            Xaction &_xaction;
+            StubbingContext<R, arglist...> &_xaction;
+            std::vector<std::unique_ptr<Action<R, arglist...>>> _actions;
         };
 
     public:
@@ -9225,23 +9217,22 @@ namespace fakeit {
             virtual ~MethodProgress() override = default;
 
             MethodProgress(const MethodProgress &other) :
-                    _progress(other._progress), _context(other._context) {
+                    _progress(other._progress) {
             }
 
             MethodProgress(StubbingContext<R, arglist...> &xaction) :
-                    _progress(new StubbingChange(xaction)), _context(xaction) {
+                    _progress(new StubbingChange<R, arglist...>(xaction)) {
             }
 
         protected:
 
             virtual MethodStubbingProgress<R, arglist...> &DoImpl(Action<R, arglist...> *action) override {
-                _context.appendAction(action);
+                _progress->_actions.emplace_back(action);
                 return *this;
             }
 
         private:
-            smart_ptr<StubbingChange> _progress;
-            StubbingContext<R, arglist...> &_context;
+            smart_ptr<StubbingChange<R, arglist...>> _progress;
         };
 
 
diff --git a/single_header/standalone/fakeit.hpp b/single_header/standalone/fakeit.hpp
index 9920b1c..64cbe64 100644
--- a/single_header/standalone/fakeit.hpp
+++ b/single_header/standalone/fakeit.hpp
@@ -8182,8 +8182,6 @@ namespace fakeit {
 namespace fakeit {
 
     struct Xaction {
-        virtual void begin() = 0;
-
         virtual void commit() = 0;
     };
 }
@@ -8369,14 +8367,10 @@ namespace fakeit {
                 return _invocationMatcher->matches(actualInvocation);
             }
 
-
-            void begin() {
-                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
-            }
-
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                begin();
+
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8454,10 +8448,6 @@ namespace fakeit {
             return _impl->matches(invocation);
         }
 
-        void begin() override {
-            _impl->begin();
-        }
-
         void commit() override {
             _impl->commit();
         }
@@ -9176,7 +9166,8 @@ namespace fakeit {
     };
 
 }
-
+#include <memory>
+#include <vector>
 #include <exception>
 
 namespace fakeit {
@@ -9256,6 +9247,7 @@ namespace fakeit {
 
     class WhenFunctor {
 
+        template<typename R, typename ... arglist>
         struct StubbingChange {
 
             friend class WhenFunctor;
@@ -9266,21 +9258,21 @@ namespace fakeit {
                     return;
                 }
 
-                _xaction.commit();
-            }
 
-            StubbingChange(const StubbingChange &other) :
-                    _xaction(other._xaction) {
+                for (auto &action : _actions) {
+                    _xaction.appendAction(action.release());
+                }
+                _xaction.commit();
             }
 
         private:
 
-            StubbingChange(Xaction &xaction)
+            StubbingChange(StubbingContext<R, arglist...> &xaction)
                     : _xaction(xaction) {
-                _xaction.begin();
             }
 
-            Xaction &_xaction;
+            StubbingContext<R, arglist...> &_xaction;
+            std::vector<std::unique_ptr<Action<R, arglist...>>> _actions;
         };
 
     public:
@@ -9293,23 +9285,22 @@ namespace fakeit {
             virtual ~MethodProgress() override = default;
 
             MethodProgress(const MethodProgress &other) :
-                    _progress(other._progress), _context(other._context) {
+                    _progress(other._progress) {
             }
 
             MethodProgress(StubbingContext<R, arglist...> &xaction) :
-                    _progress(new StubbingChange(xaction)), _context(xaction) {
+                    _progress(new StubbingChange<R, arglist...>(xaction)) {
             }
 
         protected:
 
             virtual MethodStubbingProgress<R, arglist...> &DoImpl(Action<R, arglist...> *action) override {
-                _context.appendAction(action);
+                _progress->_actions.emplace_back(action);
                 return *this;
             }
 
         private:
-            smart_ptr<StubbingChange> _progress;
-            StubbingContext<R, arglist...> &_context;
+            smart_ptr<StubbingChange<R, arglist...>> _progress;
         };
 
 
diff --git a/single_header/tpunit/fakeit.hpp b/single_header/tpunit/fakeit.hpp
index f7e6458..32fc8f8 100644
--- a/single_header/tpunit/fakeit.hpp
+++ b/single_header/tpunit/fakeit.hpp
@@ -8165,8 +8165,6 @@ namespace fakeit {
 namespace fakeit {
 
     struct Xaction {
-        virtual void begin() = 0;
-
         virtual void commit() = 0;
     };
 }
@@ -8352,14 +8350,10 @@ namespace fakeit {
                 return _invocationMatcher->matches(actualInvocation);
             }
 
-
-            void begin() {
-                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
-            }
-
             void commit() {
                 getStubbingContext().addMethodInvocationHandler(_invocationMatcher, _recordedActionSequence);
-                begin();
+
+                _recordedActionSequence.reset(new ActionSequence<R, arglist...>());
             }
 
             void appendAction(Action<R, arglist...> *action) {
@@ -8437,10 +8431,6 @@ namespace fakeit {
             return _impl->matches(invocation);
         }
 
-        void begin() override {
-            _impl->begin();
-        }
-
         void commit() override {
             _impl->commit();
         }
@@ -9159,7 +9149,8 @@ namespace fakeit {
     };
 
 }
-
+#include <memory>
+#include <vector>
 #include <exception>
 
 namespace fakeit {
@@ -9239,6 +9230,7 @@ namespace fakeit {
 
     class WhenFunctor {
 
+        template<typename R, typename ... arglist>
         struct StubbingChange {
 
             friend class WhenFunctor;
@@ -9249,21 +9241,21 @@ namespace fakeit {
                     return;
                 }
 
-                _xaction.commit();
-            }
 
-            StubbingChange(const StubbingChange &other) :
-                    _xaction(other._xaction) {
+                for (auto &action : _actions) {
+                    _xaction.appendAction(action.release());
+                }
+                _xaction.commit();
             }
 
         private:
 
-            StubbingChange(Xaction &xaction)
+            StubbingChange(StubbingContext<R, arglist...> &xaction)
                     : _xaction(xaction) {
-                _xaction.begin();
             }
 
-            Xaction &_xaction;
+            StubbingContext<R, arglist...> &_xaction;
+            std::vector<std::unique_ptr<Action<R, arglist...>>> _actions;
         };
 
     public:
@@ -9276,23 +9268,22 @@ namespace fakeit {
             virtual ~MethodProgress() override = default;
 
             MethodProgress(const MethodProgress &other) :
-                    _progress(other._progress), _context(other._context) {
+                    _progress(other._progress) {
             }
 
             MethodProgress(StubbingContext<R, arglist...> &xaction) :
-                    _progress(new StubbingChange(xaction)), _context(xaction) {
+                    _progress(new StubbingChange<R, arglist...>(xaction)) {
             }
 
         protected:
 
             virtual MethodStubbingProgress<R, arglist...> &DoImpl(Action<R, arglist...> *action) override {
-                _context.appendAction(action);
+                _progress->_actions.emplace_back(action);
                 return *this;
             }
 
         private:
-            smart_ptr<StubbingChange> _progress;
-            StubbingContext<R, arglist...> &_context;
+            smart_ptr<StubbingChange<R, arglist...>> _progress;
         };
 
 
-- 
2.43.0


From 6c8e8b9a8f64d53868538970b6e1ee437dc0bb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:46:34 +0000
Subject: [PATCH 20/23] fix: restore the methods of a mock before Reset
 releases its invocations

Arguments recorded by the mock may own the mocked object. Releasing them
deletes the object, and while the stubs were still in place that called the
stub of the destructor after it had been freed.
---
 include/mockutils/DynamicProxy.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mockutils/DynamicProxy.hpp b/include/mockutils/DynamicProxy.hpp
index 1860a8b..915b714 100644
--- a/include/mockutils/DynamicProxy.hpp
+++ b/include/mockutils/DynamicProxy.hpp
@@ -90,13 +90,14 @@ namespace fakeit {
         }
 
         void Reset() {
+            // Restore the methods first: recorded arguments that are released below may delete the instance.
+            _cloneVt.copyFrom(originalVtHandle.restore());
 			_methodMocks = {};
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _suspendedProxies = {};
-            _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
 		void Clear()
-- 
2.43.0


From 4263e3d89cf23c19ac9d45525f7070958c0aae90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:46:34 +0000
Subject: [PATCH 21/23] fix: carry the reset fix into the packaged single
 headers

---
 single_header/boost/fakeit.hpp      | 3 ++-
 single_header/catch/fakeit.hpp      | 3 ++-
 single_header/cute/fakeit.hpp       | 3 ++-
 single_header/doctest/fakeit.hpp    | 3 ++-
 single_header/gtest/fakeit.hpp      | 3 ++-
 single_header/mettle/fakeit.hpp     | 3 ++-
 single_header/mstest/fakeit.hpp     | 3 ++-
 single_header/nunit/fakeit.hpp      | 3 ++-
 single_header/qtest/fakeit.hpp      | 3 ++-
 single_header/standalone/fakeit.hpp | 3 ++-
 single_header/tpunit/fakeit.hpp     | 3 ++-
 11 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/single_header/boost/fakeit.hpp b/single_header/boost/fakeit.hpp
index 43d2831..b996ebc 100644
--- a/single_header/boost/fakeit.hpp
+++ b/single_header/boost/fakeit.hpp
@@ -6071,13 +6071,14 @@ namespace fakeit {
         }
 
         void Reset() {
+
+            _cloneVt.copyFrom(originalVtHandle.restore());
 			_methodMocks = {};
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _suspendedProxies = {};
-            _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
 		void Clear()
diff --git a/single_header/catch/fakeit.hpp b/single_header/catch/fakeit.hpp
index 34df77c..dfb2ac8 100644
--- a/single_header/catch/fakeit.hpp
+++ b/single_header/catch/fakeit.hpp
@@ -6109,13 +6109,14 @@ namespace fakeit {
         }
 
         void Reset() {
+
+            _cloneVt.copyFrom(originalVtHandle.restore());
 			_methodMocks = {};
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _suspendedProxies = {};
-            _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
 		void Clear()
diff --git a/single_header/cute/fakeit.hpp b/single_header/cute/fakeit.hpp
index 3b84c9a..60c4571 100644
--- a/single_header/cute/fakeit.hpp
+++ b/single_header/cute/fakeit.hpp
@@ -6036,13 +6036,14 @@ namespace fakeit {
         }
 
         void Reset() {
+
+            _cloneVt.copyFrom(originalVtHandle.restore());
 			_methodMocks = {};
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _suspendedProxies = {};
-            _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
 		void Clear()
diff --git a/single_header/doctest/fakeit.hpp b/single_header/doctest/fakeit.hpp
index 9ad8a11..92abaaa 100644
--- a/single_header/doctest/fakeit.hpp
+++ b/single_header/doctest/fakeit.hpp
@@ -6064,13 +6064,14 @@ namespace fakeit {
         }
 
         void Reset() {
+
+            _cloneVt.copyFrom(originalVtHandle.restore());
 			_methodMocks = {};
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _suspendedProxies = {};
-            _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
 		void Clear()
diff --git a/single_header/gtest/fakeit.hpp b/single_header/gtest/fakeit.hpp
index 5fcadb1..ebd7687 100644
--- a/single_header/gtest/fakeit.hpp
+++ b/single_header/gtest/fakeit.hpp
@@ -6036,13 +6036,14 @@ namespace fakeit {
         }
 
         void Reset() {
+
+            _cloneVt.copyFrom(originalVtHandle.restore());
 			_methodMocks = {};
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _suspendedProxies = {};
-            _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
 		void Clear()
diff --git a/single_header/mettle/fakeit.hpp b/single_header/mettle/fakeit.hpp
index c27e69f..6838878 100644
--- a/single_header/mettle/fakeit.hpp
+++ b/single_header/mettle/fakeit.hpp
@@ -6058,13 +6058,14 @@ namespace fakeit {
         }
 
         void Reset() {
+
+            _cloneVt.copyFrom(originalVtHandle.restore());
 			_methodMocks = {};
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _suspendedProxies = {};
-            _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
 		void Clear()
diff --git a/single_header/mstest/fakeit.hpp b/single_header/mstest/fakeit.hpp
index 734c9dd..08e7545 100644
--- a/single_header/mstest/fakeit.hpp
+++ b/single_header/mstest/fakeit.hpp
@@ -6060,13 +6060,14 @@ namespace fakeit {
         }
 
         void Reset() {
+
+            _cloneVt.copyFrom(originalVtHandle.restore());
 			_methodMocks = {};
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _suspendedProxies = {};
-            _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
 		void Clear()
diff --git a/single_header/nunit/fakeit.hpp b/single_header/nunit/fakeit.hpp
index c11e6b7..78ab37d 100644
--- a/single_header/nunit/fakeit.hpp
+++ b/single_header/nunit/fakeit.hpp
@@ -6043,13 +6043,14 @@ namespace fakeit {
         }
 
         void Reset() {
+
+            _cloneVt.copyFrom(originalVtHandle.restore());
 			_methodMocks = {};
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _suspendedProxies = {};
-            _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
 		void Clear()
diff --git a/single_header/qtest/fakeit.hpp b/single_header/qtest/fakeit.hpp
index abb98fa..3812765 100644
--- a/single_header/qtest/fakeit.hpp
+++ b/single_header/qtest/fakeit.hpp
@@ -6044,13 +6044,14 @@ namespace fakeit {
         }
 
         void Reset() {
+
+            _cloneVt.copyFrom(originalVtHandle.restore());
 			_methodMocks = {};
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _suspendedProxies = {};
-            _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
 		void Clear()
diff --git a/single_header/standalone/fakeit.hpp b/single_header/standalone/fakeit.hpp
index 64cbe64..1727329 100644
--- a/single_header/standalone/fakeit.hpp
+++ b/single_header/standalone/fakeit.hpp
@@ -6112,13 +6112,14 @@ namespace fakeit {
         }
 
         void Reset() {
+
+            _cloneVt.copyFrom(originalVtHandle.restore());
 			_methodMocks = {};
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _suspendedProxies = {};
-            _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
 		void Clear()
diff --git a/single_header/tpunit/fakeit.hpp b/single_header/tpunit/fakeit.hpp
index 32fc8f8..fe20932 100644
--- a/single_header/tpunit/fakeit.hpp
+++ b/single_header/tpunit/fakeit.hpp
@@ -6095,13 +6095,14 @@ namespace fakeit {
         }
 
         void Reset() {
+
+            _cloneVt.copyFrom(originalVtHandle.restore());
 			_methodMocks = {};
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
             _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _suspendedProxies = {};
-            _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
 		void Clear()
-- 
2.43.0


From 12c8bc33aa97d562ce85dd4ffa7e60b0d7b279df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:29:35 +0000
Subject: [PATCH 22/23] fix: let event handlers add or clear event handlers

FakeitContext iterated over its list of event handlers while it delivered an
event. A handler that added a handler or cleared the handlers invalidated the
iteration. The event is now delivered to the handlers that were registered
when it was fired.
---
 include/fakeit/FakeitContext.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/fakeit/FakeitContext.hpp b/include/fakeit/FakeitContext.hpp
index 8f124ab..b22c704 100644
--- a/include/fakeit/FakeitContext.hpp
+++ b/include/fakeit/FakeitContext.hpp
@@ -74,17 +74,20 @@ namespace fakeit {
         std::vector<EventHandler *> _eventListeners;
 
         void fireEvent(const NoMoreInvocationsVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners; // a listener may add or clear event handlers.
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
         void fireEvent(const UnexpectedMethodCallEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners; // a listener may add or clear event handlers.
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
         void fireEvent(const SequenceVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners; // a listener may add or clear event handlers.
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
-- 
2.43.0


From ddb2e02c36e6d0af91b22f232e20278ab6a782b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:29:35 +0000
Subject: [PATCH 23/23] fix: carry the event handler fix into the packaged
 single headers

---
 single_header/boost/fakeit.hpp      | 9 ++++++---
 single_header/catch/fakeit.hpp      | 9 ++++++---
 single_header/cute/fakeit.hpp       | 9 ++++++---
 single_header/doctest/fakeit.hpp    | 9 ++++++---
 single_header/gtest/fakeit.hpp      | 9 ++++++---
 single_header/mettle/fakeit.hpp     | 9 ++++++---
 single_header/mstest/fakeit.hpp     | 9 ++++++---
 single_header/nunit/fakeit.hpp      | 9 ++++++---
 single_header/qtest/fakeit.hpp      | 9 ++++++---
 single_header/standalone/fakeit.hpp | 9 ++++++---
 single_header/tpunit/fakeit.hpp     | 9 ++++++---
 11 files changed, 66 insertions(+), 33 deletions(-)

diff --git a/single_header/boost/fakeit.hpp b/single_header/boost/fakeit.hpp
index b996ebc..044fefa 100644
--- a/single_header/boost/fakeit.hpp
+++ b/single_header/boost/fakeit.hpp
@@ -863,17 +863,20 @@ namespace fakeit {
         std::vector<EventHandler *> _eventListeners;
 
         void fireEvent(const NoMoreInvocationsVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners;
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
         void fireEvent(const UnexpectedMethodCallEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners;
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
         void fireEvent(const SequenceVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners;
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
diff --git a/single_header/catch/fakeit.hpp b/single_header/catch/fakeit.hpp
index dfb2ac8..d9bf456 100644
--- a/single_header/catch/fakeit.hpp
+++ b/single_header/catch/fakeit.hpp
@@ -863,17 +863,20 @@ namespace fakeit {
         std::vector<EventHandler *> _eventListeners;
 
         void fireEvent(const NoMoreInvocationsVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners;
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
         void fireEvent(const UnexpectedMethodCallEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners;
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
         void fireEvent(const SequenceVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners;
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
diff --git a/single_header/cute/fakeit.hpp b/single_header/cute/fakeit.hpp
index 60c4571..3795b57 100644
--- a/single_header/cute/fakeit.hpp
+++ b/single_header/cute/fakeit.hpp
@@ -863,17 +863,20 @@ namespace fakeit {
         std::vector<EventHandler *> _eventListeners;
 
         void fireEvent(const NoMoreInvocationsVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners;
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
         void fireEvent(const UnexpectedMethodCallEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners;
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
         void fireEvent(const SequenceVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners;
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
diff --git a/single_header/doctest/fakeit.hpp b/single_header/doctest/fakeit.hpp
index 92abaaa..1e37148 100644
--- a/single_header/doctest/fakeit.hpp
+++ b/single_header/doctest/fakeit.hpp
@@ -863,17 +863,20 @@ namespace fakeit {
         std::vector<EventHandler *> _eventListeners;
 
         void fireEvent(const NoMoreInvocationsVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners;
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
         void fireEvent(const UnexpectedMethodCallEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners;
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
         void fireEvent(const SequenceVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners;
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
diff --git a/single_header/gtest/fakeit.hpp b/single_header/gtest/fakeit.hpp
index ebd7687..fd00bcc 100644
--- a/single_header/gtest/fakeit.hpp
+++ b/single_header/gtest/fakeit.hpp
@@ -863,17 +863,20 @@ namespace fakeit {
         std::vector<EventHandler *> _eventListeners;
 
         void fireEvent(const NoMoreInvocationsVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners;
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
         void fireEvent(const UnexpectedMethodCallEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners;
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
         void fireEvent(const SequenceVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners;
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
diff --git a/single_header/mettle/fakeit.hpp b/single_header/mettle/fakeit.hpp
index 6838878..92fc221 100644
--- a/single_header/mettle/fakeit.hpp
+++ b/single_header/mettle/fakeit.hpp
@@ -862,17 +862,20 @@ namespace fakeit {
         std::vector<EventHandler *> _eventListeners;
 
         void fireEvent(const NoMoreInvocationsVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners;
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
         void fireEvent(const UnexpectedMethodCallEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners;
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
         void fireEvent(const SequenceVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners;
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
diff --git a/single_header/mstest/fakeit.hpp b/single_header/mstest/fakeit.hpp
index 08e7545..51d0f23 100644
--- a/single_header/mstest/fakeit.hpp
+++ b/single_header/mstest/fakeit.hpp
@@ -863,17 +863,20 @@ namespace fakeit {
         std::vector<EventHandler *> _eventListeners;
 
         void fireEvent(const NoMoreInvocationsVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners;
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
         void fireEvent(const UnexpectedMethodCallEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners;
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
         void fireEvent(const SequenceVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners;
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
diff --git a/single_header/nunit/fakeit.hpp b/single_header/nunit/fakeit.hpp
index 78ab37d..bdaf1d8 100644
--- a/single_header/nunit/fakeit.hpp
+++ b/single_header/nunit/fakeit.hpp
@@ -863,17 +863,20 @@ namespace fakeit {
         std::vector<EventHandler *> _eventListeners;
 
         void fireEvent(const NoMoreInvocationsVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners;
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
         void fireEvent(const UnexpectedMethodCallEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners;
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
         void fireEvent(const SequenceVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners;
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
diff --git a/single_header/qtest/fakeit.hpp b/single_header/qtest/fakeit.hpp
index 3812765..2e40580 100644
--- a/single_header/qtest/fakeit.hpp
+++ b/single_header/qtest/fakeit.hpp
@@ -863,17 +863,20 @@ namespace fakeit {
         std::vector<EventHandler *> _eventListeners;
 
         void fireEvent(const NoMoreInvocationsVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners;
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
         void fireEvent(const UnexpectedMethodCallEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners;
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
         void fireEvent(const SequenceVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners;
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
diff --git a/single_header/standalone/fakeit.hpp b/single_header/standalone/fakeit.hpp
index 1727329..131c79f 100644
--- a/single_header/standalone/fakeit.hpp
+++ b/single_header/standalone/fakeit.hpp
@@ -862,17 +862,20 @@ namespace fakeit {
         std::vector<EventHandler *> _eventListeners;
 
         void fireEvent(const NoMoreInvocationsVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners;
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
         void fireEvent(const UnexpectedMethodCallEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners;
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
         void fireEvent(const SequenceVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners;
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
diff --git a/single_header/tpunit/fakeit.hpp b/single_header/tpunit/fakeit.hpp
index fe20932..e612fa2 100644
--- a/single_header/tpunit/fakeit.hpp
+++ b/single_header/tpunit/fakeit.hpp
@@ -863,17 +863,20 @@ namespace fakeit {
         std::vector<EventHandler *> _eventListeners;
 
         void fireEvent(const NoMoreInvocationsVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners;
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
         void fireEvent(const UnexpectedMethodCallEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners;
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
         void fireEvent(const SequenceVerificationEvent &evt) {
-            for (auto listener : _eventListeners)
+            const auto listeners = _eventListeners;
+            for (auto listener : listeners)
                 listener->handle(evt);
         }
 
-- 
2.43.0

