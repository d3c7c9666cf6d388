#!/usr/bin/env python3
"""Writes properties.jsonl. The texts live here so that the file stays well formed."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism],
                     observe_at=observe, hook_needed=None)))
I = "include/fakeit/"; U = "include/mockutils/"

p("C01", "The newest stubbing statement that accepts the arguments serves the call",
  "For every history of stubbing statements and calls on a method, a call is served by the most recently completed stubbing statement of that method on that mock whose argument condition accepts the actual arguments; older statements serve only the calls that no newer statement accepts. When that newest accepting statement has no actions left, the call is reported as unexpected instead of being served by an older statement.",
  ["histories", "inputs"], "all interleavings of stubbing statements (any argument condition, any actions) and calls with any arguments, on any number of methods and mocks",
  "The tests set up one or two statements with hand-picked arguments; selection depends on the whole order of statements, on which of them overlap and on which are used up, which is unbounded.",
  [I+"RecordedMethodBody.hpp", I+"MethodMockingContext.hpp", I+"WhenFunctor.hpp", I+"FakeFunctor.hpp"],
  [("reverse scan of the method's handlers", "RecordedMethodBody::getInvocationHandlerForActualArgs"), ("handler appended when the statement completes", "MethodMockingContext::Implementation::commit")],
  ["value returned or exception thrown by the mocked call"],
  [("_invocationHandlers", "stubbing statements of one method, oldest first", "RecordedMethodBody")])

p("C02", "Recorded actions run in order, each exactly as many times as requested",
  "The actions of one stubbing statement are consumed in the order they were written, one per call it serves, each exactly as many times as requested (zero times means skipped), an Always action or an assigned body forever, and an action that throws is consumed like any other. After the last action the statement is exhausted and serves no more calls. This also holds when an action calls the same method again while it runs: the nested call takes the next action.",
  ["histories", "programs"], "all sequences of Return, Throw, Do, quantified and Always actions and all call histories, including re-entrant calls from inside an action",
  "Tests exercise a handful of short chains; consumption depends on positions, quantities, exceptions and re-entrancy in combination.",
  [I+"ActionSequence.hpp", I+"Action.hpp", I+"StubbingProgress.hpp", I+"Quantifier.hpp"],
  [("FIFO of actions with an end marker", "ActionSequence::handleMethodInvocation"), ("repeat counter", "Repeat::invoke/isDone")],
  ["sequence of results of the mocked calls"],
  [("_recordedActions", "actions not used up yet, in order", "ActionSequence"), ("times", "remaining repetitions of an action", "Repeat")])

p("C03", "A call with no usable behaviour is always reported and never answered",
  "A call to a mocked object for which there is no stubbing statement, none that accepts the arguments, or only an exhausted one is reported once as an unexpected call (unmocked or unmatched) and ends with an exception to the caller, whatever the method's signature and even when the installed reporting adapter returns normally. Such a call never returns a value, and it leaves every stubbing statement as it was.",
  ["histories", "inputs", "configurations"], "all stubbing states, argument values, method signatures (including values returned through memory) and reporting adapters",
  "Tests cover an unmocked int method and a few unmatched ones; the guarantee is over every signature, every exhausted state and every adapter.",
  [I+"MockImpl.hpp", I+"RecordedMethodBody.hpp", I+"FakeitContext.hpp", I+"ActionSequence.hpp"],
  [("virtual table filled with a reporting method", "MockImpl::createFakeInstance / unmocked"), ("event plus exception when no handler serves", "RecordedMethodBody::handleMethodInvocation")],
  ["exception seen by the caller", "events delivered to listeners and adapter"])

p("C04", "Every served call is recorded exactly once, in the order the calls were made",
  "Each call that a stubbing statement accepts is recorded exactly once, before its action runs, whether the action returns, throws, calls other mocks or turns out to be exhausted; calls that no statement accepts are not recorded. The recorded invocations of any set of mocks appear in verification in the global order in which the calls started.",
  ["histories", "programs"], "all interleavings of calls over several mocks and methods, including throwing and nested calls",
  "Tests check a few straight-line call orders on one or two mocks; the order and completeness of the record matter for arbitrary interleavings and nested calls.",
  [I+"RecordedMethodBody.hpp", I+"Invocation.hpp", I+"SortInvocations.hpp", I+"MockImpl.hpp"],
  [("global invocation ordinal", "Invocation::nextInvocationOrdinal"), ("recorded before the action is invoked", "RecordedMethodBody::handleMethodInvocation"), ("sort by ordinal", "InvocationUtils::sortByInvocationOrder")],
  ["actual sequence carried by verification events", "Verify verdicts"],
  [("_actualInvocations", "recorded invocations of one method", "RecordedMethodBody")])

p("C05", "A verification passes exactly when the occurrence count meets the expectation",
  "Verify of a pattern of sequences counts the occurrences of the pattern in the recorded invocations of the involved mocks: each sequence (built with + and *) must match consecutive invocations, the sequences follow each other in order with any gap, and occurrences are taken from left to right without overlap. The verification passes if and only if that count is exactly n, at least n (n may be zero; by default at least once) or anything, as requested, and a negative count or a repetition of less than one is rejected with std::invalid_argument.",
  ["histories", "inputs"], "all recorded histories, all patterns of sequences and all expected counts",
  "The tests try some thirty fixed pattern and history pairs; the verdict is a function of arbitrary histories and arbitrarily nested patterns.",
  [I+"MatchAnalysis.hpp", I+"SequenceVerificationExpectation.hpp", I+"SequenceVerificationProgress.hpp", I+"Sequence.hpp"],
  [("left to right scan", "MatchAnalysis::countMatches / findNextMatch"), ("count against the expectation", "SequenceVerificationExpectation::VerifyExpectation"), ("flattening of + and *", "ConcatenatedSequence / RepeatedSequence")],
  ["pass or fail of Verify", "expected and actual count in the failure event"])

p("C06", "Exactly the invocations matched by a passing verification become verified",
  "A passing verification marks as verified exactly the invocations that belong to the complete occurrences it counted; a failing verification, an incomplete occurrence and VerifyNoOtherInvocations mark nothing. VerifyNoOtherInvocations on mocks or method filters passes if and only if every recorded invocation they select is verified, and otherwise reports exactly the unverified ones in call order.",
  ["histories"], "all histories of calls, passing and failing verifications and no-other-invocations checks",
  "The verified state accumulates over a history of verifications; tests use one or two verifications before checking for leftovers.",
  [I+"MatchAnalysis.hpp", I+"SequenceVerificationExpectation.hpp", I+"VerifyNoOtherInvocationsVerificationProgress.hpp", I+"Invocation.hpp"],
  [("matched invocations collected and marked on success", "SequenceVerificationExpectation::markAsVerified"), ("selection of unverified invocations", "InvocationUtils::selectNonVerifiedInvocations")],
  ["verdict of VerifyNoOtherInvocations and Unverified.Verify", "unverified list in the failure event"],
  [("_isVerified", "invocation was part of a passing verification", "Invocation")])

p("C07", "A verification sees exactly the invocations of its scope",
  "Verify(...) is evaluated over all recorded invocations of all mocks mentioned in its pattern and no others; Using(sources...).Verify(...) over exactly the invocations the given mocks or method filters select; Unverified restricts the scope to the invocations that are not verified yet. Consecutiveness and order are judged inside that scope only.",
  ["histories", "inputs"], "all sets of sources (mocks, filtered methods, unverified sources) over all histories of several mocks",
  "Scoping interacts with interleavings on several mocks and with earlier verifications; tests cover a few two-mock examples.",
  [I+"VerifyFunctor.hpp", I+"UsingFunctor.hpp", I+"UsingProgress.hpp", I+"VerifyUnverifiedFunctor.hpp", I+"UnverifiedFunctor.hpp" if os.path.exists("/repo/"+I+"UnverifiedFunctor.hpp") else I+"VerifyUnverifiedFunctor.hpp", I+"Sequence.hpp"],
  [("involved mocks of the pattern", "InvolvedMocks / Sequence::getInvolvedMocks"), ("source proxies", "InvocationsSourceProxy, UnverifiedInvocationsSource, AggregateInvocationsSource"), ("filter by method", "MethodMockingContext::getActualInvocations")],
  ["verdict and actual sequence of scoped verifications"])

p("C08", "All forms of a verification agree and each is evaluated exactly once",
  "A verification written as a statement is evaluated once, at the end of the statement, and reports a failure exactly once; the same verification converted to bool or negated yields the same verdict, reports nothing, throws nothing, and yields the same value however often it is converted. A verification abandoned because an exception is propagating, or because its expected count is invalid, is not evaluated: it reports nothing and marks nothing.",
  ["histories", "programs"], "all verification expressions and verdicts, in statement, bool and negated form, repeated conversions, with and without a propagating exception",
  "Tests convert a few verifications once; agreement between forms and absence of hidden evaluations is about every pattern and history.",
  [I+"SequenceVerificationProgress.hpp", I+"SequenceVerificationExpectation.hpp", I+"VerifyNoOtherInvocationsVerificationProgress.hpp", U+"smart_ptr.hpp", I+"FakeitExceptions.hpp"],
  [("evaluation in the destructor of the last copy", "SequenceVerificationExpectation::~SequenceVerificationExpectation, smart_ptr"), ("evaluated-once flag", "VerifyExpectation"), ("silent handler for bool conversion", "ThrowFalseEventHandler"), ("skipped while unwinding", "UncaughtException")],
  ["exceptions thrown by the statement", "bool values", "events seen by listeners"])

p("C09", "Argument conditions accept exactly the argument lists they describe",
  "An argument list is accepted if and only if every position satisfies its condition under the type's own operators: Eq (also for a plain value), Ne, Gt, Ge, Lt, Le, their C string counterparts by string content, ApproxEq within the margin, and Any, Any<T> or _ for everything; a user predicate decides on the whole list and no condition accepts everything. Expected values are fixed when the condition is written and the same condition means the same in stubbing and in verification.",
  ["inputs"], "all argument values, all conditions and all combinations of conditions over the positions",
  "Tests try two or three values per matcher, mostly on one-argument methods; the comparison is over all values, positions and combinations.",
  [I+"argument_matchers.hpp", I+"invocation_matchers.hpp", I+"MatchersCollector.hpp", I+"MethodMockingContext.hpp"],
  [("matcher objects", "argument_matchers.hpp (EqMatcher ... ApproxEqMatcher)"), ("conjunction over the positions", "ArgumentsMatcherInvocationMatcher::matches"), ("collection in parameter order", "MatchersCollector")],
  ["which stub serves a call", "Verify verdicts"])

p("C10", "Stubbing, verifying or resetting one mock or method never affects another",
  "Behaviour and recorded history are kept per mock and per method: any operation on one mock or one method leaves the results, actions left, recorded invocations and verified state of every other mock, including mocks of the same type, and of every other method or overload unchanged. Overloads that differ in parameters, const or reference qualification are different methods.",
  ["histories", "programs"], "all histories of operations over several mocks of the same and of different types and over several methods and overloads",
  "Each test uses its own mocks; interference needs particular orders of operations on several of them.",
  [U+"DynamicProxy.hpp", U+"MethodProxyCreator.hpp", U+"gcc/VirtualTable.hpp", I+"MockImpl.hpp", I+"Mock.hpp", I+"api_macros.hpp"],
  [("virtual table cloned per mock with its own handler table", "DynamicProxy"), ("per method proxy id", "MethodProxyCreator, InvocationHandlers::getOffset"), ("method identity", "MethodInfo")],
  ["results of calls and verifications on the untouched mocks"],
  [("_methodMocks/_offsets", "handler and proxy id per virtual table slot", "DynamicProxy")])

p("C11", "Reset returns a mock to its initial state",
  "After Reset, whatever happened before, a mock behaves like a newly created one: no stubbing statement, no recorded invocation, zeroed data members, stubbed data members destroyed, and every way of stubbing, calling and verifying (destructor included) works as on a new mock. Resetting a mock of an existing object restores the original behaviour of all its methods and leaves its data members alone.",
  ["histories"], "all histories before the reset, all histories after it, and repeated resets",
  "Tests reset after one fixed stubbing; equivalence with a new mock concerns every continuation.",
  [U+"DynamicProxy.hpp", I+"MockImpl.hpp", U+"FakeObject.hpp", I+"Mock.hpp"],
  [("tables emptied and virtual table copied again", "DynamicProxy::Reset"), ("data members zeroed", "FakeObject::initializeDataMembersArea")],
  ["behaviour of the mock after Reset compared with a new mock"])

p("C12", "Clearing the invocation history removes the history and nothing else",
  "ClearInvocationHistory removes every recorded invocation of that mock together with its verified state, so that later verifications see only later calls. It leaves the stubbing statements, their remaining actions, the data members and all other mocks unchanged.",
  ["histories"], "all histories before and after the clearing, with partly used actions, verified and unverified invocations and several mocks",
  "Two tests clear once with one stub; partly consumed actions, data members and other mocks are not covered.",
  [I+"MockImpl.hpp", I+"RecordedMethodBody.hpp", I+"Mock.hpp"],
  [("recorded invocations cleared per method", "MockImpl::clear, RecordedMethodBody::clear")],
  ["calls, verifications and data members after the clearing"])

p("C13", "Spied methods run the original and are recorded; other methods are untouched",
  "On a mock of an existing object, a method spied with Spy or SpyWithoutVerify calls the original with the caller's arguments, gives back its result or exception and its effects on the object, and is recorded; methods that are not stubbed keep calling the original and are not recorded; stubbed ones follow their stubs. While an original runs, its calls to the same method go to the original directly, and its calls to other stubbed or spied methods are intercepted.",
  ["histories", "programs"], "all mixes of spied, stubbed and untouched methods, all call histories including recursion, mutual calls and exceptions",
  "Tests spy a few methods called once; recursion, exceptions and mixes of spied and stubbed methods over a history are not enumerated.",
  [I+"SpyFunctor.hpp", I+"SpyingContext.hpp", I+"MockImpl.hpp", U+"DynamicProxy.hpp", I+"Action.hpp"],
  [("slot swapped to the original for the duration of the call", "DynamicProxy::createRaiiMethodSwapper"), ("delegate action", "ReturnDelegateValue")],
  ["results, exceptions, object state and recorded invocations"])

p("C14", "A spied object gets its original behaviour back",
  "When a mock of an existing object is destroyed or reset, at any point and after any history, including calls that ended in exceptions, every method of the object behaves as before the mock was created and the object itself is neither destroyed nor otherwise changed. A method whose spied original threw or recursed is intercepted again on the next call.",
  ["histories", "fault_sequences"], "all histories of stubbing, spying, resetting and calls that return or throw, before the mock is destroyed or reset",
  "Restoration must hold on every path out of a spied call; tests only destroy the mock after straight-line use.",
  [U+"DynamicProxy.hpp", I+"MockImpl.hpp", U+"Finally.hpp", U+"gcc/VirtualTable.hpp", U+"FakeObject.hpp"],
  [("original virtual table restored", "DynamicProxy::detach, MockImpl::~MockImpl"), ("slot restored on every exit", "Finally in createRaiiMethodSwapper")],
  ["results of calls on the object after the mock is gone"])

p("C15", "Deleting a mocked object is intercepted and never destroys it",
  "Deleting a mocked object, or calling its destructor, never frees or destroys the instance the mock owns, any number of times; without a destructor stub it has no effect, and with one the stub's actions run and the deletion is recorded and verifiable like any method call. This holds wherever the virtual destructor is declared among the methods, and stubbing the destructor of a class without a virtual one is rejected.",
  ["histories", "programs"], "all histories of deletions, destructor stubs, resets and clears, for every position of the destructor in the class",
  "Tests delete once per mock; repeated deletions, resets and other destructor positions are not covered.",
  [I+"MockImpl.hpp", U+"DynamicProxy.hpp", U+"gcc/VirtualTable.hpp", U+"VTUtils.hpp", I+"DtorMockingContext.hpp" if os.path.exists("/repo/"+I+"DtorMockingContext.hpp") else I+"MethodMockingContext.hpp"],
  [("deleting destructor slot redirected", "VirtualTable::setDtor/dtor"), ("no-op destructor by default", "MockImpl::unmockedDtor")],
  ["results of delete", "verification of the destructor", "further calls on the mock"])

p("C16", "A stubbing statement takes effect completely at its end or not at all",
  "A stubbing statement takes effect when it is complete, with all its actions; until then calls follow the earlier statements. If an exception leaves the statement while it is being built, the mock's earlier statements stay in force unchanged and no action of the abandoned statement ever runs.",
  ["histories", "fault_sequences"], "all statements, all points at which an exception can interrupt them, and all earlier and later histories",
  "One test throws out of an empty statement on a fresh mock; interruption after some actions on a mock with earlier statements is not tried.",
  [I+"WhenFunctor.hpp", I+"MethodMockingContext.hpp", I+"StubbingProgress.hpp", I+"FakeitExceptions.hpp"],
  [("commit in the destructor of the statement", "WhenFunctor::StubbingChange"), ("discarded while unwinding", "UncaughtException")],
  ["results of calls after the statement"])

p("C17", "Arguments, results and exceptions pass through a mock unchanged",
  "An action receives the caller's arguments in their positions and with their values; references and pointers it receives designate the caller's objects, so what it writes (also with ReturnAndSet, by position or by index) is visible to the caller, and nothing else is written. The caller gets exactly the stubbed value, reference, move-only object or exception, and Fake yields the default value of the return type.",
  ["inputs", "programs"], "all signatures (values, references, rvalues, pointers, move-only, aggregates), all argument values and positions, all kinds of actions",
  "Tests fix one signature and one value at a time; positions, types and values in combination are not enumerated.",
  [I+"StubbingProgress.hpp", I+"StubbingImpl.hpp", U+"TupleDispatcher.hpp", U+"DefaultValue.hpp", U+"MethodProxyCreator.hpp", U+"type_utils.hpp" ],
  [("argument tuple dispatch", "TupleDispatcher::invoke"), ("out parameters", "helper::ParamWalker / ArgValue"), ("default values", "DefaultValue")],
  ["values seen by actions, caller's variables, results"])

p("C18", "Recorded value arguments are snapshots; recorded references follow the referent",
  "Verification compares an argument passed by value with the value it had when the call was made, whatever the caller or the action does with its own variables afterwards. An argument passed by reference is compared with the referent's value at verification time, except that an invocation always satisfies the very condition object that served it.",
  ["histories", "inputs"], "all histories of calls followed by changes of the caller's variables, for by-value and by-reference parameters",
  "Tests change one variable once; mixes of value and reference parameters and later changes are not enumerated.",
  [I+"ActualInvocation.hpp", I+"invocation_matchers.hpp", U+"TuplePrinter.hpp" , I+"RecordedMethodBody.hpp"],
  [("argument tuple stored per invocation", "ActualInvocation / ArgumentsTuple"), ("served-by shortcut", "ActualInvocation::getActualMatcher")],
  ["Verify verdicts after the changes"])

p("C19", "Each failure reaches every listener and then the adapter, exactly once",
  "Every unexpected call and every failed verification is delivered once to each registered event handler, in registration order, and then once to the testing framework adapter in force; a passing verification and a served call deliver nothing. Replacing or resetting the adapter or the formatter and clearing the handlers take effect for all following events, and the text given to the adapter comes from the formatter in force.",
  ["histories", "configurations"], "all histories of registering, clearing, replacing and resetting handlers, adapters and formatters, interleaved with failing and passing operations",
  "Tests register one handler and trigger one event; orders, several handlers and switching back are not covered.",
  [I+"FakeitContext.hpp", I+"DefaultFakeit.hpp", I+"EventHandler.hpp", "config/standalone/fakeit_instance.hpp" if os.path.exists("/repo/config/standalone/fakeit_instance.hpp") else I+"StandaloneFakeit.hpp"],
  [("listeners first, then adapter", "FakeitContext::handle / fireEvent"), ("custom or default adapter and formatter", "DefaultFakeit")],
  ["order and content of the events at listeners and adapter"],
  [("_eventListeners", "registered handlers in order", "FakeitContext")])

p("C20", "Failure reports describe the failure faithfully",
  "The text and data of a failure report state the kind of failure, the call or the pattern as written, the expected and actual counts, the complete list of the actual (or unverified) invocations in call order with their arguments (the text shows the first fifty), and the place of the verification. The text is a function of the failure alone: equal failures give equal texts.",
  ["histories", "inputs"], "all failing verifications and unexpected calls, over all patterns, counts, histories and printable argument types",
  "Tests compare about twenty fixed texts; patterns nest arbitrarily and histories vary in length.",
  [I+"DefaultEventFormatter.hpp", I+"Sequence.hpp", I+"FakeitEvents.hpp", "include/mockutils/Formatter.hpp", U+"TuplePrinter.hpp", I+"argument_matchers.hpp"],
  [("default formatter", "DefaultEventFormatter"), ("pattern text", "Sequence::format"), ("argument text", "Formatter, TuplePrinter")],
  ["exception text, event fields"])

p("C21", "User objects held by a mock live as long as needed and are all released",
  "Values, exceptions, functors and matchers given to a mock, the recorded arguments, stubbed data members and stored method handles stay usable as long as the mock, or a handle that refers to them, can use them, including a handle used again after stubbing, narrowing or resetting. Once the mock and the handles are gone, every copy of a user object that was made has been destroyed exactly once; Reset and ClearInvocationHistory release what they drop.",
  ["histories"], "all histories of stubbing, calling, verifying, handle reuse, clearing, resetting and destroying",
  "No test counts objects; leaks and double destruction depend on the order of operations.",
  [I+"MethodMockingContext.hpp", I+"RecordedMethodBody.hpp", I+"ActionSequence.hpp", U+"DynamicProxy.hpp", U+"smart_ptr.hpp"],
  [("shared ownership of matchers and actions", "MethodMockingContext::Implementation, MatchedInvocationHandler"), ("destruction order proxy before instance", "MockImpl members"), ("reference count of verifications", "smart_ptr")],
  ["number of live tracked objects after each step"])

p("C22", "Every virtual method is mocked in its own slot, whatever the class layout",
  "In a class with single inheritance, naming a method stubs and verifies exactly that method: calls through the class or any of its bases reach its stub and no other method's, for every position among up to a thousand virtual methods, wherever the methods and the virtual destructor are declared and for const, overloaded and inherited methods.",
  ["programs", "inputs"], "all positions in the virtual table, all placements of the destructor, inheritance depths and overload sets",
  "Tests mock classes with a few methods; positions beyond them are only checked on the offset helper itself.",
  [U+"VTUtils.hpp", U+"VirtualOffestSelector.hpp", U+"gcc/VirtualTable.hpp", U+"DynamicProxy.hpp", U+"MethodProxyCreator.hpp"],
  [("slot of a member pointer", "VTUtils::getOffset, VirtualOffsetSelector"), ("table size and destructor slot", "VTUtils::getVTSize / getDestructorOffset")],
  ["which stub a call reaches, verification per method"])

p("C23", "Data members and identity of a mocked object behave as in a real object",
  "A newly created or reset mock has zero-initialised data members; a member given a value with Stub holds it until the user or a reset changes it, and writing one member affects no other member and no method. The mocked object can be cast to its bases and dynamically to its own class, and get() always returns the same object.",
  ["histories", "programs"], "all histories of member writes, member stubs, method stubs, clears and resets",
  "Tests read members once after creation; the interplay with stubs, clears and resets is not covered.",
  [U+"FakeObject.hpp", U+"DynamicProxy.hpp", I+"Mock.hpp", U+"gcc/VirtualTable.hpp"],
  [("zeroed member area", "FakeObject::initializeDataMembersArea"), ("placement of stubbed members", "DynamicProxy::stubDataMember"), ("type information in the virtual table", "VirtualTable::buildVTArray")],
  ["member values, casts"])

p("C24", "The packaged single headers behave as specified under every test framework",
  "Each packaged single header, and the header the generator produces from the sources, behaves as specified for stubbing, calling and verification, and its adapter turns every failed verification and every unexpected call into a failure of its test framework carrying the formatted text. No failure is swallowed by an adapter and no passing verification is turned into a failure.",
  ["configurations", "histories"], "all eleven framework configurations (standalone, tpunit, gtest, catch, boost, doctest, and, against stand-ins for their framework, cute, mettle, mstest, nunit, qtest), packaged and generated headers, language standards from C++14, and histories of passing and failing operations",
  "The test suite runs with one configuration from the split sources; the single headers and other adapters are only parsed.",
  ["single_header", "config", "generate_fakeit_single_header.py"],
  [("framework adapters", "config/*/"+"*Fakeit.hpp"), ("generator", "generate_fakeit_single_header.py")],
  ["failures recorded by the framework, exceptions, verdicts"])

for q in P:
    for f in q["anchors"]["files"]:
        if not os.path.exists("/repo/" + f): print("missing", q["id"], f)
    q["anchors"]["files"] = [f for f in dict.fromkeys(q["anchors"]["files"]) if os.path.exists("/repo/" + f)]
    assert q["statement"].count(". ") <= 2, q["id"]
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(q) + "\n" for q in P))
print(len(P))
