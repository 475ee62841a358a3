"""C11: subscriptions have keys of their own, get exactly the events they asked for, and leave when told to."""
from specs.request import *
from specs import subscriptions as SB, request as RQ, svc

PROPERTY = "C11"
contracts = SB.contracts + [RQ.validate, RQ.find_op, RQ.sub_sel, RQ.sub_visit, RQ.sub_get, RQ.subscribe, RQ.subscribe_async, RQ.unsubscribe_async]
for c in SB.contracts: c.models = SB.models
models = RQ.models

TRUSTED = ["response::Value contracts (proved by C03)", "ValueVisitor::visit and getOperationVariables (proved by C06)", "DirectiveVisitor::visit and shouldSkip (proved by C07)", "FragmentDefinitionVisitor, Object::matchesType and Object::resolve (proved by C08)",
           "buildErrorValues (proved by C10)", "sorted_map/sorted_set as finite maps and sets (proved by C02)", "ValidateExecutableVisitor: its verdict is a function of the document"]
ASSUMPTIONS = ["callbacks do not throw and do not call the Request back", "a filter's answer is a function of the member it is given", "std::async runs its closure and its future yields what the closure did (when it runs is not modelled)",
               "fewer than 2^64-1 subscriptions are ever made", "the parse tree has the shape the grammar gives it (C17 is not claimed)", "a document marked as validated was validated", "events name a field (the name is not empty)"]
HARNESS = {"main": "service.cpp", "sources": svc.SOURCES, "modes": ["subscriptions"]}
HARNESS_SECS = 20
EAGER_HARNESS = True
