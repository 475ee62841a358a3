"""C12: every request is answered by one document for exactly the requested operation."""
from specs.execution import *
from specs import request as RQ, execution as EX, svc

PROPERTY = "C12"
contracts = [RQ.validate, RQ.find_op, RQ.find_un] + EX.contracts
models = EX.models

TRUSTED = ["response::Value contracts (proved by C03)", "getOperationVariables (proved by C06)", "DirectiveVisitor::visit (proved by C07)", "FragmentDefinitionVisitor and Object::resolve (proved by C08)", "buildErrorValues and schema_exception::getErrors (proved by C10)",
           "sorted_map as a finite map (proved by C02)", "ValidateExecutableVisitor: its verdict is a function of the document"]
ASSUMPTIONS = ["std::async runs its closure and its future yields what the closure did (when it runs is not modelled)", "the parse tree has the shape the grammar gives it (C17 is not claimed)", "the variables are an object", "a document marked as validated was validated",
               "overrides of beginSelectionSet/endSelectionSet throw only schema errors", "the overloads which take a bare syntax tree are for documents the caller has validated"]
HARNESS = {"main": "service.cpp", "sources": svc.SOURCES, "modes": ["requests"]}
HARNESS_SECS = 20
EAGER_HARNESS = True
