"""C10: from a reported error to its entry in the response, and on the way there."""
from specs.errors import *
from specs import errors as X, results as RS, selection as SE, c09_results as C9, svc

PROPERTY = "C10"
contracts = list(X.contracts)
for c in contracts: c.models = X.models
contracts += [c for c in C9.contracts if c.name not in {x.name for x in contracts}]
contracts.append(SE.sel_visit)
SE.sel_visit.models = SE.models
models = X.models

TRUSTED = ["response::Value contracts (proved by C03)", "ValueVisitor and DirectiveVisitor (proved by C06, C07)", "Fragment and SelectionVisitor's constructor (proved by C08)"]
ASSUMPTIONS = X.ASSUMPTIONS + C9.ASSUMPTIONS
HARNESS = {"main": "service.cpp", "sources": svc.SOURCES, "modes": ["error-values", "error-path", "exec-errors"]}
HARNESS_SECS = 12
EAGER_HARNESS = True
