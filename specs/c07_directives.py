"""C07: inclusion directives."""
from specs.selection import *
from specs import visitors as VS, selection as SE, svc
from specs.c08_selection import LEMMAS

PROPERTY = "C07"
contracts = [VS.dvisit, VS.should_skip, VS.get_dirs, SE.sel_visit]
TRUSTED = ["response::Value contracts (proved by C03)", "ValueVisitor::visit (proved by C06)", "buildErrorPath (proved by C10)", "sorted_map/sorted_set as finite maps and sets (proved by C02)"]
ASSUMPTIONS = ["the parse tree has the shape the grammar gives it (C17 is not claimed)", "every directive and argument name appears once per selection, as validation requires", "ast_node::is_type tells the grammar rule of a node (trusted)", "resolvers are opaque: each call returns a future or throws"]
HARNESS = {"main": "service.cpp", "sources": svc.SOURCES, "modes": ["directives"]}
HARNESS_SECS = 12
EAGER_HARNESS = True
