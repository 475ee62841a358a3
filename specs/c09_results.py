"""C09: results keep their shape."""
from specs.results import *
from specs import results as RS, selection as SE, svc

PROPERTY = "C09"


def models(tu):
    if tu.path.endswith("GraphQLService.cpp"): return RS.service_models(tu)
    return RS.conv_models(*RS.CONVERSIONS, RS.leaf_conv, RS.object_used, RS.any_value)(tu)


contracts = [RS.get_location, RS.gse_used] + [c for c in RS.CONVERSIONS if c.has_post] + [RS.leaf_forward, RS.thing_forward, RS.leaf_conv] + RS.SCALARS + [RS.object_conv]
for c in contracts: c.models = models
contracts.append(SE.obj_resolve)
SE.obj_resolve.models = SE.models

TRUSTED = ["response::Value contracts (proved by C03)", "SelectionVisitor (proved by C08)", "buildErrorPath (proved by C10)", "the instantiations of ModifiedResult in tu/results.cpp stand for all: the element type there is opaque"]
ASSUMPTIONS = ["std::async runs its closure and its future yields what the closure did (when it runs is not modelled)", "resolvers, user conversions and nested objects are opaque: each returns or throws", "moving from a smart pointer leaves it null"]
HARNESS = {"main": "service.cpp", "sources": svc.SOURCES, "modes": ["exec"]}
HARNESS_SECS = 20
EAGER_HARNESS = True
