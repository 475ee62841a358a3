"""C05: arguments reach resolvers as declared."""
from specs.arguments import *
from specs import arguments as A

PROPERTY = "C05"
contracts = A.REQ + A.FIND + A.SCALARS
LEMMAS = A.LEMMAS
TRUSTED = ["response::Value contracts (proved by C03)", "base64 contracts (proved by C01)", "schema_exception's members (proved by C10)", "the instantiations of ModifiedArgument in tu/arguments.cpp stand for all: the type there is opaque"]
ASSUMPTIONS = ["a user-written conversion looks at the content of its value only, and throws std::exception or a schema_exception carrying at least one error"]
HARNESS = {"main": "c05.cpp", "sources": ["src/GraphQLService.cpp", "src/GraphQLResponse.cpp", "src/Base64.cpp"], "libs": ["-Wl,--unresolved-symbols=ignore-all"]}
HARNESS_SECS = 15

