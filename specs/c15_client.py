"""C15: the client decodes exactly the response and variables it was given."""
from specs.client import *
from specs import client as K_

PROPERTY = "C15"
contracts = K_.PARSE + K_.WRITE + K_.READ + K_.WRITERS + K_.READERS
LEMMAS = K_.LEMMAS
TRUSTED = ["response::Value contracts (proved by C03)", "base64 contracts (proved by C01)", "the instantiations of ModifiedVariable and ModifiedResponse in tu/client.cpp stand for all: the type there is opaque",
           "VariableTraits/ResponseTraits name std::optional and std::vector of the inner type (types, checked by the compiler)"]
ASSUMPTIONS = ["a conversion in generated code is a function of its value and throws when it cannot read it"]
HARNESS = {"main": "c15.cpp", "sources": ["src/GraphQLClient.cpp", "src/GraphQLResponse.cpp", "src/Base64.cpp"], "libs": ["-Wl,--unresolved-symbols=ignore-all"]}
HARNESS_SECS = 15
