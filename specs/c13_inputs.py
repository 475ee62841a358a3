"""C13: input values and variables against their declared types."""
from specs.validation import *
from specs import validation as XV, svc

PROPERTY = "C13"
contracts = XV.contracts
TRUSTED = ["base64 contracts (proved by C01)", "sorted_map/sorted_set as finite maps and sets (proved by C02)", "the accessors of schema::BaseType and schema::InputValue hand out what the schema was built with (C14 is not claimed)"]
ASSUMPTIONS = ["the schema outlives the validator and its types stay", "a non-null type does not wrap another non-null type", "two sorted maps with the same members are the same map"]
HARNESS = {"main": "c13.cpp", "sources": svc.SOURCES}
HARNESS_SECS = 15
EAGER_HARNESS = True
