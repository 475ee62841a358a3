"""C16: what one document leaves behind for the next"""
from specs.history import *
from specs import history as HV, svc

PROPERTY = "C16"
contracts = HV.contracts
TRUSTED = ["sorted_map/sorted_set as finite maps and sets (proved by C02)", "the accessors of schema::Schema, BaseType, Field and InputValue are functions of the schema (C14 is not claimed)",
           "ValidateVariableTypeVisitor and ValidateArgumentValueVisitor write only their own members and the errors they were given",
           "ValidateField::operator== only compares"]
ASSUMPTIONS = ["the constructor leaves the tables filled, the caches and everything of a document empty; the schema outlives the validator and its types stay",
               "a type of the schema is identified by its name; only lists and non-nulls have none",
               "the tree is one the grammar produces (C17 is not claimed): names are not empty, a field has one, definitions end with their selection set",
               "sequential code is deterministic: with equal members, document and schema the errors are equal; no allocation fails in the middle",
               "_fieldCount is not compared: an operation sets it to 0 and a field sets it to 0 before it is read",
               "that validation terminates is tested (the search runs cycles of fragments under a time limit), not proved"]
HARNESS = {"main": "c16.cpp", "sources": svc.SOURCES}
HARNESS_SECS = 15
EAGER_HARNESS = True
