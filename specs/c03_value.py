"""C03: response::Value keeps type, contents and member order."""
import z3
from cppcv.contract import *
from cppcv import logic as L
from specs import value as W
from specs.value import *

PROPERTY = "C03"
contracts = W.contracts


def models(tu):
    m = VM()
    m.contracts = list(W.contracts) + W.base64
    return m


LEMMAS = []
TRUSTED = ["Base64::toBase64/fromBase64 (proved by C01)", "std::variant, std::vector, std::string, std::unique_ptr, std::map, std::equal_range models"]
ASSUMPTIONS = ["a NaN is not compared (== on floats is taken as identity)", "values are finite trees (the recursion of copy and == terminates)"]
HARNESS = {"main": "c03.cpp", "sources": ["src/GraphQLResponse.cpp", "src/Base64.cpp"]}
