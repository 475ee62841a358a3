"""C06: value literals and variables become the values they denote."""
from specs.visitors import *
from specs import visitors as VS, svc

PROPERTY = "C06"
contracts = [VS.visit, VS.get_value, VS.op_vars]
TRUSTED = ["response::Value contracts (proved by C03)"]
ASSUMPTIONS = ["the parse tree has the shape the grammar gives it (C17 is not claimed)", "argument, object field and variable names are distinct where validation requires it", "ast_node::unescaped_view gives the text a string literal denotes and ast_node::is_type tells the grammar rule of a node (trusted)", "std::strtoll and std::atof read decimal numbers as C defines"]
HARNESS = {"main": "service.cpp", "sources": svc.SOURCES, "modes": ["literals"]}
HARNESS_SECS = 12
