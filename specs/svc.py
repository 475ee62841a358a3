"""the service-level harness shared by the properties of the executor"""
SOURCES = ["src/GraphQLService.cpp", "src/GraphQLResponse.cpp", "src/Base64.cpp", "src/Schema.cpp", "src/Validation.cpp", "src/SyntaxTree.cpp", "src/Introspection.cpp", "src/IntrospectionSchema.cpp"]
