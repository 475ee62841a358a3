From 429f779ed18df49911308c1f31ff4ec47990b435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:52 +0000
Subject: [PATCH 01/20] fix: copying an empty Scalar response value no longer
 throws

---
 src/GraphQLResponse.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/GraphQLResponse.cpp b/src/GraphQLResponse.cpp
index 7ddaf65..d3ca3e8 100644
--- a/src/GraphQLResponse.cpp
+++ b/src/GraphQLResponse.cpp
@@ -466,8 +466,13 @@ Value::Value(const Value& other)
 			break;
 
 		case Type::Scalar:
-			_data = { ScalarData { std::make_unique<ScalarType>(other.get<ScalarType>()) } };
+		{
+			// A default constructed or released Scalar is empty, and so is its copy.
+			const auto& scalar = std::get<ScalarData>(other._data).scalar;
+
+			_data = { ScalarData { scalar ? std::make_unique<ScalarType>(*scalar) : nullptr } };
 			break;
+		}
 	}
 }
 
-- 
2.43.0


From 74cc96db996fd8ad508572e068c67514c73f5ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:42 +0000
Subject: [PATCH 02/20] fix: JSON strings and keys keep embedded NUL characters

---
 src/JSONResponse.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/JSONResponse.cpp b/src/JSONResponse.cpp
index c0d9172..af8ae51 100644
--- a/src/JSONResponse.cpp
+++ b/src/JSONResponse.cpp
@@ -28,7 +28,8 @@ void writeResponse(rapidjson::Writer<rapidjson::StringBuffer>& writer, Value&& r
 
 			for (auto& entry : members)
 			{
-				writer.Key(entry.first.c_str());
+				writer.Key(entry.first.c_str(),
+					static_cast<rapidjson::SizeType>(entry.first.size()));
 				writeResponse(writer, std::move(entry.second));
 			}
 
@@ -56,7 +57,7 @@ void writeResponse(rapidjson::Writer<rapidjson::StringBuffer>& writer, Value&& r
 		{
 			auto value = response.release<StringType>();
 
-			writer.String(value.c_str());
+			writer.String(value.c_str(), static_cast<rapidjson::SizeType>(value.size()));
 			break;
 		}
 
@@ -178,9 +179,9 @@ struct ResponseHandler : rapidjson::BaseReaderHandler<rapidjson::UTF8<>, Respons
 		return true;
 	}
 
-	bool String(const Ch* str, rapidjson::SizeType /*length*/, bool /*copy*/)
+	bool String(const Ch* str, rapidjson::SizeType length, bool /*copy*/)
 	{
-		setValue(Value(std::string(str)).from_json());
+		setValue(Value(std::string(str, length)).from_json());
 		return true;
 	}
 
@@ -190,9 +191,9 @@ struct ResponseHandler : rapidjson::BaseReaderHandler<rapidjson::UTF8<>, Respons
 		return true;
 	}
 
-	bool Key(const Ch* str, rapidjson::SizeType /*length*/, bool /*copy*/)
+	bool Key(const Ch* str, rapidjson::SizeType length, bool /*copy*/)
 	{
-		_keyStack.push_back(str);
+		_keyStack.emplace_back(str, length);
 		return true;
 	}
 
-- 
2.43.0


From cf563120b87c4f3a518efe9c1313b69abe037b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:06 +0000
Subject: [PATCH 03/20] fix: parseJSON reads floating point numbers exactly

---
 src/JSONResponse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/JSONResponse.cpp b/src/JSONResponse.cpp
index af8ae51..f931c9c 100644
--- a/src/JSONResponse.cpp
+++ b/src/JSONResponse.cpp
@@ -245,7 +245,7 @@ Value parseJSON(const std::string& json)
 	rapidjson::Reader reader;
 	rapidjson::StringStream ss(json.c_str());
 
-	reader.Parse(ss, handler);
+	reader.Parse<rapidjson::kParseFullPrecisionFlag>(ss, handler);
 
 	return handler.getResponse();
 }
-- 
2.43.0


From 0c9e71cec6039157afee2d433487fe1e17e860bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:35 +0000
Subject: [PATCH 04/20] fix: float literals with both a fraction and an
 exponent are parsed

---
 include/graphqlservice/internal/Grammar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index 1e95e2d..5469a33 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -224,7 +224,7 @@ struct exponent_part : if_must<exponent_indicator, exponent_part_content>
 
 // http://spec.graphql.org/June2018/#FloatValue
 struct float_value
-	: seq<integer_part, sor<fractional_part, exponent_part, seq<fractional_part, exponent_part>>>
+	: seq<integer_part, sor<seq<fractional_part, exponent_part>, fractional_part, exponent_part>>
 {
 };
 
-- 
2.43.0


From 49ffb1062af64aa307d7713c961010c3d9ecf743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:43 +0000
Subject: [PATCH 05/20] fix: escape sequences in string literals are unescaped

---
 src/SyntaxTree.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SyntaxTree.cpp b/src/SyntaxTree.cpp
index b323f54..9b87205 100644
--- a/src/SyntaxTree.cpp
+++ b/src/SyntaxTree.cpp
@@ -55,12 +55,12 @@ std::string_view ast_node::unescaped_view() const
 				children.cend(),
 				size_t(0),
 				[](size_t total, const std::unique_ptr<ast_node>& child) {
-					return total + child->string_view().size();
+					return total + child->unescaped_view().size();
 				}));
 
 			for (const auto& child : children)
 			{
-				joined.append(child->string_view());
+				joined.append(child->unescaped_view());
 			}
 
 			const_cast<ast_node*>(this)->_unescaped =
@@ -69,7 +69,7 @@ std::string_view ast_node::unescaped_view() const
 		else if (!children.empty())
 		{
 			const_cast<ast_node*>(this)->_unescaped =
-				std::make_unique<unescaped_t>(children.front()->string_view());
+				std::make_unique<unescaped_t>(children.front()->unescaped_view());
 		}
 		else if (has_content() && is_type<escaped_unicode>())
 		{
-- 
2.43.0


From b2d0ae11deb8c9e1c265caf74ea97e5ba8ff075c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:49 +0000
Subject: [PATCH 06/20] fix: integer literals outside the 32-bit range no
 longer wrap around

---
 src/GraphQLService.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index e1c409a..aec5f55 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -9,7 +9,9 @@
 
 #include <algorithm>
 #include <array>
+#include <cstdlib>
 #include <iostream>
+#include <limits>
 
 namespace graphql::service {
 
@@ -276,7 +278,19 @@ void ValueVisitor::visitVariable(const peg::ast_node& variable)
 
 void ValueVisitor::visitIntValue(const peg::ast_node& intValue)
 {
-	_value = response::Value(std::atoi(intValue.string().c_str()));
+	const auto text = intValue.string();
+	const auto value = std::strtoll(text.c_str(), nullptr, 10);
+
+	if (value < std::numeric_limits<response::IntType>::min()
+		|| value > std::numeric_limits<response::IntType>::max())
+	{
+		// It doesn't fit in a 32-bit Int, but it's still a valid Float literal.
+		_value = response::Value(std::atof(text.c_str()));
+	}
+	else
+	{
+		_value = response::Value(static_cast<response::IntType>(value));
+	}
 }
 
 void ValueVisitor::visitFloatValue(const peg::ast_node& floatValue)
-- 
2.43.0


From 0a4ac673ebe49bbc986a0515ff85325787bd3fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 07/20] fix: @include is evaluated on selections which also
 have @skip

---
 src/GraphQLService.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index aec5f55..dee86d5 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -465,13 +465,13 @@ bool DirectiveVisitor::shouldSkip() const
 			argumentFalse = !argumentTrue;
 		}
 
-		if (argumentTrue)
+		if (argumentTrue || argumentFalse)
 		{
-			return skip;
-		}
-		else if (argumentFalse)
-		{
-			return !skip;
+			// Both of the directives need to allow it, so keep looking unless this one skips it.
+			if (argumentTrue == skip)
+			{
+				return true;
+			}
 		}
 		else
 		{
-- 
2.43.0


From a98ecec08dc705e6dde20754c2182be15350d035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:49 +0000
Subject: [PATCH 08/20] fix: a skipped field does not hide later selections of
 the same name

---
 src/GraphQLService.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index dee86d5..1565d94 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -866,6 +866,17 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 		alias = name;
 	}
 
+	DirectiveVisitor directiveVisitor(_variables);
+
+	peg::on_first_child<peg::directives>(field, [&directiveVisitor](const peg::ast_node& child) {
+		directiveVisitor.visit(child);
+	});
+
+	if (directiveVisitor.shouldSkip())
+	{
+		return;
+	}
+
 	if (!_names.emplace(alias).second)
 	{
 		// Skip resolving fields which map to the same response name as a field we've already
@@ -893,17 +904,6 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 		return;
 	}
 
-	DirectiveVisitor directiveVisitor(_variables);
-
-	peg::on_first_child<peg::directives>(field, [&directiveVisitor](const peg::ast_node& child) {
-		directiveVisitor.visit(child);
-	});
-
-	if (directiveVisitor.shouldSkip())
-	{
-		return;
-	}
-
 	response::Value arguments(response::Type::Map);
 
 	peg::on_first_child<peg::arguments>(field, [this, &arguments](const peg::ast_node& child) {
-- 
2.43.0


From 28bf499b8ba224bab2413ec056e99b736218b019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 09/20] fix: a failing list element becomes null in its own
 position

---
 include/graphqlservice/GraphQLService.h | 37 ++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/include/graphqlservice/GraphQLService.h b/include/graphqlservice/GraphQLService.h
index 285686e..af00669 100644
--- a/include/graphqlservice/GraphQLService.h
+++ b/include/graphqlservice/GraphQLService.h
@@ -652,8 +652,20 @@ struct ModifiedResult
 					// Copy the values from the std::vector<> rather than moving them.
 					for (typename vector_type::value_type entry : wrappedResult)
 					{
-						children.push_back(ModifiedResult::convert<Other...>(std::move(entry),
-							ResolverParams(wrappedParams)));
+						try
+						{
+							children.push_back(ModifiedResult::convert<Other...>(std::move(entry),
+								ResolverParams(wrappedParams)));
+						}
+						catch (...)
+						{
+							// Only this element failed, report it in the same position.
+							std::promise<ResolverResult> promise;
+
+							promise.set_exception(std::current_exception());
+							children.push_back(promise.get_future());
+						}
+
 						++std::get<size_t>(wrappedParams.errorPath->segment);
 					}
 				}
@@ -661,8 +673,20 @@ struct ModifiedResult
 				{
 					for (auto& entry : wrappedResult)
 					{
-						children.push_back(ModifiedResult::convert<Other...>(std::move(entry),
-							ResolverParams(wrappedParams)));
+						try
+						{
+							children.push_back(ModifiedResult::convert<Other...>(std::move(entry),
+								ResolverParams(wrappedParams)));
+						}
+						catch (...)
+						{
+							// Only this element failed, report it in the same position.
+							std::promise<ResolverResult> promise;
+
+							promise.set_exception(std::current_exception());
+							children.push_back(promise.get_future());
+						}
+
 						++std::get<size_t>(wrappedParams.errorPath->segment);
 					}
 				}
@@ -687,6 +711,9 @@ struct ModifiedResult
 					}
 					catch (schema_exception& scx)
 					{
+						// Keep a null in the position of the failed element.
+						document.data.emplace_back({});
+
 						auto errors = scx.getStructuredErrors();
 
 						if (!errors.empty())
@@ -696,6 +723,8 @@ struct ModifiedResult
 					}
 					catch (const std::exception& ex)
 					{
+						document.data.emplace_back({});
+
 						std::ostringstream message;
 
 						message << "Field error name: " << wrappedParams.fieldName
-- 
2.43.0


From 4cde68333ce761526a4e340aed4f062c26ec124c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 10/20] fix: errors raised while an operation executes are
 reported in the response document

---
 src/GraphQLService.cpp | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 1565d94..9ff1022 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1761,15 +1761,24 @@ std::future<response::Value> Request::resolve(std::launch launch,
 		return std::async(
 			launch,
 			[](std::future<ResolverResult>&& operationFuture) {
-				auto result = operationFuture.get();
 				response::Value document { response::Type::Map };
 
-				document.emplace_back(std::string { strData }, std::move(result.data));
+				try
+				{
+					auto result = operationFuture.get();
 
-				if (!result.errors.empty())
+					document.emplace_back(std::string { strData }, std::move(result.data));
+
+					if (!result.errors.empty())
+					{
+						document.emplace_back(std::string { strErrors },
+							buildErrorValues(std::move(result.errors)));
+					}
+				}
+				catch (schema_exception& ex)
 				{
-					document.emplace_back(std::string { strErrors },
-						buildErrorValues(std::move(result.errors)));
+					document.emplace_back(std::string { strData }, response::Value());
+					document.emplace_back(std::string { strErrors }, ex.getErrors());
 				}
 
 				return document;
@@ -1915,15 +1924,24 @@ std::future<response::Value> Request::resolveUnvalidated(std::launch launch,
 		return std::async(
 			launch,
 			[](std::future<ResolverResult>&& operationFuture) {
-				auto result = operationFuture.get();
 				response::Value document { response::Type::Map };
 
-				document.emplace_back(std::string { strData }, std::move(result.data));
+				try
+				{
+					auto result = operationFuture.get();
 
-				if (!result.errors.empty())
+					document.emplace_back(std::string { strData }, std::move(result.data));
+
+					if (!result.errors.empty())
+					{
+						document.emplace_back(std::string { strErrors },
+							buildErrorValues(std::move(result.errors)));
+					}
+				}
+				catch (schema_exception& ex)
 				{
-					document.emplace_back(std::string { strErrors },
-						buildErrorValues(std::move(result.errors)));
+					document.emplace_back(std::string { strData }, response::Value());
+					document.emplace_back(std::string { strErrors }, ex.getErrors());
 				}
 
 				return document;
-- 
2.43.0


From baf73b7b21fcd9785dc38c38b6f2c647f8bc044b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 11/20] fix: subscribe only visits the selected subscription
 operation

---
 src/GraphQLService.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 9ff1022..4b2d28e 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -2016,10 +2016,7 @@ SubscriptionKey Request::subscribe(SubscriptionParams&& params, SubscriptionCall
 		std::move(fragments),
 		itr->second);
 
-	peg::for_each_child<peg::operation_definition>(subscriptionVisitor.getRoot(),
-		[&subscriptionVisitor](const peg::ast_node& child) {
-			subscriptionVisitor.visit(child);
-		});
+	subscriptionVisitor.visit(*operationDefinition.second);
 
 	auto registration = subscriptionVisitor.getRegistration();
 	auto key = _nextKey++;
-- 
2.43.0


From c545017f09483da9e5b31aeaa3b09fc8d332c684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 12/20] fix: subscription fields selected through fragments are
 registered

---
 src/GraphQLService.cpp | 46 +++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 4b2d28e..abf83fb 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1416,6 +1416,7 @@ public:
 	void visit(const peg::ast_node& operationDefinition);
 
 private:
+	void visitSelectionSet(const peg::ast_node& selection);
 	void visitField(const peg::ast_node& field);
 	void visitFragmentSpread(const peg::ast_node& fragmentSpread);
 	void visitInlineFragment(const peg::ast_node& inlineFragment);
@@ -1458,21 +1459,7 @@ void SubscriptionDefinitionVisitor::visit(const peg::ast_node& operationDefiniti
 {
 	const auto& selection = *operationDefinition.children.back();
 
-	for (const auto& child : selection.children)
-	{
-		if (child->is_type<peg::field>())
-		{
-			visitField(*child);
-		}
-		else if (child->is_type<peg::fragment_spread>())
-		{
-			visitFragmentSpread(*child);
-		}
-		else if (child->is_type<peg::inline_fragment>())
-		{
-			visitInlineFragment(*child);
-		}
-	}
+	visitSelectionSet(selection);
 
 	response::Value directives(response::Type::Map);
 
@@ -1498,6 +1485,25 @@ void SubscriptionDefinitionVisitor::visit(const peg::ast_node& operationDefiniti
 			selection);
 }
 
+void SubscriptionDefinitionVisitor::visitSelectionSet(const peg::ast_node& selection)
+{
+	for (const auto& child : selection.children)
+	{
+		if (child->is_type<peg::field>())
+		{
+			visitField(*child);
+		}
+		else if (child->is_type<peg::fragment_spread>())
+		{
+			visitFragmentSpread(*child);
+		}
+		else if (child->is_type<peg::inline_fragment>())
+		{
+			visitInlineFragment(*child);
+		}
+	}
+}
+
 void SubscriptionDefinitionVisitor::visitField(const peg::ast_node& field)
 {
 	std::string_view name;
@@ -1584,10 +1590,7 @@ void SubscriptionDefinitionVisitor::visitFragmentSpread(const peg::ast_node& fra
 		return;
 	}
 
-	for (const auto& selection : itr->second.getSelection().children)
-	{
-		visit(*selection);
-	}
+	visitSelectionSet(itr->second.getSelection());
 }
 
 void SubscriptionDefinitionVisitor::visitInlineFragment(const peg::ast_node& inlineFragment)
@@ -1615,10 +1618,7 @@ void SubscriptionDefinitionVisitor::visitInlineFragment(const peg::ast_node& inl
 		|| _subscriptionObject->matchesType(typeCondition->children.front()->string()))
 	{
 		peg::on_first_child<peg::selection_set>(inlineFragment, [this](const peg::ast_node& child) {
-			for (const auto& selection : child.children)
-			{
-				visit(*selection);
-			}
+			visitSelectionSet(child);
 		});
 	}
 }
-- 
2.43.0


From eb3f95e2a0f36f5bf1e44556b79a57b96c516136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 13/20] fix: subscriptions apply the default values of their
 variables

---
 src/GraphQLService.cpp | 79 +++++++++++++++++++++++-------------------
 1 file changed, 44 insertions(+), 35 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index abf83fb..6ff7c40 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1268,6 +1268,47 @@ void FragmentDefinitionVisitor::visit(const peg::ast_node& fragmentDefinition)
 		Fragment(fragmentDefinition, _variables));
 }
 
+// Bind the variables defined by an operation, applying their default values.
+response::Value getOperationVariables(
+	const peg::ast_node& operationDefinition, const response::Value& variables)
+{
+	// Filter the variable definitions down to the ones referenced in this operation
+	response::Value operationVariables(response::Type::Map);
+
+	peg::for_each_child<peg::variable>(operationDefinition,
+		[&variables, &operationVariables](const peg::ast_node& variable) {
+			std::string variableName;
+
+			peg::on_first_child<peg::variable_name>(variable,
+				[&variableName](const peg::ast_node& name) {
+					// Skip the $ prefix
+					variableName = name.string_view().substr(1);
+				});
+
+			auto itrVar = variables.find(variableName);
+			response::Value valueVar;
+
+			if (itrVar != variables.get<response::MapType>().cend())
+			{
+				valueVar = response::Value(itrVar->second);
+			}
+			else
+			{
+				peg::on_first_child<peg::default_value>(variable,
+					[&variables, &valueVar](const peg::ast_node& defaultValue) {
+						ValueVisitor visitor(variables);
+
+						visitor.visit(*defaultValue.children.front());
+						valueVar = visitor.getValue();
+					});
+			}
+
+			operationVariables.emplace_back(std::move(variableName), std::move(valueVar));
+		});
+
+	return operationVariables;
+}
+
 // OperationDefinitionVisitor visits the AST and executes the one with the specified
 // operation name.
 class OperationDefinitionVisitor
@@ -1326,41 +1367,7 @@ void OperationDefinitionVisitor::visit(
 {
 	auto itr = _operations.find(operationType);
 
-	// Filter the variable definitions down to the ones referenced in this operation
-	response::Value operationVariables(response::Type::Map);
-
-	peg::for_each_child<peg::variable>(operationDefinition,
-		[this, &operationVariables](const peg::ast_node& variable) {
-			std::string variableName;
-
-			peg::on_first_child<peg::variable_name>(variable,
-				[&variableName](const peg::ast_node& name) {
-					// Skip the $ prefix
-					variableName = name.string_view().substr(1);
-				});
-
-			auto itrVar = _params->variables.find(variableName);
-			response::Value valueVar;
-
-			if (itrVar != _params->variables.get<response::MapType>().cend())
-			{
-				valueVar = response::Value(itrVar->second);
-			}
-			else
-			{
-				peg::on_first_child<peg::default_value>(variable,
-					[this, &valueVar](const peg::ast_node& defaultValue) {
-						ValueVisitor visitor(_params->variables);
-
-						visitor.visit(*defaultValue.children.front());
-						valueVar = visitor.getValue();
-					});
-			}
-
-			operationVariables.emplace_back(std::move(variableName), std::move(valueVar));
-		});
-
-	_params->variables = std::move(operationVariables);
+	_params->variables = getOperationVariables(operationDefinition, _params->variables);
 
 	response::Value operationDirectives(response::Type::Map);
 
@@ -1457,6 +1464,8 @@ std::shared_ptr<SubscriptionData> SubscriptionDefinitionVisitor::getRegistration
 
 void SubscriptionDefinitionVisitor::visit(const peg::ast_node& operationDefinition)
 {
+	_params.variables = getOperationVariables(operationDefinition, _params.variables);
+
 	const auto& selection = *operationDefinition.children.back();
 
 	visitSelectionSet(selection);
-- 
2.43.0


From 1eb81a2ba94c663d959212f9f78b0f38f0af7582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:59 +0000
Subject: [PATCH 14/20] fix: name the argument when a required argument is
 missing or not a list

A missing argument, or a required list argument whose value is not a
list, was reported with a generic message (Missing Map member, Invalid
call to Value::size) that did not name the argument. A conversion which
throws anything else than a schema_exception is named as well.
---
 include/graphqlservice/GraphQLService.h | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/graphqlservice/GraphQLService.h b/include/graphqlservice/GraphQLService.h
index af00669..f1bf23c 100644
--- a/include/graphqlservice/GraphQLService.h
+++ b/include/graphqlservice/GraphQLService.h
@@ -340,6 +340,14 @@ struct ModifiedArgument
 
 			throw schema_exception(std::move(errors));
 		}
+		catch (const std::exception& ex)
+		{
+			std::ostringstream message;
+
+			message << "Invalid argument: " << name << " error: " << ex.what();
+
+			throw schema_exception { { message.str() } };
+		}
 	}
 
 	// Wrap require in a try/catch block.
@@ -390,7 +398,19 @@ struct ModifiedArgument
 		typename ArgumentTraits<Type, Modifier, Other...>::type>
 	require(const std::string& name, const response::Value& arguments)
 	{
-		const auto& values = arguments[name];
+		const auto& valueItr = arguments.find(name);
+
+		if (valueItr == arguments.get<response::MapType>().cend()
+			|| valueItr->second.type() != response::Type::List)
+		{
+			std::ostringstream message;
+
+			message << "Invalid argument: " << name << " error: not a list";
+
+			throw schema_exception { { message.str() } };
+		}
+
+		const auto& values = valueItr->second;
 		typename ArgumentTraits<Type, Modifier, Other...>::type result(values.size());
 		const auto& elements = values.get<response::ListType>();
 
-- 
2.43.0


From 3ce445e7b9976c163683a9052291425758e88aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:19 +0000
Subject: [PATCH 15/20] fix: accept subscriptions on a service without a
 default subscription object

deliver documents that the subscription object in the operations map may be
empty when one is passed to every deliver call, but subscribing with a
fragment, and the asynchronous subscribe and unsubscribe overloads,
dereferenced it.
---
 src/GraphQLService.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 6ff7c40..353ada2 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1581,7 +1581,7 @@ void SubscriptionDefinitionVisitor::visitFragmentSpread(const peg::ast_node& fra
 		};
 	}
 
-	bool skip = !_subscriptionObject->matchesType(itr->second.getType());
+	bool skip = _subscriptionObject && !_subscriptionObject->matchesType(itr->second.getType());
 	DirectiveVisitor directiveVisitor(_params.variables);
 
 	if (!skip)
@@ -1623,7 +1623,7 @@ void SubscriptionDefinitionVisitor::visitInlineFragment(const peg::ast_node& inl
 			typeCondition = &child;
 		});
 
-	if (typeCondition == nullptr
+	if (typeCondition == nullptr || !_subscriptionObject
 		|| _subscriptionObject->matchesType(typeCondition->children.front()->string()))
 	{
 		peg::on_first_child<peg::selection_set>(inlineFragment, [this](const peg::ast_node& child) {
@@ -2046,7 +2046,7 @@ std::future<SubscriptionKey> Request::subscribe(
 			const auto key = spThis->subscribe(std::move(paramsFuture), std::move(callbackFuture));
 			const auto itrOperation = spThis->_operations.find(strSubscription);
 
-			if (itrOperation != spThis->_operations.end())
+			if (itrOperation != spThis->_operations.end() && itrOperation->second)
 			{
 				const auto& operation = itrOperation->second;
 				const auto& registration = spThis->_subscriptions.at(key);
@@ -2120,7 +2120,7 @@ std::future<void> Request::unsubscribe(std::launch launch, SubscriptionKey key)
 	return std::async(launch, [spThis = shared_from_this(), launch, key]() {
 		const auto itrOperation = spThis->_operations.find(strSubscription);
 
-		if (itrOperation != spThis->_operations.end())
+		if (itrOperation != spThis->_operations.end() && itrOperation->second)
 		{
 			const auto& operation = itrOperation->second;
 			const auto& registration = spThis->_subscriptions.at(key);
-- 
2.43.0


From 52c4254b5e9661bb6929bc8ce87088f8c1d949ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:19 +0000
Subject: [PATCH 16/20] fix: asynchronous subscribe rethrows the resolver's own
 exception

throw ex copied it into a std::exception and lost the schema errors.
---
 src/GraphQLService.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 353ada2..b085c96 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -2071,11 +2071,11 @@ std::future<SubscriptionKey> Request::subscribe(
 							registration->data->variables)
 						.get();
 				}
-				catch (const std::exception& ex)
+				catch (const std::exception&)
 				{
 					// Rethrow the exception, but don't leave it subscribed if the resolver failed.
 					spThis->unsubscribe(key);
-					throw ex;
+					throw;
 				}
 			}
 
-- 
2.43.0


From 4923102ddee450d7f37f0b96340e536d0189edd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:34 +0000
Subject: [PATCH 17/20] fix: an operation type without an object is an error,
 not a crash

The operations map may lack the type, or hold an empty pointer for it.
---
 src/GraphQLService.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index b085c96..41656a3 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1367,6 +1367,18 @@ void OperationDefinitionVisitor::visit(
 {
 	auto itr = _operations.find(operationType);
 
+	if (itr == _operations.end() || !itr->second)
+	{
+		auto position = operationDefinition.begin();
+		std::ostringstream error;
+
+		error << "Unsupported operation type: " << operationType;
+
+		throw schema_exception {
+			{ schema_error { error.str(), { position.line, position.column } } }
+		};
+	}
+
 	_params->variables = getOperationVariables(operationDefinition, _params->variables);
 
 	response::Value operationDirectives(response::Type::Map);
-- 
2.43.0


From 06c49bc5483f70ddde5319477f2d39264f767a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:34 +0000
Subject: [PATCH 18/20] fix: subscribe reports a service without subscriptions
 like deliver does

---
 src/GraphQLService.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 41656a3..536322b 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -2032,6 +2032,14 @@ SubscriptionKey Request::subscribe(SubscriptionParams&& params, SubscriptionCall
 	}
 
 	auto itr = _operations.find(strSubscription);
+
+	if (itr == _operations.end())
+	{
+		// There may be an empty entry in the operations map, but if it's completely missing then
+		// that means the schema does not support subscriptions at all.
+		throw std::logic_error("Subscriptions not supported");
+	}
+
 	SubscriptionDefinitionVisitor subscriptionVisitor(std::move(params),
 		std::move(callback),
 		std::move(fragments),
-- 
2.43.0


From c0ad8110488b4fc8fec307cbe2453ebb31eae357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:16 +0000
Subject: [PATCH 19/20] fix: an unsupported operation left its variables to the
 requests validated after it

---
 src/Validation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Validation.cpp b/src/Validation.cpp
index 23e4731..fae3f9c 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -769,6 +769,10 @@ void ValidateExecutableVisitor::visitOperationDefinition(const peg::ast_node& op
 		error << "Unsupported operation type: " << operationType;
 
 		_errors.push_back({ error.str(), { position.line, position.column } });
+
+		_operationVariables.reset();
+		_variableDefinitions.clear();
+		_referencedVariables.clear();
 		return;
 	}
 
-- 
2.43.0


From f562b23bea6a2479ca480e1a552efa3dee76ec31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:16 +0000
Subject: [PATCH 20/20] fix: validating a mutation without a query type added
 an empty query type

---
 src/Validation.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Validation.cpp b/src/Validation.cpp
index fae3f9c..a022124 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -1429,7 +1429,10 @@ ValidateExecutableVisitor::TypeFields::const_iterator ValidateExecutableVisitor:
 			validateFields[fieldName] = std::move(subField);
 		}
 
-		if (_schema->supportsIntrospection() && _scopedType == _operationTypes[strQuery])
+		const auto itrQuery = _operationTypes.find(strQuery);
+
+		if (_schema->supportsIntrospection() && itrQuery != _operationTypes.end()
+			&& _scopedType == itrQuery->second)
 		{
 			ValidateTypeField schemaField;
 
-- 
2.43.0

