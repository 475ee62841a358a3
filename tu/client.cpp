// Instantiates the client's variable writers and response readers with a type about which nothing is known.
#include "graphqlservice/GraphQLClient.h"

namespace graphql::verif {
struct Arg
{
	Arg();
	Arg(const Arg&);
	Arg(Arg&&);
	~Arg();
	Arg& operator=(const Arg&);
	Arg& operator=(Arg&&);
	int v;
};
} // namespace graphql::verif

namespace graphql::client {
template <>
response::Value ModifiedVariable<verif::Arg>::serialize(verif::Arg&& value);
template <>
verif::Arg ModifiedResponse<verif::Arg>::parse(response::Value&& response);

void use(verif::Arg&& a, std::optional<verif::Arg>&& o, std::vector<verif::Arg>&& l,
	std::vector<std::optional<verif::Arg>>&& lo, std::optional<std::vector<verif::Arg>>&& ol,
	std::vector<std::vector<verif::Arg>>&& ll, std::optional<std::vector<std::optional<verif::Arg>>>&& olo, response::Value&& value)
{
	using Out = ModifiedVariable<verif::Arg>;
	using In = ModifiedResponse<verif::Arg>;
	(void)Out::serialize<TypeModifier::None>(std::move(a));
	(void)Out::serialize<TypeModifier::Nullable>(std::move(o));
	(void)Out::serialize<TypeModifier::List>(std::move(l));
	(void)Out::serialize<TypeModifier::List, TypeModifier::Nullable>(std::move(lo));
	(void)Out::serialize<TypeModifier::Nullable, TypeModifier::List>(std::move(ol));
	(void)Out::serialize<TypeModifier::List, TypeModifier::List>(std::move(ll));
	(void)Out::serialize<TypeModifier::Nullable, TypeModifier::List, TypeModifier::Nullable>(std::move(olo));
	(void)In::parse<TypeModifier::None>(std::move(value));
	(void)In::parse<TypeModifier::Nullable>(std::move(value));
	(void)In::parse<TypeModifier::List>(std::move(value));
	(void)In::parse<TypeModifier::List, TypeModifier::Nullable>(std::move(value));
	(void)In::parse<TypeModifier::Nullable, TypeModifier::List>(std::move(value));
	(void)In::parse<TypeModifier::List, TypeModifier::List>(std::move(value));
	(void)In::parse<TypeModifier::Nullable, TypeModifier::List, TypeModifier::Nullable>(std::move(value));
}
} // namespace graphql::client
