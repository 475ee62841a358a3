// Instantiates the result conversions with types about which nothing is known.
#include "graphqlservice/GraphQLService.h"
#include "graphqlservice/internal/SyntaxTree.h"

namespace graphql::verif {
struct Leaf
{
	Leaf();
	Leaf(const Leaf&);
	Leaf(Leaf&&);
	~Leaf();
	Leaf& operator=(const Leaf&);
	Leaf& operator=(Leaf&&);
	int v;
};
struct Thing : service::Object
{
	Thing();
};
} // namespace graphql::verif

namespace graphql::service {
response::Value anyValue(verif::Leaf&& leaf, const ResolverParams& params);

template <>
std::future<ResolverResult> ModifiedResult<verif::Leaf>::convert(
	FieldResult<verif::Leaf>&& result, ResolverParams&& params)
{
	return resolve(std::move(result), std::move(params), [](verif::Leaf&& value, const ResolverParams& p) {
		return anyValue(std::move(value), p);
	});
}

void use(FieldResult<verif::Leaf>&& leaf, FieldResult<std::optional<verif::Leaf>>&& maybe, FieldResult<std::vector<verif::Leaf>>&& list,
	FieldResult<std::vector<std::optional<verif::Leaf>>>&& maybes, FieldResult<std::optional<std::vector<verif::Leaf>>>&& maybeList,
	FieldResult<std::vector<std::vector<verif::Leaf>>>&& lists, FieldResult<std::vector<bool>>&& bits,
	FieldResult<std::shared_ptr<verif::Thing>>&& thing, FieldResult<std::shared_ptr<verif::Thing>>&& maybeThing, FieldResult<std::vector<std::shared_ptr<verif::Thing>>>&& things,
	FieldResult<std::shared_ptr<Object>>&& object, FieldResult<std::vector<std::shared_ptr<Object>>>&& objects, ResolverParams&& params)
{
	using LeafResult = ModifiedResult<verif::Leaf>;
	using ThingResult = ModifiedResult<verif::Thing>;
	using BitResult = ModifiedResult<bool>;
	(void)LeafResult::convert<TypeModifier::None>(std::move(leaf), std::move(params));
	(void)LeafResult::convert<TypeModifier::Nullable>(std::move(maybe), std::move(params));
	(void)LeafResult::convert<TypeModifier::List>(std::move(list), std::move(params));
	(void)LeafResult::convert<TypeModifier::List, TypeModifier::Nullable>(std::move(maybes), std::move(params));
	(void)LeafResult::convert<TypeModifier::Nullable, TypeModifier::List>(std::move(maybeList), std::move(params));
	(void)LeafResult::convert<TypeModifier::List, TypeModifier::List>(std::move(lists), std::move(params));
	(void)BitResult::convert<TypeModifier::List>(std::move(bits), std::move(params));
	(void)ThingResult::convert<TypeModifier::None>(std::move(thing), std::move(params));
	(void)ThingResult::convert<TypeModifier::Nullable>(std::move(maybeThing), std::move(params));
	(void)ThingResult::convert<TypeModifier::List>(std::move(things), std::move(params));
	(void)ThingResult::convert<TypeModifier::List, TypeModifier::Nullable>(std::move(things), std::move(params));
}
} // namespace graphql::service
