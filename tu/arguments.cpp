// Instantiates the argument readers with a type about which nothing is known.
#include "graphqlservice/GraphQLService.h"

namespace graphql::verif {
struct Arg
{
	Arg();
	Arg(const Arg&);
	Arg(Arg&&);
	~Arg();
	Arg& operator=(const Arg&);
	Arg& operator=(Arg&&);
	int v;
};
} // namespace graphql::verif

namespace graphql::service {
template <>
verif::Arg ModifiedArgument<verif::Arg>::convert(const response::Value& value);

void use(const std::string& name, const response::Value& arguments)
{
	using Plain = ModifiedArgument<verif::Arg>;
	(void)Plain::require(name, arguments);
	(void)Plain::find(name, arguments);
	(void)Plain::require<TypeModifier::None>(name, arguments);
	(void)Plain::find<TypeModifier::None>(name, arguments);
	(void)Plain::require<TypeModifier::Nullable>(name, arguments);
	(void)Plain::find<TypeModifier::Nullable>(name, arguments);
	(void)Plain::require<TypeModifier::List>(name, arguments);
	(void)Plain::find<TypeModifier::List>(name, arguments);
	(void)Plain::require<TypeModifier::List, TypeModifier::Nullable>(name, arguments);
	(void)Plain::find<TypeModifier::List, TypeModifier::Nullable>(name, arguments);
	(void)Plain::require<TypeModifier::Nullable, TypeModifier::List>(name, arguments);
	(void)Plain::find<TypeModifier::Nullable, TypeModifier::List>(name, arguments);
	(void)Plain::require<TypeModifier::List, TypeModifier::List>(name, arguments);
	(void)Plain::find<TypeModifier::List, TypeModifier::List>(name, arguments);
	(void)Plain::require<TypeModifier::Nullable, TypeModifier::List, TypeModifier::Nullable>(name, arguments);
	(void)Plain::find<TypeModifier::Nullable, TypeModifier::List, TypeModifier::Nullable>(name, arguments);
	(void)ModifiedArgument<bool>::require<TypeModifier::List>(name, arguments);
	(void)ModifiedArgument<bool>::find<TypeModifier::List>(name, arguments);
}
} // namespace graphql::service
