// Instantiates the container templates with opaque key, value and ordering types, so that the verified
// instantiation is generic: nothing is known about Key, Val and Less beyond their contracts.
#include "graphqlservice/internal/SortedMap.h"

#include <string_view>

namespace graphql::verif {
struct Arg
{
	int a;
};
struct Key
{
	Key(const Arg& a);
	Key(const Key&);
	Key(Key&&);
	~Key();
	Key& operator=(const Key&);
	Key& operator=(Key&&);
	bool operator==(const Key&) const;
	int k;
};
struct Val
{
	Val();
	Val(const Arg& a);
	Val(const Val&);
	Val(Val&&);
	~Val();
	Val& operator=(const Val&);
	Val& operator=(Val&&);
	bool operator==(const Val&) const;
	int v;
};
struct Less
{
	bool operator()(const Key& lhs, const Key& rhs) const noexcept;
};
using Map = graphql::internal::sorted_map<Key, Val, Less>;
using Set = graphql::internal::sorted_set<Key, Less>;

void use(Map& m, Set& s, const Key& k, Key&& rk, const Arg& a, const Arg& b, std::string_view x, std::string_view y)
{
	(void)m.find(k);
	(void)m.find(a);
	(void)m.emplace(a, b);
	(void)m.emplace(k, b);
	(void)m.erase(k);
	(void)m.erase(a);
	(void)m.erase(m.begin());
	(void)m[a];
	(void)m[k];
	(void)m.at(a);
	(void)m.at(k);
	(void)s.find(k);
	(void)s.find(a);
	(void)s.emplace(k);
	(void)s.emplace(std::move(rk));
	(void)s.erase(k);
	(void)s.erase(a);
	(void)s.erase(s.begin());
	(void)graphql::internal::shorter_or_less {}(x, y);
}
} // namespace graphql::verif

namespace graphql::internal {
template class sorted_map<verif::Key, verif::Val, verif::Less>;
template class sorted_set<verif::Key, verif::Less>;
} // namespace graphql::internal
