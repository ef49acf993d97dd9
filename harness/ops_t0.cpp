#include "ops_impl.hpp"
namespace vf {
#ifndef G
#define G 0
#endif
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
void CAT(add_types_, G)(std::vector<TypeOps>& v) {
    [&]<int... J>(std::integer_sequence<int, J...>) { (v.push_back(make_type_ops<G * 8 + J>()), ...); }(
        std::make_integer_sequence<int, 8>{});
}
} // namespace vf
