#include "ops_impl.hpp"
namespace vf {
#ifndef G
#define G 0
#endif
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
void CAT(add_combos_, G)(std::vector<ComboOps>& v) {
#if G == 0
    v.push_back(ComboImpl<0, 1>::ops());
    v.push_back(ComboImpl<0, 3, 11>::ops());
    v.push_back(ComboImpl<1, 4, 2>::ops());
    v.push_back(ComboImpl<9, 22>::ops());
    v.push_back(ComboImpl<7, 15>::ops());
#elif G == 1
    v.push_back(ComboImpl<8, 10>::ops());
    v.push_back(ComboImpl<6, 12, 13>::ops());
    v.push_back(ComboImpl<0, 1, 2, 3, 4>::ops());
    v.push_back(ComboImpl<16, 27, 25>::ops());
    v.push_back(ComboImpl<18, 20, 17>::ops());
#elif G == 2
    v.push_back(ComboImpl<19, 23, 5>::ops());
    v.push_back(ComboImpl<26, 1>::ops());
    v.push_back(ComboImpl<28, 0, 21>::ops());
    v.push_back(ComboImpl<24, 14, 31>::ops());
    v.push_back(ComboImpl<30>::ops());
#elif G == 4
    v.push_back(ComboImpl<32, 33>::ops());
    v.push_back(ComboImpl<34, 0, 35>::ops());
    v.push_back(ComboImpl<36, 37, 9>::ops());
    v.push_back(ComboImpl<38, 32, 7>::ops());
    v.push_back(ComboImpl<39, 33, 22>::ops());
#else
    v.push_back(ComboImpl<0, 2, 5, 7, 11, 15, 17, 21>::ops());
    v.push_back(ComboImpl<22, 8>::ops());
    v.push_back(ComboImpl<29>::ops());
    v.push_back(ComboImpl<29, 12>::ops());
    v.push_back(ComboImpl<0>::ops());
#endif
}
} // namespace vf
