#pragma once
#include "pybind11.h"
namespace pybind11 {
struct self_t {}; constexpr self_t self{};
struct op_ {};
#define LNV_OP(o) op_ operator o(const self_t&, const self_t&); template <class T> op_ operator o(const self_t&, const T&); template <class T> op_ operator o(const T&, const self_t&);
LNV_OP(+) LNV_OP(-) LNV_OP(*) LNV_OP(/) LNV_OP(^) LNV_OP(==) LNV_OP(!=)
#undef LNV_OP
op_ operator-(const self_t&);
}
