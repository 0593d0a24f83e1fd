#pragma once
#include <map>
#if !defined(VC_NATIVE)
// the search tree of std::map (trusted: standard library), without balancing
namespace std {
void _Rb_tree_insert_and_rebalance(bool const left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
  x->_M_parent = p;
  x->_M_left = x->_M_right = nullptr;
  if (left) {
    p->_M_left = x;
    if (p == &h) {
      h._M_parent = x;
      h._M_right = x;
    } else if (p == h._M_left)
      h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept {
  if (x->_M_right != nullptr) {
    x = x->_M_right;
    while (x->_M_left != nullptr) x = x->_M_left;
    return x;
  }
  auto* y = x->_M_parent;
  while (x == y->_M_right) {
    x = y;
    y = y->_M_parent;
  }
  return x->_M_right != y ? y : x;
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept {
  if (x->_M_left != nullptr) {
    auto* y = x->_M_left;
    while (y->_M_right != nullptr) y = y->_M_right;
    return y;
  }
  auto* y = x->_M_parent;
  while (x == y->_M_left) {
    x = y;
    y = y->_M_parent;
  }
  return y;
}
}  // namespace std
#endif
