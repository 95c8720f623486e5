// Stand-ins for functions that live in libstdc++.so, so that code using std::map, std::set or the hash containers can be
// executed symbolically.  The trees are not rebalanced: the order of the elements, which is all a user sees, is the same.
#include <cmath>
#include <list>
#include <map>
#include <string>
#include <unordered_map>
template class std::__cxx11::basic_string<char>;
namespace std {
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
  return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;   // the header is the only red node
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base* r;   // what takes the place of z
  if (!z->_M_left) r = z->_M_right; else if (!z->_M_right) r = z->_M_left;
  else {
    _Rb_tree_node_base* y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y != z->_M_right) { y->_M_parent->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = y->_M_parent; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    y->_M_left = z->_M_left; z->_M_left->_M_parent = y; r = y;
  }
  if (r) r->_M_parent = z->_M_parent;
  if (h._M_parent == z) h._M_parent = r; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = r; else z->_M_parent->_M_right = r;
  if (!h._M_parent) { h._M_left = h._M_right = &h; return z; }
  _Rb_tree_node_base* m = h._M_parent; while (m->_M_left) m = m->_M_left; h._M_left = m;
  m = h._M_parent; while (m->_M_right) m = m->_M_right; h._M_right = m;
  return z;
}
size_t _Hash_bytes(const void* p, size_t n, size_t s) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) s = s * 1099511628211ull + c[i]; return s; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t pr[] = {13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229}; for (size_t p : pr) if (p >= n) { _M_next_resize = (size_t)(p * (double)_M_max_load_factor); return p; } return n | 1; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) { double m = (_M_next_resize ? ne + ni : (ne + ni > 11 ? ne + ni : 11)) / (double)_M_max_load_factor; if (m >= nb) return {true, _M_next_bkt((size_t)(m + 1) > nb * 2 ? (size_t)(m + 1) : nb * 2)}; _M_next_resize = (size_t)(nb * (double)_M_max_load_factor); }
  return {false, 0};
}
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
}
}
