// C++ runtime pieces needed by the IR build only (the native replay uses libstdc++'s own).
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
#include <stdexcept>
#include <new>
#include <exception>
#include <typeinfo>
#include <system_error>
#include <functional>
#include <optional>
#include <unordered_map>
#include <bits/stl_tree.h>
#include <bits/stl_list.h>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <cstdlib>

namespace std {
template class basic_string<char>;
template basic_string<char> operator+(const char*, const basic_string<char>&);
template basic_string<char> operator+(const basic_string<char>&, const basic_string<char>&);
template basic_string<char> operator+(char, const basic_string<char>&);

// ---- exceptions
static const char* dupz(const char* s) { size_t n = strlen(s); char* p = (char*)malloc(n + 1); memcpy(p, s, n + 1); return p; }
__cow_string::__cow_string() { _M_p = ""; }
__cow_string::__cow_string(const std::string& s) { _M_p = dupz(s.c_str()); }
__cow_string::__cow_string(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; _M_p = p; }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = o._M_p; }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = o._M_p; }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = o._M_p; return *this; }
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
#define SX_MSG(C) C::C(const string& s) : _M_msg(s) {} C::C(const char* s) : _M_msg(s, strlen(s)) {} C::~C() noexcept {} \
  C::C(const C& o) noexcept : exception(o), _M_msg(o._M_msg) {} C& C::operator=(const C& o) noexcept { _M_msg = o._M_msg; return *this; } \
  C::C(C&& o) noexcept : exception(o), _M_msg(o._M_msg) {} C& C::operator=(C&& o) noexcept { _M_msg = o._M_msg; return *this; } \
  const char* C::what() const noexcept { return _M_msg._M_p; }
SX_MSG(logic_error)
SX_MSG(runtime_error)
#define SX_DER(C, B) C::C(const string& s) : B(s) {} C::C(const char* s) : B(s) {} C::~C() noexcept {}
SX_DER(domain_error, logic_error) SX_DER(invalid_argument, logic_error) SX_DER(length_error, logic_error) SX_DER(out_of_range, logic_error)
SX_DER(range_error, runtime_error) SX_DER(overflow_error, runtime_error) SX_DER(underflow_error, runtime_error)
void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
void __throw_bad_function_call() { throw bad_function_call(); }
const nothrow_t nothrow{};

// ---- red-black tree
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
typedef _Rb_tree_node_base N;
static void rotl(N* x, N*& root) { N* y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotr(N* x, N*& root) { N* y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, N* x, N* p, N& h) throw() {
  N*& root = h._M_parent;
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    N* xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) {
      N* y = xpp->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr(xpp, root); }
    } else {
      N* y = xpp->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl(xpp, root); }
    }
  }
  root->_M_color = _S_black;
}
N* _Rb_tree_rebalance_for_erase(N* const z, N& h) throw() {
  N*& root = h._M_parent; N*& leftmost = h._M_left; N*& rightmost = h._M_right; N* y = z; N* x = 0; N* xp = 0;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; _Rb_tree_color c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c; y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (!z->_M_right) leftmost = z->_M_parent; else { N* t = x; while (t->_M_left) t = t->_M_left; leftmost = t; } }
    if (rightmost == z) { if (!z->_M_left) rightmost = z->_M_parent; else { N* t = x; while (t->_M_right) t = t->_M_right; rightmost = t; } }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (!x || x->_M_color == _S_black))
      if (x == xp->_M_left) {
        N* w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
        if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break; }
      } else {
        N* w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
        if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break; }
      }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
// ---- list
namespace __detail {
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base* const t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* const n = _M_next; _List_node_base* const p = _M_prev; p->_M_next = n; n->_M_prev = p; }
// ---- unordered containers
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b = 13; while (b < n) b = b * 2 + 1; _M_next_resize = b; return b; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > _M_next_resize || nb < ne + ni) return {true, _M_next_bkt((ne + ni) * 2)}; return {false, 0}; }
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { (void)p; (void)n; (void)seed; return 7; } // one bucket: keeps symbolic keys from forking on the hash
}
