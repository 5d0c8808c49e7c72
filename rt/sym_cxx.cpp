// Model of the C++ runtime for the symbolic executor.
#include <cstddef>
#include <new>
#include <map>
#include <list>
#include <string>
#include <unordered_map>
#include "vf.h"
extern "C" {
void *vf_raw_alloc(size_t n, int uninit, int kind);
void vf_raw_free(void *p, int kind);
char __libc_single_threaded = 1;
void *__dso_handle = nullptr;
void __cxa_pure_virtual() { vf_on_abort("pure virtual function called"); vf_end_path(); }
void __cxa_throw_bad_array_new_length() { vf_on_abort("bad array new length"); vf_end_path(); }
void *__cxa_allocate_exception(size_t n) { return vf_raw_alloc(n, 0, 3); }
void __cxa_free_exception(void *) {}
void __cxa_throw(void *, void *, void (*)(void *)) { vf_on_abort("exception thrown"); vf_end_path(); }
void __cxa_rethrow() { vf_on_abort("exception rethrown"); vf_end_path(); }
void *__cxa_begin_catch(void *p) { return p; }
void __cxa_end_catch() {}
int __gxx_personality_v0(...) { return 0; }
}
void *operator new(size_t n) { return vf_raw_alloc(n, 1, 1); }
void *operator new[](size_t n) { return vf_raw_alloc(n, 1, 2); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return vf_raw_alloc(n, 1, 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return vf_raw_alloc(n, 1, 2); }
void *operator new(size_t n, std::align_val_t) { return vf_raw_alloc(n, 1, 1); }
void operator delete(void *p) noexcept { if (p) vf_raw_free(p, 1); }
void operator delete(void *p, size_t) noexcept { if (p) vf_raw_free(p, 1); }
void operator delete[](void *p) noexcept { if (p) vf_raw_free(p, 2); }
void operator delete[](void *p, size_t) noexcept { if (p) vf_raw_free(p, 2); }
void operator delete(void *p, std::align_val_t) noexcept { if (p) vf_raw_free(p, 1); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { if (p) vf_raw_free(p, 1); }

namespace std {
static void die(const char *m) { vf_on_abort(m); vf_end_path(); }
void terminate() noexcept { die("std::terminate() called"); __builtin_unreachable(); }
void __throw_logic_error(const char *) { die("std::logic_error thrown"); __builtin_unreachable(); }
void __throw_length_error(const char *) { die("std::length_error thrown"); __builtin_unreachable(); }
void __throw_out_of_range(const char *) { die("std::out_of_range thrown"); __builtin_unreachable(); }
void __throw_out_of_range_fmt(const char *, ...) { die("std::out_of_range thrown"); __builtin_unreachable(); }
void __throw_invalid_argument(const char *) { die("std::invalid_argument thrown"); __builtin_unreachable(); }
void __throw_runtime_error(const char *) { die("std::runtime_error thrown"); __builtin_unreachable(); }
void __throw_bad_alloc() { die("std::bad_alloc thrown"); __builtin_unreachable(); }
void __throw_bad_array_new_length() { die("std::bad_array_new_length thrown"); __builtin_unreachable(); }
void __throw_bad_function_call() { die("std::bad_function_call thrown"); __builtin_unreachable(); }
void __throw_system_error(int) { die("std::system_error thrown"); __builtin_unreachable(); }
void __throw_range_error(const char *) { die("std::range_error thrown"); __builtin_unreachable(); }
void __throw_overflow_error(const char *) { die("std::overflow_error thrown"); __builtin_unreachable(); }
void __throw_domain_error(const char *) { die("std::domain_error thrown"); __builtin_unreachable(); }
void __throw_bad_weak_ptr() { die("std::bad_weak_ptr thrown"); __builtin_unreachable(); }
void __throw_bad_typeid() { die("std::bad_typeid thrown"); __builtin_unreachable(); }
void __throw_bad_cast() { die("std::bad_cast thrown"); __builtin_unreachable(); }
void __throw_bad_optional_access() { die("std::bad_optional_access thrown"); __builtin_unreachable(); }
void __throw_bad_variant_access(const char *) { die("std::bad_variant_access thrown"); __builtin_unreachable(); }
void __glibcxx_assert_fail(const char *, int, const char *, const char *) noexcept { die("libstdc++ assertion fails"); __builtin_unreachable(); }
const char *exception::what() const noexcept { return "exception"; }
exception::~exception() {}

// red-black trees as plain binary search trees: the order of the elements is all that shows
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept
{
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept
{
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;  // the header
  if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept
{
  x->_M_parent = p;
  x->_M_left = x->_M_right = nullptr;
  x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
  h._M_color = _S_red;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) noexcept
{
  auto replace = [&](_Rb_tree_node_base *o, _Rb_tree_node_base *n) {
    if (h._M_parent == o) h._M_parent = n;
    else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n;
    else o->_M_parent->_M_right = n;
    if (n) n->_M_parent = o->_M_parent;
  };
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else {
    _Rb_tree_node_base *y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) {
      replace(y, y->_M_right);
      y->_M_right = z->_M_right;
      y->_M_right->_M_parent = y;
    }
    replace(z, y);
    y->_M_left = z->_M_left;
    y->_M_left->_M_parent = y;
  }
  _Rb_tree_node_base *r = h._M_parent;
  if (!r) { h._M_left = h._M_right = &h; }
  else {
    _Rb_tree_node_base *l = r;
    while (l->_M_left) l = l->_M_left;
    h._M_left = l;
    l = r;
    while (l->_M_right) l = l->_M_right;
    h._M_right = l;
  }
  return z;
}

// hash tables: any bucket count and any hash function will do
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { return n < 13 ? 13 : n * 2 + 1; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const
{
  if (elt + ins > bkt) return {true, (elt + ins) * 2 + 13};
  return {false, 0};
}
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed)
{
#ifdef VF_CONST_HASH  // for tables with symbolic keys: one bucket, told apart by equality alone
  return 0;
#endif
  const unsigned char *b = (const unsigned char *)p;
  size_t h = seed;
  for (size_t i = 0; i < n; i++) h = h * 31 + b[i];
  return h;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const pos) noexcept
{
  _M_next = pos; _M_prev = pos->_M_prev; pos->_M_prev->_M_next = this; pos->_M_prev = this;
}
void _List_node_base::_M_reverse() noexcept
{
  _List_node_base *n = this;
  do { _List_node_base *t = n->_M_next; n->_M_next = n->_M_prev; n->_M_prev = t; n = t; } while (n != this);
}
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept
{
  bool ex = x._M_next == &x, ey = y._M_next == &y;
  _List_node_base *xn = x._M_next, *xp = x._M_prev, *yn = y._M_next, *yp = y._M_prev;
  if (ey) { x._M_next = x._M_prev = &x; } else { x._M_next = yn; x._M_prev = yp; yn->_M_prev = &x; yp->_M_next = &x; }
  if (ex) { y._M_next = y._M_prev = &y; } else { y._M_next = xn; y._M_prev = xp; xn->_M_prev = &y; xp->_M_next = &y; }
}
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept
{
  if (this == last) return;
  last->_M_prev->_M_next = this;
  first->_M_prev->_M_next = last;
  this->_M_prev->_M_next = first;
  _List_node_base *t = this->_M_prev;
  this->_M_prev = last->_M_prev;
  last->_M_prev = first->_M_prev;
  first->_M_prev = t;
}
}
}
template class std::basic_string<char>;
// names are shown as they are
extern "C" __attribute__((weak)) char *__cxa_demangle(const char *, char *, size_t *, int *status) { if (status) *status = -2; return 0; }
