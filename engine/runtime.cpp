// The out-of-line parts of libstdc++/libc that the code under analysis links against, in source form so that the
// executor interprets them (the same algorithms as libstdc++: red-black tree, hash policy, list hooks).
#include <new>
#include <stdexcept>
#include <map>
#include <list>
#include <unordered_map>
#include <functional>
#include <future>
#include <cstring>
#include <cstdlib>
#include <chrono>
#include <cstdarg>
extern "C" {
int memcmp(const void* a, const void* b, size_t n) { auto *x = (const unsigned char*)a, *y = (const unsigned char*)b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (unsigned char)a[i] - (unsigned char)b[i]; if (!a[i]) return 0; } return 0; }
void* rt_memchr(const void* s, int c, size_t n) asm("memchr"); void* rt_memchr(const void* s, int c, size_t n) { auto* p = (unsigned char*)s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return p + i; return nullptr; }
int vsnprintf(char* b, size_t n, const char*, va_list) { if (n > 1) { b[0] = '#'; b[1] = 0; } return 1; }
int snprintf(char* b, size_t n, const char*, ...) { if (n > 1) { b[0] = '#'; b[1] = 0; } return 1; }
}
#include <string>
template class std::basic_string<char>;
// ---- exception classes (message contents are not modelled)
#define CT(sym) extern "C" void __rt_##sym(void*, const void*) asm(#sym); extern "C" void __rt_##sym(void*, const void*) {}
#define DT(sym) extern "C" void __rt_##sym(void*) asm(#sym); extern "C" void __rt_##sym(void*) {}
#define EXC(mn) CT(_ZNSt##mn##C1EPKc) CT(_ZNSt##mn##C2EPKc) CT(_ZNSt##mn##C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE) CT(_ZNSt##mn##C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE) DT(_ZNSt##mn##D1Ev) DT(_ZNSt##mn##D2Ev) CT(_ZNSt##mn##C1ERKS_) CT(_ZNSt##mn##C2ERKS_)
EXC(12out_of_range) EXC(12length_error) EXC(16invalid_argument) EXC(12domain_error) EXC(11logic_error) EXC(13runtime_error) EXC(11range_error) EXC(14overflow_error)
DT(_ZNSt9exceptionD1Ev) DT(_ZNSt9exceptionD2Ev) DT(_ZNSt9bad_allocD1Ev) DT(_ZNSt17bad_function_callD1Ev)
extern "C" const char* __rt_what(const void*) asm("_ZNKSt9exception4whatEv"); extern "C" const char* __rt_what(const void*) { return ""; }
extern "C" const char* __rt_what2(const void*) asm("_ZNKSt13runtime_error4whatEv"); extern "C" const char* __rt_what2(const void*) { return ""; }
extern "C" const char* __rt_what3(const void*) asm("_ZNKSt11logic_error4whatEv"); extern "C" const char* __rt_what3(const void*) { return ""; }
namespace std {
void __glibcxx_assert_fail(const char*, int, const char*, const char*) { abort(); }
void __throw_out_of_range(const char*) { throw std::out_of_range(""); }
void __throw_out_of_range_fmt(const char*, ...) { throw std::out_of_range(""); }
void __throw_length_error(const char*) { throw std::length_error(""); }
void __throw_logic_error(const char*) { throw std::logic_error(""); }
void __throw_runtime_error(const char*) { throw std::runtime_error(""); }
void __throw_invalid_argument(const char*) { throw std::invalid_argument(""); }
void __throw_domain_error(const char*) { throw std::domain_error(""); }
void __throw_range_error(const char*) { throw std::range_error(""); }
void __throw_overflow_error(const char*) { throw std::overflow_error(""); }
void __throw_bad_alloc() { throw std::length_error(""); }
void __throw_bad_array_new_length() { throw std::length_error(""); }
void __throw_bad_function_call() { throw std::logic_error(""); }
void __throw_system_error(int) { throw std::runtime_error(""); }
// ---- red-black tree
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
static void rotL(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) {
  _Rb_tree_node_base* const y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
  y->_M_left = x; x->_M_parent = y;
}
static void rotR(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) {
  _Rb_tree_node_base* const y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
  y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) throw() {
  _Rb_tree_node_base*& root = header._M_parent;
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &header) { header._M_parent = x; header._M_right = x; } else if (p == header._M_left) header._M_left = x; }
  else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    _Rb_tree_node_base* const xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) {
      _Rb_tree_node_base* const y = xpp->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotR(xpp, root); }
    } else {
      _Rb_tree_node_base* const y = xpp->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotL(xpp, root); }
    }
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) throw() {
  _Rb_tree_node_base *&root = header._M_parent, *&leftmost = header._M_left, *&rightmost = header._M_right, *y = z, *x = 0, *xp = 0;
  if (y->_M_left == 0) x = y->_M_right; else if (y->_M_right == 0) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { _Rb_tree_node_base* m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
    if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { _Rb_tree_node_base* m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (x == 0 || x->_M_color == _S_black))
      if (x == xp->_M_left) {
        _Rb_tree_node_base* w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; }
        if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotL(xp, root); break; }
      } else {
        _Rb_tree_node_base* w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; }
        if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotR(xp, root); break; }
      }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
// ---- list hooks
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first; _List_node_base* const t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; }
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
// ---- hash table growth policy (prime table abridged: bucket counts only influence iteration order)
static const size_t primes[] = {2, 3, 5, 7, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229, 172933};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  if (n < 14) { static const unsigned char fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13}; if (n == 0) return 1; _M_next_resize = fast[n]; return fast[n]; }
  for (size_t p : primes) if (p >= n) { _M_next_resize = p; return p; }
  return 172933;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) {
    size_t mb = std::max<size_t>(ne + ni, _M_next_resize ? 0 : 11);
    if (mb >= nb) return {true, _M_next_bkt(std::max<size_t>(mb + 1, nb * 2))};
    _M_next_resize = nb; return {false, 0};
  }
  return {false, 0};
}
}  // namespace __detail
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 131 + ((const unsigned char*)p)[i]; return h; }
}  // namespace std
// dynamic_cast: exact dynamic type, or a chain of single inheritance (base at offset 0)
extern "C" char _ZTVN10__cxxabiv120__si_class_type_infoE[];
extern "C" void* __dynamic_cast(const void* src, const void*, const void* dst, long) {
  const void* const* vt = *(const void* const* const*)src; const char* ti = (const char*)vt[-1];
  for (int i = 0; i < 8; i++) { if (ti == dst) return const_cast<void*>(src); if (*(const char* const*)ti != _ZTVN10__cxxabiv120__si_class_type_infoE + 16) break; ti = *(const char* const*)(ti + 16); }
  return nullptr;
}
// std::cout/cerr/clog as inert objects: manipulators write into their ios_base part, which is at offset 16 of each
static const long rt_streamvt_[4] = {16, 0, 0, 0};
struct RtStream_ { const void* vptr; char body[504]; };
#define STREAM(sym, name) extern "C" RtStream_ name asm(#sym); RtStream_ name = {rt_streamvt_ + 3, {0}};
STREAM(_ZSt4cout, rt_cout_) STREAM(_ZSt4cerr, rt_cerr_) STREAM(_ZSt4clog, rt_clog_)
DT(_ZNSt6thread6_StateD1Ev) DT(_ZNSt6thread6_StateD2Ev)
