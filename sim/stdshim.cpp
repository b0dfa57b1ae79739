// The parts of the C++ library that programs call without compiling them: strings (explicit instantiation, so that the simulator
// sees their memory accesses) and the node operations of maps, sets and lists (the accesses are announced, then the real one runs).
// Without this, unsynchronised use of a shared std::string, std::map or std::list would hide inside libstdc++.so.
#include <dlfcn.h>

#include <list>
#include <map>
#include <string>

template class std::basic_string<char>;

extern "C" {
void __tsan_read_range(void* p, unsigned long n);
void __tsan_write_range(void* p, unsigned long n);
}
namespace {
template <typename F>
__attribute__((no_sanitize("thread"))) F real(F& f, const char* name) {
  if (!f) f = reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
  return f;
}
using Tree = std::_Rb_tree_node_base;
using Node = std::__detail::_List_node_base;
void (*insertReal)(bool, Tree*, Tree*, Tree&) = nullptr;
Tree* (*eraseReal)(Tree*, Tree&) = nullptr;
void (*hookReal)(Node*, Node*) = nullptr;
void (*unhookReal)(Node*) = nullptr;
void (*transferReal)(Node*, Node*, Node*) = nullptr;
const char* const kInsert = "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_";
const char* const kErase = "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_";
const char* const kHook = "_ZNSt8__detail15_List_node_base7_M_hookEPS0_";
const char* const kUnhook = "_ZNSt8__detail15_List_node_base9_M_unhookEv";
const char* const kTransfer = "_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_";
struct Resolve {
  Resolve() { real(insertReal, kInsert), real(eraseReal, kErase), real(hookReal, kHook), real(unhookReal, kUnhook), real(transferReal, kTransfer); }
} resolve;
void wrote(void* p) { __tsan_write_range(p, sizeof(Tree)); }
void wroteLink(Node* p) { __tsan_write_range(p, sizeof(Node)); }
}  // namespace

namespace std {
__attribute__((no_sanitize("thread"))) void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) throw() {
  wrote(x), wrote(p), wrote(&header);
  real(insertReal, kInsert)(left, x, p, header);
}
__attribute__((no_sanitize("thread"))) _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) throw() {
  wrote(z), wrote(&header);
  if (z->_M_parent) wrote(z->_M_parent);
  return real(eraseReal, kErase)(z, header);
}
__attribute__((no_sanitize("thread"))) static inline void readNode(const _Rb_tree_node_base* x) { __tsan_read_range(const_cast<_Rb_tree_node_base*>(x), sizeof(*x)); }
// these must not allocate or call anything, so they are simply written out
__attribute__((no_sanitize("thread"))) static _Rb_tree_node_base* next(_Rb_tree_node_base* x) throw() {
  readNode(x);
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
  } else {
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) x = y, y = y->_M_parent;
    if (x->_M_right != y) x = y;
  }
  return x;
}
__attribute__((no_sanitize("thread"))) static _Rb_tree_node_base* prev(_Rb_tree_node_base* x) throw() {
  readNode(x);
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) {
    _Rb_tree_node_base* y = x->_M_left;
    while (y->_M_right) y = y->_M_right;
    x = y;
  } else {
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) x = y, y = y->_M_parent;
    x = y;
  }
  return x;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return next(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return next(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return prev(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return prev(const_cast<_Rb_tree_node_base*>(x)); }
namespace __detail {
__attribute__((no_sanitize("thread"))) void _List_node_base::_M_hook(_List_node_base* const pos) noexcept {
  wroteLink(this), wroteLink(pos);
  real(hookReal, kHook)(this, pos);
}
__attribute__((no_sanitize("thread"))) void _List_node_base::_M_unhook() noexcept {
  wroteLink(this), wroteLink(_M_next), wroteLink(_M_prev);
  real(unhookReal, kUnhook)(this);
}
__attribute__((no_sanitize("thread"))) void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  wroteLink(this), wroteLink(first), wroteLink(last);
  real(transferReal, kTransfer)(this, first, last);
}
}  // namespace __detail
}  // namespace std
