// Contracts of the out-of-line parts of libstdc++ used by containers.
#include <cstddef>
#include <ext/aligned_buffer.h>
#include <map>
#include <unordered_map>
#include <list>
#include <string>
template class std::basic_string<char>;
extern "C" size_t vp_dblstr_(double v, char* out);
// __gnu_cxx::__to_xstring, which std::to_string(double) calls
std::string vp_to_xstring(void*, size_t, const char*, double v) asm("stub_to_xstring");
std::string vp_to_xstring(void*, size_t, const char*, double v) { char b[64]; vp_dblstr_(v, b); return std::string(b); }
namespace std {
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t p[] = {13, 29, 59, 127, 257, 541, 1109, 2357, 5087}; size_t r = 5087; for (int i = 0; i < 9; ++i) if (p[i] >= n) { r = p[i]; break; } _M_next_resize = r; return r; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
    if (ne + ni > _M_next_resize) { size_t want = ne + ni; if (want >= nb) return {true, _M_next_bkt(want + 1 > 2 * nb ? want + 1 : 2 * nb)}; _M_next_resize = nb; return {false, 0}; }
    return {false, 0}; }
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
}
// unbalanced binary search tree: the ordering contract of the red-black tree
static _Rb_tree_node_base* incr(_Rb_tree_node_base* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static _Rb_tree_node_base* decr(_Rb_tree_node_base* x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return incr(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return incr(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return decr(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return decr(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black; h._M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    _Rb_tree_node_base* nxt = (z == h._M_right) ? nullptr : incr(z); _Rb_tree_node_base* prv = (z == h._M_left) ? nullptr : decr(z);
    auto replace = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) { if (h._M_parent == a) h._M_parent = b; else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b; if (b) b->_M_parent = a->_M_parent; };
    if (!z->_M_left) replace(z, z->_M_right); else if (!z->_M_right) replace(z, z->_M_left);
    else { _Rb_tree_node_base* y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } replace(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
    if (h._M_left == z) h._M_left = nxt ? nxt : &h; if (h._M_right == z) h._M_right = prv ? prv : &h;
    return z; }
}
// standard streams: output is discarded; only the parts read by inlined code exist
namespace vpio { struct Facet { char pad[56]; char widen_ok; char widen[256]; char rest[300]; }; struct Stream { const void* const* vptr; char pad[232]; const Facet* ctype; char rest[64]; };
static Facet facet() { Facet f{}; f.widen_ok = 1; f.widen[10] = 10; return f; }
extern const Facet theFacet; const Facet theFacet = {{0}, 1, {0}, {0}}; extern const void* const table[6]; const void* const table[6] = {0, 0, 0, 0, 0, 0}; }
extern vpio::Stream vp_cerr asm("_ZSt4cerr"); vpio::Stream vp_cerr = {&vpio::table[3], {0}, &vpio::theFacet, {0}};
extern vpio::Stream vp_cout asm("_ZSt4cout"); vpio::Stream vp_cout = {&vpio::table[3], {0}, &vpio::theFacet, {0}};
extern vpio::Stream vp_clog asm("_ZSt4clog"); vpio::Stream vp_clog = {&vpio::table[3], {0}, &vpio::theFacet, {0}};
// string streams nobody reads back: same layout as the library's, text discarded
extern "C" { extern const void* const vp_ostringstream_vtt[4] asm("_ZTTNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEE"); const void* const vp_ostringstream_vtt[4] = {&vpio::table[3], &vpio::table[3], &vpio::table[3], &vpio::table[3]};
extern const void* const vp_stringbuf_vt[16] asm("_ZTVNSt7__cxx1115basic_stringbufIcSt11char_traitsIcESaIcEEE"); const void* const vp_stringbuf_vt[16] = {}; extern const void* const vp_streambuf_vt[16] asm("_ZTVSt15basic_streambufIcSt11char_traitsIcEE"); const void* const vp_streambuf_vt[16] = {};
void vp_ostringstream_ctor(char* o) asm("_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1Ev"); void vp_ostringstream_ctor(char* o) { *(const void* const**)o = &vpio::table[3]; *(char**)(o + 80) = o + 96; *(size_t*)(o + 88) = 0; o[96] = 0; *(const vpio::Facet**)(o + 240) = &vpio::theFacet; }
void vp_ostringstream_dtor(char*) asm("_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEED1Ev"); void vp_ostringstream_dtor(char*) {}
void vp_ios_base_dtor(char*) asm("_ZNSt8ios_baseD2Ev"); void vp_ios_base_dtor(char*) {} void vp_locale_dtor(char*) asm("_ZNSt6localeD1Ev"); void vp_locale_dtor(char*) {} }
// waiting functions: the tasks waited for have already run (shim_ir/future)
#include <time.h>
extern "C" int nanosleep(const struct timespec*, struct timespec*) { return 0; }
