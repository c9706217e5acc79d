// Parts of the C++ library that live in libstdc++.so, for code under test that uses its containers. Encoded only where a job needs them.
// Trees are not rebalanced: their shape is not observable. Native runs use the real library.
#include <list>
#include <map>
#include <unordered_map>
#include <cstring>
namespace std
{
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
{
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    auto y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
_Rb_tree_node_base const* _Rb_tree_increment(_Rb_tree_node_base const* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; // the header
    if (x->_M_left) { auto y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    auto y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
_Rb_tree_node_base const* _Rb_tree_decrement(_Rb_tree_node_base const* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(bool const left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) throw()
{
    x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
    if (left)
    {
        p->_M_left = x;
        if (p == &header) { header._M_parent = x; header._M_right = x; }
        else if (p == header._M_left) header._M_left = x;
    }
    else
    {
        p->_M_right = x;
        if (p == header._M_right) header._M_right = x;
    }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) throw()
{
    auto const replace = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) {
        if (header._M_parent == a) header._M_parent = b;
        else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b;
        else a->_M_parent->_M_right = b;
        if (b) b->_M_parent = a->_M_parent;
    };
    bool const leftmost = header._M_left == z, rightmost = header._M_right == z;
    if (leftmost) header._M_left = z->_M_parent == &header && !z->_M_right ? &header : _Rb_tree_increment(z);
    if (rightmost) header._M_right = z->_M_parent == &header && !z->_M_left ? &header : _Rb_tree_decrement(z);
    if (!z->_M_left) replace(z, z->_M_right);
    else if (!z->_M_right) replace(z, z->_M_left);
    else
    {
        auto y = z->_M_right; while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        replace(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
    }
    return z;
}
namespace __detail
{
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto const n = _M_next, p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
{
    if (this == last) return;
    last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first;
    auto const tmp = _M_prev; _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
}
static unsigned const primes[] = { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337,
    359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971, 3209, 3469, 3739, 4027, 4349, 4703, 5087, 5503, 5953, 6427, 6949,
    7517, 8123, 8783, 9497, 10273, 11113, 12011, 12983, 14033, 15173, 16411, 17749, 19183, 20753, 22447, 47431, 100003, 200003, 400009 };
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { for (auto p: primes) if (p >= n) { _M_next_resize = p; return p; } __builtin_trap(); }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const
{
    if (elt + ins <= _M_next_resize) return { false, 0 };
    size_t min = elt + ins; if (!_M_next_resize && min < 11) min = 11;
    if (min >= bkt) return { true, _M_next_bkt(min + 1 > bkt * 2 ? min + 1 : bkt * 2) };
    _M_next_resize = bkt; return { false, 0 };
}
} // namespace __detail
size_t _Hash_bytes(void const* p, size_t n, size_t seed) { size_t h = seed; for (size_t i = 0; i < n; i++) h = (h ^ static_cast<unsigned char const*>(p)[i]) * 0x100000001b3ul; return h; }
}
extern "C"
{
int strcmp(char const* a, char const* b) { while (*a && *a == *b) { a++; b++; } return (unsigned char) *a - (unsigned char) *b; }
int strncmp(char const* a, char const* b, size_t n) { for (; n; a++, b++, n--) { if (*a != *b) return (unsigned char) *a - (unsigned char) *b; if (!*a) return 0; } return 0; }
size_t wcslen(wchar_t const* s) { size_t n = 0; while (s[n]) n++; return n; }
}
