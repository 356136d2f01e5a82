// Bodies of the out-of-line parts of libstdc++'s node-based containers, so that code using
// std::set, std::map, std::list and std::unordered_map can be encoded. Trees are not rebalanced.
#ifndef VP_STD_HPP
#define VP_STD_HPP
#include <map>
#include <set>
#include <list>
#include <unordered_map>
#include <unordered_set>

namespace std {

static inline _Rb_tree_node_base* vp_tree_next(_Rb_tree_node_base* x)
    {
    if (x->_M_right)
        {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
        return x;
        }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
    }

static inline _Rb_tree_node_base* vp_tree_prev(_Rb_tree_node_base* x)
    {
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x)
        return x->_M_right; // end(): rightmost
    if (x->_M_left)
        {
        _Rb_tree_node_base* y = x->_M_left;
        while (y->_M_right) y = y->_M_right;
        return y;
        }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
    }

__attribute__((noinline)) _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {return vp_tree_next(x);}
__attribute__((noinline)) const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw()
    {return vp_tree_next(const_cast<_Rb_tree_node_base*>(x));}
__attribute__((noinline)) _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {return vp_tree_prev(x);}
__attribute__((noinline)) const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw()
    {return vp_tree_prev(const_cast<_Rb_tree_node_base*>(x));}

// All nodes but the header are black
__attribute__((noinline)) void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
    {
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
    if (left)
        {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
        }
    else
        {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
        }
    }

__attribute__((noinline)) _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
    {
    _Rb_tree_node_base* const next = vp_tree_next(z);
    _Rb_tree_node_base* const prev = z == h._M_left ? &h : vp_tree_prev(z);
    if (h._M_left == z) h._M_left = next;
    if (h._M_right == z) h._M_right = prev;
    _Rb_tree_node_base* r; // replaces z
    if (!z->_M_left) r = z->_M_right;
    else if (!z->_M_right) r = z->_M_left;
    else
        {
        r = z->_M_right;
        while (r->_M_left) r = r->_M_left;
        if (r->_M_parent != z)
            {
            r->_M_parent->_M_left = r->_M_right;
            if (r->_M_right) r->_M_right->_M_parent = r->_M_parent;
            r->_M_right = z->_M_right;
            z->_M_right->_M_parent = r;
            }
        r->_M_left = z->_M_left;
        z->_M_left->_M_parent = r;
        }
    if (r) r->_M_parent = z->_M_parent;
    if (h._M_parent == z) h._M_parent = r;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = r;
    else z->_M_parent->_M_right = r;
    return z;
    }

namespace __detail {
__attribute__((noinline)) void _List_node_base::_M_hook(_List_node_base* const p) noexcept
    { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
__attribute__((noinline)) void _List_node_base::_M_unhook() noexcept
    { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
__attribute__((noinline)) void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
    {
    if (this == last) return;
    last->_M_prev->_M_next = this;
    first->_M_prev->_M_next = last;
    _M_prev->_M_next = first;
    _List_node_base* const t = _M_prev;
    _M_prev = last->_M_prev;
    last->_M_prev = first->_M_prev;
    first->_M_prev = t;
    }
__attribute__((noinline)) size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
    {
    _M_next_resize = 1000000;
    return n < 13 ? 13 : n | 1;
    }
__attribute__((noinline)) pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t, size_t) const
    { return bkt < 13 ? make_pair(true, size_t(13)) : make_pair(false, size_t(0)); }
} // namespace __detail
} // namespace std
#endif
