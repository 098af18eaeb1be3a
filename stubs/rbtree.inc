// Definitions of libstdc++'s out-of-line red-black-tree primitives for the analysis: the same observable structure (an ordered
// binary tree below the header node), without rebalancing, which no caller can observe.
#include <set>
#include <map>
namespace std
{
static inline _Rb_tree_node_base* vf_next(_Rb_tree_node_base* x)
{
    if (x->_M_right != nullptr)
    {
        x = x->_M_right;
        while (x->_M_left != nullptr) { x = x->_M_left; }
        return x;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
static inline _Rb_tree_node_base* vf_prev(_Rb_tree_node_base* x)
{
    // the header is its own grandparent and red
    if (x->_M_color == _S_red && x->_M_parent != nullptr && x->_M_parent->_M_parent == x) { return x->_M_right; }
    if (x->_M_left != nullptr)
    {
        _Rb_tree_node_base* y = x->_M_left;
        while (y->_M_right != nullptr) { y = y->_M_right; }
        return y;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return vf_next(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return vf_next(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return vf_prev(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return vf_prev(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
{
    x->_M_parent = p;
    x->_M_left = nullptr;
    x->_M_right = nullptr;
    x->_M_color = _S_black;
    if (left)
    {
        p->_M_left = x;
        if (p == &h)
        {
            h._M_parent = x;
            h._M_right = x;
        }
        else if (p == h._M_left) { h._M_left = x; }
    }
    else
    {
        p->_M_right = x;
        if (p == h._M_right) { h._M_right = x; }
    }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
{
    _Rb_tree_node_base* y = nullptr;
    if (z->_M_left == nullptr) { y = z->_M_right; }
    else if (z->_M_right == nullptr) { y = z->_M_left; }
    else
    {
        // successor takes the place of z
        _Rb_tree_node_base* m = z->_M_right;
        while (m->_M_left != nullptr) { m = m->_M_left; }
        if (m != z->_M_right)
        {
            m->_M_parent->_M_left = m->_M_right;
            if (m->_M_right != nullptr) { m->_M_right->_M_parent = m->_M_parent; }
            m->_M_right = z->_M_right;
            z->_M_right->_M_parent = m;
        }
        m->_M_left = z->_M_left;
        z->_M_left->_M_parent = m;
        y = m;
    }
    _Rb_tree_node_base* p = z->_M_parent;
    if (y != nullptr) { y->_M_parent = p; }
    if (p == &h) { h._M_parent = y; }
    else if (p->_M_left == z) { p->_M_left = y; }
    else { p->_M_right = y; }
    if (h._M_parent == nullptr)
    {
        h._M_left = &h;
        h._M_right = &h;
    }
    else
    {
        _Rb_tree_node_base* a = h._M_parent;
        while (a->_M_left != nullptr) { a = a->_M_left; }
        h._M_left = a;
        a = h._M_parent;
        while (a->_M_right != nullptr) { a = a->_M_right; }
        h._M_right = a;
    }
    return z;
}
}  // namespace std
