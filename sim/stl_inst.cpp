// Instrumented versions of the few out-of-line libstdc++ container functions that touch user visible nodes, so that
// races and preemptions inside std::list / std::map / std::set operations are visible to the simulator.
#include <list>
#include <map>

namespace std {
namespace __detail {
void _List_node_base::swap(_List_node_base& __x, _List_node_base& __y) noexcept
{
    if (__x._M_next != &__x)
    {
        if (__y._M_next != &__y)
        {
            std::swap(__x._M_next, __y._M_next);
            std::swap(__x._M_prev, __y._M_prev);
            __x._M_next->_M_prev = __x._M_prev->_M_next = &__x;
            __y._M_next->_M_prev = __y._M_prev->_M_next = &__y;
        }
        else
        {
            __y._M_next = __x._M_next;
            __y._M_prev = __x._M_prev;
            __y._M_next->_M_prev = __y._M_prev->_M_next = &__y;
            __x._M_next = __x._M_prev = &__x;
        }
    }
    else if (__y._M_next != &__y)
    {
        __x._M_next = __y._M_next;
        __x._M_prev = __y._M_prev;
        __x._M_next->_M_prev = __x._M_prev->_M_next = &__x;
        __y._M_next = __y._M_prev = &__y;
    }
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
{
    if (this != last)
    {
        last->_M_prev->_M_next = this;
        first->_M_prev->_M_next = last;
        this->_M_prev->_M_next = first;
        _List_node_base* const tmp = this->_M_prev;
        this->_M_prev = last->_M_prev;
        last->_M_prev = first->_M_prev;
        first->_M_prev = tmp;
    }
}
void _List_node_base::_M_reverse() noexcept
{
    _List_node_base* t = this;
    do
    {
        _List_node_base* n = t->_M_next;
        t->_M_next = t->_M_prev;
        t->_M_prev = n;
        t = n;
    }
    while (t != this);
}
void _List_node_base::_M_hook(_List_node_base* const p) noexcept
{
    this->_M_next = p;
    this->_M_prev = p->_M_prev;
    p->_M_prev->_M_next = this;
    p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
    _List_node_base* const n = this->_M_next;
    _List_node_base* const p = this->_M_prev;
    p->_M_next = n;
    n->_M_prev = p;
}
} // namespace __detail

typedef _Rb_tree_node_base N;

static N* inc(N* x) throw ()
{
    if (x->_M_right)
    {
        x = x->_M_right;
        while (x->_M_left)
        {
            x = x->_M_left;
        }
    }
    else
    {
        N* y = x->_M_parent;
        while (x == y->_M_right)
        {
            x = y;
            y = y->_M_parent;
        }
        if (x->_M_right != y)
        {
            x = y;
        }
    }
    return x;
}
N* _Rb_tree_increment(N* x) throw ()
{
    return inc(x);
}
const N* _Rb_tree_increment(const N* x) throw ()
{
    return inc(const_cast<N*>(x));
}
static N* dec(N* x) throw ()
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x)
    {
        x = x->_M_right;
    }
    else if (x->_M_left)
    {
        N* y = x->_M_left;
        while (y->_M_right)
        {
            y = y->_M_right;
        }
        x = y;
    }
    else
    {
        N* y = x->_M_parent;
        while (x == y->_M_left)
        {
            x = y;
            y = y->_M_parent;
        }
        x = y;
    }
    return x;
}
N* _Rb_tree_decrement(N* x) throw ()
{
    return dec(x);
}
const N* _Rb_tree_decrement(const N* x) throw ()
{
    return dec(const_cast<N*>(x));
}
static void rotl(N* const x, N*& root)
{
    N* const y = x->_M_right;
    x->_M_right = y->_M_left;
    if (y->_M_left)
    {
        y->_M_left->_M_parent = x;
    }
    y->_M_parent = x->_M_parent;
    if (x == root)
    {
        root = y;
    }
    else if (x == x->_M_parent->_M_left)
    {
        x->_M_parent->_M_left = y;
    }
    else
    {
        x->_M_parent->_M_right = y;
    }
    y->_M_left = x;
    x->_M_parent = y;
}
static void rotr(N* const x, N*& root)
{
    N* const y = x->_M_left;
    x->_M_left = y->_M_right;
    if (y->_M_right)
    {
        y->_M_right->_M_parent = x;
    }
    y->_M_parent = x->_M_parent;
    if (x == root)
    {
        root = y;
    }
    else if (x == x->_M_parent->_M_right)
    {
        x->_M_parent->_M_right = y;
    }
    else
    {
        x->_M_parent->_M_left = y;
    }
    y->_M_right = x;
    x->_M_parent = y;
}
void _Rb_tree_rotate_left(N* const x, N*& root)
{
    rotl(x, root);
}
void _Rb_tree_rotate_right(N* const x, N*& root)
{
    rotr(x, root);
}
void _Rb_tree_insert_and_rebalance(const bool left, N* x, N* p, N& header) throw ()
{
    N*& root = header._M_parent;
    x->_M_parent = p;
    x->_M_left = nullptr;
    x->_M_right = nullptr;
    x->_M_color = _S_red;
    if (left)
    {
        p->_M_left = x;
        if (p == &header)
        {
            header._M_parent = x;
            header._M_right = x;
        }
        else if (p == header._M_left)
        {
            header._M_left = x;
        }
    }
    else
    {
        p->_M_right = x;
        if (p == header._M_right)
        {
            header._M_right = x;
        }
    }
    while (x != root && x->_M_parent->_M_color == _S_red)
    {
        N* const xpp = x->_M_parent->_M_parent;
        if (x->_M_parent == xpp->_M_left)
        {
            N* const y = xpp->_M_right;
            if (y && y->_M_color == _S_red)
            {
                x->_M_parent->_M_color = _S_black;
                y->_M_color = _S_black;
                xpp->_M_color = _S_red;
                x = xpp;
            }
            else
            {
                if (x == x->_M_parent->_M_right)
                {
                    x = x->_M_parent;
                    rotl(x, root);
                }
                x->_M_parent->_M_color = _S_black;
                xpp->_M_color = _S_red;
                rotr(xpp, root);
            }
        }
        else
        {
            N* const y = xpp->_M_left;
            if (y && y->_M_color == _S_red)
            {
                x->_M_parent->_M_color = _S_black;
                y->_M_color = _S_black;
                xpp->_M_color = _S_red;
                x = xpp;
            }
            else
            {
                if (x == x->_M_parent->_M_left)
                {
                    x = x->_M_parent;
                    rotr(x, root);
                }
                x->_M_parent->_M_color = _S_black;
                xpp->_M_color = _S_red;
                rotl(xpp, root);
            }
        }
    }
    root->_M_color = _S_black;
}
N* _Rb_tree_rebalance_for_erase(N* const z, N& header) throw ()
{
    N*& root = header._M_parent;
    N*& leftmost = header._M_left;
    N*& rightmost = header._M_right;
    N* y = z;
    N* x = nullptr;
    N* xp = nullptr;
    if (!y->_M_left)
    {
        x = y->_M_right;
    }
    else if (!y->_M_right)
    {
        x = y->_M_left;
    }
    else
    {
        y = y->_M_right;
        while (y->_M_left)
        {
            y = y->_M_left;
        }
        x = y->_M_right;
    }
    if (y != z)
    {
        z->_M_left->_M_parent = y;
        y->_M_left = z->_M_left;
        if (y != z->_M_right)
        {
            xp = y->_M_parent;
            if (x)
            {
                x->_M_parent = y->_M_parent;
            }
            y->_M_parent->_M_left = x;
            y->_M_right = z->_M_right;
            z->_M_right->_M_parent = y;
        }
        else
        {
            xp = y;
        }
        if (root == z)
        {
            root = y;
        }
        else if (z->_M_parent->_M_left == z)
        {
            z->_M_parent->_M_left = y;
        }
        else
        {
            z->_M_parent->_M_right = y;
        }
        y->_M_parent = z->_M_parent;
        std::swap(y->_M_color, z->_M_color);
        y = z;
    }
    else
    {
        xp = y->_M_parent;
        if (x)
        {
            x->_M_parent = y->_M_parent;
        }
        if (root == z)
        {
            root = x;
        }
        else if (z->_M_parent->_M_left == z)
        {
            z->_M_parent->_M_left = x;
        }
        else
        {
            z->_M_parent->_M_right = x;
        }
        if (leftmost == z)
        {
            if (!z->_M_right)
            {
                leftmost = z->_M_parent;
            }
            else
            {
                leftmost = N::_S_minimum(x);
            }
        }
        if (rightmost == z)
        {
            if (!z->_M_left)
            {
                rightmost = z->_M_parent;
            }
            else
            {
                rightmost = N::_S_maximum(x);
            }
        }
    }
    if (y->_M_color != _S_red)
    {
        while (x != root && (!x || x->_M_color == _S_black))
        {
            if (x == xp->_M_left)
            {
                N* w = xp->_M_right;
                if (w->_M_color == _S_red)
                {
                    w->_M_color = _S_black;
                    xp->_M_color = _S_red;
                    rotl(xp, root);
                    w = xp->_M_right;
                }
                if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black))
                {
                    w->_M_color = _S_red;
                    x = xp;
                    xp = xp->_M_parent;
                }
                else
                {
                    if (!w->_M_right || w->_M_right->_M_color == _S_black)
                    {
                        w->_M_left->_M_color = _S_black;
                        w->_M_color = _S_red;
                        rotr(w, root);
                        w = xp->_M_right;
                    }
                    w->_M_color = xp->_M_color;
                    xp->_M_color = _S_black;
                    if (w->_M_right)
                    {
                        w->_M_right->_M_color = _S_black;
                    }
                    rotl(xp, root);
                    break;
                }
            }
            else
            {
                N* w = xp->_M_left;
                if (w->_M_color == _S_red)
                {
                    w->_M_color = _S_black;
                    xp->_M_color = _S_red;
                    rotr(xp, root);
                    w = xp->_M_left;
                }
                if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black))
                {
                    w->_M_color = _S_red;
                    x = xp;
                    xp = xp->_M_parent;
                }
                else
                {
                    if (!w->_M_left || w->_M_left->_M_color == _S_black)
                    {
                        w->_M_right->_M_color = _S_black;
                        w->_M_color = _S_red;
                        rotl(w, root);
                        w = xp->_M_left;
                    }
                    w->_M_color = xp->_M_color;
                    xp->_M_color = _S_black;
                    if (w->_M_left)
                    {
                        w->_M_left->_M_color = _S_black;
                    }
                    rotr(xp, root);
                    break;
                }
            }
        }
        if (x)
        {
            x->_M_color = _S_black;
        }
    }
    return y;
}
unsigned int _Rb_tree_black_count(const N* node, const N* root) throw ()
{
    unsigned int s = 0;
    while (node)
    {
        s += node->_M_color == _S_black;
        if (node == root)
        {
            break;
        }
        node = node->_M_parent;
    }
    return s;
}
} // namespace std
