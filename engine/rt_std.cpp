// Reference bodies for the non-template parts of libstdc++ that containers call, plus
// explicit instantiations of what libstdc++.so normally provides.  Linked (only as needed) into every harness module.
#include <string>
#include <list>
#include <cstddef>
template class std::__cxx11::basic_string<char>;
using LN = std::__detail::_List_node_base;
void LN::_M_hook(LN* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void LN::_M_unhook() noexcept { LN* n = _M_next; LN* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void LN::_M_transfer(LN* f, LN* l) noexcept
{
    if (this != l) {
        l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
        LN* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
    }
}
void LN::_M_reverse() noexcept { LN* t = this; do { LN* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void LN::swap(LN& x, LN& y) noexcept
{
    bool xe = x._M_next == &x, ye = y._M_next == &y;
    LN xs = x, ys = y;
    if (ye) x._M_next = x._M_prev = &x; else { x = ys; x._M_next->_M_prev = x._M_prev->_M_next = &x; }
    if (xe) y._M_next = y._M_prev = &y; else { y = xs; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
}
