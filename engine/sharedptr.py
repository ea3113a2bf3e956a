"""Assumed contracts on std::shared_ptr's reference count (libstdc++ layout: pointer, pointer to control block).
The control block is {use count, managed object}; everything above it (shared_ptr members) runs as code."""
from sym import *
from exec import Tr, icmp
import stdlib, ir
SC = r'^std::__shared_count<\(__gnu_cxx::_Lock_policy\)2>::'
def M(E): return E.prog.mods[0]
def pi(E, st, p): return E.load(st, p, ir.PTR, M(E))
def set_pi(E, st, p, q): E.store(st, p, q, ir.PTR, M(E))
def count(E, st, c): return E.load(st, c, ir.I64, M(E))
def set_count(E, st, c, n): E.store(st, c, n, ir.I64, M(E))
def control(E, st, n, obj, name='control'):
    c = E.alloc(st, name, 16, heap='shared')
    set_count(E, st, c, n); E.store(st, c.plus(8), obj, ir.PTR, M(E))
    return c
def acquire(E, st, c):
    if c.r == 0: return
    n = count(E, st, c)
    E.oblige(st, 'shared object still alive', icmp('uge', n, 1, 64), 'safety')
    set_count(E, st, c, add(n, 1))
def release(E, st, c):
    """drop one reference; returns the states that go on"""
    if c.r == 0: return [st]
    n = count(E, st, c)
    E.oblige(st, 'no reference dropped twice', icmp('uge', n, 1, 64), 'safety')
    out = []
    for last, s in stdlib.fork(E, st, icmp('eq', n, 1, 64)):
        set_count(E, s, c, sub(count(E, s, c), 1))
        if last: dispose(E, s, E.load(s, c.plus(8), ir.PTR, M(E)))
        out.append(s)
    return out
def dispose(E, st, obj):
    if isinstance(obj, Ptr) and obj.r != 0:
        r = st.reg(obj.r)
        E.oblige(st, 'no double free (%s)' % r.name, r.alive, 'safety')
        r.alive = False
def c_ctor0(E, st, a, i, m): set_pi(E, st, a[0], NULL)
def c_new(E, st, a, i, m):
    """__shared_count(P, D[, A]): one reference to *p"""
    set_pi(E, st, a[0], control(E, st, 1, E.ptr(st, a[1])))
def c_copy(E, st, a, i, m):
    c = pi(E, st, a[1]); acquire(E, st, c); set_pi(E, st, a[0], c)
def c_assign(E, st, a, i, m):
    c = pi(E, st, a[1]); acquire(E, st, c)
    old = pi(E, st, a[0]); out = []
    for s in release(E, st, old):
        set_pi(E, s, a[0], c); out.append(('ret', s, a[0]))
    return Tr(out)
def c_dtor(E, st, a, i, m):
    return Tr([('ret', s, None) for s in release(E, st, pi(E, st, a[0]))])
def c_swap(E, st, a, i, m):
    x, y = pi(E, st, a[0]), pi(E, st, a[1]); set_pi(E, st, a[0], y); set_pi(E, st, a[1], x)
def c_count(E, st, a, i, m):
    c = pi(E, st, a[0])
    return 0 if c.r == 0 else count(E, st, c)
def c_unique(E, st, a, i, m):
    c = pi(E, st, a[0])
    return False if c.r == 0 else icmp('eq', count(E, st, c), 1, 64)
def install(E):
    E.add_pattern(SC + r'__shared_count\(\)$', c_ctor0)
    E.add_pattern(SC + r'__shared_count(<.*>)?\(std::__shared_count<.*> const&\)$', c_copy)
    E.add_pattern(SC + r'__shared_count<.*>\((?!std::__shared_count|std::__weak_count).*\)$', c_new)
    E.add_pattern(SC + r'operator=\(std::__shared_count<.*> const&\)$', c_assign)
    E.add_pattern(SC + r'~__shared_count\(\)$', c_dtor)
    E.add_pattern(SC + r'_M_swap\(', c_swap)
    E.add_pattern(SC + r'_M_get_use_count\(\) const$', c_count)
    E.add_pattern(SC + r'_M_unique\(\) const$', c_unique)
