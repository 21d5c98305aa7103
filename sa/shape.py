"""Canonical heap shapes for the abstract interpreter: lists and hash maps holding a small number of generic (unconstrained) elements,
so that any way of walking a container (range-for, iterator loop, helper) is judged by the elements it reaches and in which order."""
from .absint import State, ZERO


def node(name):
    return ('new', 'n:' + name)


def data(name):
    return ('f', node(name), 'm_data')


def mklist(st, L, names):
    """list object at L holds one entry per name; returns the locations of the elements"""
    m = st.mem
    ptr = [('p', node(x)) for x in names]
    m[('f', L, 'm_pBegin')] = ptr[0] if ptr else ZERO
    m[('f', L, 'm_pLast')] = ptr[-1] if ptr else ZERO
    m[('f', L, 'm_Elements')] = ('i', len(names))
    for i, x in enumerate(names):
        m[('f', node(x), 'm_pPrev')] = ptr[i - 1] if i else ZERO
        m[('f', node(x), 'm_pNext')] = ptr[i + 1] if i + 1 < len(ptr) else ZERO
    return [data(x) for x in names]


def mkmap(st, M, names, buckets=None):
    """hash map at M with one element per bucket, empty buckets around and between; returns the node locations"""
    m = st.mem
    B = ('new', 'b:' + repr(M))
    nb = 2 * len(names) + 1
    m[('f', M, 'm_pBuckets')] = ('p', B)
    m[('f', M, 'm_Buckets')] = ('i', nb)
    m[('f', M, 'm_Elements')] = ('i', len(names))
    out = []
    for i in range(nb):
        bl = B if i == 0 else ('idx', B, ('i', i))
        out += mklist(st, bl, [names[i // 2]] if i % 2 else [])
    return out


def value_of(nodeloc):
    return ('f', ('f', nodeloc, 'kv'), 'value')


def key_of(nodeloc):
    return ('f', ('f', nodeloc, 'kv'), 'key')
