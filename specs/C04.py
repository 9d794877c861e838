from .common import *
from .listspec import *

ID = 'C04'
HARNESS = 'C04.cpp'
BUDGET = 4


def tus():
    return {'queue': include('templates/detachable_queue.h') + '''
template class CubicleSoft::QueueNode<unsigned long>;
template class CubicleSoft::Queue<unsigned long>;
template class CubicleSoft::QueueNoCopy<unsigned long>;
'''}


def newkind(x, i, n):
    return 'node'


def newhook(x, st, o):
    """ghost code at every allocation of a node: it belongs to no queue"""
    d = dict(st.mem.m)
    d['gO'] = Store(d['gO'], o.obj, bv(0), bv(0))
    if x.writes is not None:
        x.writes.add(('gO', None, None))
    st.mem = Mem(d)


OPT = dict(off0=True, new_kind=newkind, new_hook=newhook, fork=True)
REN = [('11QueueNoCopyI', '5QueueI'), ('QueueNoCopy', 'Queue'), ('11QueueNoCopyC', '5QueueC')]


def jobs(mods):
    out = []
    for cn in ('Queue', 'QueueNoCopy'):
        T = 'CubicleSoft::%s<unsigned long>::' % cn
        N = 'CubicleSoft::QueueNode<unsigned long>*'
        cname = cn + '<unsigned long>'
        V = 'unsigned long const&'
        A = {}
        A[T + 'Push(%s)' % V] = Insert('before', 'value', False, cname)
        A[T + 'Push(%s)' % N] = Insert('before', 'node', False, cname)
        A[T + 'Unshift(%s)' % V] = Insert('after', 'value', False, cname)
        A[T + 'Unshift(%s)' % N] = Insert('after', 'node', False, cname)
        A[T + 'operator+=(%s)' % V] = Insert('before', 'value', False, cname, 'this')
        A[T + 'operator+=(%s)' % N] = Insert('before', 'node', False, cname, 'this')
        A[T + 'Shift()'] = DetachC('Shift', cname)
        A[T + 'Empty()'] = EmptyC(cname)
        A[T + 'DetachAllAndAppend(CubicleSoft::%s<unsigned long>&)' % cn] = AppendAllC(cname)
        for g in ('First', 'Last', 'GetSize'):
            A[T + g + '() const'] = GetC(g, cname)
        A[T + 'CreateNode()'] = NodeC(False, cname)
        A[T + 'CreateNode(%s)' % V] = NodeC(True, cname)
        A[T + cn + '()'] = CtorC('plain', cname)
        A[T + cn + '(unsigned long)'] = CtorC('value', cname)
        A[T + '~' + cn + '()'] = DtorC(cname)
        if cn == 'Queue':
            A[T + 'Queue(CubicleSoft::Queue<unsigned long> const&)'] = CtorC('copy', cname)
            A[T + 'operator=(CubicleSoft::Queue<unsigned long> const&)'] = AssignC(cname, False)
        cons = [(k, v) for k, v in A.items()]
        for k, v in A.items():
            j = dict(tu='queue', fn=k, con=v, opts=dict(OPT, hrl=4) if 'Empty' in k or 'operator=(' in k or 'Queue(CubicleSoft' in k else OPT, contracts=cons)
            if cn == 'QueueNoCopy':
                j['same_as'] = (k.replace('QueueNoCopy', 'Queue'), REN, ('QueueNoCopy<unsigned long>', 'Queue<unsigned long>'))
            out.append(j)
        if cn == 'Queue':
            out.append(dict(tu='queue', fn=T + 'operator=(CubicleSoft::Queue<unsigned long> const&)', con=AssignC(cname, True), opts=OPT, contracts=cons, label='self'))
    return out


ASSUME = ['element values are 64-bit integers in the proof (other element types are run by the oracle)', 'nodes given to a queue are detached (the last node of another queue cannot be recognized by the code), queues are not appended to themselves, at most 2^56 elements', 'operator new does not fail']
