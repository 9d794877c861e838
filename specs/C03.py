from .common import *
from .listspec import *

ID = 'C03'
HARNESS = 'C03.cpp'
BUDGET = 5


def tus():
    return {'list': include('templates/detachable_list.h') + '''
template class CubicleSoft::ListNode<unsigned long>;
template class CubicleSoft::List<unsigned long>;
template class CubicleSoft::ListNoCopy<unsigned long>;
'''}


def newkind(x, i, n):
    return 'node'


OPT = dict(off0=True, new_kind=newkind, fork=True)


REN = [('10ListNoCopyI', '4ListI'), ('ListNoCopy', 'List'), ('10ListC', '4ListC')]


def jobs(mods):
    out = []
    for cn in ('List', 'ListNoCopy'):
        T = 'CubicleSoft::%s<unsigned long>::' % cn
        N = 'CubicleSoft::ListNode<unsigned long>*'
        cname = cn + '<unsigned long>'
        V = 'unsigned long const&'
        A = {}
        A[T + 'InsertBefore(%s, %s)' % (N, V)] = Insert('before', 'value', True, cname)
        A[T + 'InsertBefore(%s, %s)' % (N, N)] = Insert('before', 'node', True, cname)
        A[T + 'InsertAfter(%s, %s)' % (N, V)] = Insert('after', 'value', True, cname)
        A[T + 'InsertAfter(%s, %s)' % (N, N)] = Insert('after', 'node', True, cname)
        A[T + 'Push(%s)' % V] = Insert('before', 'value', False, cname)
        A[T + 'Push(%s)' % N] = Insert('before', 'node', False, cname)
        A[T + 'Unshift(%s)' % V] = Insert('after', 'value', False, cname)
        A[T + 'Unshift(%s)' % N] = Insert('after', 'node', False, cname)
        A[T + 'operator+=(%s)' % V] = Insert('before', 'value', False, cname, 'this')
        A[T + 'operator+=(%s)' % N] = Insert('before', 'node', False, cname, 'this')
        A[T + 'Detach(%s)' % N] = DetachC('Detach', cname)
        A[T + 'Remove(%s)' % N] = DetachC('Remove', cname, True)
        A[T + 'Pop()'] = DetachC('Pop', cname)
        A[T + 'Shift()'] = DetachC('Shift', cname)
        A[T + 'Empty()'] = EmptyC(cname)
        A[T + 'DetachAllAndAppend(CubicleSoft::%s<unsigned long>&)' % cn] = AppendAllC(cname)
        for g in ('First', 'Last', 'GetSize'):
            A[T + g + '() const'] = GetC(g, cname)
        A[T + 'CreateNode()'] = NodeC(False, cname)
        A[T + 'CreateNode(%s)' % V] = NodeC(True, cname)
        A[T + cn + '()'] = CtorC('plain', cname)
        A[T + cn + '(unsigned long)'] = CtorC('value', cname)
        A[T + '~' + cn + '()'] = DtorC(cname)
        if cn == 'List':
            A[T + 'List(CubicleSoft::List<unsigned long> const&)'] = CtorC('copy', cname)
            A[T + 'operator=(CubicleSoft::List<unsigned long> const&)'] = AssignC(cname, False)
        cons = [(k, v) for k, v in A.items()]
        for k, v in A.items():
            j = dict(tu='list', fn=k, con=v, opts=dict(OPT, hrl=4) if 'Empty' in k or 'operator=(' in k or 'List(CubicleSoft' in k else OPT, contracts=cons)
            if cn == 'ListNoCopy':
                j['same_as'] = (k.replace('ListNoCopy', 'List'), REN, ('ListNoCopy<unsigned long>', 'List<unsigned long>'))
            out.append(j)
        if cn == 'List':
            out.append(dict(tu='list', fn=T + 'operator=(CubicleSoft::List<unsigned long> const&)', con=AssignC(cname, True), opts=OPT, contracts=cons, label='self'))
    return out


ASSUME = ['element values are 64-bit integers in the proof (other element types are run by the oracle)', 'nodes given to a list belong to it (or to none), lists are not appended to themselves, at most 2^56 elements', 'operator new does not fail']
