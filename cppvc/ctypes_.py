"""C++ type strings (as clang prints them) -> hashable type tuples."""
import re, functools

INT = ('int', 32, True)
SIZE = ('int', 64, False)
REAL = ('real',)
BOOL = ('bool',)
STR = ('str',)
VOID = ('void',)

_INTS = {
    'int': (32, True), 'unsigned int': (32, False), 'unsigned': (32, False), 'long': (64, True), 'unsigned long': (64, False),
    'long long': (64, True), 'unsigned long long': (64, False), 'short': (16, True), 'unsigned short': (16, False),
    'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'size_t': (64, False), 'std::size_t': (64, False),
    'size_type': (64, False), 'difference_type': (64, True), 'ptrdiff_t': (64, True), 'std::ptrdiff_t': (64, True), 'uint_fast32_t': (64, False),
    'time_t': (64, True), 'long int': (64, True), 'unsigned long int': (64, False), 'int64_t': (64, True), 'uint64_t': (64, False), 'uint32_t': (32, False),
}
ENUMS = set()          # names of enums in the repo
TEMPLATES = set()      # names of class templates in the repo
RECORDS = set()        # names of plain records in the repo


def split_args(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '<([{':
            depth += 1
        elif ch in '>)]}':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def strip_cv(s):
    s = s.strip()
    changed = True
    while changed:
        changed = False
        for p in ('const ', 'volatile ', 'class ', 'struct ', 'enum ', 'typename ', 'union '):
            if s.startswith(p):
                s = s[len(p):].strip(); changed = True
        for p in (' const', ' volatile'):
            if s.endswith(p):
                s = s[:-len(p)].strip(); changed = True
    return s


def is_ref(s):
    s = s.strip()
    return s.endswith('&')


@functools.lru_cache(maxsize=None)
def parse(s):
    """returns a type tuple; references are dropped (use is_ref)."""
    s = strip_cv(s)
    while s.endswith('&'):
        s = strip_cv(s[:-1])
    if s.startswith('(lambda') or 'lambda at' in s and '<' not in s.split('(lambda')[0]:
        return ('func',)
    if s.endswith('*'):
        return ('ptr', parse(s[:-1]))
    if s.endswith('* const'):
        return ('ptr', parse(s[:-7]))
    m = re.match(r'^(.*)\[(\d+)\]$', s)
    if m:
        return ('carray', parse(m.group(1)), int(m.group(2)))
    if s in _INTS:
        return ('int',) + _INTS[s]
    if s in ('double', 'float', 'long double'):
        return REAL
    if s == 'bool' or s == '_Bool':
        return BOOL
    if s == 'void':
        return VOID
    if s in ('std::nullptr_t', 'nullptr_t'):
        return ('ptr', VOID)
    if '(' in s and not s.startswith('std::function') and '<' not in s.split('(')[0]:
        return ('func',)
    # name + template args
    if '<' in s and s.endswith('>'):
        i = s.index('<')
        # find the last top-level template arg list: handle A<B>::C<D>
        depth = 0; start = None
        for j in range(len(s) - 1, -1, -1):
            if s[j] == '>':
                depth += 1
            elif s[j] == '<':
                depth -= 1
                if depth == 0:
                    start = j; break
        base, args = s[:start], split_args(s[start + 1:-1])
        name = re.sub(r'<.*>', '', base).split('::')[-1]
    else:
        # maybe A<B>::iterator
        name = s.split('::')[-1] if '<' not in s else s[s.rindex('>') + 1:].lstrip(':')
        base, args = s, []
        if '<' in s and s.rindex('>') != len(s) - 1:
            outer = parse(s[:s.rindex('>') + 1])
            if name in ('iterator', 'const_iterator'):
                return ('iter', elem_of(outer))
            if name in ('value_type', 'reference', 'const_reference'):
                return elem_of(outer)
            if name in ('size_type',):
                return SIZE
            if name in ('difference_type',):
                return ('int', 64, True)
            if name == 'mapped_type' and outer[0] in ('map', 'multimap'):
                return outer[2]
            if name == 'result_type':
                return SIZE
            return ('opaque', s)
    if name in ('string', 'basic_string', 'string_view', 'basic_string_view'):
        return STR
    if name == 'vector':
        return ('vec', parse(args[0]))
    if name in ('initializer_list',):
        return ('vec', parse(args[0]))
    if name == 'deque' or name == 'list':
        return ('vec', parse(args[0]))
    if name == 'array':
        return ('vec', parse(args[0]))
    if name in ('shared_ptr', 'unique_ptr', 'weak_ptr'):
        return ('ptr', parse(args[0]))
    if name in ('__shared_ptr_access', '__shared_ptr'):
        return ('ptr', parse(args[0]))
    if name in ('pair',):
        return ('pair', parse(args[0]), parse(args[1]))
    if name == 'tuple':
        return ('tuple',) + tuple(parse(a) for a in args)
    if name in ('set', 'unordered_set', 'multiset'):
        return ('set', parse(args[0]))
    if name in ('map', 'unordered_map'):
        return ('map', parse(args[0]), parse(args[1]))
    if name in ('multimap',):
        return ('multimap', parse(args[0]), parse(args[1]))
    if name == '__normal_iterator':
        return ('iter', elem_of(parse(args[1])))
    if name in ('_Rb_tree_iterator', '_Rb_tree_const_iterator'):
        return ('treeiter', parse(args[0]))
    if name in ('_Bit_iterator', '_Bit_const_iterator'):
        return ('iter', BOOL)
    if name in ('_Bit_reference',):
        return BOOL
    if name == 'reverse_iterator':
        return ('riter', parse(args[0])[1])
    if name == 'function':
        return ('func',)
    if name in ('basic_ostream', 'basic_istream', 'ostream', 'istream', '__ostream_type', 'basic_ofstream', 'ofstream', 'ifstream', 'basic_ifstream',
                'basic_stringstream', 'stringstream', 'basic_istringstream', 'istringstream', 'basic_ios', 'ostringstream', 'basic_ostringstream', 'fstream'):
        return ('stream',)
    if name in ENUMS:
        return INT
    if name in TEMPLATES or name in RECORDS:
        a = [parse(x) if not re.match(r'^-?\d+$', x) else ('const', int(x)) for x in args]
        if name == 'Point' and len(a) == 0:
            a = [REAL]
        if name == 'Point' and len(a) == 1:
            a.append(('vec', a[0]))
        if name in TEMPLATES and not a:
            a = [REAL]
        if name == 'KNNClassifier' and len(a) == 1 or name == 'KNNRegressor' and len(a) == 1 or name in ('KMeans', 'Clusterer') and len(a) == 1:
            a.append(('cls', 'Euclidean', (REAL,)))
        return ('cls', name, tuple(a))
    if name in ('iterator', 'const_iterator'):
        return ('iter', ('opaque', s))
    return ('opaque', name)


def elem_of(t):
    if t[0] in ('vec', 'iter', 'riter', 'set', 'carray'):
        return t[1]
    if t[0] in ('map', 'multimap'):
        return ('pair', t[1], t[2])
    if t == STR:
        return ('int', 8, True)
    return ('opaque', 'elem')


def tname(t):
    k = t[0]
    if k == 'int':
        return ('i' if t[2] else 'u') + str(t[1])
    if k in ('real', 'bool', 'str', 'void', 'func', 'stream'):
        return k
    if k == 'cls':
        return t[1] + ''.join('_' + tname(a) for a in t[2])
    if k in ('vec', 'ptr', 'iter', 'riter', 'pair', 'tuple', 'set', 'map', 'multimap', 'treeiter', 'carray'):
        return k + '_' + '_'.join(tname(a) if isinstance(a, tuple) else str(a) for a in t[1:])
    return k + '_' + re.sub(r'\W', '_', str(t[1]) if len(t) > 1 else '')
