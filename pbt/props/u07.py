"""U07: copies and pickles keep values and the right correlations."""
import copy
import math
import pickle
from hypothesis import strategies as st
import uncertainties
from uncertainties import ufloat, umath, unumpy, covariance_matrix
from uncertainties.core import Variable, AffineScalarFunc

from .. import large
from ..core import Group, fail, require, lib
from ..gen import *

ASSUMPTIONS = [
    'extra attributes of instances of subclasses are kept by pickling (and by '
    'copy.copy() of calculated numbers); copies of variables are documented as '
    'Variable objects',
    'deep copies of different numbers are not required to be correlated '
    'with each other',
    'tags are any picklable objects']


class VarDict(Variable):
    pass


class VarSlotsTuple(Variable):
    __slots__ = ('extra', 'other')


class VarSlotsStr(Variable):
    __slots__ = 'extra'


class Mixin(object):
    pass


class VarDiamond(Mixin, VarSlotsStr):
    pass


class VarDeep(VarDict):
    __slots__ = ('low',)


class AffDict(AffineScalarFunc):
    pass


class AffSlots(AffineScalarFunc):
    __slots__ = ['extra']


class _VarPrivate(Variable):
    __slots__ = ('__hidden', '__weakref__', '__special__', '_protected')


class AffPrivate(AffSlots):
    __slots__ = '__hidden'


def as_instance(cls, x):
    """x, as an instance of a subclass (which the library never makes)."""
    try:
        return cls(x.nominal_value, x._linear_part)
    except (AttributeError, TypeError):     # Other internal representation
        new = cls.__new__(cls)
        new.__setstate__(x.__getstate__())
        return new


VARS = {'Variable': Variable, 'VarDict': VarDict, '_VarPrivate': _VarPrivate,
        'VarSlotsTuple': VarSlotsTuple, 'VarSlotsStr': VarSlotsStr,
        'VarDiamond': VarDiamond, 'VarDeep': VarDeep}
ATTRS = {'VarDict': ['extra', 'any'], 'VarSlotsTuple': ['extra', 'other'],
         'VarSlotsStr': ['extra'], 'VarDiamond': ['extra', 'any'],
         'VarDeep': ['low', 'any'], 'AffDict': ['extra', 'any'],
         'AffSlots': ['extra'], 'Variable': [],
         'AffPrivate': ['extra', '_AffPrivate__hidden'],
         '_VarPrivate': ['_VarPrivate__hidden', '__special__', '_protected']}

TAGS = [None, 'x', '', 'a long tag', 3, ('t', 1), u'\xb5', 0, False,
        ' padded\n', 'long ' * 60]
vals = st.one_of(nominals(-6, 6), st.sampled_from([INF, -INF, NAN, -0.0]))
attr_values = pick(1, 'text', None, 0, '', 2.5)


@st.composite
def cases(draw, quirks=True):
    nv = draw(ints(1, 4))
    vs = []
    for _ in range(nv):
        cls = draw(pick('Variable', 'Variable', *sorted(VARS)))
        attrs = {a: draw(attr_values) for a in ATTRS[cls] if draw(bools)}
        vs.append([cls, draw(vals), draw(sigmas(-6, 6)) if draw(pick(1, 1, 0))
                   else draw(pick(0.0, NAN, INF)),
                   draw(ints(0, len(TAGS) - 1)), attrs])
    results = []
    for k in range(draw(ints(0, 4))):
        n = nv + k
        kind = draw(pick('lin', 'lin', 'mul', 'sin', 'self', 'const', 'null',
                         'long', 'sub'))
        i, j = draw(ints(0, n - 1)), draw(ints(0, n - 1))
        results.append([kind, i, j, draw(pick(2.0, -1.0, 0.5, 0.1)),
                        draw(bools), draw(pick('AffDict', 'AffSlots',
                                                   'AffPrivate'))])
    n = nv + len(results)
    chosen = draw(st.lists(ints(0, n - 1), min_size=1, max_size=5))
    return {'vars': vs, 'results': results, 'chosen': chosen,
            'container': draw(pick('one', 'list', 'tuple', 'dict', 'nested',
                                   'array', 'object', 'matrix', 'keys',
                                   'components')),
            'clone': draw(st.lists(pick('copy', 'deepcopy', 'p0', 'p1', 'p2',
                                        'p3', 'p4', 'p5'),
                                   min_size=1, max_size=3)),
            'new': draw(pick(0.0, 0.5, 2.0, 7.25))}


class Holder(object):
    pass


def build(case):
    nums = []
    for cls, n, s, t, attrs in case['vars']:
        v = VARS[cls](n, s, TAGS[t])
        for a, value in attrs.items():
            setattr(v, a, value)
        nums.append(v)
    for kind, i, j, c, read, sub in case['results']:
        x, y = nums[i], nums[j]
        if kind == 'lin':
            r = c * x - y
        elif kind == 'mul':
            r = x * y
        elif kind == 'sin':
            r = umath.sin(x) if math.isfinite(x.nominal_value) else -x
        elif kind == 'self':
            r = x + x - c
        elif kind == 'const':
            r = 0 * x + c
        elif kind == 'null':
            r = x - x
        elif kind == 'long':
            r = x
            for _ in range(30):
                r = c * r + y if abs(c) < 1 else r + y
        else:
            r = 2 * x
            cls = {'AffDict': AffDict, 'AffSlots': AffSlots,
                   'AffPrivate': AffPrivate}[sub]
            r = as_instance(cls, r)
            for name in ATTRS[sub]:
                setattr(r, name, name + ' of %d' % len(nums))
        if read:
            r.derivatives, r.std_dev
        nums.append(r)
    return nums


def pack(nums, kind):
    if kind == 'one':
        return nums[0]
    if kind == 'list':
        return list(nums)
    if kind == 'tuple':
        return tuple(nums)
    if kind == 'dict':
        return {str(k): x for k, x in enumerate(nums)}
    if kind == 'nested':
        return [nums[0], {'a': (list(nums[1:]), 'text')}]
    if kind == 'keys':      # Variables can be the keys of a dictionary
        return [{x: k for k, x in enumerate(nums) if hasattr(x, 'tag')},
                list(nums)]
    if kind == 'components':
        return [list(nums), [x.error_components() for x in nums],
                [x.derivatives for x in nums]]
    if kind == 'array':
        a = np.empty(len(nums), dtype=object)
        a[:] = nums
        return a
    if kind == 'matrix':
        a = np.empty((1, len(nums)), dtype=object)
        a[0, :] = nums
        return a.view(unumpy.core.matrix)
    h = Holder()
    h.nums = list(nums)
    return h


def unpack(obj, kind, how):
    if kind == 'one':
        return [obj]
    if kind in ('list', 'tuple'):
        require(type(obj).__name__ == kind, 'container became a %s', type(obj))
        return list(obj)
    if kind == 'dict':
        return [obj[str(k)] for k in range(len(obj))]
    if kind == 'nested':
        return [obj[0]] + obj[1]['a'][0]
    if kind == 'keys':
        keys, nums = obj
        want = {id(x): k for k, x in enumerate(nums) if hasattr(x, 'tag')}
        require(len(keys) == len(want), 'the variables %r became the keys %r',
                nums, keys)
        for x in nums:
            require(not hasattr(x, 'tag') or keys.get(x) == want[id(x)],
                    'the variable %r is no longer a key of %r', x, keys)
        return nums
    if kind == 'components':
        nums, comps, ders = obj
        if how == 'deepcopy':   # The new numbers share no variable
            return nums
        for x, c, d in zip(nums, comps, ders):
            new = x.error_components()
            require(set(map(id, c)) == set(map(id, new)) and all(
                same_float(float(c[v]), float(new[v])) for v in c),
                'the error components %r became %r', new, c)
            require(set(map(id, d)) == set(map(id, x.derivatives)) and all(
                same_float(float(d[v]), float(x.derivatives[v])) for v in d),
                'the derivatives %r became %r', x.derivatives, d)
        return nums
    if kind == 'array':
        return list(obj)
    if kind == 'matrix':
        require(isinstance(obj, unumpy.core.matrix), 'matrix became a %s',
                type(obj))
        return [obj[0, k] for k in range(obj.shape[1])]
    return obj.nums


def clone_once(obj, how):
    if how == 'copy':
        return copy.copy(obj)
    if how == 'deepcopy':
        return copy.deepcopy(obj)
    return pickle.loads(pickle.dumps(obj, int(how[1])))


def der_values(x):
    """(derivative, tag, standard deviation) of the variables, as a multiset."""
    return sorted([(repr(float(d)), repr(v.tag), repr(float(v.std_dev)))
                   for v, d in x.derivatives.items()])


def cov_ok(nums):
    return all(math.isfinite(v.std_dev) for x in nums for v in x.derivatives) \
        and all(math.isfinite(d) for x in nums for d in x.derivatives.values())


def cov_close(a, b, nums, what):
    n = len(a)
    for i in range(n):
        for j in range(n):
            scale = math.sqrt(abs(a[i][i] * a[j][j]))
            require(abs(a[i][j] - b[i][j]) <= 1e-12 * scale,
                    '%s: covariance (%d, %d) is %r, was %r', what, i, j,
                    b[i][j], a[i][j])


def same_number(a, b, what, keeps_class):
    require(same_float(a.nominal_value, b.nominal_value),
            '%s: nominal value %r, was %r', what, b.nominal_value,
            a.nominal_value)
    sa, sb = float(a.std_dev), float(b.std_dev)
    require(same_float(sa, sb) or abs(sa - sb) <= 1e-14 * abs(sa),
            '%s: standard deviation %r, was %r', what, sb, sa)
    require(der_values(a) == der_values(b), '%s: derivatives %r, were %r', what,
            der_values(b), der_values(a))
    require(isinstance(b, Variable) is isinstance(a, Variable),
            '%s: a %s became a %s', what, type(a), type(b))
    if isinstance(a, Variable):
        require(a.tag == b.tag and type(a.tag) is type(b.tag),
                '%s: tag %r, was %r', what, b.tag, a.tag)
        require(list(b.derivatives) == [b] or
                all(v is b for v in b.derivatives),
                '%s: a variable does not depend on itself', what)
        require(set(map(id, b.derivatives)) == {id(b)},
                '%s: a variable does not depend on itself only', what)
    if keeps_class:
        require(type(b) is type(a), '%s: a %s became a %s', what, type(a),
                type(b))
        for name in ATTRS.get(type(a).__name__, []):
            require(hasattr(a, name) == hasattr(b, name) and
                    getattr(a, name, None) == getattr(b, name, None),
                    '%s: attribute %s is %r, was %r', what, name,
                    getattr(b, name, None), getattr(a, name, None))
    if not isinstance(a, Variable) or type(a) is type(b):
        require(repr(a) == repr(b), '%s: %r, was %r', what, b, a)


def check(case, rec):
    with lib('calculation'):
        nums = build(case)
    chosen = [nums[k] for k in case['chosen']]
    kind = case['container']
    if kind == 'one':
        chosen = chosen[:1]
    current = chosen
    for how in case['clone']:
        what = '%s of %s' % (how, kind)
        obj = pack(current, kind)
        with lib(what):
            new = unpack(clone_once(obj, how), kind, how)
        require(len(new) == len(current), '%s: %d elements', what, len(new))
        shallow = how == 'copy' and kind != 'one'
        if shallow:
            # The elements of the copy of a container are the same objects
            # (in an array too).
            require(all(a is b for a, b in zip(current, new)),
                    '%s: elements are other objects', what)
            continue
        rec.label(how)
        pickled = how[0] == 'p'
        with lib(what + ', then reading'):
            for a, b in zip(current, new):
                require(a is not b, '%s gives the same object', what)
                same_number(a, b, what, pickled or (
                    how == 'copy' and not isinstance(a, Variable)))
            for i in range(len(new)):
                for j in range(i):
                    if pickled or how == 'deepcopy' and kind != 'one':
                        if kind in ('array', 'matrix') and not pickled:
                            continue
                        require((new[i] is new[j]) is
                                (current[i] is current[j]),
                                '%s: identity of elements is lost', what)
            old_vars = {id(v): v for x in nums + current
                        for v in x.derivatives}
            fresh = how != 'copy' or isinstance(current[0], Variable)
            for b in new:
                for v in b.derivatives:
                    require((id(v) not in old_vars) is fresh,
                            '%s: %s variable of the original', what,
                            'depends on a' if fresh else 'lost the')
            finite = cov_ok(current)
            if finite:
                before = covariance_matrix(current)
                after = covariance_matrix(new)
                if pickled:
                    cov_close(before, after, new, what)
                for i in range(len(new)):
                    cross = covariance_matrix([current[i], new[i]])
                    if fresh:
                        require(cross[0][1] == 0, '%s: covariance %r with the '
                                'original', what, cross[0][1])
                    else:
                        require(abs(cross[0][1] - cross[0][0]) <=
                                1e-12 * abs(cross[0][0]), '%s: covariance with '
                                'the original is %r instead of %r', what,
                                cross[0][1], cross[0][0])
                if pickled:
                    for i in range(len(new)):
                        for j in range(i):
                            a, b = current[i] - current[j], new[i] - new[j]
                            require(same_float(a.nominal_value, b.nominal_value)
                                    and abs(a.std_dev - b.std_dev) <=
                                    1e-12 * (abs(new[i].std_dev) +
                                             abs(new[j].std_dev)),
                                    '%s: difference of two numbers is %r '
                                    'instead of %r', what, b, a)
            independence(current, new, fresh, case['new'], what)
        # Attributes set later belong to one of them only:
        a, b = current[0], new[0]
        if hasattr(b, '__dict__') and a is not b:
            b.later = 1
            require(not hasattr(a, 'later'), '%s: an attribute set in the copy '
                    'is set in the original', what)
            del b.later
        current = new
    rec.label(kind)
    rec.nontrivial(len(current) > 1 or not isinstance(current[0], Variable))


def independence(old, new, fresh, sigma, what):
    """Standard deviations changed in one do not change the other (if fresh)."""
    for first, second in ((old, new), (new, old)):
        before = [(x, float(x.std_dev)) for x in second]
        saved = {}
        for x in first:
            for v in x.derivatives:
                if id(v) not in saved:
                    saved[id(v)] = (v, v.std_dev)
                    v.std_dev = sigma
        if fresh:
            for x, s in before:
                require(same_float(float(x.std_dev), s), '%s: the standard '
                        'deviation %r became %r after a change of variables of '
                        'the other', what, s, float(x.std_dev))
        else:
            for a, b in zip(first, second):
                sa, sb = float(a.std_dev), float(b.std_dev)
                require(same_float(sa, sb) or abs(sa - sb) <= 1e-14 * abs(sa),
                        '%s does not follow a change of its variables: %r and '
                        '%r', what, sa, sb)
        for v, s in saved.values():
            v.std_dev = s
        for x, s in before:
            require(same_float(float(x.std_dev), s), '%s: the standard '
                    'deviation is %r instead of %r after restoring', what,
                    float(x.std_dev), s)


GROUPS = [
    Group('clones', cases(), check, 10000, 300000,
          '1 to 4 variables (also of subclasses), up to 4 results, in a '
          'container, through 1 to 3 successive copies, deep copies or '
          'pickles of any protocol; non-trivial: several numbers or a '
          'calculated one'),
    Group('large', large.sized(5, 40, 250, ('copy', 'deepcopy', '0', '2', '4', '5')),
          large.check_clones, 250, 6000,
          'lists of 9 to 254 numbers, some of which depend on all the '
          'others; non-trivial: more than 10 variables'),
]
