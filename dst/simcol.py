"""Column expressions of the simulated data frames (the commonly used ones; others are refused as unsupported)."""
import re

from pyspark.sql import types as T

from .core import Unsupported

LONG, INT, STR, BOOL, DOUBLE = T.LongType(), T.IntegerType(), T.StringType(), T.BooleanType(), T.DoubleType()


class Ctx:
    """where a row is: the number of its partition and its index there (per expression)"""

    def __init__(self, part):
        self.part = part
        self.row = -1


class SimColumn:
    """fn(values by name, ctx) -> value; typ(schema) -> data type"""

    def __init__(self, name, fn, typ, gen=False, agg=None, order=None):
        self.name_, self.fn, self.typ, self.gen, self.agg, self.order = name, fn, typ, gen, agg, order

    # -- naming and ordering
    def alias(self, *names, **kw):
        return SimColumn(names[0], self.fn, self.typ, self.gen, self.agg)
    name = alias

    def asc(self):
        return SimColumn(self.name_, self.fn, self.typ, order=False)
    asc_nulls_first = asc

    def desc(self):
        return SimColumn(self.name_, self.fn, self.typ, order=True)
    desc_nulls_last = desc

    def cast(self, t):
        return apply(f'CAST({self.name_})', caster(t), type_of(t), self)
    astype = cast

    # -- tests
    def isNull(self):
        return apply(f'({self.name_} IS NULL)', lambda a: a is None, BOOL, self, nulls=True)

    def isNotNull(self):
        return apply(f'({self.name_} IS NOT NULL)', lambda a: a is not None, BOOL, self, nulls=True)

    def isin(self, *vs):
        vs = vs[0] if len(vs) == 1 and isinstance(vs[0], (list, set, tuple)) else vs
        return apply('in', lambda a, *b: a in b, BOOL, self, *vs)

    def between(self, a, b):
        return (self >= a) & (self <= b)

    def eqNullSafe(self, o):
        return apply('<=>', lambda a, b: a == b, BOOL, self, o, nulls=True)

    def contains(self, o):
        return apply('contains', lambda a, b: b in a, BOOL, self, o)

    def startswith(self, o):
        return apply('startswith', lambda a, b: a.startswith(b), BOOL, self, o)

    def endswith(self, o):
        return apply('endswith', lambda a, b: a.endswith(b), BOOL, self, o)

    def rlike(self, o):
        return apply('rlike', lambda a: re.search(o, a) is not None, BOOL, self)

    def substr(self, a, n):
        return apply('substring', substring, STR, self, a, n)

    def getItem(self, k):
        return apply(f'{self.name_}[{k}]', lambda a, b: (a[b] if 0 <= b < len(a) else None) if isinstance(a, (list, tuple))
                     else a.get(b), lambda s: getattr(self.typ(s), 'elementType', STR), self, k)
    __getitem__ = getItem

    def when(self, *a):
        raise Unsupported('chained when')

    def otherwise(self, v):
        raise Unsupported('otherwise')

    # -- operators
    def __eq__(self, o):
        return apply('(=)', lambda a, b: a == b, BOOL, self, o)

    def __ne__(self, o):
        return apply('(!=)', lambda a, b: a != b, BOOL, self, o)

    def __lt__(self, o):
        return apply('(<)', lambda a, b: a < b, BOOL, self, o)

    def __le__(self, o):
        return apply('(<=)', lambda a, b: a <= b, BOOL, self, o)

    def __gt__(self, o):
        return apply('(>)', lambda a, b: a > b, BOOL, self, o)

    def __ge__(self, o):
        return apply('(>=)', lambda a, b: a >= b, BOOL, self, o)

    def __and__(self, o):
        return apply('(AND)', lambda a, b: False if a is False or b is False else None if None in (a, b) else True, BOOL,
                     self, o, nulls=True)

    def __or__(self, o):
        return apply('(OR)', lambda a, b: True if a is True or b is True else None if None in (a, b) else False, BOOL,
                     self, o, nulls=True)
    __rand__, __ror__ = __and__, __or__

    def __invert__(self):
        return apply('(NOT)', lambda a: not a, BOOL, self)

    def __add__(self, o):
        return apply('(+)', lambda a, b: a + b, wider, self, o)

    def __sub__(self, o):
        return apply('(-)', lambda a, b: a - b, wider, self, o)

    def __mul__(self, o):
        return apply('(*)', lambda a, b: a * b, wider, self, o)

    def __truediv__(self, o):
        return apply('(/)', lambda a, b: a / b if b else None, DOUBLE, self, o)

    def __mod__(self, o):
        return apply('(%)', lambda a, b: (abs(a) % abs(b)) * (1 if a >= 0 else -1) if b else None, wider, self, o)

    def __radd__(self, o):
        return as_col(o) + self

    def __rsub__(self, o):
        return as_col(o) - self

    def __rmul__(self, o):
        return as_col(o) * self

    def __bool__(self):
        raise ValueError("Cannot convert column into bool: please use '&' for 'and', '|' for 'or', '~' for 'not'")

    __hash__ = object.__hash__

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported(f'Column.{k}')


def wider(types):
    return DOUBLE if any(isinstance(t, (T.DoubleType, T.FloatType)) for t in types) else \
        LONG if any(isinstance(t, T.LongType) for t in types) else types[0]


def type_of(t):
    if isinstance(t, T.DataType):
        return t
    return {'string': STR, 'str': STR, 'int': INT, 'integer': INT, 'long': LONG, 'bigint': LONG, 'double': DOUBLE,
            'boolean': BOOL}.get(t) or no(f'type {t}')


def no(what):
    raise Unsupported(what)


def caster(t):
    t = type_of(t)

    def f(a):
        try:
            if isinstance(t, (T.LongType, T.IntegerType)):
                return int(a)
            if isinstance(t, T.DoubleType):
                return float(a)
            if isinstance(t, T.StringType):
                return ('true' if a else 'false') if isinstance(a, bool) else str(a)
        except ValueError:
            raise ValueError(f'[CAST_INVALID_INPUT] {a!r}')
        raise Unsupported(f'cast to {t}')
    return f


def substring(a, pos, n):
    i = pos - 1 if pos > 0 else len(a) + pos if pos < 0 else 0
    return a[max(i, 0):max(i + n, 0)]


def literal(v):
    t = BOOL if isinstance(v, bool) else (INT if -2 ** 31 <= v < 2 ** 31 else LONG) if isinstance(v, int) else \
        DOUBLE if isinstance(v, float) else STR if isinstance(v, str) or v is None else no('literals of this type')
    return SimColumn(str(v), lambda r, c: v, lambda s: t)


def column(name):
    def typ(schema):
        for f in schema.fields:
            if f.name == name:
                return f.dataType
        from pyspark.errors import AnalysisException
        raise AnalysisException(f'[UNRESOLVED_COLUMN] {name}')
    return SimColumn(name, lambda r, c: r[name], typ)


def as_col(x):
    """an operand: a column or a literal"""
    return x if isinstance(x, SimColumn) else literal(x)


def named(x):
    """an argument: a column or the name of one"""
    return x if isinstance(x, SimColumn) else column(x) if isinstance(x, str) else literal(x)


def apply(name, fn, typ, *args, nulls=False):
    cols = [as_col(a) for a in args]
    if any(c.gen or c.agg for c in cols):
        raise Unsupported('expressions over generators and aggregates')

    def ev(r, c):
        vs = [x.fn(r, c) for x in cols]
        if not nulls and None in vs:
            return None
        return fn(*vs)

    def ty(s):
        if isinstance(typ, T.DataType):
            for c in cols:
                c.typ(s)        # names are resolved
            return typ
        return typ([c.typ(s) for c in cols]) if typ is wider else typ(s)
    return SimColumn(name, ev, ty)


def aggregate(name, col, fn, typ):
    col = None if col is None else named(col)
    return SimColumn(name, None, typ if not isinstance(typ, T.DataType) else lambda s: typ, agg=(col, fn))


def monotonic():
    box = {}

    def ev(r, c):
        return (c.part << 33) + c.row
    return SimColumn('monotonically_increasing_id()', ev, lambda s: LONG)


def exploded(col, keep_null=False):
    c = named(col)

    def ev(r, x):
        v = c.fn(r, x)
        return ([None] if keep_null else []) if not v else v
    return SimColumn('col', ev, lambda s: getattr(c.typ(s), 'elementType', STR), gen=True)


def java_split(s, pattern, limit=-1):
    if pattern == '':
        return list(s)
    out = re.split(pattern, s, maxsplit=max(limit - 1, 0) if limit > 0 else 0)
    return out


class Udf:
    def __init__(self, f, t):
        self.func, self.t = f, type_of(t)
        self.__name__ = getattr(f, '__name__', 'udf')

    def __call__(self, *cols):
        from .simspark import jvm_value
        return apply(self.__name__, lambda *a: jvm_value(self.func(*a), self.t), self.t, *[named(c) for c in cols],
                     nulls=True)


def udf(f=None, returnType='string', **kw):
    if f is None or not callable(f):
        t = f or returnType
        return lambda g: Udf(g, t)
    return Udf(f, returnType)


def numbers(vs):
    return [v for v in vs if v is not None]


def functions():
    def one(name, fn, typ):
        return lambda c, *a: apply(f'{name}({named(c).name_})', lambda v: fn(v, *a), typ, named(c))

    f = dict(
        col=column, column=column, lit=lambda v: v if isinstance(v, SimColumn) else literal(v),
        length=one('length', len, INT), char_length=one('length', len, INT),
        trim=one('trim', lambda v: v.strip(' '), STR), ltrim=one('ltrim', lambda v: v.lstrip(' '), STR),
        rtrim=one('rtrim', lambda v: v.rstrip(' '), STR), lower=one('lower', str.lower, STR),
        upper=one('upper', str.upper, STR), size=one('size', len, INT), reverse=one('reverse', lambda v: v[::-1], STR),
        isnull=lambda c: named(c).isNull(), isnotnull=lambda c: named(c).isNotNull(),
        split=lambda c, p, limit=-1: apply('split', lambda v: java_split(v, p, limit), T.ArrayType(STR), named(c)),
        regexp_replace=lambda c, p, r: apply('regexp_replace', lambda v: re.sub(p, r, v), STR, named(c)),
        substring=lambda c, a, n: named(c).substr(a, n),
        concat=lambda *cs: apply('concat', lambda *v: ''.join(v), STR, *map(named, cs)),
        concat_ws=lambda sep, *cs: apply('concat_ws', lambda *v: sep.join(numbers(v)), STR, *map(named, cs), nulls=True),
        coalesce=lambda *cs: apply('coalesce', lambda *v: next((x for x in v if x is not None), None),
                                   lambda s: named(cs[0]).typ(s), *map(named, cs), nulls=True),
        array=lambda *cs: apply('array', lambda *v: list(v), lambda s: T.ArrayType(named(cs[0]).typ(s)),
                                *map(named, cs), nulls=True),
        monotonically_increasing_id=monotonic,
        spark_partition_id=lambda: SimColumn('SPARK_PARTITION_ID()', lambda r, c: c.part, lambda s: INT),
        explode=exploded, explode_outer=lambda c: exploded(c, True), udf=udf,
        asc=lambda c: named(c).asc(), desc=lambda c: named(c).desc(),
        count=lambda c: aggregate('count', None if c == '*' or isinstance(c, str) and c == '1' else c,
                                  lambda vs: len(numbers(vs)), LONG),
        sum=lambda c: aggregate('sum', c, lambda vs: sum(numbers(vs)) if numbers(vs) else None, LONG),
        max=lambda c: aggregate('max', c, lambda vs: max(numbers(vs), default=None), lambda s: named(c).typ(s)),
        min=lambda c: aggregate('min', c, lambda vs: min(numbers(vs), default=None), lambda s: named(c).typ(s)),
        first=lambda c, *a, **k: aggregate('first', c, lambda vs: vs[0] if vs else None, lambda s: named(c).typ(s)),
        collect_list=lambda c: aggregate('collect_list', c, numbers, lambda s: T.ArrayType(named(c).typ(s))),
        countDistinct=lambda c: aggregate('count', c, lambda vs: len(set(numbers(vs))), LONG),
        count_distinct=lambda c: aggregate('count', c, lambda vs: len(set(numbers(vs))), LONG),
        broadcast=lambda df: df,
    )
    f['row_number'] = lambda: no('windows')
    return f


def install():
    import pyspark.sql
    import pyspark.sql.functions as F
    import pyspark.sql.functions.builtin as B
    ours = functions()
    for m in (F, B):
        for k in list(vars(m)):
            v = vars(m)[k]
            if k.startswith('_') or not callable(v) or isinstance(v, type):
                continue
            if k in ours:
                setattr(m, k, ours[k])
            elif getattr(v, '__module__', '').startswith('pyspark.sql.functions'):
                setattr(m, k, lambda *a, _k=k, **kw: no(f'function {_k}'))
