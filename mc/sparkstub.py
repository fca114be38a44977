"""A tiny row-at-a-time stand-in for the pyspark / petastorm modules the workflow package imports.

Only what reagent.workflow uses: columns are functions row -> value, DataFrames are lists of dicts.
Rows are evaluated with ordinary Spark semantics (null-safe comparison is not needed here).
"""
import re
import sys
import types
import zlib


class Col:
    def __init__(self, fn, name=None):
        self.fn, self.name = fn, name

    def alias(self, *names):
        c = Col(self.fn, names if len(names) > 1 else names[0])
        c.explode = getattr(self, "explode", None)
        c.collect = getattr(self, "collect", None)
        return c

    def cast(self, t):
        return Col(lambda r: t.cast(self.fn(r)), self.name)

    def _bin(self, other, op):
        o = other if isinstance(other, Col) else lit(other)
        return Col(lambda r: op(self.fn(r), o.fn(r)))

    def __le__(self, o):
        return self._bin(o, lambda a, b: a <= b)

    def __lt__(self, o):
        return self._bin(o, lambda a, b: a < b)

    def __ge__(self, o):
        return self._bin(o, lambda a, b: a >= b)

    def __gt__(self, o):
        return self._bin(o, lambda a, b: a > b)

    def __eq__(self, o):
        return self._bin(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._bin(o, lambda a, b: a != b)

    def __and__(self, o):
        return self._bin(o, lambda a, b: a and b)

    def __or__(self, o):
        return self._bin(o, lambda a, b: a or b)

    def __invert__(self):
        return Col(lambda r: not self.fn(r))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b)

    def __mod__(self, o):
        return self._bin(o, lambda a, b: a % b)

    def between(self, lo, hi):
        return (self >= lo) & (self <= hi)

    def __neg__(self):
        return Col(lambda r: -self.fn(r))

    def __radd__(self, o):
        return lit(o) + self

    def __rsub__(self, o):
        return lit(o) - self

    def __rmul__(self, o):
        return lit(o) * self

    def __rtruediv__(self, o):
        return lit(o) / self

    def isNull(self):
        return Col(lambda r: self.fn(r) is None)

    def isNotNull(self):
        return Col(lambda r: self.fn(r) is not None)

    def isin(self, *vs):
        vs = vs[0] if len(vs) == 1 and isinstance(vs[0], (list, tuple, set)) else vs
        return Col(lambda r: self.fn(r) in vs)

    def getItem(self, k):
        return Col(lambda r: self.fn(r)[k])

    getField = __getitem__ = getItem

    __hash__ = None


def lit(v):
    return Col(lambda r: v)


def col(name):
    def get(r):
        v = r
        for part in name.split("."):
            v = v[part]
        return v

    return Col(get, name.split(".")[-1])


def as_col(c):
    return c if isinstance(c, Col) else col(c)


def crc32(c):
    c = as_col(c)
    return Col(lambda r: zlib.crc32(str(c.fn(r)).encode()) & 0xFFFFFFFF)


def explode(c):
    c = as_col(c)
    out = Col(c.fn, c.name or "col")
    out.explode = True
    return out


def collect_list(c):
    c = as_col(c)
    out = Col(c.fn, "collect_list(%s)" % c.name)
    out.collect = True
    return out


def when(cond, value):
    v = value if isinstance(value, Col) else lit(value)
    out = Col(lambda r: v.fn(r) if cond.fn(r) else None)

    def otherwise(o):
        o = o if isinstance(o, Col) else lit(o)
        return Col(lambda r: v.fn(r) if cond.fn(r) else o.fn(r))

    out.otherwise = otherwise
    return out


def size(c):
    c = as_col(c)
    return Col(lambda r: len(c.fn(r)))


def expr(text):
    return Col(lambda r: _eval_sql_expr(text, r))


def map_keys(c):
    c = as_col(c)
    return Col(lambda r: list(c.fn(r)), "keys")


class Type:
    def __init__(self, *a, **k):
        self.a = a

    def cast(self, v):
        return v


class FloatType(Type):
    def cast(self, v):
        return None if v is None else float(v)


class LongType(Type):
    def cast(self, v):
        return None if v is None else int(v)


class BooleanType(Type):
    def cast(self, v):
        return None if v is None else bool(v)


class ArrayType(Type):
    def cast(self, v):
        return None if v is None else [self.a[0].cast(x) for x in v]


class MapType(Type):
    pass


class StructField(Type):
    pass


class StructType(Type):
    def wrap(self, v):
        return {f.a[0]: x for f, x in zip(self.a[0], v)}


def udf(f, rtype=None):
    def call(*cols):
        cols = [as_col(c) for c in cols]

        def fn(r):
            v = f(*[c.fn(r) for c in cols])
            return rtype.wrap(v) if isinstance(rtype, StructType) else v

        return Col(fn)

    return call


class _Rdd:
    def __init__(self, rows):
        self.rows = rows

    def flatMap(self, f):
        return _Rdd([y for r in self.rows for y in f(tuple(r.values()))])

    def collect(self):
        return list(self.rows)


TABLES = {}
SAVED = {}


class _Grouped:
    def __init__(self, df, names):
        self.names = names
        self.groups = {}
        for r in df.rows:
            self.groups.setdefault(tuple(r[n] for n in names), []).append(r)

    def count(self):
        return DF([dict(zip(self.names, k), count=len(rs)) for k, rs in self.groups.items()])

    def agg(self, *cols):
        out = []
        for k, rs in self.groups.items():
            n = dict(zip(self.names, k))
            for c in cols:
                assert getattr(c, "collect", None), "only collect_list"
                n[c.name] = [c.fn(r) for r in rs]
            out.append(n)
        return DF(out)


class DF:
    def __init__(self, rows):
        self.rows = rows

    def withColumn(self, name, c):
        out = []
        for r in self.rows:
            n = dict(r)
            n[name] = c.fn(r)
            out.append(n)
        return DF(out)

    def withColumnRenamed(self, a, b):
        return DF([{(b if k == a else k): v for k, v in r.items()} for r in self.rows])

    def drop(self, *names):
        return DF([{k: v for k, v in r.items() if k not in names} for r in self.rows])

    def filter(self, c):
        return DF([r for r in self.rows if c.fn(r)])

    where = filter

    def select(self, *cols):
        cols = [as_col(c) for c in cols]
        out = []
        for r in self.rows:
            if len(cols) == 1 and getattr(cols[0], "explode", None):
                v = cols[0].fn(r)
                for x in v.items() if isinstance(v, dict) else v:
                    if isinstance(v, dict):
                        out.append(dict(zip(cols[0].name, x)))
                    else:
                        out.append({cols[0].name: x})
            else:
                out.append({c.name: c.fn(r) for c in cols})
        return DF(out)

    def groupBy(self, *names):
        return _Grouped(self, names)

    groupby = groupBy

    def sampleBy(self, name, fractions, seed=None):
        """the first ceil(fraction * rows) rows of every stratum"""
        total, kept, out = {}, {}, []
        for r in self.rows:
            total[r[name]] = total.get(r[name], 0) + 1
        for r in self.rows:
            k = r[name]
            if kept.get(k, 0) < fractions.get(k, 0.0) * total[k] - 1e-9:
                kept[k] = kept.get(k, 0) + 1
                out.append(r)
        return DF(out)

    def limit(self, n):
        return DF(self.rows[:n])

    def union(self, other):
        return DF(self.rows + other.rows)

    def orderBy(self, *cols):
        cols = [as_col(c) for c in cols]
        return DF(sorted(self.rows, key=lambda r: tuple(c.fn(r) for c in cols)))

    @property
    def columns(self):
        return list(self.rows[0]) if self.rows else []

    def cache(self):
        return self

    persist = unpersist = alias = cache

    def first(self):
        return self.rows[0] if self.rows else None

    def selectExpr(self, *es):
        out = []
        for r in self.rows:
            n = {}
            for e in es:
                m = re.fullmatch(r"(.*?)(?:\s+as\s+(\w+))?", e.strip(), re.S | re.I)
                if e.strip() == "*":
                    n.update(r)
                else:
                    n[m.group(2) or m.group(1)] = _eval_sql_expr(m.group(1), r)
            out.append(n)
        return DF(out)

    def toPandas(self):
        import pandas

        return pandas.DataFrame(self.rows)

    def distinct(self):
        seen, out = set(), []
        for r in self.rows:
            k = repr(r)
            if k not in seen:
                seen.add(k)
                out.append(r)
        return DF(out)

    @property
    def rdd(self):
        return _Rdd(self.rows)

    def collect(self):
        return list(self.rows)

    def count(self):
        return len(self.rows)

    def createOrReplaceTempView(self, name):
        TABLES[name] = self

    @property
    def write(self):
        df = self

        class W:
            def mode(self, m):
                return self

            def format(self, m):
                return self

            def saveAsTable(self, name):
                assert name not in SAVED, "table %s exists" % name
                SAVED[name] = df

            def parquet(self, url):
                SAVED[url.rsplit("/", 1)[-1]] = df

        return W()


def _eval_sql_expr(expr, row):
    """SQL expression -> python: AGGREGATE(arr, init, (s, x) -> e), REVERSE, FLOAT, COALESCE, column names"""
    py = re.sub(r"\((\w+)\s*,\s*(\w+)\)\s*->", r"lambda \1, \2:", expr)
    py = re.sub(r"(?<![<>=!])=(?!=)", "==", py)

    def agg(arr, init, f):
        s = init
        for x in arr:
            s = f(s, x)
        return s

    env = {
        "AGGREGATE": agg,
        "REVERSE": lambda a: list(reversed(a)),
        "FLOAT": float,
        "COALESCE": lambda *a: next((x for x in a if x is not None), None),
        "ABS": abs,
        "IF": lambda c, a, b: a if c else b,
        "NULL": None,
        "SIZE": len,
        "POWER": pow,
        "SLICE": lambda a, s, n: a[s - 1 : s - 1 + n],
    }
    for k, v in list(env.items()):
        env[k.lower()] = v
    env.update(row)
    env["__builtins__"] = {}
    try:
        return eval(py, env)
    except TypeError:
        if None in row.values():
            # SQL arithmetic with NULL is NULL
            m = re.fullmatch(r"COALESCE\((.*), *([-\w.]+)\)", expr.strip(), re.S)
            return float(m.group(2)) if m else None
        raise


class _Sql:
    class catalog:
        class _jcatalog:
            @staticmethod
            def tableExists(name):
                return name in SAVED

    class read:
        @staticmethod
        def parquet(url):
            return SAVED[url.rsplit("/", 1)[-1]]

    def table(self, name):
        return TABLES[name] if name in TABLES else SAVED[name]

    def sql(self, q):
        m = re.fullmatch(r"DESCRIBE FORMATTED (\w+)", q.strip())
        if m:
            return DF([{"col_name": "Database", "data_type": "default"}, {"col_name": "Location", "data_type": "file:/" + m.group(1)}])
        m = re.fullmatch(r"SELECT \* FROM (\w+)", q.strip())
        if m:
            return TABLES[m.group(1)]
        m = re.fullmatch(r"SELECT \*, CAST\((.*) AS FLOAT\)\s*as (\w+) FROM (\w+)", q.strip(), re.S)
        if m:
            expr, name, table = m.groups()
            out = []
            for r in TABLES[table].rows:
                n = dict(r)
                n[name] = float(_eval_sql_expr(expr, r))
                out.append(n)
            return DF(out)
        raise NotImplementedError(q)


class _Builder:
    def enableHiveSupport(self):
        return self

    def config(self, *a, **k):
        return self

    def getOrCreate(self):
        s = _Sql()
        s.sparkContext = types.SimpleNamespace(setLogLevel=lambda *a: None)
        return s


class SparkSession:
    builder = _Builder()


def install():
    """put the stand-ins into sys.modules (only when the real packages are missing)"""
    try:
        import pyspark  # noqa

        return
    except ImportError:
        pass
    ps = types.ModuleType("pyspark")
    sql = types.ModuleType("pyspark.sql")
    fn = types.ModuleType("pyspark.sql.functions")
    ty = types.ModuleType("pyspark.sql.types")
    sql.SparkSession = SparkSession
    for n in ("col", "crc32", "explode", "map_keys", "udf", "lit", "collect_list", "when", "size", "expr"):
        setattr(fn, n, globals()[n])
    for n in ("ArrayType", "BooleanType", "FloatType", "LongType", "MapType", "StructField", "StructType"):
        setattr(ty, n, globals()[n])
    ty.StringType = ty.IntegerType = ty.DoubleType = Type
    ps.sql, sql.functions, sql.types = sql, fn, ty
    sys.modules.update({"pyspark": ps, "pyspark.sql": sql, "pyspark.sql.functions": fn, "pyspark.sql.types": ty})
    try:
        import petastorm  # noqa
    except ImportError:
        pt = types.ModuleType("petastorm")
        ptt = types.ModuleType("petastorm.pytorch")
        pt.make_batch_reader = _Reader
        ptt.DataLoader = _Loader
        ptt.decimal_friendly_collate = _collate
        pt.pytorch = ptt
        sys.modules.update({"petastorm": pt, "petastorm.pytorch": ptt})


class _Reader:
    def __init__(self, url, num_epochs=1, reader_pool_type="thread", **kw):
        assert url.startswith("file:///"), url
        self.rows = SAVED[url[len("file:///"):]].rows * num_epochs


def _as_array(v):
    import numpy as np

    if isinstance(v, (list, tuple)):
        kinds = {type(x) for x in v}
        return np.array(v, dtype=np.float32 if float in kinds else None)
    return np.float32(v) if isinstance(v, float) else np.array(v)[()]


class _Loader:
    """rows of the reader in order, as arrays, batch_size at a time"""

    def __init__(self, reader, batch_size=1, collate_fn=None, **kw):
        self.reader, self.n, self.fn = reader, batch_size, collate_fn or _collate

    def __iter__(self):
        rows = self.reader.rows
        for i in range(0, len(rows), self.n):
            yield self.fn([{k: _as_array(v) for k, v in r.items()} for r in rows[i : i + self.n]])

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def _collate(rows):
    from torch.utils.data.dataloader import default_collate

    return default_collate(rows)
