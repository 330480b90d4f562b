"""Signatures of library functions: the same call may be written with positional or keyword arguments, and with documented
defaults spelled out.  '*x' marks the leading parameters kept positional in the normal form; a default of None-like values is a term."""
from __future__ import annotations
from .terms import const, NONE, TRUE, FALSE

REQ = object()


def sig(text):
    """'a, b=1, *, c=None'  ->  ([(name, default)], number of leading required)"""
    import ast
    a = ast.parse(f'def f({text}): pass').body[0].args
    out = []
    ps = a.args
    ds = [REQ] * (len(ps) - len(a.defaults)) + list(a.defaults)
    for p, d in zip(ps, ds):
        out.append((p.arg, d if d is REQ else const(ast.literal_eval(d))))
    kwo = [(p.arg, REQ if d is None else const(ast.literal_eval(d))) for p, d in zip(a.kwonlyargs, a.kw_defaults)]
    return out, kwo


FUNCS = {k: sig(v) for k, v in {
    'builtins.open': "file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None",
    'io.open': "file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None",
    'gzip.open': "filename, mode='rb', compresslevel=9, encoding=None, errors=None, newline=None",
    'io.TextIOWrapper': 'buffer, encoding=None, errors=None, newline=None, line_buffering=False, write_through=False',
    'builtins.str': "object, encoding='utf-8', errors='strict'",
    'builtins.bytes': "source, encoding='utf-8', errors='strict'",
    'builtins.str.encode': "self, encoding='utf-8', errors='strict'",
    'builtins.int': 'x, base=10',
    'builtins.round': 'number, ndigits=None',
    'argparse.FileType': "mode='r', bufsize=-1, encoding=None, errors=None",
    'argparse.ArgumentParser': 'prog=None, usage=None, description=None, epilog=None',
    'multiprocessing.Pool': 'processes=None, initializer=None, initargs=(), maxtasksperchild=None',
    'multiprocessing.get_context': 'method=None',
    'json.loads': 's', 'json.load': 'fp',
    'json.dumps': 'obj, *, skipkeys=False, ensure_ascii=True, check_circular=True, allow_nan=True, cls=None, indent=None, separators=None, default=None, sort_keys=False',
    'json.dump': 'obj, fp, *, skipkeys=False, ensure_ascii=True, check_circular=True, allow_nan=True, cls=None, indent=None, separators=None, default=None, sort_keys=False',
    'pickle.load': 'file', 'pickle.loads': 'data',
    'pickle.dump': 'obj, file, protocol=None', 'pickle.dumps': 'obj, protocol=None',
    'shutil.rmtree': 'path, ignore_errors=False, onerror=None',
    'os.listdir': "path='.'", 'os.environ.get': 'key, default=None', 'os.getenv': 'key, default=None',
    'os.makedirs': 'name, mode=511, exist_ok=False', 'os.replace': 'src, dst', 'os.rename': 'src, dst',
    'collections.namedtuple': 'typename, field_names',
    'numpy.append': 'arr, values, axis=None', 'numpy.array': 'object, dtype=None', 'numpy.asarray': 'a, dtype=None',
    'numpy.concatenate': 'arrays, axis=0', 'numpy.full': 'shape, fill_value, dtype=None', 'numpy.full_like': 'a, fill_value, dtype=None',
    'numpy.ones': 'shape, dtype=None', 'numpy.zeros': 'shape, dtype=None', 'numpy.triu': 'm, k=0', 'numpy.tril': 'm, k=0',
    'numpy.abs': 'x', 'numpy.sum': 'a, axis=None, dtype=None', 'numpy.max': 'a, axis=None', 'numpy.min': 'a, axis=None',
    'numpy.mean': 'a, axis=None', 'numpy.transpose': 'a, axes=None', 'numpy.argsort': 'a, axis=-1', 'numpy.iinfo': 'type',
    'numpy.sort': 'a, axis=-1', 'numpy.empty': 'shape, dtype=None',
    'pyspark.sql.types.StructField': 'name, dataType, nullable=True', 'pyspark.sql.types.StructType': 'fields=None',
    'pyspark.sql.SparkSession.builder.appName': 'name',
    'random.choice': 'seq', 'random.shuffle': 'x', 'random.sample': 'population, k',
    'itertools.count': 'start=0, step=1', 'itertools.zip_longest': None,
    'tqdm.tqdm': None,
    'setattr': None,
}.items() if v is not None}
FUNCS['builtins.iter'] = FUNCS['builtins.next'] = None

METHODS = {k: sig(v) for k, v in {
    'split': 'sep=None, maxsplit=-1', 'rsplit': 'sep=None, maxsplit=-1', 'splitlines': 'keepends=False',
    'strip': 'chars=None', 'lstrip': 'chars=None', 'rstrip': 'chars=None',
    'encode': "encoding='utf-8', errors='strict'", 'decode': "encoding='utf-8', errors='strict'",
    'replace': 'old, new, count=-1',
    'open': "mode='r', buffering=-1, encoding=None, errors=None, newline=None",
    'read_text': 'encoding=None, errors=None', 'write_text': 'data, encoding=None, errors=None, newline=None',
    'write_bytes': 'data', 'mkdir': 'mode=511, parents=False, exist_ok=False', 'with_suffix': 'suffix', 'with_name': 'name',
    'glob': 'pattern', 'rglob': 'pattern', 'touch': 'mode=438, exist_ok=True', 'unlink': 'missing_ok=False', 'rename': 'target',
    'imap': 'func, iterable, chunksize=1', 'imap_unordered': 'func, iterable, chunksize=1',
    'Pool': 'processes=None, initializer=None, initargs=(), maxtasksperchild=None',
    'astype': 'dtype', 'argsort': 'axis=-1', 'toDF': 'schema=None, sampleRatio=None', 'withColumnRenamed': 'existing, new',
    'parallelize': 'c, numSlices=None', 'take': 'num', 'repartition': 'numPartitions', 'master': 'master', 'appName': 'name',
    'flatMap': 'f, preservesPartitioning=False', 'reduceByKey': 'func, numPartitions=None',
    'mapPartitionsWithIndex': 'f, preservesPartitioning=False', 'unsqueeze': 'dim',
    'text': 'paths, wholetext=False', 'union': 'other', 'add_mutually_exclusive_group': '*, required=False',
    'startswith': None, 'read': 'size=-1', 'readline': 'size=-1', 'most_common': 'n=None', 'drop_duplicates': 'subset=None',
}.items() if v is not None}

DF_JOIN = sig('other, on=None, how=None')


def normal(s, pos, kw):
    """(positional, keywords) in normal form; unchanged when the call does not fit the signature"""
    params, kwo = s
    if len(pos) > len(params) or any(p.op == 'starred' for p in pos) or '**' in kw:
        return pos, kw
    vals = {}
    for (n, _), v in zip(params, pos):
        vals[n] = v
    known = {n for n, _ in params} | {n for n, _ in kwo}
    for k, v in kw.items():
        if k in vals:
            return pos, kw
        vals[k] = v
    out = []
    for n, d in params:
        if d is REQ:
            if n not in vals:
                return pos, kw
            out.append(vals.pop(n))
    for n, d in list(params) + list(kwo):
        if d is not REQ and vals.get(n) is d:
            del vals[n]
    return out, vals
