C, B, DS, U = 'nlcodec/codec.py', 'nlcodec/bpe.py', 'nlcodec/dstruct.py', 'nlcodec/utils.py'
DB, BA, SP, TF, MR = 'nlcodec/db/core.py', 'nlcodec/db/batch.py', 'nlcodec/spark.py', 'nlcodec/term_freq.py', 'nlcodec/para/mapred.py'
Q, PR, OV, QE = 'nlcodec/eval/bpe_len.py', 'nlcodec/eval/pr_measure.py', 'nlcodec/eval/oov_count.py', 'nlcodec/qestim.py'
SEEDS = []
def seed(id, property, needs, breaks, demo, *edits):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, demo=demo, edits=list(edits)))

seed('D02-empty-refused', 'D02', 'a record with an empty sequence',
     'an empty sequence is refused instead of stored',
     '''from nlcodec.db.core import SeqField
f = SeqField.create('x', [(0, [1, 2]), (1, []), (2, [3])])
assert [list(v) for v in f.values()] == [[1, 2], [], [3]]
''', (DB, "            assert len(arr) == 0 or isinstance(arr[0], (int, np.integer))", "            assert all(isinstance(v, (int, np.integer)) for v in arr[:1]) and len(arr)"))

seed('D06-length-one', 'D06', 'records whose shorter side has exactly one token',
     'they are left out of all batches',
     '''from nlcodec.db.core import Db
db = Db.create([([1], [1, 2]), ([1, 2], [3]), ([1, 2], [1, 2])], ['x', 'y'])
got = sorted(r.id for b in db.make_eq_len_ran_batches(max_toks=8) for r in b)
assert got == [0, 1, 2], got
''', (DB, "            if min(lens) < min_len:", "            if max(min(lens), 0) <= min_len and len(fields) > 1:"))

seed('C12-boundary', 'C12', 'types whose frequency is exactly the minimum',
     'types that stay are counted as unknown too',
     '''from nlcodec.codec import WordScheme
t = WordScheme.learn(['a a b b c'], min_freq=2)
assert t[1].freq == 1, t[1]
''', (C, "            unk_count += sum(f for t, f in term_freqs if f < min_freq)", "            unk_count += sum(f for t, f in term_freqs if not f > min_freq)"))

seed('D05-saved-shuffle', 'D05', 'a database that was saved with shuffling on and is opened without',
     'iteration is shuffled though shuffling was not asked for',
     '''import os
from nlcodec.db.core import Db
db = Db.create([([i],) for i in range(200)], ['x'])
db.shuffle = True
p = os.environ['SCRATCH'] + '/db'
db.save(p)
assert [r.id for r in Db.load(p)] == list(range(200))
''', (DB, "        obj.shuffle = shuffle\n", "        obj.shuffle = obj.shuffle or shuffle\n"))

seed('D07-sort-x-only', 'D07', 'batches with both sides and sort_dec',
     'rows of x are sorted, rows of y are not',
     '''from nlcodec.db.batch import Batch, BatchMeta, IdExample
import numpy as np
m = BatchMeta(pad_idx=0, bos_idx=2, eos_idx=3)
b = Batch([IdExample(0, np.array([5, 3]), np.array([7, 3])), IdExample(1, np.array([6, 6, 6, 3]), np.array([8, 8, 3]))], sort_dec=True, meta=m)
assert b.x_seqs[0][0] == 6 and b.y_seqs[0][0] == 8, (b.x_seqs, b.y_seqs)
''', (BA, "        if sort_dec:\n            batch = sorted(batch, key=lambda _: len(_.x), reverse=True)\n        self._len = len(batch)\n        self.x_len = np.array([len(e.x) for e in batch])",
      "        xs = [ex.x for ex in batch]\n        if sort_dec:\n            xs = sorted(xs, key=len, reverse=True)\n        self._len = len(batch)\n        self.x_len = np.array([len(x) for x in xs])"),
     (BA, "        for i, ex in enumerate(batch):\n            self.x_seqs[i, :len(ex.x)] = ex.x\n", "        for i, x in enumerate(xs):\n            self.x_seqs[i, :len(x)] = x\n"))

seed('P01-lone-item', 'P01', 'a stream of a single item paired without throw_singleton',
     'the only item is dropped',
     '''from nlcodec.para.mapred import pair_subsequent
assert list(pair_subsequent([5], default=0)) == [(5, 0)]
assert list(pair_subsequent([5, 6, 7], default=0)) == [(5, 6), (7, 0)]
''', (MR, "    if idx % 2 == 1:  # the last item un paired", "    if idx > 1 and idx % 2 == 1:  # the last item un paired"))

seed('S01-env-first', 'S01', 'SPARK_MASTER in the environment and a master given as an option',
     'the option is ignored',
     '''import os
os.environ['SPARK_MASTER'] = 'local[1]'
import nlcodec.spark as sp
seen = {}
class Bld:
    def appName(self, n): return self
    def master(self, m): seen['m'] = m; return self
    def config(self, k, v): return self
    def getOrCreate(self): return 'S'
class SS: builder = Bld()
sp.SparkSession = SS
sp.get_session(master='local[2]')
assert seen['m'] == 'local[2]', seen
''', (SP, '.master(master or os.environ.get("SPARK_MASTER", "local[*]"))', '.master(os.environ.get("SPARK_MASTER", master or "local[*]"))'))

seed('L02-blank-lines', 'L02', 'files with empty lines read as one stream',
     'empty lines are dropped, so the lines of two files no longer correspond',
     '''import os
from nlcodec.utils import IO
p = os.environ['SCRATCH'] + '/a'
open(p, 'w').write('x\\n\\ny\\n')
assert list(IO.read_as_stream([p])) == ['x\\n', '\\n', 'y\\n']
''', (U, "                yield from stream\n", "                yield from (line for line in stream if line.strip())\n"))

seed('E03-case', 'E03', 'a token that is in the vocabulary only when lower-cased',
     'the token is counted in both groups',
     '''from nlcodec.eval.oov_count import partition_vocab_toks
iv, oov = partition_vocab_toks(['The the cat'], {'the'})
assert iv == {'the': 1} and oov == {'The': 1, 'cat': 1}, (iv, oov)
''', (OV, "    iv_stats = {t:f for t, f in tfs.items() if t in vocab}", "    iv_stats = {t:f for t, f in tfs.items() if t in vocab or t.lower() in vocab}"))

seed('C03-space-unchecked', 'C03', 'a table whose space marker is missing',
     'a table without the space marker is accepted',
     '''from nlcodec.codec import WordScheme, Type
t = WordScheme.learn(['a b'], min_freq=1)
t[5] = Type(name='zz', idx=5, level=2, freq=1)
try:
    WordScheme(t)
except AssertionError:
    pass
else:
    raise SystemExit('accepted')
''', (C, "        for tok, idx in cls.ALL:\n            assert tok == table[idx].name", "        for tok, idx in cls.ALL[:cls.CLS_IDX + 1]:\n            assert tok == table[idx].name"))

seed('C01-order-accepted', 'C01', 'a file whose entries are out of order',
     'the file is accepted and its entries are put in their places, leaving others behind',
     '''import os
from nlcodec.codec import WordScheme, Type
p = os.environ['SCRATCH'] + '/m'
WordScheme(WordScheme.learn(['a b c'], min_freq=1)).save(p)
L = open(p).read().splitlines()
L[-1], L[-2] = L[-2], L[-1]
open(p, 'w').write('\\n'.join(L) + '\\n')
try:
    Type.read_vocab(p)
except AssertionError:
    pass
else:
    raise SystemExit('accepted')
''', (C, "            assert v.idx == i\n            vocab[i] = v\n", "            assert 0 <= v.idx < len(vocab)\n            vocab[v.idx] = v\n"))

seed('S02-unique-id', 'S02', 'sides that are split into several partitions of different sizes',
     'lines are paired by partition-wise ids, so lines of the two sides are mismatched',
     '''import os
from nlcodec import spark
d = os.environ['SCRATCH']
n = 400
open(d + '/s', 'w').write(''.join(f's{i}\\n' for i in range(n)))
open(d + '/t', 'w').write(''.join(f't{i} ' + 'x' * (40 if i < 50 else 1) + '\\n' for i in range(n)))
with spark.session(master='local[2]', driver_mem='1g', config={'spark.sql.files.maxPartitionBytes': '1000', 'spark.sql.shuffle.partitions': '2', 'spark.ui.enabled': 'false'}) as s:
    df, k = spark.read_raw_bitext(s, d + '/s', d + '/t')
    rows = df.collect()
assert len(rows) == n and all(r.src_raw[1:] == r.tgt_raw.split()[0][1:] for r in rows), rows[:3]
''', (SP, "        return sdf.rdd.zipWithIndex().map(", "        return sdf.rdd.zipWithUniqueId().map("))

seed('D03-sorted-names', 'D03', 'field names that are not in alphabetical order',
     'fields of a record are returned under the name of another',
     '''from nlcodec.db.core import Db
db = Db.create([([1], [2])], ['y', 'x'])
r = db[0]
assert list(r.y) == [1] and list(r.x) == [2], r
''', (DB, "            self._rec_type = namedtuple('RecType', ['id'] + self.field_names)\n        return", "            self._rec_type = namedtuple('RecType', ['id'] + sorted(self.fields))\n        return"))

seed('L01-one-part', 'L01', '--num-parts 1',
     'asking for a single part has no effect',
     '''import nlcodec.spark as sp, os
class R:
    n = 5
    def repartition(self, k): r = R(); r.n = k; return r
    def mapPartitionsWithIndex(self, w):
        res = []
        for i in range(self.n): res += [w(i, [(i, ([1], [2]))])]
        class X:
            def count(s): return len(res)
        return X()
db = sp.rdd_as_db(R(), __import__('pathlib').Path(os.environ['SCRATCH']) / 'db', repartition=1)
assert len(db.part_paths) == 1, db.part_paths
''', (SP, "    if repartition and repartition > 0:", "    if repartition and repartition > 1:"))

seed('E04-empty-types', 'E04', 'types of the vocabulary that do not occur in the text',
     'imbalance is measured over the types that occur only',
     '''from nlcodec.codec import WordScheme
from nlcodec.qestim import QualityEstimator
s = WordScheme(WordScheme.learn(['a b c d'], min_freq=1))
q = QualityEstimator(s).estimate(['a b'])
assert abs(float(q.imbalance) - 0.8) < 1e-9, q
''', (QE, "        imb_measure = self.EMD_simple(stats=stats)", "        imb_measure = self.EMD_simple(stats=[c for c in stats if c])"))

seed('C08-perm-order', 'C08', 'enumerating permutations of a type whose two pieces are different',
     'pieces of some permutations are in the wrong order',
     '''from nlcodec.codec import BPEScheme
t = BPEScheme.learn(['abc abc abc ab'], vocab_size=14, coverage=1.0, min_co_evidence=1)
for x in t:
    for p in x.get_permutations(name=True):
        assert ''.join(p) == x.name, (x, p)
''', (C, "                    perms.append(left_kid + right_kid)", "                    perms.append(left_kid + right_kid if len(left_kid) <= len(right_kid) else right_kid + left_kid)"))

seed('C07-shorter-first', 'C07', 'nested entries where an intermediate prefix is no entry',
     'the scan gives up after a prefix that is no entry though a longer match exists',
     '''from nlcodec.codec import BPEScheme, Type, Reseved
t = Reseved.with_reserved_types()
for n in ('a', 'b', 'c', 'abcd', 'd'):
    t.append(Type(name=n, idx=len(t), level=1 if len(n) > 1 else 0, freq=1))
s = BPEScheme(t)
assert s.encode_str('abcd') == ['abcd', '\u2581'], s.encode_str('abcd')
''', (C, "            if idx < len(seq) and seq[idx] in prev_node.kids:  # keep growing, i.e. advance", "            if idx < len(seq) and seq[idx] in prev_node.kids and (not data_node or idx - data_idx < 2):  # keep growing, i.e. advance"))

seed('C14-char-stats', 'C14', 'learning characters from a statistics file',
     'the file is counted as text',
     '''from nlcodec.codec import CharScheme
a = CharScheme.learn(['#{"line_count": 1}\\n', 'x\\t3\\n', 'y\\t2\\n'], term_freqs=True, min_freq=1, coverage=1.0)
assert [(t.name, t.freq) for t in a[6:]] == [('x', 3), ('y', 2)], a
''', (C, "        return super().learn(data, vocab_size, min_freq=min_freq, coverage=coverage, **kwargs)", "        kwargs = {k: v for k, v in kwargs.items() if k != 'term_freqs' or not coverage}\n        return super().learn(data, vocab_size, min_freq, coverage, **kwargs)"))

seed('E02-f1-zero', 'E02', 'precision and recall whose sum is below one',
     'the f-measure is zero for weak but non-zero precision and recall',
     '''from nlcodec.eval.pr_measure import f1_measure
assert abs(f1_measure(0.25, 0.25) - 0.25) < 1e-9
assert f1_measure(0, 0) == 0
''', (PR, "    if denr == 0:\n", "    if int(denr) == 0:\n"))
