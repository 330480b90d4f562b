C, B, DS, U = 'nlcodec/codec.py', 'nlcodec/bpe.py', 'nlcodec/dstruct.py', 'nlcodec/utils.py'
DB, BA, SP, TF, MR = 'nlcodec/db/core.py', 'nlcodec/db/batch.py', 'nlcodec/spark.py', 'nlcodec/term_freq.py', 'nlcodec/para/mapred.py'
SEEDS = []
def seed(id, property, needs, breaks, demo, *edits):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, demo=demo, edits=list(edits)))

seed('D09-incomplete-gone', 'D09', 'a directory with data in which an earlier run did not finish',
     'parts of an unfinished run, or any other files in the directory, are deleted though overwriting was not requested',
     '''import os
from nlcodec.db.core import MultipartDb
p = os.environ['SCRATCH'] + '/db'
os.mkdir(p)
open(p + '/notes.txt', 'w').write('mine')
try:
    MultipartDb.Writer(p, ['x'])
    raise SystemExit('not refused')
except Exception:
    pass
assert os.listdir(p) == ['notes.txt']
''', (DB, "                if overwrite:\n                    log.warning", "                if overwrite or not (path / '_SUCCESS').exists():\n                    log.warning"))

seed('C01-kids-sorted', 'C01', 'a merge whose second piece has a smaller id than its first',
     'the pieces of a type are written in order of id, so the composition changes on reload',
     '''import os
from nlcodec.codec import Type, BPEScheme, load_scheme
p = os.environ['SCRATCH'] + '/m'
t = BPEScheme.learn(['ba ba ba ba ab', 'ba ca aa aa'], vocab_size=20, coverage=1.0, min_co_evidence=1)
assert any(k.kids and k.kids[0].idx > k.kids[1].idx for k in t), t
BPEScheme(t).save(p)
assert load_scheme(p).table == t
''', (C, "' '.join(str(k.idx) for k in self.kids) if self.kids else '']", "' '.join(map(str, sorted(k.idx for k in self.kids))) if self.kids else '']"))

seed('D06-lone-record', 'D06', 'a last batch that holds a single record',
     'the last record is dropped when it is alone in its batch',
     '''from nlcodec.db.core import Db
db = Db.create([([1] * n,) for n in (2, 2, 2, 2, 7)], ['x'])
got = sorted(r.id for b in db.make_eq_len_ran_batches(max_toks=8) for r in b)
assert got == [0, 1, 2, 3, 4], got
''', (DB, "        if batch:\n            batches.append(np.array(batch))\n", "        if len(batch) > 1:\n            batches.append(np.array(batch))\n"))

seed('C06-unk-undecoded', 'C06', 'ids that contain the unknown id',
     'decoding leaves out unknown pieces, so ids and decoded pieces no longer correspond',
     '''from nlcodec.codec import WordScheme
s = WordScheme(WordScheme.learn(['a b c', 'a b c'], min_freq=1))
ids = s.encode('a zz c')
assert s.decode(ids) == 'a <unk> c', s.decode(ids)
''', (C, "        return [self.str_to_idx.get(piece, self.unk_idx) for piece in pieces]\n\n    def decode(self, seq: List[int]) -> str:\n        pieces = [self.idx_to_str[idx] for idx in seq]\n        return self.decode_str(pieces)\n\n    def encode_parallel",
      "        return [self.str_to_idx.get(piece, self.unk_idx) for piece in pieces]\n\n    def decode(self, seq: List[int]) -> str:\n        pieces = [self.idx_to_str[idx] for idx in seq if idx != self.unk_idx]\n        return self.decode_str(pieces)\n\n    def encode_parallel"))

seed('P01-shared-default', 'P01', 'an empty first table next to a longer one, more than once',
     'merging collects counts in the default table that is shared by all reductions',
     '''import collections as coll
from nlcodec.para.mapred import WordCounter
wc = WordCounter()
a = wc(['a b a'] * 3, map_pool=map, reduce_pool=map)
b = wc(['a b a'] * 3, map_pool=map, reduce_pool=map)
assert dict(a) == dict(b) == {'a': 6, 'b': 3}, (a, b)
''', (MR, "    if len(keep) < len(dump):\n", "    if not isinstance(dump, coll.Counter) or len(keep) < len(dump):\n"))

seed('L02-open-on-error', 'L02', 'an error while a file is being read',
     'a file stays open when reading it ends with an error',
     '''import os, gc, warnings
from nlcodec.utils import IO
p = os.environ['SCRATCH'] + '/f'
open(p, 'w').write('x\\n')
r = IO.reader(p)
try:
    with r as f:
        raise ValueError()
except ValueError:
    pass
assert r.fd.closed
''', (U, "        self.fd.close()\n", "        if _type is None:\n            self.fd.close()\n"))

seed('C11-coverage-ties', 'C11', 'a coverage that is reached before types that are as frequent as the last one included',
     'types stay although the coverage was reached, and more is covered than was asked for',
     '''from nlcodec.utils import filter_types_coverage
inc, unk = filter_types_coverage({'a': 5, 'b': 1, 'c': 1, 'd': 1, 'e': 1, 'f': 1}, coverage=0.6)
assert list(inc) == ['a', 'b'] and unk == 4, (inc, unk)
''', (U, "        cum += f / tot\n        includes[t] = f\n        if cum >= coverage:\n            break\n",
      "        if cum >= coverage and f < last:\n            break\n        cum += f / tot\n        includes[t] = last = f\n"),
     (U, "    cum = 0\n", "    cum, last = 0, 0\n"))

seed('S02-tok-none', 'S02', 'a target side that the tokenizer makes empty',
     'lines stay in the corpus when only one of the two sides is empty after tokenization',
     '''import os
S = os.environ['SCRATCH']
from nlcodec import spark as sp
open(S + '/a', 'w').write('x y\\nq\\nz\\n'); open(S + '/b', 'w').write('1 2\\n \\n3\\n')
with sp.session(master='local[2]', driver_mem='1g') as ss:
    df = sp.read_raw_bitext_tok(ss, S + '/a', S + '/b', True, 5, 5, lambda s: s.split(), lambda s: s.split())
    rows = sorted((r.id, list(r.x), list(r.y)) for r in df.collect())
assert rows == [(0, ['x', 'y'], ['1', '2']), (2, ['z'], ['3'])], rows
''', (SP, "               .filter(lambda r: len(r[1]) and len(r[2]))\n", "               .filter(lambda r: len(r[1]) or len(r[2]))\n"))

seed('D08-eos-any', 'D08', 'a sequence that contains the end marker, but not at its end',
     'the end marker is not added to a sequence that contains it somewhere',
     '''import numpy as np
from nlcodec.db.batch import Batch, IdExample, BatchMeta
m = BatchMeta(pad_idx=0, bos_idx=2, eos_idx=3)
b = Batch([IdExample(0, np.array([5, 3, 6]), np.array([5, 6]))], meta=m)
assert b.x_seqs.tolist() == [[5, 3, 6, 3]], b.x_seqs
''', (BA, "        seq = getattr(obj, field_name)\n        if exist:\n            if seq[pos] != val:\n",
      "        seq = getattr(obj, field_name)\n        if exist:\n            if val not in seq:\n"))

seed('D09-flag-first', 'D09', 'writing to an existing database without asking for overwriting',
     'the completeness flag of the existing database is removed before the writer refuses, so the existing database no longer opens',
     '''import os
from nlcodec.db.core import MultipartDb
p = os.environ['SCRATCH'] + '/db'
MultipartDb.create(p, [([i],) for i in range(3)], ['x'])
try:
    MultipartDb.Writer(p, ['x'])
    raise SystemExit('not refused')
except Exception:
    pass
assert len(MultipartDb.load(p)) == 3
''', (DB, "                     max_parts=DEF_MAX_PARTS):\n            self.field_names = field_names\n            path = as_path(path)\n",
      "                     max_parts=DEF_MAX_PARTS):\n            self.field_names = field_names\n            path = self.invalidate(as_path(path))\n"),
     (DB, "        def __call__(self, part_num: int, recs):\n",
      "        @staticmethod\n        def invalidate(path):\n            \"\"\"what is there is incomplete from here on\"\"\"\n"
      "            (path / '_SUCCESS').unlink(missing_ok=True)\n            return path\n\n        def __call__(self, part_num: int, recs):\n"))

seed('B02-last-one', 'B02', 'a pair whose corrected count is one, and a required evidence of one',
     'a pair whose corrected count is one is no longer merged, and learning stops early',
     '''import random
from nlcodec.bpe import BPELearn
from nlcodec.codec import Type, Level
for seed in range(300):
    r = random.Random(seed)
    words = [([r.randrange(3) for _ in range(r.randint(2, 9))], r.randint(1, 6)) for _ in range(12)]
    vocab = [Type(ch, level=0, idx=i, freq=1) for i, ch in enumerate('abc')]
    res = BPELearn(iter([(list(w), f) for w, f in words]), vocab=list(vocab)).learn_codes(n_merges=500, min_co_evidence=1, code_level=1)
    cur = [(list(w), f) for w, f in words]
    for t in res[3:]:
        c = {}
        for s, f in cur:
            for p in zip(s, s[1:]):
                c[p] = c.get(p, 0) + f
        pair = (t.kids[0].idx, t.kids[1].idx)
        assert c and c.get(pair, 0) == max(c.values()), (seed, pair, c.get(pair), max(c.values()))
        new = []
        for s, f in cur:
            o, i = [], 0
            while i < len(s):
                if i + 1 < len(s) and (s[i], s[i + 1]) == pair:
                    o.append(t.idx)
                    i += 2
                else:
                    o.append(s[i])
                    i += 1
            new.append((o, f))
        cur = new
    left = {}
    for s, f in cur:
        for p in zip(s, s[1:]):
            left[p] = 1
    assert not left, (seed, left)
''', (B, "                if corr_freq > 0:  # exclude zero count\n", "                if corr_freq > 1:  # exclude zero count\n"))

seed('D04-interrupted', 'D04', 'an interrupt from the keyboard while parts are written',
     'a database whose writing was interrupted is closed as complete',
     '''import os
from nlcodec.db.core import MultipartDb
p = os.environ['SCRATCH'] + '/db'
try:
    with MultipartDb.Writer(p, ['x']) as w:
        w(0, [(0, ([1],))])
        raise KeyboardInterrupt()
except KeyboardInterrupt:
    pass
try:
    MultipartDb.load(p)
except AssertionError:
    raise SystemExit(0)
raise SystemExit('opened')
''', (DB, "            if exc_tb is None:\n                self.close()\n                return True\n",
      "            if exc_type is None or not issubclass(exc_type, Exception):\n                self.close()\n                return exc_type is None\n"))

seed('C12-coverage-lost', 'C12', 'a coverage together with a minimum frequency',
     'what the coverage drops is no longer counted as unknown when a minimum frequency is applied',
     '''from nlcodec.codec import WordScheme
t = WordScheme.learn(['a a a a b b b c c d'], coverage=0.85, min_freq=3)
assert [x.name for x in t[6:]] == ['a', 'b'] and t[1].freq == 3, t
''', (C, "            unk_count += sum(f for t, f in term_freqs if f < min_freq)\n", "            unk_count = sum(f for t, f in term_freqs if f < min_freq)\n"))

seed('C07-pad-text', 'C07', 'text that spells the padding token',
     'the entry with id zero never matches, so its text is split into unknown pieces',
     '''from nlcodec.codec import BPEScheme
s = BPEScheme(BPEScheme.learn(['ab ab <x'], vocab_size=30, coverage=1.0, min_co_evidence=5))
assert s.encode_str('ab<pad>')[2] == '<pad>', s.encode_str('ab<pad>')
''', (C, "                if data_node:  # the last seen data node exists\n", "                if data_node and data_node.data.idx:  # the last seen data node exists\n"))

seed('C13-last-file', 'C13', 'shrinking to the text of several files',
     'only what the last file uses is kept',
     '''import os
from nlcodec.codec import WordScheme
S = os.environ['SCRATCH']
s = WordScheme(WordScheme.learn(['a b c'] * 3, min_freq=1))
open(S + '/1', 'w').write('a\\n'); open(S + '/2', 'w').write('c\\n')
m = s.shrink_vocab([S + '/1', S + '/2'], min_freq=1)
assert [s.table[i].name for i in m][6:] == ['a', 'c'], m
''', (C, "                for line in tqdm(lines):\n                    freqs.update(self.encode(line))\n",
      "                freqs = coll.Counter(idx for line in tqdm(lines) for idx in self.encode(line))\n"))

seed('D05-paths-shuffled', 'D05', 'iterating with shuffling and then without',
     'shuffling reorders the stored list of parts, so a later pass without shuffling is no longer in order of insertion',
     '''import os
from nlcodec.db.core import MultipartDb
p = os.environ['SCRATCH'] + '/db'
db = MultipartDb.create(p, [([i],) for i in range(60)], ['x'], part_size=2)
db.shuffle = True
assert sorted(r.id for r in db) == list(range(60))
db.shuffle = False
assert [r.id for r in db] == list(range(60))
''', (DB, "        idx_paths = list(enumerate(self.part_paths))\n        if self.shuffle:\n            random.shuffle(idx_paths)\n        for idx, path in idx_paths:\n",
      "        if self.shuffle:\n            random.shuffle(self.part_paths)\n        for idx, path in enumerate(self.part_paths):\n"))
