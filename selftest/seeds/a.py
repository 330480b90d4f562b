C = 'nlcodec/codec.py'
SEEDS = []
def seed(id, property, needs, breaks, demo, *edits):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, demo=demo, edits=list(edits)))

seed('C01-name-with-space', 'C01', 'a class label with an inner space',
     'the columns of a vocabulary line are split at any white space, so names with spaces do not survive a reload',
     '''import os
from nlcodec.codec import ClassScheme, Type, load_scheme
p = os.environ['SCRATCH'] + '/m'
t = ClassScheme.learn(['New York', 'Paris', 'New York'])
ClassScheme(t).save(p)
assert load_scheme(p).table == t
''', (C, "cols = line.strip().split(delim)", "cols = line.strip().split(maxsplit=4)"))

seed('C02-charlike-bpe', 'C02', 'a BPE model in which no merge was learned',
     'a saved BPE model without merges reopens as a character scheme',
     '''import os
from nlcodec.codec import BPEScheme, load_scheme
p = os.environ['SCRATCH'] + '/m'
t = BPEScheme.learn(['a b c', 'a b', 'c d'], vocab_size=50, coverage=1.0, min_co_evidence=1000)
BPEScheme(t).save(p)
assert type(load_scheme(p)) is BPEScheme
''', (C, "        Scheme = REGISTRY[meta['scheme']]\n",
      "        Scheme = REGISTRY[meta['scheme']]\n        if Scheme is BPEScheme and meta['max_level'] < Level.subword:\n"
      "            Scheme = CharScheme  # nothing was merged: no need for the trie\n"),
    (C, "    types, meta = Type.read_vocab(path)\n    assert meta\n    if 'scheme'",
        "    types, meta = Type.read_vocab(path)\n    assert meta, 'no header'\n    if 'scheme'"))

seed('C03-reserved-twice', 'C03', 'a reserved token that occurs exactly once in the training text',
     'reserved tokens found in the corpus enter the vocabulary a second time as ordinary types',
     '''from nlcodec.codec import CharScheme, WordScheme
t = WordScheme.learn(['<s> hello world </s>', 'hello'])
names = [x.name for x in t]
assert len(names) == len(set(names)), names
''', (C, """                     r_type.name in term_freqs}""", """                     term_freqs.get(r_type.name, 0) > 1}"""))

seed('C04-label-gap', 'C04', 'a blank line among the class labels',
     'a class vocabulary learned from data with a blank label has a hole in its ids',
     '''from nlcodec.codec import ClassScheme
t = ClassScheme.learn(['x', '', 'y'])
assert [x.idx for x in t] == list(range(len(t))), t
''', (C, "for idx, (name, freq) in enumerate(term_freqs, start=len(vocab))]\n        log.info(f\"Total {cls} vocab size {len(vocab):,}\")\n        return vocab\n\n\nclass ByteScheme",
      "for idx, (name, freq) in enumerate(term_freqs, start=len(vocab)) if name]\n        log.info(f\"Total {cls} vocab size {len(vocab):,}\")\n        return vocab\n\n\nclass ByteScheme"))

seed('C05-pad-literal', 'C06', 'the literal text <pad> in the input of a BPE scheme',
     'the piece with id 0 is known, but its id comes out as unknown, so ids and pieces disagree',
     '''from nlcodec.codec import BPEScheme
t = BPEScheme.learn(['a b c a b'], vocab_size=60, coverage=1.0, min_co_evidence=1)
s = BPEScheme(t)
line = 'a<pad>b'
assert [s.table[i].name for i in s.encode(line)] == s.encode_str(line)
''', (C, """        pieces = self.encode_str(line, split_ratio=split_ratio)
        return [self.str_to_idx.get(piece, self.unk_idx) for piece in pieces]""",
      """        pieces = self.encode_str(line, split_ratio=split_ratio)
        return [self.str_to_idx.get(piece) or self.unk_idx for piece in pieces]"""))

seed('C06-unordered', 'C06', 'several processes, where a later chunk is finished before an earlier one',
     'parallel encoding returns the results in the order of completion',
     '''import time
from nlcodec.codec import EncoderScheme
def slow(x):
    if x == 0:
        time.sleep(2)
    return x
if __name__ == '__main__':
    r = list(EncoderScheme.parallel_map(slow, range(8), n_cpus=3, chunksize=1))
    assert r == list(range(8)), r
''', (C, "yield from pool.imap(mapper", "yield from pool.imap_unordered(mapper"))

seed('C07-unk-run', 'C07', 'two adjacent characters that are not in the vocabulary',
     'a run of unknown characters becomes one unknown',
     '''from nlcodec.codec import BPEScheme
t = BPEScheme.learn(['a b c a b'], vocab_size=60, coverage=1.0, min_co_evidence=1)
s = BPEScheme(t)
assert s.encode('aXYb').count(s.unk_idx) == 2
''', (C, "                    res.append(self.unk_idx)  # unk the first char\n",
      "                    if not res or res[-1] != self.unk_idx:\n                        res.append(self.unk_idx)  # unk the first char\n"))

seed('C08-right-names', 'C08', 'splitting by name (not by id) of a type composed of at least two pieces',
     'the right pieces of a split are given by id although names were asked for',
     '''import random
from nlcodec.codec import Type
a, b, c = Type('a', 0, 0, 1), Type('b', 0, 1, 1), Type('c', 0, 2, 1)
ab = Type('ab', 1, 3, 1, (a, b)); abc = Type('abc', 1, 4, 1, (ab, c))
random.seed(1)
r = abc.get_stochastic_split(name=True, split_ratio=1.0)
assert ''.join(map(str, r)) == 'abc', r
''', (C, "+ right.get_stochastic_split(name=name, split_ratio=split_ratio)", "+ right.get_stochastic_split(split_ratio=split_ratio)"))

seed('C08-perm-cross', 'C08', 'a type whose two constituents can both be split, enumerated',
     'permutations combine the i-th split of the left with the i-th of the right only',
     '''from nlcodec.codec import Type
a, b, c, d = (Type(n, 0, i, 1) for i, n in enumerate('abcd'))
ab = Type('ab', 1, 4, 1, (a, b)); cd = Type('cd', 1, 5, 1, (c, d)); x = Type('abcd', 1, 6, 1, (ab, cd))
p = {tuple(q) for q in x.get_permutations(name=True)}
assert p == {('abcd',), ('ab', 'cd'), ('ab', 'c', 'd'), ('a', 'b', 'cd'), ('a', 'b', 'c', 'd')}, p
''', (C, """            for left_kid in left.get_permutations(name=name):
                for right_kid in right.get_permutations(name=name):
                    perms.append(left_kid + right_kid)""",
      """            for left_kid, right_kid in zip(left.get_permutations(name=name),
                                           right.get_permutations(name=name)):
                perms.append(left_kid + right_kid)"""))

seed('C09-char-strip', 'C09', 'decoding a part of a sequence that starts or ends with the space marker',
     'the character scheme drops a leading or trailing space of the decoded sequence',
     '''from nlcodec.codec import CharScheme
t = CharScheme.learn(['a b c a b'], coverage=1.0, min_freq=1)
s = CharScheme(t)
ids = s.encode('a b c')
assert s.decode(ids[:2]) + s.decode(ids[2:]) == 'a b c'
''', (C, """    @classmethod
    def decode_str(cls, seq: List[str]) -> str:
        return ''.join(seq).replace(cls.space_char, ' ')
""", """    @classmethod
    def decode_str(cls, seq: List[str]) -> str:
        return ''.join(seq).replace(cls.space_char, ' ').strip()
"""))

seed('C10-flush', 'C10', 'a text of more than 1024 bytes with a multi-byte character at the boundary',
     'the byte decoder composes its buffer in blocks, and breaks a character that spans two of them',
     '''from nlcodec.codec import ByteScheme
s = ByteScheme()
for k in range(4):
    t = 'a' * k + '\\u20ac' * 700
    assert s.decode(s.encode(t)) == t
''', (C, """            else:
                buffer.append(piece)
        if buffer:""", """            else:
                buffer.append(piece)
                if len(buffer) >= 1024:  # bound the memory
                    builder.append(self.compose_str(pieces=buffer))
                    buffer = []
        if buffer:"""),
    (C, "        buffer = []   # buffer of past pieces", "        buffer = []   # buffer of past pieces, in blocks"))

seed('C11-clamped-size', 'C11', 'a vocabulary size smaller than the characters of the corpus',
     'a BPE vocabulary size that cannot hold the alphabet is raised instead of refused',
     '''from nlcodec.codec import BPEScheme
try:
    t = BPEScheme.learn(['abcdefghijklm nopqrst'], vocab_size=10, coverage=1.0, min_co_evidence=1)
except AssertionError:
    pass
else:
    assert len(t) <= 10, len(t)
''', ('nlcodec/bpe.py', """        assert vocab_size > len(vocab), f'vocab_size={vocab_size} is too small;' \\
                                        f' found {len(vocab)} in the init vocab! Set a value larger than {len(vocab)}'
""", """        if vocab_size <= len(vocab):
            log.warning(f'vocab_size={vocab_size} is too small; found {len(vocab)} in the init vocab!')
            vocab_size = len(vocab) + 1
"""))

seed('C12-unk-overwritten', 'C12', 'both a coverage below one and a minimum frequency above one',
     'the frequency of the unknown token forgets the types that the coverage excluded',
     '''from nlcodec.codec import WordScheme
tf = dict(a=50, b=40, c=5, d=3, e=2)
t = WordScheme.get_init_vocab(dict(tf), coverage=0.95, min_freq=10)
kept = sum(x.freq for x in t if not x.is_reserved)
assert t[1].freq == sum(tf.values()) - kept, t[1]
''', (C, "            unk_count += sum(f for t, f in term_freqs if f < min_freq)", "            unk_count = sum(f for t, f in term_freqs if f < min_freq)"))

seed('C13-space-dropped', 'C13', 'shrinking a character model to texts of single words',
     'the reserved space marker is removed from a shrunk vocabulary that does not use it',
     '''import os
from pathlib import Path
from nlcodec.codec import CharScheme
W = Path(os.environ['SCRATCH'])
s = CharScheme(CharScheme.learn(['a b c d'], coverage=1.0, min_freq=1))
(W / 't').write_text('abc\\nab\\n')
m = s.shrink_vocab([W / 't'], min_freq=1)
assert m[:6] == list(range(6)), m
''', (C, "            if typ.level == Level.reserved:\n                continue # i.e. don't remove", "            if idx <= Reseved.CLS_IDX:\n                continue # i.e. don't remove"))

seed('C14-hash-terms', 'C14', 'a term that starts with the hash sign',
     'terms starting with # are left out of a term-frequency file',
     '''import io
from nlcodec.codec import WordScheme
from nlcodec.term_freq import write_stats
tf = {'#nlp': 7, 'a': 5, 'b#': 2}
out = io.StringIO(); write_stats(tf, out, line_count=3)
got, n = WordScheme.read_term_freqs(iter(out.getvalue().splitlines(True)))
assert got == tf and n == 3, got
''', ('nlcodec/term_freq.py', """    for term, freq in stats:
        out.write(f'{term}\\t{freq}\\n')""", """    for term, freq in stats:
        if term.startswith('#'):  # reserved for the header
            continue
        out.write(f'{term}\\t{freq}\\n')"""),
      ('nlcodec/term_freq.py', "    stats = list(stats)\n", "    stats = [(t, f) for t, f in stats]\n"))

B = 'nlcodec/bpe.py'
seed('B01-unigram-restore', 'B01', 'a merge of two equal pieces in a run of three or more of them',
     'skipped overlapping occurrences give their count back once only, so the unigram counts drift from the corpus',
     '''from nlcodec.bpe import BPELearn
from nlcodec.codec import Type
v = [Type(c, 0, i, 1) for i, c in enumerate('ab')]
l = BPELearn([([0, 0, 0, 0, 0, 1], 3)], v)
l.learn_codes(1, 1, 1)
assert l.uni[0] == 3 and l.uni[2] == 6, dict(l.uni)
''', (B, """                    uni[a] += node.freq
                    uni[b] += node.freq
                    uni[new_type.idx] -= node.freq""", """                    uni[a] += node.freq
                    uni[b] += node.freq if b != a else 0
                    uni[new_type.idx] -= node.freq"""))

seed('B02-peek-drop', 'B02', 'an outdated pair whose corrected count is exactly one',
     'an outdated pair is given up when its corrected count is one, although it could still be merged',
     '''from nlcodec.bpe import BPELearn
from nlcodec.codec import Type
v = [Type(c, 0, i, 1) for i, c in enumerate('abc')]
t = BPELearn([([2, 0, 1], 4), ([2, 0], 10), ([0, 1], 1)], v).learn_codes(4, 1, 1)[3:]
assert [(x.name, x.freq) for x in t] == [('ca', 14), ('cab', 4), ('ab', 1)], t
''', (B, "                if corr_freq > 0:  # exclude zero count", "                if corr_freq > 1:  # exclude zero count"))

seed('B03-set-order', 'B03', 'characters with equal counts, and different seeds of the string hash',
     'the order of characters with equal counts, and so the vocabulary, changes between runs',
     '''import os, subprocess, sys
code = """
from nlcodec.codec import BPEScheme
t = BPEScheme.learn(['abcdefgh ijklmnop qrst'], vocab_size=60, coverage=1.0, min_co_evidence=1)
print([x.name for x in t])
"""
outs = set()
for s in '1 2 3 4 5'.split():
    r = subprocess.run([sys.executable, '-c', code], env=dict(os.environ, PYTHONHASHSEED=s), capture_output=True, text=True)
    assert r.returncode == 0, r.stderr
    outs.add(r.stdout)
assert len(outs) == 1, outs
''', (B, """        for term, freq in term_freqs.items():
            for ch in term:
                char_freqs[ch] += freq""", """        for term, freq in set(term_freqs.items()):
            for ch in term:
                char_freqs[ch] += freq"""))

K = 'nlcodec/db/core.py'
seed('D01-bits', 'D01', 'a field whose largest value is exactly a power of two at a width limit (256, 65536, 128 with negatives)',
     'a width one too small is chosen for a largest value at the limit of the type',
     '''from nlcodec.db.core import SeqField, best_dtype
f = SeqField.create('x', [(0, [3, 256]), (1, [7])])
assert list(f[0]) == [3, 256] and list(f[1]) == [7]
''', (K, "        if info.min <= mn and mx <= info.max:  # completely fits inside",
      "        if info.min <= mn and mx <= 2 ** (info.bits - (info.min < 0)):  # completely fits inside"))

seed('D02-ref-width', 'D02', 'a field in which the last sequence starts within 255 and ends after it',
     'the references are stored in a type that holds starts and lengths but not their sum, which wraps around',
     '''from nlcodec.db.core import SeqField
f = SeqField.create('x', [(0, list(range(200))), (1, list(range(100)))])
assert list(f[1]) == list(range(100)), f[1]
''', (K, "            refs_type = best_dtype(mn=0, mx=max(len(self.frozen), self.max_len))",
      "            refs_type = best_dtype(mn=0, mx=max([self.max_len] + [start for start, _ in self.refs]))"))

seed('D03-extra-column', 'D03', 'a record with more columns than fields',
     'superfluous columns of a record are cut off instead of refused',
     '''from nlcodec.db.core import Db
try:
    Db.create([([1], [2]), ([3], [4], [5])], ['x', 'y'])
except AssertionError:
    pass
else:
    assert False, 'accepted'
''', (K, "            assert len(rec) == len(builders)\n", "            assert len(rec) >= len(builders)\n"))

seed('D04-close-on-error', 'D04', 'an exception while the parts are written',
     'leaving the writer by an exception closes the database and marks it as complete',
     '''import os
from nlcodec.db.core import MultipartDb
p = os.environ['SCRATCH'] + '/db'
try:
    with MultipartDb.Writer(p, ['x']) as w:
        w(0, [(0, ([1, 2],))])
        raise ValueError('disk')
except ValueError:
    pass
try:
    MultipartDb.load(p)
except AssertionError:
    pass
else:
    assert False, 'opened'
''', (K, """            if exc_tb is None:
                self.close()
                return True
            else:
                return False""", """            self.close()
            return exc_tb is None"""))

seed('D05-part-pads', 'D05', 'a maximum number of parts that is no power of ten, and ten or more parts',
     'part names are too short to sort by number, so parts are listed out of order',
     '''import os
from nlcodec.db.core import MultipartDb
db = MultipartDb.create(os.environ['SCRATCH'] + '/db', [([i],) for i in range(12)], ['x'], part_size=1, max_parts=50)
assert [int(r.x[0]) for r in db] == list(range(12))
''', (K, "    return math.ceil(math.log10(n_parts))", "    return max(1, math.floor(math.log10(n_parts)))"))

T = 'nlcodec/db/batch.py'
seed('D06-last-length', 'D06', 'a target longer than its source',
     'the size of a batch is computed from the lengths of the sources only',
     '''import os
from nlcodec.db.core import Db
from nlcodec.db.batch import BatchIterable, BatchMeta
from pathlib import Path
p = Path(os.environ['SCRATCH']) / 'db'
Db.create([(list(range(1, n + 1)), list(range(1, n + 4))) for n in (2, 2, 2, 2, 2)], ['x', 'y'], path=p)
m = BatchMeta(0, 50, 51, add_eos_x=False, add_eos_y=False)
for b in BatchIterable(p, 12, m):
    assert len(b) * b.max_y_len <= 12, (len(b), b.max_y_len)
''', (T, "            this_len = max(len(ex.x), len(ex.y))", "            this_len = len(ex.x)"))

seed('D07-zero-pad', 'D07', 'a padding id other than zero, and targets of different lengths',
     'targets are padded with zero instead of the padding id',
     '''import numpy as np
from nlcodec.db.batch import Batch, BatchMeta, IdExample
m = BatchMeta(9, 50, 51, add_eos_x=False, add_eos_y=False)
b = Batch([IdExample(0, np.array([1]), np.array([1, 2, 3])), IdExample(1, np.array([1, 2]), np.array([4]))], meta=m)
assert b.y_seqs.tolist() == [[1, 2, 3], [4, 9, 9]], b.y_seqs
''', (T, """            self.y_seqs = np.full(shape=(self._len, self.max_y_len), fill_value=meta.pad_idx,
                                  dtype=int)""", """            self.y_seqs = np.zeros(shape=(self._len, self.max_y_len), dtype=int)"""))

seed('D08-wrong-side', 'D08', 'end markers requested for one side only',
     'whether targets get an end marker is decided by the setting of the source',
     '''import numpy as np
from nlcodec.db.batch import Batch, BatchMeta, IdExample
m = BatchMeta(0, 50, 51, add_eos_x=False, add_eos_y=True)
b = Batch([IdExample(0, np.array([1]), np.array([1, 2, 3]))], meta=m)
assert b.y_seqs.tolist() == [[1, 2, 3, 51]], b.y_seqs
''', (T, "self.bos_eos_check(batch, 'y', meta.add_bos_y, meta.add_eos_y)", "self.bos_eos_check(batch, 'y', meta.add_bos_y, meta.add_eos_x)"))

seed('D09-stale-flag', 'D09', 'overwriting a database, and a crash before the new one is complete',
     'overwriting removes the parts but leaves the flag of the old database',
     '''import os
from nlcodec.db.core import MultipartDb
p = os.environ['SCRATCH'] + '/db'
MultipartDb.create(p, [([i],) for i in range(3)], ['x'])
w = MultipartDb.Writer(p, ['x'], overwrite=True)
assert os.listdir(p) == [], os.listdir(p)
''', (K, "                    shutil.rmtree(path)\n", "                    for old in path.glob('part-*'):\n                        old.unlink()\n"))

M = 'nlcodec/para/mapred.py'
seed('P01-falsy-last', 'P01', 'an odd number of items of which the last is falsy, and a reduction for which it matters',
     'an unpaired last item is lost when it is zero or empty',
     '''from nlcodec.para.mapred import ireduce
assert ireduce(max, float('-inf'), iter([-3, -2, 0])) == 0
''', (M, "    if idx % 2 == 1:  # the last item un paired", "    if idx % 2 == 1 and last:  # the last item un paired"))

P = 'nlcodec/spark.py'
seed('S01-stop-skipped', 'S01', 'an error inside the block that uses the session',
     'the session is not stopped when its block is left by an error',
     '''from nlcodec import spark
class S:
    stopped = False
    def stop(self): self.stopped = True
s = S()
spark.get_session = lambda *a, **k: s
try:
    with spark.session():
        raise KeyError
except KeyError:
    pass
assert s.stopped
''', (P, """    try:
        yield spark
    finally:
        spark.stop()""", """    yield spark
    spark.stop()"""))

seed('S02-truncate-both', 'S02', 'different length limits for the two sides, with truncation',
     'targets are truncated to the limit of the source',
     '''import os
from nlcodec import spark
W = os.environ['SCRATCH']
open(W + '/s', 'w').write('a b c d\\n'); open(W + '/t', 'w').write('a b c d\\n')
with spark.session(master='local[1]') as ss:
    df = spark.read_raw_bitext_tok(ss, W + '/s', W + '/t', True, 2, 3, str.split, str.split)
    r = df.collect()
assert r[0].x == ['a', 'b'] and r[0].y == ['a', 'b', 'c'], r
''', (P, "tok_rdd.map(lambda r: (r[0], r[1][:src_len], r[2][:tgt_len]))", "tok_rdd.map(lambda r: (r[0], *(seq[:src_len] for seq in r[1:])))"))

F = 'nlcodec/term_freq.py'
seed('S03-dedup-per-file', 'S03', 'a line that occurs in two of the input files, with deduplication',
     'lines are deduplicated within each file only',
     '''import os
from nlcodec import spark
from nlcodec.term_freq import word_counts
W = os.environ['SCRATCH']
open(W + '/s', 'w').write('a b\\nc\\nc\\n'); open(W + '/t', 'w').write('a b\\nd\\n')
with spark.session(master='local[1]') as ss:
    w, c, n = word_counts([W + '/s', W + '/t'], dedup=True, spark=ss)
assert w == dict(a=1, b=1, c=1, d=1) and n == 3, (w, n)
''' .replace("word_counts([W + '/s', W + '/t']", "word_counts([Path(W + '/s'), Path(W + '/t')]").replace('import os\n', 'import os\nfrom pathlib import Path\n'),
     (F, """        dfs = [spark.read.text(str(p)) for p in paths]
""", """        dfs = [spark.read.text(str(p)) for p in paths]
        if dedup:
            log.info("Dropping duplicates")
            dfs = [d.drop_duplicates() for d in dfs]
"""), (F, """        # Deduplicate lines
        if dedup:
            log.info("Dropping duplicates")
            df = df.drop_duplicates()
""", ""))

seed('L01-dedup-ignored', 'L01', 'nlcodec-learn on a corpus with repeated lines',
     'the option --dedup of nlcodec-learn no longer reaches the counting, which then always deduplicates',
     '''import sys
from pathlib import Path
import nlcodec.learn as L, contextlib
seen = {}
def wc(paths, dedup=True, spark=None):
    seen['dedup'] = dedup
    raise KeyboardInterrupt
L.word_counts = wc
@contextlib.contextmanager
def session(**k): yield None
L.spark.session = session
import os
sys.argv = ['x', '-i', 'nothing', '-m', os.environ['SCRATCH'] + '/m', '-l', 'word']
try: L.main()
except KeyboardInterrupt: pass
assert seen == dict(dedup=False), seen
''', ('nlcodec/learn.py', "words, chars, line_count = word_counts(paths=inp, dedup=dedup, spark=session)", "words, chars, line_count = word_counts(paths=inp, spark=session)"))

seed('L02-locale', 'L02', 'a locale whose encoding is not UTF-8',
     'vocabulary files are read in the encoding of the locale',
     '''import os, subprocess, sys
from nlcodec.codec import WordScheme
p = os.environ['SCRATCH'] + '/m'
WordScheme(WordScheme.learn(['\\u00fcber caf\\u00e9'])).save(p)
code = "import sys; from nlcodec.codec import load_scheme; print(ascii([t.name for t in load_scheme(sys.argv[1]).table[6:]]))"
env = dict(os.environ, LC_ALL='C', LANG='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
r = subprocess.run([sys.executable, '-c', code, p], env=env, capture_output=True, text=True)
assert eval(r.stdout.strip().splitlines()[-1]) == ['\\u00fcber', 'caf\\u00e9'], r.stdout + r.stderr
''', (C, "            rdr = open(inp, 'r', encoding='utf8', errors='ignore')", "            rdr = open(inp, 'r', errors='ignore')"))

seed('L03-other-file', 'L03', 'a run interrupted after the word counts and before the character counts, then a run for characters',
     'whether the counts can be reused is decided on the word counts, also when the character counts are needed',
     '''import os, sys
from pathlib import Path
import nlcodec.learn as L, contextlib
W = Path(os.environ['SCRATCH'])
def wc(paths, dedup=True, spark=None): return dict(a=30, b=20), dict(a=30, b=20), 4
L.word_counts = wc
@contextlib.contextmanager
def session(**k): yield None
L.spark.session = session
sys.argv = ['x', '-i', 'nothing', '-m', str(W / 'm'), '-l', 'word']
L.main()
(W / 'm.charfreq.gz').unlink()
sys.argv = ['x', '-i', 'nothing', '-m', str(W / 'm'), '-l', 'char']
L.main()
assert (W / 'm.charfreq.gz').exists()
''', ('nlcodec/learn.py', "        if stats_file.exists():\n            log", "        if words_file.exists():\n            log"))

Q = 'nlcodec/eval/bpe_len.py'
seed('E01-length-floor', 'E01', 'a sentence in which a pair is merged more than once at the same step',
     'the length of a sentence drops by one only, however often the pair occurs in it',
     '''import os
from nlcodec.codec import BPEScheme, Type
from nlcodec.eval.bpe_len import BPECodecXt, BpeTracker
p = os.environ['SCRATCH'] + '/m'
t = BPEScheme.learn(['abab abab'], vocab_size=30, coverage=1.0, min_co_evidence=1)
BPEScheme(t).save(p)
tr = BpeTracker(BPECodecXt(p), ['abab abab abab', 'ab'])
tr.track_merges()
s = BPEScheme(t)
assert list(tr.seq_lens) == [len(s.encode(x)) for x in ('abab abab abab', 'ab')], tr.seq_lens
''', (Q, """                    seq_idx = u.data
                    seq_lens[seq_idx] -= 1
                    assert seq_lens[seq_idx] > 0
""", """                    seq_idx = u.data
                    assert seq_lens[seq_idx] > 1
                    shrunk.add(seq_idx)
"""), (Q, """                freq = sum(u.freq for u in update_nodes)
""", """                freq = sum(u.freq for u in update_nodes)
                shrunk = set()
"""), (Q, """                        bi_ixs[(u.val, u.right.val)][u] = None
        k = len(self.bpe)""", """                        bi_ixs[(u.val, u.right.val)][u] = None
                seq_lens[list(shrunk)] -= 1
        k = len(self.bpe)"""))

seed('E02-short-grams', 'E02', 'a sentence shorter than n',
     'sentences shorter than n contribute a truncated n-gram',
     '''from nlcodec.utils import make_n_grams
assert make_n_grams([1, 2], 3) == []
assert make_n_grams([1, 2, 3], 2) == [(1, 2), (2, 3)]
''', ('nlcodec/utils.py', "for i in range(len(sent) - n + 1)]", "for i in range(max(len(sent) - n + 1, min(len(sent), 1)))]"))

seed('E03-seen-only', 'E03', 'a token of the text that is a reserved or unseen type of the vocabulary',
     'types of the vocabulary without a corpus frequency are counted as out of vocabulary',
     '''import os, io, contextlib
from nlcodec.codec import WordScheme
from nlcodec.eval.oov_count import main
p = os.environ['SCRATCH'] + '/m'
WordScheme(WordScheme.learn(['a b'])).save(p)
o = io.StringIO()
with contextlib.redirect_stdout(o):
    main(['a <unk> zz'], p)
assert 'Types\\t2\\t1' in o.getvalue(), o.getvalue()
''', ('nlcodec/eval/oov_count.py', "    vocab = set(codec.str_to_idx.keys())", "    vocab = set(t.name for t in codec.table if t.freq > 0)"))

seed('E04-sub-distribution', 'E04', 'a distribution that sums to less than one',
     'distributions whose sum is below one are accepted',
     '''import numpy as np
from nlcodec.qestim import QualityEstimator
try:
    QualityEstimator.js_div(np.array([0.2, 0.2]), np.array([0.5, 0.5]))
except AssertionError:
    pass
else:
    assert False
''', ('nlcodec/qestim.py', "        assert abs(np.sum(distr) - 1.0) < 1e-4  # sum to 1", "        assert np.sum(distr) - 1.0 < 1e-4  # sum to 1"))
