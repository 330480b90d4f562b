From 50e293f1ff403f3fc9cea0bc3110906dd69bab2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:40 +0000
Subject: [PATCH 01/35] fix: byte codec: decode single-digit hex pieces (bytes
 below 0x10)

---
 nlcodec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index b118a4a..34a9757 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -583,7 +583,7 @@ class ByteScheme(EncoderScheme):
         return f'{code:x}'
 
     def compose_str(self, pieces: List[str]):
-        byte_arr = bytes.fromhex(''.join(pieces))
+        byte_arr = bytes(int(piece, 16) for piece in pieces)
         return str(byte_arr, encoding=self.encoding, errors=self.errors)
 
     def encode_str(self, line: str) -> List[str]:
-- 
2.43.0


From 61f3a52c06754b7a5fed370f0545aa02f5fc9c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:40 +0000
Subject: [PATCH 02/35] fix: encode(): do not encode the line terminator of an
 input line

---
 nlcodec/codec.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index 34a9757..e65ecd4 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -681,6 +681,7 @@ def load_scheme(path: Union[str, Path, TextIO]) -> EncoderScheme:
 def encode(inp: Iterator[str], scheme: EncoderScheme, indices=False) \
         -> Iterator[Union[List[str], List[int]]]:
     for line in inp:
+        line = line.rstrip('\n')
         if indices:
             yield scheme.encode(line)
         else:
-- 
2.43.0


From e3dbfc9b0e6c4326a9b1c47a54e57bf78791cdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:40 +0000
Subject: [PATCH 03/35] fix: shrink_vocab: record the scheme in the saved model

---
 nlcodec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index e65ecd4..793b015 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -342,7 +342,7 @@ class EncoderScheme(abc.ABC):
             new_t = old_t.copy(idx=new_idx, kids=new_kids)
             new_table.append(new_t)
         if save_at:
-            Type.write_out(new_table, out=save_at)
+            Type.write_out(new_table, out=save_at, scheme=self.name)
         return mapping
 
     def save(self, out):
-- 
2.43.0


From 2883d94ff2d4da3192e8f35897f44728f7f91d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:40 +0000
Subject: [PATCH 04/35] fix: Type.kids is a tuple in loaded and shrunk
 vocabularies too

---
 nlcodec/codec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index 793b015..dec3538 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -96,7 +96,7 @@ class Type:  # Type as in word type vs token
             kids = list(map(int, cols[4].split()))
             # kids shouldn't be referenced forward in index
             assert all(k < idx and k < len(vocab) for k in kids)
-            kids = [vocab[k] for k in kids]
+            kids = tuple(vocab[k] for k in kids)
         return Type(name, level=level, idx=idx, freq=freq, kids=kids)
 
     def copy(self, **kwargs):
@@ -338,7 +338,7 @@ class EncoderScheme(abc.ABC):
         for new_idx, old_idx in enumerate(mapping):
             assert len(new_table) == new_idx
             old_t = old_table[old_idx]
-            new_kids = [new_table[rev_mapping[k.idx]] for k in old_t.kids] if old_t.kids else None
+            new_kids = tuple(new_table[rev_mapping[k.idx]] for k in old_t.kids) if old_t.kids else None
             new_t = old_t.copy(idx=new_idx, kids=new_kids)
             new_table.append(new_t)
         if save_at:
-- 
2.43.0


From 71d9e718d63c7247f2bdded2d50d5adf92f8e13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:40 +0000
Subject: [PATCH 05/35] fix: BPE learning stops when there are no more pairs to
 merge

---
 nlcodec/bpe.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nlcodec/bpe.py b/nlcodec/bpe.py
index cfb71ba..3657d77 100644
--- a/nlcodec/bpe.py
+++ b/nlcodec/bpe.py
@@ -131,7 +131,7 @@ class BPELearn:
         log.info(f"logs every {log_every} seconds")
         for i in range(n_merges):
             # Using MaxHeap for faster lookup of max. But heap gets a bit dirty, so a bit of cleanup
-            max_pair, pair_freq = heap.pop()
+            max_pair, pair_freq = heap.pop() if heap else (None, 0)
             while max_pair in heap_dirty:  # clean all max [airs until a clean value
                 freq_update = heap_dirty.pop(max_pair)
                 assert freq_update < 0  # only decrements are valid. increments make this wrong
@@ -139,10 +139,10 @@ class BPELearn:
                 assert corr_freq >= 0, f'{max_pair}:{pair_freq}, Δ={freq_update} = {corr_freq}'
                 if corr_freq > 0:  # exclude zero count
                     heap.push(max_pair, corr_freq)
-                max_pair, pair_freq = heap.pop()
+                max_pair, pair_freq = heap.pop() if heap else (None, 0)
 
             # here the  actual loop begins
-            if pair_freq < min_co_evidence:
+            if max_pair is None or pair_freq < min_co_evidence:
                 log.warning(f"Early stop; max evidence found is {pair_freq} "
                             f"but min required is {min_co_evidence}")
                 break
-- 
2.43.0


From 0dbe3d7f94c508e5e463eca5636a669d06d771e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:40 +0000
Subject: [PATCH 06/35] fix: BPE learning is deterministic: visit occurrences
 of a pair in a fixed order

---
 nlcodec/bpe.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/nlcodec/bpe.py b/nlcodec/bpe.py
index 3657d77..3d62602 100644
--- a/nlcodec/bpe.py
+++ b/nlcodec/bpe.py
@@ -6,7 +6,7 @@
 import collections as coll
 import copy
 import time
-from typing import List, Dict, Tuple, Union, Iterator, Set
+from typing import List, Dict, Tuple, Union, Iterator
 
 from nlcodec import log, DEF_MIN_CO_EV
 from nlcodec.codec import Type, Level, Reseved
@@ -39,7 +39,9 @@ class BPELearn:
         self.bi: Dict[Bigram, int] = coll.defaultdict(int)  # bigram frequencies
 
         # Bigram to sequence references
-        self.bi_ixs: Dict[Bigram, Set[LnNode]] = coll.defaultdict(set)
+        # dict as an ordered set: nodes hash by identity, so the order of a set varies between runs,
+        # and the order matters for the overlapping occurrences, such as "a a a"
+        self.bi_ixs: Dict[Bigram, Dict[LnNode, None]] = coll.defaultdict(dict)
 
         self.create_index(seqs)
         self.validate_index()
@@ -68,7 +70,7 @@ class BPELearn:
                     bigm = (seq[i], seq[i + 1])
                     self.bi[bigm] += freq
                     assert nodes[i] not in self.bi_ixs[bigm]
-                    self.bi_ixs[bigm].add(nodes[i])  # bigm found at node i
+                    self.bi_ixs[bigm][nodes[i]] = None  # bigm found at node i
                     self.uni[seq[i]] += freq
                 self.uni[seq[-1]] += freq  # the last unigram count; not covered in the above loop
                 bar_msg = f'MaxRSS={max_RSS()[1]}'
@@ -200,21 +202,21 @@ class BPELearn:
                     heap_deltas[(x_node.val, a)] -= x_node.freq
                     if bi_ixs.get((x_node.val, a)):
                         # not sure why 'if' needed here;
-                        bi_ixs[(x_node.val, a)].remove(x_node)
+                        del bi_ixs[(x_node.val, a)][x_node]
 
                     # add (x_node_val, R) to bi and bi_ixs
                     heap_deltas[(x_node.val, new_type_idx)] += x_node.freq
-                    bi_ixs[(x_node.val, new_type_idx)].add(x_node)
+                    bi_ixs[(x_node.val, new_type_idx)][x_node] = None
                 if y_node:
                     # remove (b, y_node.val) from bi and bi_ixs
                     heap_deltas[(b, y_node.val)] -= b_node.freq
                     if bi_ixs.get((b, y_node.val)):
                         # not sure why 'if' needed here;
-                        bi_ixs[(b, y_node.val)].remove(b_node)
+                        del bi_ixs[(b, y_node.val)][b_node]
 
                     # add (R, y_node.val) to bi and bi_ixs
                     heap_deltas[(new_type_idx, y_node.val)] += b_node.freq
-                    bi_ixs[(new_type_idx, y_node.val)].add(new_node)
+                    bi_ixs[(new_type_idx, y_node.val)][new_node] = None
 
             # however; the counts shouldn't go negative
             assert uni[a] >= 0
-- 
2.43.0


From 2a57d33fd59fb065f5c478f36d262f6ecce391a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:40 +0000
Subject: [PATCH 07/35] fix: learn_vocab: honour min_co_ev for the 'subword'
 alias of 'bpe'

---
 nlcodec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index dec3538..1d6fad9 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -655,7 +655,7 @@ def learn_vocab(inp, level, model, vocab_size, min_freq=1, term_freqs=False,
     args = {}
     if level != 'word':
         args['coverage'] = char_coverage  # no char_coverage for word
-    if level == 'bpe':
+    if level in ('bpe', 'subword'):
         args['min_co_evidence'] = min_co_ev
     table = Scheme.learn(inp, vocab_size=vocab_size, min_freq=min_freq, term_freqs=term_freqs,
                          **args)
-- 
2.43.0


From 0cdcc34208d2c8d309f59e9b396db70b17c53f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:40 +0000
Subject: [PATCH 08/35] fix: get_init_vocab: a vocab_size below the reserved
 count keeps no terms

---
 nlcodec/codec.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index 1d6fad9..8e2ef9e 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -266,8 +266,9 @@ class EncoderScheme(abc.ABC):
 
         if vocab_size > 0 and len(vocab) + len(term_freqs) > vocab_size:
             log.info(f"Truncating vocab at size={vocab_size}")
-            unk_count += sum(f for t, f in term_freqs[vocab_size - len(vocab):])
-            term_freqs = term_freqs[:vocab_size - len(vocab)]
+            n_keep = max(0, vocab_size - len(vocab))
+            unk_count += sum(f for t, f in term_freqs[n_keep:])
+            term_freqs = term_freqs[:n_keep]
 
         # update reserved types with corpus freqs
         for idx, t in enumerate(vocab):
-- 
2.43.0


From b520e81b464784ea3f3f1da8aaf730b71f61a4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:40 +0000
Subject: [PATCH 09/35] fix: BPE never merges across characters missing from
 the vocabulary

---
 nlcodec/bpe.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/nlcodec/bpe.py b/nlcodec/bpe.py
index 3d62602..f06e72f 100644
--- a/nlcodec/bpe.py
+++ b/nlcodec/bpe.py
@@ -244,13 +244,19 @@ class BPELearn:
     def _make_idxs(cls, voc_idx: Dict[str, int], term_freqs: Dict[str, int]) \
             -> Iterator[Tuple[Seq, int]]:
         """Convert character sequences to char indexed seqs"""
-        unk_idx = voc_idx[cls.unk_tok]
         for word, freq in term_freqs.items():
             if word in voc_idx:
-                res = [voc_idx[word]]
-            else:
-                res = [voc_idx.get(ch, unk_idx) for ch in word]
-            yield res, freq
+                yield [voc_idx[word]], freq
+                continue
+            res = []
+            for ch in word:
+                if ch in voc_idx:
+                    res.append(voc_idx[ch])
+                elif res:  # an unknown char breaks the sequence; it has no types to merge
+                    yield res, freq
+                    res = []
+            if res:
+                yield res, freq
 
     @classmethod
     def _learn_codes(cls, term_freqs: Dict[str, int], vocab: List[Type], vocab_size: int,
-- 
2.43.0


From 87d76eb5cfb4652528a1695bdfdef820ace6bdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:09 +0000
Subject: [PATCH 10/35] fix: Db keeps records in insertion order, and can
 shuffle them

---
 nlcodec/db/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index de71a5d..3519585 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -159,11 +159,11 @@ class Db:
         self._rec_type = rec_type
         self.fields = {f.name: f for f in fields}
         self._len = len(fields[0])
-        self.ids = set(fields[0].ids.keys())
+        self.ids = list(fields[0].ids.keys())
         self.shuffle = shuffle
         for fn, fd in self.fields.items():
             assert self._len == len(fd)  # all have same num of recs
-            assert self.ids == set(fd.ids.keys())  # and same IDs
+            assert fields[0].ids.keys() == fd.ids.keys()  # and same IDs
 
     # noinspection PyPep8Naming
     def RecType(self):
@@ -220,7 +220,7 @@ class Db:
     def __iter__(self):
         ids = self.ids
         if self.shuffle:
-            ids = copy.copy(ids)
+            ids = list(ids)  # a copy
             random.shuffle(ids)
         for _id in ids:
             yield self[_id]
-- 
2.43.0


From f8201d670b2fa22f06e9de9315ccc4def41b36bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:09 +0000
Subject: [PATCH 11/35] fix: MultipartDb.load: shuffle the in-memory parts too

---
 nlcodec/db/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index 3519585..f7d1ebb 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -334,7 +334,7 @@ class MultipartDb:
         self.shuffle =  shuffle
         self.mem = [None] * len(parts)
         if self.keep_in_mem:
-            self.mem = [Db.load(p, rec_type=rec_type) for p in parts]
+            self.mem = [Db.load(p, shuffle=shuffle, rec_type=rec_type) for p in parts]
 
     def __len__(self):
         return self._len
-- 
2.43.0


From 2667aeff54a3f3e0accb5924cfbeb5b4e6936f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:09 +0000
Subject: [PATCH 12/35] fix: MultipartDb: list parts in order of part number

---
 nlcodec/db/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index f7d1ebb..ff961e8 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -389,7 +389,7 @@ class MultipartDb:
 
         def close(self):
             parts = {}
-            for meta_path in self.path.glob("part-*.meta"):
+            for meta_path in sorted(self.path.glob("part-*.meta")):
                 part_name = meta_path.name.rstrip('.meta')
                 parts[part_name] = json.loads(meta_path.read_text())
             meta = dict(parts=parts, field_names=self.field_names)
-- 
2.43.0


From 1ed184b114faf23a0516b58bfa866e0871dc840d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:09 +0000
Subject: [PATCH 13/35] fix: MultipartDb.load: refuse a database with a missing
 part

---
 nlcodec/db/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index ff961e8..0b9a550 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -315,7 +315,7 @@ class MultipartDb:
         rec_counts = []
         for part_name, stats in meta['parts'].items():
             part_file = path / part_name
-            part_file.exists()
+            assert part_file.exists(), f'{part_file} is missing'
             part_files.append(part_file)
             rec_counts.append(stats['count'])
         field_names = meta['field_names']
-- 
2.43.0


From 56abf1dc2a64fbb4b6daf4337d3c38f42d224bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:09 +0000
Subject: [PATCH 14/35] fix: batches never exceed max_sents

---
 nlcodec/db/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index 0b9a550..f3ff2c5 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -248,7 +248,7 @@ class Db:
                 log.warning(f"Skipping record {_id}, either source or target is empty")
                 continue
 
-            if (len(batch) + 1) * max(max_len, _len) > max_toks or len(batch) > max_sents:
+            if (len(batch) + 1) * max(max_len, _len) > max_toks or len(batch) >= max_sents:
                 if _len > max_toks:
                     raise Exception(f'Unable to make a batch of {max_toks} toks'
                                     f' with a seq of len:{_len}')
-- 
2.43.0


From 3923686358a9439f3eb5d6a2102b479524da2bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:09 +0000
Subject: [PATCH 15/35] fix: SeqField: no lossy float conversion of large
 integers

---
 nlcodec/db/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index f3ff2c5..ac9dea8 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -88,9 +88,12 @@ class SeqField:
 
         def shrink(self):
             if self.buffer:
-                dtype = best_dtype(mn=min(self.buffer), mx=max(self.buffer))
+                mn, mx = min(self.buffer), max(self.buffer)
+                if len(self.frozen):  # a common type; numpy's would be float64 for uint64 with signed
+                    mn, mx = min(mn, self.frozen.min()), max(mx, self.frozen.max())
+                dtype = best_dtype(mn=mn, mx=mx)
                 data = np.array(self.buffer, dtype=dtype)
-                self.frozen = np.concatenate((self.frozen, data))
+                self.frozen = np.concatenate((self.frozen.astype(dtype), data))
                 self.buffer = []
 
         def build(self):
-- 
2.43.0


From 4ce5cfdcff1e2928548599ff83a94eae70e3fade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:09 +0000
Subject: [PATCH 16/35] fix: SeqField.items yields (id, sequence) pairs

---
 nlcodec/db/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index ac9dea8..384fc52 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -132,7 +132,7 @@ class SeqField:
     def items(self):
         for id, idx in self.ids.items():
             start, _len = self.refs[idx]
-            yield self.data[start: start + _len]
+            yield id, self.data[start: start + _len]
 
     def lengths(self):
         return ((id, self.refs[idx, 1]) for id, idx in self.ids.items())
-- 
2.43.0


From 4e8c6b23bfa47d74a51f0831334816dc58e1101b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:09 +0000
Subject: [PATCH 17/35] fix: Db: support an empty set of records, such as an
 empty spark partition

---
 nlcodec/db/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index 384fc52..bd2484b 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -101,7 +101,7 @@ class SeqField:
             assert not self.buffer
             refs_type = best_dtype(mn=0, mx=max(len(self.frozen), self.max_len))
             return SeqField(name=self.name, ids=self.ids,
-                            refs=np.array(self.refs, dtype=refs_type), data=self.frozen)
+                            refs=np.array(self.refs, dtype=refs_type).reshape(-1, 2), data=self.frozen)
 
     def __init__(self, name: str, ids: Dict[Any, int], refs: Array, data: Array):
         self.name = name
@@ -110,7 +110,7 @@ class SeqField:
         self.data = data
         assert len(data.shape) == 1
         assert refs.shape == (len(ids), 2)
-        assert refs[-1][0] <= len(data)
+        assert len(refs) == 0 or refs[-1][0] <= len(data)
 
     def __len__(self):
         return len(self.ids)
@@ -240,6 +240,8 @@ class Db:
                 rows.append((_id, max(lens)))
         if len(skip_counter) > 0:
             log.warning(f"Skipped :: {skip_counter}")
+        if not rows:
+            return []
         rows = np.array(rows)  # id, len
         np.random.shuffle(rows)  # in-place, along the first axis; for extra rand within len group
         rows = rows[rows[:, 1].argsort()]  # sort by second col wiz len
@@ -361,6 +363,8 @@ class MultipartDb:
         for path, part in buff:
             if part is None:
                 part = Db.load(path, rec_type=self.rec_type)
+            if len(part) == 0:
+                continue
             yield from part.make_eq_len_ran_batches(max_toks=max_toks, max_sents=max_sents)
 
     class Writer:
-- 
2.43.0


From e3390f5f39410d91388c304d2a31875385a567f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:09 +0000
Subject: [PATCH 18/35] fix: Batch.to: batches without y

---
 nlcodec/db/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/db/batch.py b/nlcodec/db/batch.py
index 1c9c092..363d557 100644
--- a/nlcodec/db/batch.py
+++ b/nlcodec/db/batch.py
@@ -157,7 +157,7 @@ class Batch:
 
     def to(self, device):
         """Move this batch to given device"""
-        for name in self._x_attrs + (self._y_attrs if self.has_y else []):
+        for name in self._x_attrs + (self._y_attrs if self.has_y else ()):
             setattr(self, name, getattr(self, name).to(device))
         return self
 
-- 
2.43.0


From b01c26fdb22bcd1543187c45125faa41e0538c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:09 +0000
Subject: [PATCH 19/35] fix: nlcodec-learn: reuse of existing term frequencies

---
 nlcodec/learn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/learn.py b/nlcodec/learn.py
index ccf4457..9907896 100644
--- a/nlcodec/learn.py
+++ b/nlcodec/learn.py
@@ -72,10 +72,10 @@ def main():
         master = args.pop('spark_master')
         driver_mem = args.pop('driver_mem')
         dedup = args.pop('dedup')
+        inp = args.pop('inp')
         if stats_file.exists():
             log.warning(f"{stats_file} exists, reusing it. please delete it if this is wrong.")
         else:
-            inp = args.pop('inp')
             with spark.session(master=master, driver_mem=driver_mem) as session:
                 words, chars, line_count = word_counts(paths=inp, dedup=dedup, spark=session)
             with utils.IO.writer(words_file) as out:
-- 
2.43.0


From b6bfa5f65ddbce18bae33cdcfb56b04d43ac02ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:09 +0000
Subject: [PATCH 20/35] fix: nlcodec-learn: only complete term frequency files
 are reused

---
 nlcodec/learn.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nlcodec/learn.py b/nlcodec/learn.py
index 9907896..83dc5b8 100644
--- a/nlcodec/learn.py
+++ b/nlcodec/learn.py
@@ -78,10 +78,11 @@ def main():
         else:
             with spark.session(master=master, driver_mem=driver_mem) as session:
                 words, chars, line_count = word_counts(paths=inp, dedup=dedup, spark=session)
-            with utils.IO.writer(words_file) as out:
-                write_stats(words, out, line_count=line_count)
-            with utils.IO.writer(chars_file) as out:
-                write_stats(chars, out, line_count=line_count)
+            for stats, path in [(words, words_file), (chars, chars_file)]:
+                tmp_path = path.with_name('_tmp.' + path.name)
+                with utils.IO.writer(tmp_path) as out:
+                    write_stats(stats, out, line_count=line_count)
+                tmp_path.replace(path)  # an interrupted write is never taken as complete
 
     assert stats_file.exists()
     with utils.log_resources(name=f"learning {args['level']} vocab"):
-- 
2.43.0


From 6c8f7d1293d010a1d7c26f8848c0ef960a6517dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:09 +0000
Subject: [PATCH 21/35] fix: IO: gzip files read and write the same as plain
 files

---
 nlcodec/utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nlcodec/utils.py b/nlcodec/utils.py
index b85072a..e748bb3 100644
--- a/nlcodec/utils.py
+++ b/nlcodec/utils.py
@@ -89,14 +89,14 @@ class IO:
 
     def __enter__(self):
 
+        if 'b' in self.mode:  # binary mode doesnt take encoding or errors
+            args = {}
+        else:
+            args = dict(encoding=self.encoding, errors=self.errors, newline='\n')
         if self.path.name.endswith(".gz"):  # gzip mode
-            self.fd = gzip.open(self.path, self.mode, encoding=self.encoding, errors=self.errors)
+            self.fd = gzip.open(self.path, self.mode, **args)
         else:
-            if 'b' in self.mode:  # binary mode doesnt take encoding or errors
-                self.fd = self.path.open(self.mode)
-            else:
-                self.fd = self.path.open(self.mode, encoding=self.encoding, errors=self.errors,
-                                         newline='\n')
+            self.fd = self.path.open(self.mode, **args)
         return self.fd
 
     def __exit__(self, _type, value, traceback):
-- 
2.43.0


From 12bb42c2a6e3f9e641a08217218665ff3e6ad2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:37 +0000
Subject: [PATCH 22/35] fix: CLIs read and write text as UTF-8 irrespective of
 the locale

---
 nlcodec/__main__.py        | 4 ++--
 nlcodec/eval/bpe_len.py    | 2 +-
 nlcodec/eval/oov_count.py  | 2 +-
 nlcodec/eval/pr_measure.py | 2 +-
 nlcodec/eval/termfreq.py   | 4 ++--
 nlcodec/qestim.py          | 2 +-
 nlcodec/term_freq.py       | 4 ++--
 7 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/nlcodec/__main__.py b/nlcodec/__main__.py
index 1db932b..6e1d486 100644
--- a/nlcodec/__main__.py
+++ b/nlcodec/__main__.py
@@ -38,12 +38,12 @@ def parse_args() -> Dict[str, Any]:
     "decode" - decodes an already encoded dataset
     "estimate" - estimates quality attributes of an encoding''')
 
-    p.add_argument('-i', '--inp', type=argparse.FileType('r'), default=sys.stdin,
+    p.add_argument('-i', '--inp', type=argparse.FileType('r', encoding='utf-8'), default=sys.stdin,
                    help='Input file path')
     p.add_argument('-tfs', '--term-freqs', action='store_true', default=False,
                    help='--inp is term frequencies Valid for task=learn.'
                         ' See nlcodec.term_freq to obtain them')
-    p.add_argument('-o', '--out', type=argparse.FileType('w'), default=sys.stdout,
+    p.add_argument('-o', '--out', type=argparse.FileType('w', encoding='utf-8'), default=sys.stdout,
                    help='Output file path. Not valid for "learn" or "estimate" task')
     p.add_argument('-m', '--model', type=Path, help='Path to model aka vocabulary file',
                    required=True)
diff --git a/nlcodec/eval/bpe_len.py b/nlcodec/eval/bpe_len.py
index 89dca0d..a9e6df5 100644
--- a/nlcodec/eval/bpe_len.py
+++ b/nlcodec/eval/bpe_len.py
@@ -204,7 +204,7 @@ def parse_args():
     p = argparse.ArgumentParser(formatter_class=argparse.ArgumentDefaultsHelpFormatter)
     p.add_argument('-c', '--codec', dest='codec_path', type=Path,
                    required=True, help='Path to codec vocabulary')
-    p.add_argument('-d', '--data', type=argparse.FileType('r'), default=sys.stdin,
+    p.add_argument('-d', '--data', type=argparse.FileType('r', encoding='utf-8'), default=sys.stdin,
                    help='Input data file path')
     return vars(p.parse_args())
 
diff --git a/nlcodec/eval/oov_count.py b/nlcodec/eval/oov_count.py
index 11f8308..2d486b1 100644
--- a/nlcodec/eval/oov_count.py
+++ b/nlcodec/eval/oov_count.py
@@ -53,7 +53,7 @@ def main(inp, model_path):
 if __name__ == '__main__':
     p = argparse.ArgumentParser(formatter_class=argparse.ArgumentDefaultsHelpFormatter,
                                 description="Compute term frequencies for ")
-    p.add_argument('-i', '--inp', type=argparse.FileType('r'), default=sys.stdin,
+    p.add_argument('-i', '--inp', type=argparse.FileType('r', encoding='utf-8'), default=sys.stdin,
                    help='Input file path')
     p.add_argument('-m', '--model', dest='model_path', type=Path, required=True,
                    help="model aka vocabulary file")
diff --git a/nlcodec/eval/pr_measure.py b/nlcodec/eval/pr_measure.py
index 232a3d2..e3432d7 100644
--- a/nlcodec/eval/pr_measure.py
+++ b/nlcodec/eval/pr_measure.py
@@ -118,7 +118,7 @@ def parse_args():
                         ' If not given, --refs is used. This can be obtained from `termfreqs.py`')
 
     p.add_argument('-n', '--n', type=int, default=1, help='maximum n as in n-gram.')
-    p.add_argument('-o', '--out', type=argparse.FileType('w'), default=stdout,
+    p.add_argument('-o', '--out', type=argparse.FileType('w', encoding='utf-8'), default=stdout,
                    help='Output file path to store the result.')
     p.add_argument('-m', '--model', dest='model_path', type=Path, required=True,
                    help="model aka vocabulary file")
diff --git a/nlcodec/eval/termfreq.py b/nlcodec/eval/termfreq.py
index 34dd60d..1e34822 100644
--- a/nlcodec/eval/termfreq.py
+++ b/nlcodec/eval/termfreq.py
@@ -47,9 +47,9 @@ def main(inp, out, n, model_path):
 if __name__ == '__main__':
     p = argparse.ArgumentParser(formatter_class=argparse.ArgumentDefaultsHelpFormatter,
                                 description="Compute term frequencies for ")
-    p.add_argument('-i', '--inp', type=argparse.FileType('r'), default=sys.stdin,
+    p.add_argument('-i', '--inp', type=argparse.FileType('r', encoding='utf-8'), default=sys.stdin,
                    help='Input file path')
-    p.add_argument('-o', '--out', type=argparse.FileType('w'), default=sys.stdout,
+    p.add_argument('-o', '--out', type=argparse.FileType('w', encoding='utf-8'), default=sys.stdout,
                    help='Output file path')
     p.add_argument('-m', '--model', dest='model_path', type=Path, required=True,
                    help="model aka vocabulary file")
diff --git a/nlcodec/qestim.py b/nlcodec/qestim.py
index b01a057..7a39613 100644
--- a/nlcodec/qestim.py
+++ b/nlcodec/qestim.py
@@ -124,7 +124,7 @@ def parse_args():
     p = argparse.ArgumentParser(formatter_class=argparse.ArgumentDefaultsHelpFormatter)
     p.add_argument('-c', '--codec', dest='codec_path', type=Path,
                    required=True, help='Path to codec vocabulary')
-    p.add_argument('-d', '--data', type=argparse.FileType('r'), default=sys.stdin,
+    p.add_argument('-d', '--data', type=argparse.FileType('r', encoding='utf-8'), default=sys.stdin,
                    help='Input data file path')
     return vars(p.parse_args())
 
diff --git a/nlcodec/term_freq.py b/nlcodec/term_freq.py
index b51b6fe..f89b488 100644
--- a/nlcodec/term_freq.py
+++ b/nlcodec/term_freq.py
@@ -96,9 +96,9 @@ def parse_args():
     p.add_argument('-v', '--version', action='version', version=f'%(prog)s {__version__}')
     p.add_argument('-i', '--inp', type=Path, nargs='+',
                    help='Input file paths')
-    p.add_argument('-wf', '--word_freqs', type=argparse.FileType('w'), default=None,
+    p.add_argument('-wf', '--word_freqs', type=argparse.FileType('w', encoding='utf-8'), default=None,
                    help='Output file path for word frequencies')
-    p.add_argument('-cf', '--char_freqs', type=argparse.FileType('w'), default=None,
+    p.add_argument('-cf', '--char_freqs', type=argparse.FileType('w', encoding='utf-8'), default=None,
                    help='Output file path for character frequencies')
 
     p.add_argument('-dd', '--dedup', action='store_true',
-- 
2.43.0


From 5e5727f5758caffb4728cdf009b2d407a12d18fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:37 +0000
Subject: [PATCH 23/35] fix: nlcodec-db: --spark_master, --driver_mem,
 --src-col and --tgt-col take effect

---
 nlcodec/bitextdb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nlcodec/bitextdb.py b/nlcodec/bitextdb.py
index 777a7f5..2fb10cd 100644
--- a/nlcodec/bitextdb.py
+++ b/nlcodec/bitextdb.py
@@ -21,13 +21,13 @@ def main(args=None):
     if args.tgt_model:
         tgt_codec = load_scheme(args.tgt_model)
 
-    with spark_util.session() as session:
+    with spark_util.session(master=args.spark_master, driver_mem=args.driver_mem) as session:
         df = spark_util.read_raw_bitext_tok(
             spark=session, src_path=args.src_text, tgt_path=args.tgt_text, truncate=args.truncate,
             src_len=args.src_len, tgt_len=args.tgt_len,
             src_tokenizer=src_codec.encode, tgt_tokenizer=tgt_codec.encode)
         rdd = df.rdd.map(lambda r: (r.id, (r.x, r.y)))
-        db = spark_util.rdd_as_db(rdd=rdd, db_path=args.db_path, field_names=('x', 'y'),
+        db = spark_util.rdd_as_db(rdd=rdd, db_path=args.db_path, field_names=(args.src_col, args.tgt_col),
                                   repartition=args.num_parts)
         log.info(f"stored {len(db)} recs at {args.db_path}")
 
-- 
2.43.0


From 699a2d6f57044d419ed5ff4f330ddd37551750c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:37 +0000
Subject: [PATCH 24/35] fix: pr_measure: --n takes effect

---
 nlcodec/eval/pr_measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/eval/pr_measure.py b/nlcodec/eval/pr_measure.py
index e3432d7..af5d603 100644
--- a/nlcodec/eval/pr_measure.py
+++ b/nlcodec/eval/pr_measure.py
@@ -58,7 +58,7 @@ def main(model_path, cands, refs, n, out, freqs=None):
 
     cands = list(codec.encode_parallel(cands))
     refs = list(codec.encode_parallel(refs))
-    gram_recalls, ref_gram_freqs, gram_precisions, cand_gram_freqs = count_gram_recall(cands, refs)
+    gram_recalls, ref_gram_freqs, gram_precisions, cand_gram_freqs = count_gram_recall(cands, refs, n=n)
     if freqs:
         log.info(f"Loading precomputed gram freqs from {freqs}")
         freqs = [json.loads(l.strip()) for l in freqs]
-- 
2.43.0


From 652ff8eb4142392b471f8e4a216cbc921c3e07c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:37 +0000
Subject: [PATCH 25/35] fix: read_raw_bitext_tok: keep the sequences of exactly
 the maximum length

---
 nlcodec/spark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/spark.py b/nlcodec/spark.py
index 1f7cb03..6834ac4 100644
--- a/nlcodec/spark.py
+++ b/nlcodec/spark.py
@@ -107,7 +107,7 @@ def read_raw_bitext_tok(spark, src_path: Union[str, Path], tgt_path: Union[str,
     if truncate:
         tok_rdd = tok_rdd.map(lambda r: (r[0], r[1][:src_len], r[2][:tgt_len]))
     else:
-        tok_rdd = tok_rdd.filter(lambda r: len(r[1]) < src_len and len(r[2]) < tgt_len)
+        tok_rdd = tok_rdd.filter(lambda r: len(r[1]) <= src_len and len(r[2]) <= tgt_len)
 
     # dataframes doesnt support numpy arrays, so we cast them to python list
     a_row = tok_rdd.take(1)[0]
-- 
2.43.0


From 847160df8de322aded1689514b0dad57f87518ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:37 +0000
Subject: [PATCH 26/35] fix: BpeTracker: restore the count of the second piece
 of skipped overlaps

---
 nlcodec/eval/bpe_len.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/eval/bpe_len.py b/nlcodec/eval/bpe_len.py
index a9e6df5..a00d21d 100644
--- a/nlcodec/eval/bpe_len.py
+++ b/nlcodec/eval/bpe_len.py
@@ -168,7 +168,7 @@ class BpeTracker:
                         # happens due to repeats like X A A A A Y
                         uni[new_type.idx] -= u.freq
                         uni[a] += u.freq
-                        uni[b] -= u.freq
+                        uni[b] += u.freq
                         continue
                     assert u.val == a
                     assert b_node.val == b, f'expected {a, b} found {u.val, b_node.val} at {b_node}'
-- 
2.43.0


From dfb07b9f7aa79ce01a7470db81193eeb07bae667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:37 +0000
Subject: [PATCH 27/35] fix: quality estimation of the schemes that have no unk
 type

---
 nlcodec/codec.py  | 1 +
 nlcodec/qestim.py | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index 8e2ef9e..14173bf 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -567,6 +567,7 @@ class ClassScheme(WordScheme):
 class ByteScheme(EncoderScheme):
     level = Level.byte
     name = "byte"
+    unk_idx = -1    # No unks
     """
      using hex strings to represent bytes [0-255] => [00-ff] 
      <s> aka BOS is 256
diff --git a/nlcodec/qestim.py b/nlcodec/qestim.py
index 7a39613..f0257a4 100644
--- a/nlcodec/qestim.py
+++ b/nlcodec/qestim.py
@@ -99,7 +99,7 @@ class QualityEstimator:
         mean_len = n_toks / n_seqs
         n_types = self.codec.vocab_size
 
-        unk_count = stats[self.codec.unk_idx]
+        unk_count = stats[self.codec.unk_idx] if self.codec.unk_idx >= 0 else 0
 
         # exclude the reserved types which dont surface in prediction
         #excludes = [typ for typ in self.codec.table if typ.is_reserved and stats[typ.idx] == 0]
-- 
2.43.0


From db69e078fcc0b83c85ccc50170ddc185f4c58700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:37 +0000
Subject: [PATCH 28/35] fix: qestim: np.float is not in numpy anymore

---
 nlcodec/qestim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/qestim.py b/nlcodec/qestim.py
index f0257a4..9d34e99 100644
--- a/nlcodec/qestim.py
+++ b/nlcodec/qestim.py
@@ -38,7 +38,7 @@ class QualityEstimator:
 
     @staticmethod
     def validate_distribution(distr):
-        assert distr.dtype == np.float
+        assert distr.dtype == float
         assert abs(np.sum(distr) - 1.0) < 1e-4  # sum to 1
         assert np.sum(distr < 0) == 0  # no negatives
 
-- 
2.43.0


From 93de7eb033802192d5077b3969cc5aa35eb72424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:37 +0000
Subject: [PATCH 29/35] fix: parallel_map: single CPU

---
 nlcodec/codec.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index 14173bf..edfaff3 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -232,7 +232,10 @@ class EncoderScheme(abc.ABC):
 
     @classmethod
     def parallel_map(cls, mapper, collection, n_cpus=N_CPUS, name='', chunksize=1000):
-        assert n_cpus > 1, f'at least 2 CPUs needed. chunksize={chunksize}'
+        assert n_cpus >= 1, f'at least 1 CPU needed. chunksize={chunksize}'
+        if n_cpus == 1:  # such as the default on the machines with one or two CPUs
+            yield from map(mapper, collection)
+            return
         log.info(f"Going to use {n_cpus} parallel processes {name}")
         with mp.Pool(processes=n_cpus) as pool:
             yield from pool.imap(mapper, collection, chunksize=chunksize)
-- 
2.43.0


From db3abb3f15a3e9623f9a3f7f4e0629945dff5fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:42 +0000
Subject: [PATCH 30/35] fix: word_counts counted a token spelled like the line
 tag as a line instead of a word

---
 nlcodec/term_freq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/term_freq.py b/nlcodec/term_freq.py
index f89b488..3f36b8e 100644
--- a/nlcodec/term_freq.py
+++ b/nlcodec/term_freq.py
@@ -39,7 +39,7 @@ def word_counts(paths: List[Path], dedup=True, spark=None) \
         if dedup:
             log.info("Dropping duplicates")
             df = df.drop_duplicates()
-        SENT_TAG = '<!S!>'
+        SENT_TAG = '\n'  # not a token of any line, as tokens have no white space
         # Tokenize
         # also include a special token, one per line to count lines
         # expand words as sep records
-- 
2.43.0


From 73006fcebf4e86410c66b5f9d5c580cb937ad440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:42 +0000
Subject: [PATCH 31/35] fix: word_counts failed on inputs without any line

---
 nlcodec/term_freq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/term_freq.py b/nlcodec/term_freq.py
index 3f36b8e..436e752 100644
--- a/nlcodec/term_freq.py
+++ b/nlcodec/term_freq.py
@@ -47,7 +47,7 @@ def word_counts(paths: List[Path], dedup=True, spark=None) \
             .map(lambda word: (word, 1)) \
             .reduceByKey(lambda v1, v2: v1 + v2) \
             .collectAsMap()
-        line_count = word_freqs.pop(SENT_TAG)
+        line_count = word_freqs.pop(SENT_TAG, 0)
         # word_freqs = list(sorted(word_freqs.items(), key=lambda x: x[1], reverse=True))
 
         # char freqs
-- 
2.43.0


From d814eadada7d86038bc89827d337c05c80e0730e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:04 +0000
Subject: [PATCH 32/35] fix: BpeTracker visits the occurrences of a pair in
 order of the text, not of memory addresses

---
 nlcodec/eval/bpe_len.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/nlcodec/eval/bpe_len.py b/nlcodec/eval/bpe_len.py
index a00d21d..1699d0b 100644
--- a/nlcodec/eval/bpe_len.py
+++ b/nlcodec/eval/bpe_len.py
@@ -7,7 +7,7 @@ import argparse
 import collections as coll
 import sys
 from pathlib import Path
-from typing import Iterator, Dict, Set, Optional, Union
+from typing import Iterator, Dict, Optional, Union
 
 import numpy as np
 from tqdm import tqdm
@@ -72,7 +72,8 @@ class BpeTracker:
         self.uni: NDArray = np.zeros(bpe.total_types(), dtype=np.long) # term freq ; unigrams
 
         # Bigram to sequence references
-        self.bi_ixs: Dict[Bigram, Set[LnNode]] = coll.defaultdict(set)
+        # dict as an ordered set: the order matters for the overlapping occurrences, such as "a a a"
+        self.bi_ixs: Dict[Bigram, Dict[LnNode, None]] = coll.defaultdict(dict)
         self.seq_lens: Optional[NDArray] = None
         self.create_index(data)
 
@@ -99,7 +100,7 @@ class BpeTracker:
         log.info("Encoding and creating index")
         enc_data  = self.bpe.encode_parallel(data)
         uni: Dict[int, int] = coll.defaultdict(int)
-        bi_ixs: Dict[Bigram, Set[LnNode]] = coll.defaultdict(set)
+        bi_ixs: Dict[Bigram, Dict[LnNode, None]] = coll.defaultdict(dict)
         seq_lens = []
         with tqdm(enumerate(enc_data)) as data_bar:
             for idx, seq in data_bar:
@@ -108,7 +109,7 @@ class BpeTracker:
                 for node in seq:
                     uni[node.val] += 1
                 for node in seq[:-1]:
-                    bi_ixs[(node.val, node.right.val)].add(node)
+                    bi_ixs[(node.val, node.right.val)][node] = None
                 bar_msg = f'MaxRSS={max_RSS()[1]}'
                 data_bar.set_postfix_str(bar_msg, refresh=False)
 
@@ -181,12 +182,12 @@ class BpeTracker:
 
                     if u.left:
                         if  bi_ixs.get((u.left.val, a)):
-                            bi_ixs[(u.left.val, a)].remove(u.left)
-                        bi_ixs[(u.left.val, u.val)].add(u.left)
+                            del bi_ixs[(u.left.val, a)][u.left]
+                        bi_ixs[(u.left.val, u.val)][u.left] = None
                     if u.right:
                         if bi_ixs.get((b, u.right.val)):
-                            bi_ixs[(b, u.right.val)].remove(b_node)
-                        bi_ixs[(u.val, u.right.val)].add(u)
+                            del bi_ixs[(b, u.right.val)][b_node]
+                        bi_ixs[(u.val, u.right.val)][u] = None
         k = len(self.bpe)
         emd = self.earth_mov_dist(self.uni[:k])
         mu_len = self.mean_seq_len()
-- 
2.43.0


From 1f23962994ce26570cbd3334679f0364abae41aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:35 +0000
Subject: [PATCH 33/35] fix: a bpe vocabulary with a name longer than the
 recursion limit could not be opened

---
 nlcodec/dstruct.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/nlcodec/dstruct.py b/nlcodec/dstruct.py
index 459cab4..72614b6 100644
--- a/nlcodec/dstruct.py
+++ b/nlcodec/dstruct.py
@@ -90,11 +90,12 @@ class TrNode(Generic[T, D]):  # Trie Node or Tree Node
         self.kids = dict() if kids is None else kids
 
     def get_node(self, idxs, create_missing: bool = True) -> 'TrNode[T, D]':
-        if not idxs:
-            return self
-        if create_missing and idxs[0] not in self.kids:  # make one
-            self.kids[idxs[0]] = TrNode(idx=idxs[0], parent=self)
-        return self.kids[idxs[0]].get_node(idxs=idxs[1:], create_missing=create_missing)
+        node = self
+        for idx in idxs:  # not recursive; names can be longer than the recursion limit
+            if create_missing and idx not in node.kids:  # make one
+                node.kids[idx] = TrNode(idx=idx, parent=node)
+            node = node.kids[idx]
+        return node
 
     @property
     def n_kids(self):
@@ -108,11 +109,19 @@ class TrNode(Generic[T, D]):  # Trie Node or Tree Node
     @property
     def size(self):
         """Number of nodes in the tree at this node. Counts self and all the kids"""
-        return 1 + sum(k.size for k in self.kids.values())
+        return sum(1 for _ in self._walk())
 
     @property
     def data_node_count(self):
-        return (1 if self.has_data else 0) + sum(k.data_node_count for k in self.kids.values())
+        return sum(1 for n in self._walk() if n.has_data)
+
+    def _walk(self):
+        """all the nodes in the tree at this node; not recursive, since the tree can be deep"""
+        stack = [self]
+        while stack:
+            node = stack.pop()
+            yield node
+            stack.extend(node.kids.values())
 
 
 class MaxHeap:
-- 
2.43.0


From 25e9b1bb4e4bed6cbb40aa1775b996db429975e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:22 +0000
Subject: [PATCH 34/35] fix: shrink_vocab failed on text without any token

---
 nlcodec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index edfaff3..5114b3c 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -312,7 +312,7 @@ class EncoderScheme(abc.ABC):
             with IO.reader(file) as lines:
                 for line in tqdm(lines):
                     freqs.update(self.encode(line))
-        assert len(self.table) > max(freqs.keys())
+        assert len(self.table) > max(freqs.keys(), default=-1)
         removals = [False] * len(self.table)
         for idx, typ in enumerate(self.table):
             if typ.level == Level.reserved:
-- 
2.43.0


From e55d3d8b341b2d8c662c20e6f2b9284dacf5e2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:14 +0000
Subject: [PATCH 35/35] fix: BatchIterable with a database of parts failed on a
 path given as a string

---
 nlcodec/db/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/db/batch.py b/nlcodec/db/batch.py
index 363d557..37c040e 100644
--- a/nlcodec/db/batch.py
+++ b/nlcodec/db/batch.py
@@ -219,7 +219,7 @@ class BatchIterable(Iterable[Batch]):
         assert data_path.exists(), f'Invalid State: {data_path} is NOT found.'
         if data_path.is_file():
             self.data = Db.load(data_path, rec_type=IdExample)
-        elif self.data_path.is_dir():
+        elif data_path.is_dir():
             self.data = MultipartDb.load(data_path, rec_type=IdExample, keep_in_mem=keep_in_mem)
         else:
             raise Exception(f'Invalid State: {data_path} is should be a file or dir.')
-- 
2.43.0

