"""Which constructs decide which property.

Every entry is an obligation: a function (or constant) of the repository, the facets of it that matter, and the reason it is on the
list.  The list was confirmed by reading the code; MINIMUM is the number of obligations that must be found on every run."""
from __future__ import annotations

VALUES = ('ret', 'attr*', 'content*', 'flow', 'refusing', 'more', 'defaults')
CHECKED = VALUES + ('raises',)            # ... and the inputs it refuses
CLOSED = VALUES + ('trace',)              # ... and what is closed, when, on every way out
ALL = VALUES + ('raises', 'trace')

K = 'nlcodec.codec.'
B = 'nlcodec.bpe.BPELearn.'
D = 'nlcodec.db.core.'
T = 'nlcodec.db.batch.'
S = 'nlcodec.dstruct.'


class Ob:
    def __init__(self, qual, facets=VALUES, why='', exact=None):
        self.qual, self.facets, self.why, self.exact = qual, facets, why, exact


def fns(prefix, names, facets=VALUES, why=''):
    return [Ob(prefix + n, facets, why) for n in names.split()]


def consts(*quals, why=''):
    return [Ob(q, ('const',), why) for q in quals]


LEVELS = consts(*[K + 'Level.' + n for n in ('reserved', 'char', 'user', 'subword', 'word', 'phrase', 'clasz', 'byte')],
                why='the level written in a vocabulary file')
RESERVED = consts(*[K + 'Reseved.' + n for n in ('PAD_TOK', 'UNK_TOK', 'BOS_TOK', 'EOS_TOK', 'CLS_TOK', 'SPACE_TOK', 'PAD_IDX', 'UNK_IDX',
                                                 'BOS_IDX', 'EOS_IDX', 'CLS_IDX', 'ALL')], why='reserved tokens and their ids')
NAMES = consts(*[K + c + n for c in ('WordScheme', 'CharScheme', 'BPEScheme', 'ClassScheme', 'ByteScheme') for n in ('.name', '.level')],
               why='what a scheme calls itself') + consts(K + 'REGISTRY', why='name -> scheme')

RULES = {
    'C01': fns(K, 'Type.format Type.parse Type.signature Type.copy', why='one line of a vocabulary file')
    + fns(K, 'Type.write_out Type.read_vocab', CHECKED, 'the file: header, one line per type in order')
    + fns(K, 'EncoderScheme.save load_scheme', why='what a scheme writes and what opens it')
    + consts(*[f'{K}Type.{n}' for n in ('kids',)]),
    'C02': NAMES + LEVELS + fns(K, 'EncoderScheme.save load_scheme learn_vocab', why='the scheme name is written and read back')
    + fns(K, 'EncoderScheme.shrink_vocab', ('flow',), 'the shrunken file names its own scheme')
    + fns(K, 'Type.read_vocab Type.write_out', why='header of the file'),
    'C03': RESERVED + fns(K, 'Reseved.validate Reseved.with_reserved_types EncoderScheme.__init__',
                          CHECKED, 'reserved rows come first')
    + fns(K, 'BPEScheme.__init__ ClassScheme.__init__ ByteScheme.__init__', why='the tables are checked')
    + fns(K, 'EncoderScheme.get_init_vocab ByteScheme.get_init_vocab ClassScheme.get_init_vocab', ('ret',), 'tables start with the reserved rows')
    + fns(K, 'EncoderScheme.shrink_vocab Type.is_reserved', why='reserved rows survive shrinking'),
    'C04': fns(K, 'EncoderScheme.get_init_vocab ByteScheme.get_init_vocab ClassScheme.get_init_vocab Reseved.with_reserved_types', why='rows are numbered as they are added')
    + fns(K, 'Type.read_vocab Type.write_out EncoderScheme.__init__ EncoderScheme.shrink_vocab', CHECKED, 'id is position')
    + fns(B, '_learn_codes learn_codes __init__', CHECKED, 'new types take the next id'),
    'C05': fns(K, 'EncoderScheme.encode EncoderScheme.encode_str WordScheme.encode_str CharScheme.encode_str BPEScheme.encode BPEScheme.encode_str '
               'ClassScheme.encode_str ByteScheme.encode ByteScheme.encode_str EncoderScheme.__init__ BPEScheme.__init__ ClassScheme.__init__ '
               'ByteScheme.__init__ encode', why='pieces are looked up with a fallback'),
    'C06': fns(K, 'EncoderScheme.encode BPEScheme.encode BPEScheme.encode_str ByteScheme.encode ByteScheme.encode_str EncoderScheme.decode '
               'EncoderScheme.encode_parallel EncoderScheme.parallel_map EncoderScheme.__init__ encode decode '
               'WordScheme.encode_str CharScheme.encode_str ClassScheme.encode_str ClassScheme.__init__', why='ids and pieces come from one segmentation, one output per input in order')
    + consts(K + 'N_CPUS'),
    'C07': fns(K, 'BPEScheme.encode_str BPEScheme.encode BPEScheme.make_vocab_prefix_trie BPEScheme.__init__', why='longest match over the prefix tree')
    + fns(S, 'TrNode.__init__ TrNode.get_node TrNode.has_data TrNode.n_kids', why='the prefix tree'),
    'C08': fns(K, 'BPEScheme.stochastic_split BPEScheme.encode_str BPEScheme.encode BPEScheme.__init__ Type.get_stochastic_split Type.get_permutations Type.is_reserved', why='splits go through the kids of a type'),
    'C09': fns(K, 'WordScheme.encode_str WordScheme.decode_str CharScheme.encode_str CharScheme.decode_str BPEScheme.decode_str BPEScheme.encode_str '
               'ClassScheme.encode_str ClassScheme.decode_str ClassScheme.__init__ EncoderScheme.encode_str EncoderScheme.decode_str EncoderScheme.decode encode decode', why='separator out, separator in')
    + consts(K + 'CharScheme.space_char', K + 'Reseved.SPACE_TOK', B + 'space_tok'),
    'C10': fns(K + 'ByteScheme.', '__init__ code_to_str compose_str encode_str decode_str encode decode get_init_vocab', why='byte <-> code <-> piece'),
    'C11': fns(K, 'EncoderScheme.get_init_vocab ClassScheme.get_init_vocab WordScheme.learn CharScheme.learn BPEScheme.learn EncoderScheme.learn ByteScheme.learn learn_vocab',
               why='limits reach the vocabulary')
    + fns('nlcodec.utils.', 'filter_types_coverage', why='coverage cut')
    + fns(B, '_learn_codes learn_subwords learn_subwords_from_corpus prepare_word', why='limits reach the learner')
    + consts('nlcodec.DEF_MIN_CO_EV', 'nlcodec.DEF_WORD_MIN_FREQ', 'nlcodec.DEF_CHAR_MIN_FREQ', 'nlcodec.DEF_CHAR_COVERAGE'),
    'C12': fns(K, 'EncoderScheme.get_init_vocab ClassScheme.get_init_vocab WordScheme.term_frequencies', why='pruned mass goes to UNK')
    + fns('nlcodec.utils.', 'filter_types_coverage', why='what the cut drops'),
    'C13': fns(K, 'EncoderScheme.shrink_vocab', CHECKED, 'closure under kids, order, remapping') + fns(K, 'Type.copy Type.is_reserved', why='rows are copied'),
    'C14': fns('nlcodec.term_freq.', 'word_counts write_stats main', why='writer') + fns(K, 'WordScheme.read_term_freqs WordScheme.term_frequencies WordScheme.learn CharScheme.learn BPEScheme.learn', why='reader'),
    'B01': fns(B, '__init__ create_index learn_codes _make_idxs', why='counts and pair index move together')
    + fns(S, 'LnNode.__init__ LnNode.__eq__ LnNode.__hash__ LnNode.delete LnNode.is_unlinked LnNode.from_seq', why='the linked sequence')
    + fns(S, 'MaxHeap.__init__ MaxHeap.push MaxHeap.pop MaxHeap.peek MaxHeap.__len__', why='the pair heap'),
    'B02': fns(B, 'learn_codes learn_subwords _learn_codes create_index', why='which pair, how many, when to stop')
    + fns(S, 'MaxHeap.__init__ MaxHeap.push MaxHeap.pop MaxHeap.peek MaxHeap.__len__', why='highest count first'),
    'B03': fns(B, '__init__ create_index learn_codes _make_idxs prepare_word _learn_codes learn_subwords learn_subwords_from_corpus', why='no dependence on hash order')
    + fns(S, 'MaxHeap.__init__ MaxHeap.push MaxHeap.pop', why='ties broken by the pair'),
    'D01': fns(D, 'best_dtype SeqField.Builder.__init__ SeqField.Builder.append SeqField.Builder.shrink SeqField.Builder.build', why='width covers the values')
    + consts(D + 'DEF_TYPE', D + 'DEF_MIN', D + 'DEF_MAX'),
    'D02': fns(D, 'SeqField.Builder.__init__ SeqField.Builder.append SeqField.Builder.build SeqField.__init__ SeqField.__len__ SeqField.__getitem__ '
               'SeqField.get_len SeqField.keys SeqField.values SeqField.items SeqField.lengths SeqField.create', why='offset and length of each id'),
    'D03': fns(D, 'Db.create SeqField.create_many SeqField.create', CHECKED, 'every field gets the record')
    + fns(D, 'Db.__init__ Db.RecType Db.__len__ Db.__getitem__ Db.__iter__ Db.__getstate__ Db.save Db.load', why='records are assembled by id'),
    'D04': fns(D, 'MultipartDb.load', CHECKED, 'opens only what was finished')
    + fns(D, 'MultipartDb.Writer.close MultipartDb.Writer.__exit__ MultipartDb.Writer.__enter__ MultipartDb.Writer.__call__', ALL, 'the marker comes last')
    + fns(D, 'MultipartDb.create', CHECKED, 'writes, then closes')
    + fns('nlcodec.spark.', 'rdd_as_db', CLOSED, 'closes before loading'),
    'D05': fns(D, 'Db.__iter__ Db.load Db.create Db.save Db.__getitem__ MultipartDb.slices MultipartDb.create MultipartDb.load MultipartDb.__init__ MultipartDb.__len__ '
               'MultipartDb.__iter__ MultipartDb.Writer.__call__ MultipartDb.Writer.close part_path_pads', why='parts in order, each once'),
    'D06': fns(D, 'Db._make_eq_len_batch_ids Db.make_eq_len_ran_batches MultipartDb.make_eq_len_ran_batches', CHECKED, 'batches of a part')
    + fns(T, 'BatchIterable.__init__ BatchIterable.read_all BatchIterable.make_eq_len_ran_batches BatchIterable.__iter__', CHECKED, 'batches of a database')
    + fns(T, 'BatchIterable.num_items BatchIterable.num_batches', why='sizes it reports') + fns(D, 'SeqField.get_len', why='lengths it goes by'),
    'D07': fns(T, 'Batch.__init__ Batch.__len__ Batch.to Batch.make_autoreg_mask Batch.make_autogres_mask_ subsequent_mask IdExample.__getitem__', why='layout of a batch'),
    'D08': fns(T, 'Batch.bos_eos_check Batch.val_exists Batch.__init__ IdExample.__init__ IdExample.val_exists_at IdExample.eos_check', CHECKED, 'markers'),
    'D09': fns(D, 'MultipartDb.Writer.__init__', ALL, 'existing data') + fns(D, 'MultipartDb.create', why='passes overwrite on')
    + fns('nlcodec.spark.', 'rdd_as_db', why='passes overwrite on') + fns('nlcodec.bitextdb.', 'main parse_args', why='the option'),
    'P01': fns('nlcodec.para.mapred.', 'pair_subsequent IterativeReducer.__call__', CHECKED, 'each item in one pair')
    + fns('nlcodec.para.mapred.', 'IterativeReducer.dispatcher', why='reduces a pair')
    + fns('nlcodec.para.mapred.', 'ireduce MapReduce.__call__ MapReduce.multiprocess word_count_line merge_freqs WordCounter main', why='mapping and merging'),
    'S01': fns('nlcodec.spark.', 'get_session session', ALL, 'acquire and release') + fns('nlcodec.term_freq.', 'word_counts', ALL, 'stops only its own session')
    + fns('nlcodec.', 'learn.main bitextdb.main', CLOSED, 'uses a session inside its scope'),
    'S02': fns('nlcodec.spark.', 'read_raw_bitext', CHECKED, 'sides are paired by line') + fns('nlcodec.spark.', 'read_raw_bitext_tok rdd_as_db', why='pairs stay pairs')
    + fns('nlcodec.bitextdb.', 'main', why='each side with its own codec'),
    'S03': fns('nlcodec.term_freq.', 'word_counts', why='counts over distinct or all lines') + fns(K, 'WordScheme.term_frequencies', why='counts over lines')
    + fns('nlcodec.eval.', 'oov_count.term_freqs termfreq.encode_all termfreq.main', why='counts over lines'),
    'L01': fns('nlcodec.', '__main__.parse_args __main__.main learn.parse_args learn.main term_freq.parse_args term_freq.main bitextdb.parse_args bitextdb.main '
               'qestim.parse_args qestim.main qestim.estimate eval.bpe_len.parse_args eval.bpe_len.main eval.pr_measure.parse_args eval.oov_count.main eval.termfreq.main utils.add_bool_arg',
               why='option -> parameter'),
    'L02': fns('nlcodec.utils.IO.', '__init__ __enter__ __exit__ reader writer read_as_stream', ALL, 'open as UTF-8, close')
    + fns('nlcodec.', '__main__.write_lines __main__.main', CLOSED, 'lines out')
    + fns(K, 'encode decode Type.read_vocab Type.write_out', CLOSED, 'line by line') + fns('nlcodec.utils.', 'as_path', why='paths'),
    'L03': fns('nlcodec.', 'learn.main term_freq.main', CLOSED, 'whole file under its final name'),
    'E01': fns('nlcodec.eval.bpe_len.', 'BPECodecXt.__init__ BPECodecXt.merges_remaining BPECodecXt.__len__ BPECodecXt.total_types BPECodecXt.peek_merge BPECodecXt.merge '
               'BpeTracker.__init__ BpeTracker.create_index BpeTracker.mean_seq_len BpeTracker.track_merges BpeTracker.earth_mov_dist', why='counts follow the merges')
    + fns(S, 'LnNode.delete LnNode.from_seq TrNode.get_node', why='the linked sequence'),
    'E02': fns('nlcodec.eval.pr_measure.', 'count_gram_recall f1_measure main', why='precision and recall') + fns('nlcodec.utils.', 'make_n_grams make_n_grams_all', why='n-grams'),
    'E03': fns('nlcodec.eval.oov_count.', 'term_freqs partition_vocab_toks main', why='known and unknown tokens'),
    'E04': fns('nlcodec.qestim.QualityEstimator.', '__init__ estimate _estimate validate_distribution earth_mov_dist EMD_simple kl_div js_div', CHECKED, 'definitions of the measures')
    + fns('nlcodec.qestim.', 'estimate', why='file in, line out'),
}

# functions these rest on
MORE = {
    'C01': (K, 'EncoderScheme.__init__ BPEScheme.__init__ ClassScheme.__init__'),
    'C02': (K, 'EncoderScheme.__init__ BPEScheme.__init__ ClassScheme.__init__ ByteScheme.__init__ Type.format Type.parse EncoderScheme.learn ByteScheme.learn BPEScheme.make_vocab_prefix_trie dstruct.TrNode.get_node'),
    'C03': (K, 'BPEScheme.learn WordScheme.learn CharScheme.learn Type.copy Type.parse'),
    'C04': (K, 'BPEScheme.__init__ ClassScheme.__init__ ByteScheme.__init__ Type.parse Type.format Type.copy BPEScheme.learn EncoderScheme.__len__ EncoderScheme.decode '
               + 'bpe.BPELearn.vocab_size bpe.BPELearn._make_idxs'),
    'C05': (K, 'BPEScheme.make_vocab_prefix_trie BPEScheme.stochastic_split ByteScheme.code_to_str dstruct.TrNode.get_node dstruct.TrNode.has_data dstruct.TrNode.__init__'),
    'C06': (K, 'BPEScheme.__init__ BPEScheme.stochastic_split ByteScheme.__init__ ByteScheme.code_to_str ByteScheme.decode BPEScheme.make_vocab_prefix_trie EncoderScheme.encode_str '
               + '__main__.main __main__.write_lines'),
    'C07': (K, 'BPEScheme.stochastic_split EncoderScheme.__init__'),
    'C08': (K, 'EncoderScheme.__init__ BPEScheme.make_vocab_prefix_trie Type.signature'),
    'C09': (K, 'EncoderScheme.__init__ EncoderScheme.encode BPEScheme.__init__ BPEScheme.encode BPEScheme.make_vocab_prefix_trie ByteScheme.__init__ ByteScheme.encode ByteScheme.decode '
               'ByteScheme.encode_str ByteScheme.decode_str ByteScheme.code_to_str ByteScheme.compose_str'),
    'C10': (K, 'EncoderScheme.__init__ encode decode'),
    'C11': (K, 'ByteScheme.get_init_vocab Reseved.with_reserved_types WordScheme.read_term_freqs WordScheme.term_frequencies EncoderScheme.__len__ '
               + 'bpe.BPELearn.__init__ bpe.BPELearn.learn_codes bpe.BPELearn.vocab_size'),
    'C12': (K, 'Reseved.with_reserved_types WordScheme.learn CharScheme.learn BPEScheme.learn EncoderScheme.learn'),
    'C13': (K, 'Type.write_out EncoderScheme.encode BPEScheme.encode EncoderScheme.__init__ Type.signature'),
    'C14': (K, 'EncoderScheme.learn ByteScheme.learn learn_vocab learn.main'),
    'B01': (B, 'prepare_word _learn_codes learn_subwords'),
    'B02': (B, '__init__ _make_idxs vocab_size prepare_word dstruct.LnNode.__init__ dstruct.LnNode.delete dstruct.LnNode.from_seq dstruct.LnNode.is_unlinked'),
    'B03': (B, 'vocab_size dstruct.LnNode.__init__ dstruct.LnNode.delete dstruct.LnNode.from_seq dstruct.LnNode.__eq__ dstruct.LnNode.__hash__ dstruct.MaxHeap.peek'),
    'D01': (D, 'SeqField.__init__ SeqField.__getitem__ SeqField.create'),
    'D02': (D, 'SeqField.Builder.shrink best_dtype'),
    'D03': (D, 'SeqField.__init__ SeqField.__getitem__ SeqField.__len__ SeqField.items SeqField.keys SeqField.Builder.append SeqField.Builder.build'),
    'D04': (D, 'Db.create Db.save Db.load MultipartDb.__init__ part_path_pads'),
    'D05': (D, 'Db.__init__ Db.__len__ Db.RecType SeqField.__init__ SeqField.__getitem__ SeqField.__len__ SeqField.create SeqField.create_many SeqField.items SeqField.keys '
               'SeqField.Builder.append SeqField.Builder.build db.batch.BatchIterable.read_all'),
    'D06': (D, 'Db.__getitem__ Db.__iter__ MultipartDb.__iter__ MultipartDb.load SeqField.lengths db.batch.Batch.__len__ db.batch.IdExample.__getitem__'),
    'D07': (T, 'IdExample.__init__ BatchIterable.read_all BatchIterable.make_eq_len_ran_batches BatchIterable.__iter__'),
    'D08': (T, 'BatchIterable.__init__ BatchIterable.read_all BatchIterable.make_eq_len_ran_batches IdExample.__getitem__'),
    'D09': (D, 'MultipartDb.Writer.__enter__ MultipartDb.Writer.__exit__ MultipartDb.Writer.close MultipartDb.Writer.__call__'),
    'S03': ('nlcodec.', 'term_freq.main term_freq.write_stats codec.EncoderScheme.encode_parallel utils.make_n_grams_all utils.make_n_grams'),
    'L01': ('nlcodec.', 'codec.learn_vocab codec.encode codec.decode eval.bpe_len.estimate spark.rdd_as_db spark.get_session spark.session spark.read_raw_bitext_tok '
            'term_freq.word_counts term_freq.write_stats codec.WordScheme.learn codec.CharScheme.learn codec.BPEScheme.learn eval.pr_measure.main'),
    'L02': ('nlcodec.', 'codec.WordScheme.read_term_freqs term_freq.write_stats term_freq.main learn.main qestim.main qestim.estimate'),
    'L03': ('nlcodec.', 'term_freq.write_stats term_freq.word_counts codec.WordScheme.read_term_freqs codec.WordScheme.term_frequencies codec.WordScheme.learn'),
    'E01': ('nlcodec.eval.bpe_len.', 'estimate codec.EncoderScheme.encode_parallel dstruct.LnNode.__init__ dstruct.LnNode.is_unlinked codec.Type.read_vocab'),
    'E02': ('nlcodec.', 'codec.EncoderScheme.encode_parallel codec.load_scheme'),
    'E03': ('nlcodec.', 'codec.load_scheme'),
    'E04': ('nlcodec.', 'codec.EncoderScheme.encode_parallel codec.load_scheme codec.EncoderScheme.__len__'),
}
SUBS = ('spark.', 'bpe.', 'dstruct.', 'db.', 'eval.', 'learn.', '__main__.', 'codec.', 'term_freq.', 'utils.')
for _p, (_pre, _names) in MORE.items():
    _have = {o.qual for o in RULES[_p]}
    for _n in _names.split():
        _q = 'nlcodec.' + _n if _n.startswith(SUBS) else _pre + _n
        if _q not in _have:
            RULES[_p] = RULES[_p] + [Ob(_q, VALUES, 'what the above rest on')]
