"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.rules import RULES
from sa.lints import RULES as LINTS

FILES = {'C': ['nlcodec/codec.py'], 'B': ['nlcodec/bpe.py', 'nlcodec/dstruct.py'], 'D': ['nlcodec/db/core.py'], 'P': ['nlcodec/para/mapred.py'],
         'S': ['nlcodec/spark.py', 'nlcodec/term_freq.py'], 'L': ['nlcodec/__main__.py', 'nlcodec/learn.py', 'nlcodec/utils.py'], 'E': ['nlcodec/eval']}

P = []


def p(id, title, statement, over, text, why, files=None, observe=(), state=()):
    mech = [{'name': o.why or 'definition', 'where': o.qual} for o in RULES.get(id, ()) if 'const' not in o.facets][:14]
    if not mech:
        mech = [{'name': 'definition', 'where': 'see statement'}]
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files or FILES[id[0]], 'mechanism': mech, 'observe_at': list(observe), 'state': list(state), 'hook_needed': None}})


p('C01', 'A saved vocabulary reloads unchanged',
  'Writing a vocabulary to a file and reading it back gives the same types in the same order: id, name, level, frequency and constituent types of every entry are preserved, for every vocabulary a scheme can hold. The file has one entry per type in id order, and a file whose entries are out of order is refused.',
  ['inputs'], 'all vocabularies: any names, frequencies, levels and nesting of constituents', 'Tests reload one or two small vocabularies and compare their size.',
  observe=['the model file', 'the table of the loaded scheme'])
p('C02', 'A model file reopens as the scheme that wrote it',
  'Opening a saved model yields the same kind of scheme (word, char, bpe, class, byte) that saved it, whatever the content of its vocabulary, including after its vocabulary was shrunk. Every scheme that can be trained can be reopened, and asking for a level trains the scheme of that name.',
  ['inputs', 'configurations'], 'all schemes and vocabularies', 'Tests reopen a bpe model only; class, byte and shrunken models are not reopened.', observe=['model file header', 'type of the loaded scheme'])
p('C03', 'Reserved tokens keep their fixed ids',
  'In every vocabulary with reserved tokens, pad, unk, bos, eos, cls and the space marker have ids 0 to 5 in this order, whether the vocabulary was learned, loaded or shrunk. A table that violates this is refused when a scheme is built from it, and reserved tokens never appear twice even if they occur in the training text.',
  ['inputs', 'configurations'], 'all training data and all schemes', 'Tests look at particular vocabularies.', observe=['ids of reserved tokens'])
p('C04', 'The id of a type is its position in the table',
  'In every vocabulary, the i-th entry has id i: ids are dense, unique and start at 0, for vocabularies that are learned (including every merge BPE adds), read or shrunk. Looking an id up gives the type that carries it.',
  ['inputs'], 'all vocabularies', 'Holds for each step of learning; tests look at a final table.', ['nlcodec/codec.py', 'nlcodec/bpe.py'])
p('C05', 'Any text can be encoded; the unknown becomes unk',
  'Encoding never fails on any line of text: pieces that are not in the vocabulary map to the unknown id of the scheme (for bytes every text is representable), and known pieces map to their own id. Only the line terminator is removed from an input line.',
  ['inputs'], 'all strings, for all schemes and vocabularies', 'The input space is unbounded; tests encode a few sentences.')
p('C06', 'Ids and pieces describe the same segmentation; order is kept',
  'For every text, the id sequence and the piece sequence a scheme produces have the same length and correspond position by position, and decoding ids looks up exactly these pieces. Encoding many texts, serially or in parallel with any number of processes and chunk size, gives one output per input in input order.',
  ['inputs', 'schedules', 'configurations'], 'all texts, numbers of processes and chunk sizes', 'Tests compare a few sentences and one parallel setting.')
p('C07', 'BPE segmentation is an exact cover by longest matches',
  'BPE segmentation consumes the text from left to right and covers every character exactly once. At every position it takes the longest vocabulary entry that matches there, and a character that starts no entry becomes one unknown.',
  ['inputs'], 'all texts and vocabularies', 'Overlapping prefixes that share a start but not an end need particular vocabularies to show.', ['nlcodec/codec.py', 'nlcodec/dstruct.py'])
p('C08', 'Randomised splits preserve the spelling',
  'Splitting a type at random (or enumerating its permutations of pieces) only ever replaces it by its recorded constituents, recursively and in order, so the concatenation of the pieces is the spelling of the type. Reserved types and single characters are never split, and a split ratio of zero changes nothing.',
  ['inputs', 'histories'], 'all random choices, types and ratios', 'Random outcomes; tests see a sample.')
p('C09', 'Decoding inverts encoding of known text',
  'For text whose pieces are all in the vocabulary, decoding the encoding gives back the text up to white-space normalisation: each scheme joins with the separator it splits on. Decoding drops nothing else and preserves order.',
  ['inputs'], 'all texts covered by the vocabulary', 'Tests round-trip a fixed file.')
p('C10', 'Byte scheme: bytes, codes and pieces correspond one to one',
  'The byte scheme represents every byte value by exactly one code and one printable piece, with all 256 values present after the reserved tokens. Encoding any string to codes or pieces and decoding either gives the string back, and unencodable sequences never fail.',
  ['inputs'], 'all strings and code sequences', '256 values and all multi-byte sequences; tests use a few sentences.')
p('C11', 'Learned vocabularies respect the requested limits',
  'A learned vocabulary is never larger than the requested size, contains no type below the minimum frequency, and covers the requested share of characters; types are kept in order of decreasing frequency with reserved tokens first. Size limits that cannot hold the mandatory types are refused or leave just these types.',
  ['inputs', 'configurations'], 'all corpora and limit combinations', 'Combinations of limits and ties at the cut are not sampled.', ['nlcodec/codec.py', 'nlcodec/bpe.py', 'nlcodec/utils.py'])
p('C12', 'What a vocabulary leaves out is counted as unknown',
  'When low-frequency or over-limit types are dropped from a vocabulary, the frequency recorded for the unknown token is the total frequency of all that was dropped. Frequencies of the types that stay are the corpus counts, and reserved tokens in the corpus are counted on the reserved rows.',
  ['inputs'], 'all corpora and limits', 'Needs several cuts in one run.')
p('C13', 'Shrinking keeps a usable vocabulary and an exact id map',
  'Shrinking a vocabulary to the types used in some text keeps reserved types, the used types and everything they are composed of, in their original order with dense new ids. Constituents of the kept types refer to the new entries, and the returned map relates new ids to the old ids of the same names.',
  ['inputs'], 'all vocabularies and texts', 'Nested constituents used by no text are the hard case.')
p('C14', 'Term-frequency files are read as they were written',
  'A term-frequency file records every term with its exact count, most frequent first, with totals in its header; reading it yields the same counts and line count. Learning from such a file is the same as learning from the text it was counted from.',
  ['inputs'], 'all corpora', 'Writer and reader are tested apart if at all.', ['nlcodec/term_freq.py', 'nlcodec/codec.py'])
p('B01', 'BPE learning keeps its pair counts exact',
  'Throughout BPE learning, the count and positions recorded for every type and adjacent pair are those of the corpus as segmented by the merges so far, weighted by term frequency. Every merge rewrites each occurrence once, left to right, without overlaps, and never across an unknown or a word boundary.',
  ['inputs', 'histories'], 'all corpora and all prefixes of the merge sequence', 'The invariant must hold after each merge, for adversarial repeats such as aaa.')
p('B02', 'BPE merges the most frequent pair and stops when told',
  'Each merge joins a pair that currently has the highest count, decided on up-to-date counts. Learning stops exactly when the requested vocabulary size is reached, no pair is left, or the best count is below the required evidence.',
  ['inputs', 'configurations', 'histories'], 'all corpora, sizes and evidence limits', 'Depends on stale counts that only arise in long histories.', ['nlcodec/bpe.py', 'nlcodec/dstruct.py'])
p('B03', 'BPE learning is reproducible',
  'Learning from the same term counts with the same options always gives the same vocabulary, independent of hash randomisation, process and machine. Ties are broken by the data alone.',
  ['inputs', 'configurations'], 'all hash seeds and corpora', 'A test process has one hash seed.', ['nlcodec/bpe.py', 'nlcodec/dstruct.py'])
p('D01', 'Stored integers are lossless',
  'Every integer sequence stored in a database field is read back with the same values: the storage width always covers the smallest and largest value of the field, including when it grows while values are added, and for empty fields.',
  ['inputs'], 'all sequences of integers up to 64 bits', 'Limits of each width and mixed signs.')
p('D02', 'A field returns for each id the sequence stored under it',
  'A field stores the sequences of all ids contiguously, and for every id returns exactly the sequence that was added with it, including empty ones. Lengths, keys, values and items agree with each other and keep the order of insertion.',
  ['inputs'], 'all collections of sequences', 'Tests use few, non-empty sequences.')
p('D03', 'Fields of a record stay aligned',
  'Every field of a record returned by a database is the one stored for that record under that field name, for any number of fields and any record order. Records whose number of fields does not fit are refused.',
  ['inputs'], 'all records and field names', 'Tests compare symmetric or single records.')
p('D04', 'An incomplete database never opens',
  'A multi-part database can be opened only if it was closed after all its parts were written completely, and all these parts are still there. A crash or error at any point before leaves a database that is refused.',
  ['crash_points', 'fault_sequences'], 'every point at which writing may stop', 'Tests write to the end.', ['nlcodec/db/core.py', 'nlcodec/spark.py'])
p('D05', 'Iterating a database yields each record once, in order',
  'Iterating yields every stored record exactly once with its id; without shuffling the order is that of insertion, across parts. Shuffling changes the order only, and keeping parts in memory or not makes no difference to the set of records.',
  ['inputs', 'configurations'], 'all record counts and part sizes', 'Part boundaries and more parts than the padding expects.')
p('D06', 'Batches respect their limits and lose nothing',
  'Every batch holds at most the requested number of tokens (longest sequence times batch size) and at most the requested number of sentences. Every record that fits is in exactly one batch of a pass, and a record that cannot fit is reported, not dropped silently.',
  ['inputs', 'configurations'], 'all length distributions and limits', 'Exact boundary values of both limits together.', ['nlcodec/db/core.py', 'nlcodec/db/batch.py'])
p('D07', 'Padded batches contain the sequences and padding only',
  'In a padded batch, each row holds the sequence of its example from the first column on, followed by padding to the longest one; reported lengths are the unpadded lengths. The order of rows is the same for all sides of the batch and masks hide padding and future positions only.',
  ['inputs'], 'all batches', 'Ties, single rows and equal lengths.', ['nlcodec/db/batch.py'])
p('D08', 'Sentence markers are added exactly when asked for',
  'With begin or end markers requested for a side, every sequence of that side starts or ends with exactly that marker; if not requested, none is added. Markers already present are not doubled, and the check of a batch refuses a sequence that disagrees with the request.',
  ['inputs', 'configurations'], 'all combinations of markers and sides', 'Sixteen combinations; tests use one.', ['nlcodec/db/batch.py'])
p('D09', 'Existing data is removed only when overwriting was requested',
  'Creating a database where one exists deletes nothing unless overwriting was requested, and otherwise refuses. With overwriting, no part of the old database remains.',
  ['histories', 'configurations'], 'all previous contents of the target', 'Tests use fresh directories.', ['nlcodec/db/core.py', 'nlcodec/spark.py'])
p('P01', 'Map-reduce combines every item exactly once',
  'The result of a map-reduce is the reduction of all mapped items, each used exactly once and in order, for any number of items, processes and chunk size. Counts of merged frequency tables are the sums of the counts.',
  ['inputs', 'schedules', 'configurations'], 'all inputs and pool sizes', 'Odd counts at each level of the reduction tree.')
p('S01', 'Spark sessions are released by their owner only',
  'A session opened by this library is stopped on every way out, including errors; a session passed in by the caller is never stopped. Options given for the session (master, memory, extra configuration) take effect.',
  ['fault_sequences', 'configurations'], 'all error points', 'No test runs Spark.', ['nlcodec/spark.py', 'nlcodec/term_freq.py'])
p('S02', 'Parallel text stays aligned',
  'The two sides of a parallel corpus are paired by line number and stay paired through filtering, truncation, encoding and storing; corpora of different lengths are refused. Each side is limited by its own length, encoded by its own model and stored under its own name.',
  ['inputs', 'configurations'], 'all corpora and options', 'No test runs Spark.', ['nlcodec/spark.py', 'nlcodec/bitextdb.py'])
p('S03', 'Term counts are exact',
  'Word and character counts are the number of occurrences over all lines (over distinct lines when deduplicating), tokens are white-space separated, and the line count is the number of lines counted.',
  ['inputs', 'configurations'], 'all corpora, number of files and options', 'Distributed counting is not tested.', ['nlcodec/term_freq.py', 'nlcodec/codec.py'])
p('L01', 'Command line options take effect as documented',
  'Every option of every command reaches the operation it documents, with the documented default, for all combinations of options. No option is accepted and ignored.',
  ['configurations'], 'all combinations of options', 'Tests call the functions, not the commands.', ['nlcodec/__main__.py', 'nlcodec/learn.py', 'nlcodec/term_freq.py', 'nlcodec/bitextdb.py', 'nlcodec/qestim.py', 'nlcodec/eval'])
p('L02', 'Text files are UTF-8, compressed or not, and closed',
  'All text files are read and written as UTF-8 whatever the locale, with the same content whether compressed or plain, one output line per input line. Files opened by the library are closed on every way out; streams passed in by the caller stay open.',
  ['inputs', 'configurations', 'fault_sequences'], 'all locales, file names and errors', 'Tests run in one locale.')
p('L03', 'Cached statistics are used only if complete',
  'Statistics files that later runs reuse appear under their final name only when completely written, so an interrupted run never leaves one that is taken for complete. A later run uses an existing file with the same meaning as a fresh count.',
  ['crash_points', 'histories'], 'every point at which writing may stop', 'No test interrupts a run.', ['nlcodec/learn.py', 'nlcodec/term_freq.py'])
p('E01', 'Merge-by-merge length statistics are exact',
  'When tracking how a corpus shrinks merge by merge, after each merge the type counts and sequence lengths are those of the corpus segmented with the merges so far. Merges are replayed in the order they were learned.',
  ['inputs', 'histories'], 'all corpora and prefixes of the merge list', 'Not tested.', ['nlcodec/eval/bpe_len.py', 'nlcodec/dstruct.py'])
p('E02', 'N-gram precision and recall are symmetric and clipped',
  'For each n-gram type, recall counts matches clipped to the candidate count, precision is recall with the roles exchanged, and both are normalised by the total of their side; the f-measure combines them harmonically and is defined when either is zero. N-grams never span sentences.',
  ['inputs'], 'all candidate and reference files', 'Not tested.', ['nlcodec/eval/pr_measure.py', 'nlcodec/utils.py'])
p('E03', 'Out-of-vocabulary counts partition the tokens',
  'Every token and type of a text is counted either as in the vocabulary or as out of it, never both, and the reported totals and rates are computed from these two.',
  ['inputs'], 'all texts and vocabularies', 'Not tested.', ['nlcodec/eval/oov_count.py'])
p('E04', 'Vocabulary quality measures follow their definitions',
  'The reported length, imbalance and divergence measures are computed from the frequency of each type of the vocabulary in the encoded corpus, including unknowns, with distributions that sum to one; invalid distributions are refused.',
  ['inputs'], 'all corpora and schemes', 'Not tested.', ['nlcodec/qestim.py'])
# not claimed
p('N01', 'BPE learning finds the same merges as exhaustive recounting',
  'For every corpus, the sequence of merges equals that of a naive algorithm that recounts all pairs after each merge.', ['inputs', 'histories'],
  'all corpora', 'Tests compare no second implementation.', ['nlcodec/bpe.py'])
p('N02', 'Learning time and memory stay near linear', 'Learning from a corpus takes time and memory that grow near linearly with the number of distinct words.',
  ['inputs'], 'all corpora', 'Tests are small.', ['nlcodec/bpe.py'])
p('N03', 'Randomised splits follow the requested distribution', 'The fraction of types split and the choice among permutations follow the requested ratio and are uniform.',
  ['inputs', 'histories'], 'all random outcomes', 'Statistical.', ['nlcodec/codec.py'])
p('N04', 'Distance measures are numerically accurate', 'Earth mover distance and divergences are accurate to rounding for all distributions.', ['inputs'], 'all distributions', 'Floating point.', ['nlcodec/qestim.py'])

NA = {
    'N01': 'Equality of two runs over all histories of a heap with stale entries needs an inductive argument about runtime values; the bookkeeping and selection steps it rests on are decided under B01 and B02.',
    'N02': 'Running time and memory quantify over runtime sizes; no sound static bound is in reach for heap and dictionary operations here.',
    'N03': 'A statement about a probability distribution; the source only shows which choices exist (decided under C08).',
    'N04': 'Floating point accuracy for all inputs is a numerical property; the formulas themselves are decided under E04.',
}

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as o:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        o.write(json.dumps(x, ensure_ascii=False) + '\n')

M = {
    'version': 1,
    'setup_cmd': 'python3 -c "import sa.check"',
    'checks': [{'property': x['id'], 'quick_cmd': f"python3 -m sa.check {x['id']}", 'thorough_cmd': f"python3 -m sa.check {x['id']}",
                'evidence_file': f"evidence/{x['id']}.json",
                'technique': 'gated value numbering of the functions that implement it, compared with reference definitions' + ('; lint on the resolved tree' if x['id'] in ('C02', 'L01', 'L02') else ''),
                'level': 'other',
                'level_note': 'Dataflow analysis of the current source: each listed function computes, stores, writes and refuses what its reference definition does, for all inputs; '
                              'trusts the reference definitions, the analyser and the documented behaviour of libraries; constructs it cannot number are reported as not decided, not as held.'}
               for x in P if x['id'] in RULES],
    'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
    'notes': 'No hooks: the analysis reads the source. See DESIGN.md.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as o:
    json.dump(M, o, indent=1)
assert {x['id'] for x in P} == set(RULES) | set(NA)
print(len(P), 'properties', len(M['checks']), 'checks')

# tables of DESIGN.md
import glob
seeds = {}
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    d = json.load(open(f))
    seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(f)), d))
caught = {}
cf = os.path.join(HERE, 'tools', 'caught.txt')
if os.path.exists(cf):
    for l in open(cf):
        w = l.split()
        if len(w) > 2:
            caught[w[0]] = w[2] == 'rc=1'
rows = []
for x in P:
    if x['id'] not in RULES:
        continue
    groups = {}
    for ob in RULES[x['id']]:
        groups.setdefault((ob.why, ob.facets), []).append(ob.qual.replace('nlcodec.', '', 1))
    rows.append(f"### {x['id']} {x['title']}\n")
    for (why, facets), qs in groups.items():
        fc = 'value' if facets == ('const',) else ', '.join(f.rstrip('*') for f in facets)
        rows.append(f"* {why or 'equal to its reference'} ({fc}): " + ', '.join(f'`{q}`' for q in dict.fromkeys(qs)))
    for r in LINTS.get(x['id'], ()):
        rows.append(f'* lint {r.id}: {r.text}')
    for i, d in seeds.get(x['id'], []):
        rows.append(f"* planted: `{i}` ({d['needs']}): " + {True: 'caught', False: 'missed', None: 'not replayed'}[caught.get(i)])
    rows.append('')
na = [f"* **{k}** {next(x['title'] for x in P if x['id'] == k)}: {v}" for k, v in NA.items()]
dp = os.path.join(HERE, 'DESIGN.md')
t = open(dp).read()
import re
t = re.sub(r'<!-- table -->.*?<!-- /table -->', lambda m: '<!-- table -->\n' + '\n'.join(rows) + '\n<!-- /table -->', t, flags=re.S)
t = re.sub(r'<!-- na -->.*?<!-- /na -->', lambda m: '<!-- na -->\n' + '\n'.join(na) + '\n<!-- /na -->', t, flags=re.S)
open(dp, 'w').write(t)
