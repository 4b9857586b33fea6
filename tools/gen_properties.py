#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit the table here, run, commit both."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(text.split())),
        why_tests_cant=' '.join(why.split()),
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=list(observe), hook_needed=hook)))


CORE = 'nlcodec/db/core.py'
BATCH = 'nlcodec/db/batch.py'
CODEC = 'nlcodec/codec.py'
MAPRED = 'nlcodec/para/mapred.py'
SPARK = 'nlcodec/spark.py'

prop('C01', 'A multipart database is all-or-nothing across crashes',
     """If the process or the machine stops at any instant while a multipart database is being created or
     overwritten, opening that path afterwards either fails or yields exactly one complete dataset: all the records
     of the new one or, when overwriting, all the records of the old one. It never opens with records missing,
     duplicated, altered or mixed, and a new creation with overwriting permitted then succeeds.""",
     ['crash_points', 'inputs', 'configurations'],
     """every dataset, part size and field set; every instant (before, inside or after any file-system operation,
     including torn writes and, for a machine stop, loss of data that was never synced); fresh or overwritten path""",
     """The tests create databases in uninterrupted runs only; no test stops a writer, and the crash points of one
     creation alone number in the hundreds.""",
     [CORE],
     [('_SUCCESS marker written last, checked at open', CORE + ' MultipartDb.Writer.close, MultipartDb.load'),
      ('per-part .meta files written after their part', CORE + ' MultipartDb.Writer.__call__'),
      ('whole file replaced at once', CORE + ' Db.save')],
     state=[('_SUCCESS', 'JSON list of parts and field names; its presence commits the database',
             'file in the database directory'),
            ('part-N, part-N.meta', 'one pickled Db per part and its record count', 'files in the database directory')],
     observe=['MultipartDb.load', 'iteration', 'len()'])

prop('C02', 'Storage errors while creating a database surface and lose nothing else',
     """When any storage operation fails while a database is created (no space, I/O error, permission, short write),
     or the given records fail or are interrupted while they are read, the creation reports an error or the database is complete; what an unsuccessful creation leaves behind never
     opens as a wrong or partial database. Without permission to overwrite, a non-empty target directory makes the
     call fail and stays byte-for-byte as it was. Once the faults stop, creating again with overwriting permitted
     succeeds and the result is complete.""",
     ['fault_sequences', 'inputs', 'configurations'],
     """every sequence of failing, short or refused storage operations and every failing or interrupted record during
     creation, followed by fault-free
     retries; single-file and multipart databases""",
     """Tests never make a storage call fail; the number of places an error can strike grows with the data.""",
     [CORE],
     [('no handler swallows errors; the marker is written only after every part', CORE + ' MultipartDb.create'),
      ('overwrite guard', CORE + ' MultipartDb.Writer.__init__'),
      ('context manager commits only without exception', CORE + ' MultipartDb.Writer.__exit__')],
     observe=['exception from MultipartDb.create / Db.create / Db.save', 'MultipartDb.load', 'directory contents'])

prop('C03', 'Distributed writing stores every record exactly once',
     """When the partitions of a distributed dataset are written as one database by tasks that run concurrently, in
     any order, are retried after failures, run twice, or outlive their replacement, a job that reports success
     leaves a database holding every record exactly once with its own identifier and contents, whatever the number
     and sizes of partitions (empty ones included). A job that reports failure, or is interrupted,
     leaves nothing partial or
     mixed that opens at that path: only, whole, the older database it was to overwrite.""",
     ['schedules', 'fault_sequences', 'inputs', 'configurations'],
     """every partitioning, every interleaving of tasks at storage operations, every pattern of lost executors, task
     retries and duplicate attempts""",
     """One test writes one dataset with one local Spark whose schedule it does not control and where no task ever
     fails; it checks only the record count.""",
     [SPARK, CORE],
     [('one part file per partition number', CORE + ' MultipartDb.Writer.__call__'),
      ('driver commits after the job', SPARK + ' rdd_as_db, MultipartDb.Writer.__exit__')],
     observe=['rdd_as_db return value or exception', 'MultipartDb.load'])

prop('C04', 'Stored records read back exactly on every read path',
     """Every record put in a database is read back with its identifier, and in every field exactly the integers that
     were stored (any lengths including empty, any 64-bit values), by iteration, by look-up, after saving and
     re-opening in another process, in shuffled order, kept in memory or streamed, on every pass and with several
     readers interleaved; each pass yields every record exactly once and the reported size is the number of records.
     A read failure raises an error instead of skipping, truncating or altering anything, and does not spoil later
     reads.""",
     ['histories', 'inputs', 'configurations', 'fault_sequences'],
     """every non-empty dataset, internal buffer size, part size, read mode, random order, interleaving of readers, and
     position of a read failure or truncated file; a field that mixes negative values with values above 2**63 - 1 fits no
     integer type and is refused with an error""",
     """Tests read one random dataset once in each mode, in one order, never after a failure; shuffled reading,
     look-up, interleaved readers and wide values are not exercised.""",
     [CORE],
     [('start/length references into one flat array', CORE + ' SeqField'),
      ('integer type chosen per buffer', CORE + ' best_dtype, SeqField.Builder.shrink'),
      ('parts loaded one at a time or kept', CORE + ' MultipartDb.__iter__')],
     state=[('buffer/frozen', 'values appended but not yet frozen / frozen flat array',
             CORE + ' SeqField.Builder')],
     observe=['Db/MultipartDb iteration, indexing, len()'])

prop('C05', 'An epoch batches every usable record exactly once, within the limits',
     """One pass over a batched dataset puts every record whose fields are all non-empty in exactly one batch and
     nothing else in any, whatever the random order, batching mode, partitioning, memory mode and interleaving with
     other passes. In each batch the number of records times the longest stored sequence never exceeds the token
     limit and the number of records never exceeds the sentence limit. A record that alone exceeds the token limit,
     or a part that cannot be read, makes the pass fail with an error instead of ending early. The number of items
     reported is the number of stored records.""",
     ['schedules', 'inputs', 'configurations', 'fault_sequences'],
     """every dataset with integer identifiers, every limit, every outcome of the random shuffles, single-file and
     multipart, every interleaving of concurrent passes, every position of a read failure""",
     """Tests draw one random epoch and check only the target-token limit; they never count records, use a sentence
     limit, the sequential mode, or a second pass.""",
     [CORE, BATCH],
     [('length-sorted random batches', CORE + ' Db._make_eq_len_batch_ids, make_eq_len_ran_batches'),
      ('sequential batches', BATCH + ' BatchIterable.read_all'),
      ('part order shuffled per epoch', CORE + ' MultipartDb.make_eq_len_ran_batches')],
     observe=['iteration over BatchIterable, Db.make_eq_len_ran_batches, MultipartDb.make_eq_len_ran_batches'])

prop('C06', 'A batch reproduces its records under padding and boundary marks',
     """In every batch delivered in any epoch, each row is exactly one stored record: the stored sequence, with the
     configured begin/end mark added only where it is required and absent, followed by nothing but padding up to the
     longest row, and source and target rows of the same position come from the same record. Reported lengths, token
     totals and maxima match the rows, rows are in decreasing source length when that is asked for, and the layout
     is transposed when batch-first is off. Building batches never alters the stored data seen by later epochs.""",
     ['histories', 'inputs', 'configurations', 'schedules'],
     """every dataset of values below 2**53, mark/padding configuration, layout and random order, over repeated and
     interleaved epochs; a stored mark where none is configured is refused with an error""",
     """Tests use one mark configuration, data that already carries the marks, and look at no batch content.""",
     [BATCH],
     [('marks checked and inserted', BATCH + ' Batch.bos_eos_check, Batch.val_exists'),
      ('padded matrix fill', BATCH + ' Batch.__init__')],
     observe=['Batch.x_seqs, y_seqs, x_len, y_len, x_toks, y_toks, max_x_len, max_y_len'])

prop('C07', 'Parallel encoding equals sequential encoding',
     """Encoding a stream of lines with several worker processes yields exactly what encoding the lines one by one
     yields: the same results in input order, none lost, duplicated or swapped, for every number of lines, workers
     and lines per chunk, whatever the relative speed of the workers, the reader and the consumer. When the consumer
     finishes or abandons the stream, all workers are released.""",
     ['schedules', 'inputs', 'configurations'],
     """every interleaving of worker processes, pool threads, input producer and consumer; every scheme, worker count
     of at least two and chunk size""",
     """No test calls parallel encoding at all, and the interleaving of a real pool cannot be chosen by a test.""",
     [CODEC],
     [('ordered imap over a process pool, inside a generator', CODEC + ' EncoderScheme.parallel_map')],
     observe=['EncoderScheme.encode_parallel, EncoderScheme.parallel_map'])

prop('C08', 'Parallel map-reduce equals the sequential fold',
     """For every non-empty input, map-reduce returns exactly the fold of the mapped items in input order, each item
     used once, for every reducer that is associative and has the given default as identity (commutative or not),
     whatever the number of map and reduce processes, the chunk size and the scheduling, and equally when run without
     processes. Word counting by map-reduce therefore equals direct counting.""",
     ['schedules', 'inputs', 'configurations'],
     """every interleaving of the two pools, their threads and workers; every input length, chunk size and pool size""",
     """The one test sums numbers in uncontrolled schedules: addition cannot see reordering and lengths are multiples
     of the chunk size.""",
     [MAPRED],
     [('pairing of subsequent items, odd item paired with default', MAPRED + ' pair_subsequent'),
      ('rounds of lazy reduction until one item is left', MAPRED + ' IterativeReducer.__call__'),
      ('two pools', MAPRED + ' MapReduce.multiprocess')],
     observe=['MapReduce.__call__, MapReduce.multiprocess, ireduce'])

prop('C09', 'Parallel pipelines fail loudly and always terminate',
     """If the mapper, the reducer, the encoder or the input stream raises at any item under any scheduling
     (anything but StopIteration, which Python takes for the end of an iterator), the parallel call raises that error to its caller, after delivering at most a correct prefix of the results, and
     never completes normally with anything missing. With or without such errors it neither deadlocks nor leaves
     workers running, also when the consumer stops early, on inputs that never end too, or is interrupted (alone, or
     with its workers as a terminal does it) while it waits for a result.""",
     ['schedules', 'fault_sequences', 'inputs'],
     """every position and number of failing items in mapper, reducer, encoder and input stream (any Exception but
     StopIteration, which Python's iteration protocol reserves), and every moment of an interrupt, combined with every interleaving of pools, workers,
     producer and consumer""",
     """No test makes a worker or an input fail, and the schedules in which shut-down and an error race cannot be
     chosen by a test.""",
     [MAPRED, CODEC],
     [('errors carried through ordered imap; pools closed by with-blocks',
       MAPRED + ' MapReduce.multiprocess; ' + CODEC + ' EncoderScheme.parallel_map')],
     observe=['exceptions from MapReduce.multiprocess and encode_parallel', 'pool processes'])

prop('C10', 'Distributed frequency counts are exact',
     """The word, character and line counts computed on a cluster are exactly the counts over all the lines of all
     the input files, or over the distinct lines when de-duplication is asked for, however the lines are partitioned,
     ordered, shuffled or recomputed after failures, and whatever the words are. Writing them as a frequency file, most
     frequent first, and reading that file back gives the same counts and line count. A cluster session that counting
     starts by itself is stopped however counting ends, interrupts included; one it is given keeps running.""",
     ['schedules', 'fault_sequences', 'inputs', 'configurations'],
     """every text, set of files, partitioning, task order, shuffle arrival order and pattern of recomputed tasks;
     plain and compressed frequency files""",
     """Nothing in the test suite runs the frequency counting.""",
     ['nlcodec/term_freq.py', CODEC, 'nlcodec/utils.py'],
     [('flatMap/reduceByKey with a line marker', 'nlcodec/term_freq.py word_counts'),
      ('frequency file with header', 'nlcodec/term_freq.py write_stats; ' + CODEC + ' WordScheme.read_term_freqs')],
     observe=['word_counts', 'write_stats output', 'WordScheme.read_term_freqs'])

prop('C11', 'Parallel text stays aligned through distributed encoding',
     """When a source and a target text file are encoded into a database on a cluster, each stored record pairs the
     encoding of source line i with the encoding of target line i, identified by i, whatever the partitioning, task
     order, shuffles, retries and requested number of parts. Exactly the pairs with an empty side, and when dropping
     is chosen those longer than the limits, are left out; when truncation is chosen sequences are cut to the limits;
     files of different length are refused. The fields have the names, the database at most the number of parts, and the
     cluster session the master and memory that were asked for, and the session is
     stopped however the command ends, interrupts included; a command that did not finish leaves no database that opens.""",
     ['schedules', 'fault_sequences', 'inputs', 'configurations'],
     """every pair of texts of which at least one pair survives, codecs, limits, partitioning of either file, task and
     shuffle order, retried and duplicated tasks""",
     """No test reads parallel text or runs the database command.""",
     [SPARK, 'nlcodec/bitextdb.py'],
     [('zipWithIndex on both sides and join on the index', SPARK + ' read_raw_bitext'),
      ('filter, encode, truncate or drop', SPARK + ' read_raw_bitext_tok')],
     observe=['nlcodec.bitextdb.main (nlcodec-db)', 'read_raw_bitext, read_raw_bitext_tok'])

prop('C12', 'Learning on a cluster can be interrupted and re-run',
     """However often the cluster learning command is stopped (killed, machine stopped, storage error) and run again,
     a run that ends successfully has produced a model learned from the exact counts over the complete input, as an
     uninterrupted run would. Intermediate files left by earlier runs are either complete and reused, or not used at
     all. Counting happens on the cluster asked for, whose session is stopped when a run ends or is interrupted.""",
     ['crash_points', 'fault_sequences', 'histories', 'configurations'],
     """every crash point and storage failure in any number of consecutive runs, followed by a fault-free run; every
     level, text and partitioning""",
     """Nothing in the test suite runs the command, once or twice.""",
     ['nlcodec/learn.py', 'nlcodec/utils.py', 'nlcodec/term_freq.py', CODEC],
     [('existing frequency files are reused', 'nlcodec/learn.py main'),
      ('frequency files appear complete or not at all', 'nlcodec/learn.py main')],
     observe=['nlcodec.learn.main (nlcodec-learn)', 'model file'])

prop('C13', 'A model file is complete or refused, and reloads to the same codec',
     """If saving a model is interrupted or fails at any point, loading that path afterwards either fails or gives
     exactly the previous complete model or exactly the new one, never a shortened or altered vocabulary; a save that
     returns without error has written the complete model. A reloaded model, in the same or another process and whatever its locale, has the
     same scheme, types, indices, frequencies and pieces and encodes and decodes every text as the model that was saved.
     When several processes save to and load from one path at the same time, every load sees one of the complete
     models, and they appear in one order, also when some of the processes end half way. Model files that earlier versions
     wrote without the name of their scheme load as the word, character or subword codec they hold.""",
     ['schedules', 'crash_points', 'fault_sequences', 'histories', 'inputs'],
     """every vocabulary of every scheme (class labels without tabs and line breaks, which delimit the file), every crash point (torn writes and loss of unsynced data included) and
     storage failure in a save, fresh or over an existing model, over repeated save/load/shrink histories; every
     interleaving of the storage operations of several savers and loaders""",
     """Tests save and load once, alone and without interruption, and compare only the printed tables.""",
     [CODEC],
     [('header with the number of types, one line per type', CODEC + ' Type.write_out, Type.read_vocab'),
      ('scheme recorded and restored', CODEC + ' EncoderScheme.save, load_scheme')],
     observe=['learn_vocab(model=...), EncoderScheme.save, load_scheme, Type.read_vocab, encode, decode'])

prop('C14', 'Learning is reproducible and well-formed in every process',
     """Learning a vocabulary from the same lines with the same settings gives the identical model (names, order,
     frequencies, pieces) in every process, whatever the memory layout, hash seed and timing. A word,
     character or subword model never exceeds the requested size and keeps the reserved types at their fixed indices, a byte model has exactly the reserved types and the 256 bytes; a model has no piece composed of later ones, names
     every merged piece as the concatenation of its two pieces, and the end of possible merges ends learning
     normally.""",
     ['schedules', 'inputs', 'configurations'],
     """every corpus and setting; every placement of objects in memory and every string-hash seed, as they decide the
     iteration order of hash-based collections; every clock""",
     """Tests learn once per process and compare the model only with its own file; the variation comes from addresses
     and hash seeds a test does not control.""",
     ['nlcodec/bpe.py', 'nlcodec/dstruct.py', CODEC],
     [('occurrence index of pairs, lazily corrected max-heap', 'nlcodec/bpe.py BPELearn.learn_codes'),
      ('reserved types and init vocabulary', CODEC + ' EncoderScheme.get_init_vocab')],
     state=[('bi_ixs', 'occurrences of each pair as linked-list nodes hashed by address', 'nlcodec/bpe.py BPELearn')],
     observe=['learn_vocab, BPELearn.learn_subwords'])

prop('C15', 'Stream encoding and decoding are faithful line by line',
     """The encode and decode commands turn input line i into output line i, for every line and however the bytes
     arrive or are accepted (split characters, short reads, slow pipes, interruptions). A line is encoded as its
     words, characters, bytes or label, or as the longest subwords of the vocabulary from left to right, with the
     unknown type where the vocabulary has none; any line of codes decodes to the text they spell, and what encode
     wrote to the text it was: exactly for bytes, up to runs of white space for characters, words and subwords within
     the vocabulary, and the label for classes. If reading or writing fails or the disk fills up, the command does not
     report success unless the complete output was written.""",
     ['schedules', 'fault_sequences', 'inputs', 'configurations'],
     """every text of encodable characters, scheme, piece or index format, split of the byte streams, and position of a
     read or write failure""",
     """No test runs the command line; in-memory tests cover one scheme's round trip on three strings.""",
     ['nlcodec/__main__.py', CODEC],
     [('line-wise generators', CODEC + ' encode, decode; nlcodec/__main__.py write_lines'),
      ('encode_str/decode_str of each scheme', CODEC)],
     observe=['nlcodec.__main__.main encode/decode (nlcodec)', 'exit status', 'output bytes'])

prop('C16', 'Randomised subword splitting never changes the text',
     """Whatever the random choices, split ratio and process in which they are made, a subword-regularised encoding
     decodes to the same text as the plain one, and each plain piece is replaced by one of the listed ways to compose
     it from its pieces. With ratio zero it equals the plain encoding, and with ratio one every piece is split to
     its indivisible pieces.""",
     ['schedules', 'inputs', 'configurations'],
     """every outcome sequence of the random source, adversarial ones included; every learned, reloaded or shrunk model
     and every line; in the main process and in parallel workers""",
     """No test encodes with splitting.""",
     [CODEC],
     [('recursive split by a random draw', CODEC + ' Type.get_stochastic_split, BPEScheme.stochastic_split'),
      ('all compositions', CODEC + ' Type.get_permutations')],
     observe=['BPEScheme.encode/encode_str(split_ratio), Type.get_stochastic_split, Type.get_permutations'])

prop('C17', 'Shrinking a vocabulary keeps everything that is used',
     """Shrinking a model to a set of files keeps all reserved types, every type used at least the given number of
     times and every piece these are composed of, and drops the rest; the returned mapping gives for each new index
     the old index of the same type, in increasing order, and the saved model is of the same scheme and, with minimum
     one, encodes the lines of those files to the same pieces. If reading a file or saving fails or is interrupted,
     the call fails or the result is the complete one, never a model shrunk to part of the data.""",
     ['fault_sequences', 'crash_points', 'inputs', 'histories'],
     """every model of every scheme, set of plain or compressed files, threshold, position of a read or write failure
     or crash, and repeated shrinking""",
     """One test shrinks one model to one file and checks only that the sizes agree.""",
     [CODEC, 'nlcodec/utils.py'],
     [('frequency pass over the files, then closure over pieces', CODEC + ' EncoderScheme.shrink_vocab'),
      ('file reader', 'nlcodec/utils.py IO')],
     observe=['EncoderScheme.shrink_vocab', 'load_scheme of the saved file'])

prop('C18', 'Vocabulary selection honours frequency, coverage and size limits',
     """A learned word or character vocabulary, and the alphabet of a subword vocabulary, holds exactly the most frequent
     types allowed by the coverage, minimum frequency and size limits, in decreasing frequency and with their exact
     frequencies, and accounts everything left out to the unknown type and the number of lines to the boundary types; a
     class vocabulary holds every label in alphabetical order. This holds whether the text arrives as lines, as a file
     read in portions, as frequencies in any order, or is counted by a cluster whose tasks fail, repeat and finish in
     any order.""",
     ['inputs', 'configurations', 'schedules', 'fault_sequences'], """every frequency table and combination of limits,
     every order in which frequencies arrive, every execution of the counting job""",
     'Tests learn no word or character vocabulary and compare no selection.',
     [CODEC, 'nlcodec/utils.py', 'nlcodec/learn.py', 'nlcodec/term_freq.py'],
     [('trimming by coverage, frequency, size', CODEC + ' EncoderScheme.get_init_vocab; nlcodec/utils.py filter_types_coverage'),
      ('reading frequencies', CODEC + ' read_term_freqs'), ('learning on a cluster', 'nlcodec/learn.py main')],
     observe=['learn_vocab', 'nlcodec-learn'])

prop('C19', 'Subword merges follow the most-frequent-pair rule',
     """Each merge in a learned subword vocabulary is a most frequent adjacent pair of the corpus as segmented by the
     earlier merges and is recorded with that pair's frequency, and learning stops exactly when the size is reached or
     no pair reaches the minimum co-occurrence; whatever the memory layout of the learner, the timing, and the order and
     portions in which the text or its frequencies arrive.""",
     ['inputs', 'configurations', 'histories'], """every corpus, vocabulary size, minimum
     co-occurrence, memory layout and arrival order""",
     'The test checks only the vocabulary size for one corpus in one process.',
     ['nlcodec/bpe.py', 'nlcodec/dstruct.py'],
     [('max-heap with lazy decrements', 'nlcodec/bpe.py BPELearn.learn_codes; nlcodec/dstruct.py MaxHeap')],
     observe=['learn_vocab'])

prop('C20', 'Quality and evaluation measures equal their definitions',
     """The estimate command and the evaluation tools report token counts, mean lengths, imbalance, divergences,
     n-gram frequencies, n-gram precision/recall and out-of-vocabulary rates equal to their mathematical definitions on
     the given text, however their worker processes are scheduled, their nodes are laid out in memory and the bytes
     arrive or are accepted; if reading or writing fails, they do not report success with anything missing.""",
     ['inputs', 'schedules', 'fault_sequences'], """every text and model, schedule of the workers
     and position of a read or write failure""",
     'Nothing in the test suite runs them.',
     ['nlcodec/qestim.py', 'nlcodec/eval'],
     [('counting and formulas', 'nlcodec/qestim.py, nlcodec/eval/*.py')],
     observe=['nlcodec estimate, nlcodec.eval.*'])

prop('C21', 'The smallest fitting integer type is chosen',
     """For any integer range, the chosen storage type contains the range, and no smaller type does; a range no
     64-bit type contains is refused.""",
     ['inputs'], 'every pair of integers', 'The test samples fifteen ranges.',
     [CORE], [('ordered options', CORE + ' best_dtype')],
     observe=['best_dtype'])

prop('C22', 'Reading order is the stored order, or newly random on every pass when asked for',
     """Without shuffling, every pass over a database or over its batches follows the stored order (parts by number,
     records as they were written), in every process, whatever the state of the random sources and the order in which
     the file system lists files. When shuffling is asked for, or batches in random order, every pass takes the order of
     the parts and of the records within each part anew from the random sources, so that every such order can come up;
     in length-grouped batching this holds for the order of parts and batches and for which records of equal length
     share a batch, while records of different length do not share one unless a group does not fill its batches. The
     same state of the random sources gives the same order again.""",
     ['schedules', 'inputs', 'histories'], """every state of the random sources, order of directory
     entries and of the writing of parts, number of parts and records, memory mode and interleaving of passes""",
     'Tests read one small database once in stored order; no test looks at a shuffled order or at several parts.',
     [CORE, 'nlcodec/db/batch.py'],
     [('order of records', CORE + ' Db.__iter__, MultipartDb.__iter__'), ('order of parts', CORE + ' MultipartDb.Writer.close'),
      ('length groups', CORE + ' _make_eq_len_batch_ids'), ('modes', 'nlcodec/db/batch.py BatchIterable')],
     observe=['Db, MultipartDb, BatchIterable iteration'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w', encoding='utf8') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
