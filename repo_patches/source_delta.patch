From f72ccd35767040b1a603c3dbceb02b3dc7b4c6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:17 +0000
Subject: [PATCH 01/41] fix: shuffled iteration of a Db

random.shuffle() needs a list; a set raised TypeError.
---
 nlcodec/db/core.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index de71a5d..639c34b 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -9,12 +9,10 @@ import json
 import math
 import os
 import pickle
-import random
 import shutil
 from collections import namedtuple, defaultdict
 from pathlib import Path
 from typing import List, Iterator, Dict, Any, Tuple
-import copy
 import random
 import numpy as np
 
@@ -220,7 +218,7 @@ class Db:
     def __iter__(self):
         ids = self.ids
         if self.shuffle:
-            ids = copy.copy(ids)
+            ids = list(ids)
             random.shuffle(ids)
         for _id in ids:
             yield self[_id]
-- 
2.43.0


From 319baebc8a6ed56149a4d05c0784d46ed2d34550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:17 +0000
Subject: [PATCH 02/41] fix: length-sorted batches held max_sents + 1 records

---
 nlcodec/db/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index 639c34b..b1a1c09 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -246,7 +246,7 @@ class Db:
                 log.warning(f"Skipping record {_id}, either source or target is empty")
                 continue
 
-            if (len(batch) + 1) * max(max_len, _len) > max_toks or len(batch) > max_sents:
+            if (len(batch) + 1) * max(max_len, _len) > max_toks or len(batch) >= max_sents:
                 if _len > max_toks:
                     raise Exception(f'Unable to make a batch of {max_toks} toks'
                                     f' with a seq of len:{_len}')
-- 
2.43.0


From b8af5d7550cb3a59d7dbfe70ec8f0c58f343c1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:17 +0000
Subject: [PATCH 03/41] fix: MultipartDb.load opened a database whose parts
 were gone

The result of exists() was ignored, so a database that was only partly
removed (killed while overwriting) still opened.
---
 nlcodec/db/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index b1a1c09..38d3029 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -313,7 +313,7 @@ class MultipartDb:
         rec_counts = []
         for part_name, stats in meta['parts'].items():
             part_file = path / part_name
-            part_file.exists()
+            assert part_file.exists(), f'{part_file} is missing; the data is incomplete or corrupted'
             part_files.append(part_file)
             rec_counts.append(stats['count'])
         field_names = meta['field_names']
-- 
2.43.0


From 7a7ddc3374a2fae0ce4d06d398922cb7e9c114b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:17 +0000
Subject: [PATCH 04/41] fix: sequences with large values were stored as float64

Concatenating int8 (or any signed type) and uint64 arrays promotes to float64,
so values beyond 2**53 were altered and all others read back as floats.
---
 nlcodec/db/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index 38d3029..1019bc9 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -88,7 +88,13 @@ class SeqField:
             if self.buffer:
                 dtype = best_dtype(mn=min(self.buffer), mx=max(self.buffer))
                 data = np.array(self.buffer, dtype=dtype)
-                self.frozen = np.concatenate((self.frozen, data))
+                if len(self.frozen):
+                    # the integer type that fits both; numpy promotes uint64 with a signed type
+                    # to float64, which is not exact
+                    dtype = best_dtype(mn=min(int(self.frozen.min()), int(data.min())),
+                                       mx=max(int(self.frozen.max()), int(data.max())))
+                    data = np.concatenate((self.frozen.astype(dtype), data.astype(dtype)))
+                self.frozen = data
                 self.buffer = []
 
         def build(self):
-- 
2.43.0


From 94a60f0f38026781c02d36f6300a939ca45684d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:17 +0000
Subject: [PATCH 05/41] fix: BatchIterable given the path of a directory as str

self.data_path is still the str there, which has no is_dir().
---
 nlcodec/db/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/db/batch.py b/nlcodec/db/batch.py
index 1c9c092..db1b384 100644
--- a/nlcodec/db/batch.py
+++ b/nlcodec/db/batch.py
@@ -219,7 +219,7 @@ class BatchIterable(Iterable[Batch]):
         assert data_path.exists(), f'Invalid State: {data_path} is NOT found.'
         if data_path.is_file():
             self.data = Db.load(data_path, rec_type=IdExample)
-        elif self.data_path.is_dir():
+        elif data_path.is_dir():
             self.data = MultipartDb.load(data_path, rec_type=IdExample, keep_in_mem=keep_in_mem)
         else:
             raise Exception(f'Invalid State: {data_path} is should be a file or dir.')
-- 
2.43.0


From fe55fe1a38ddfbfb1491ec7453e0bc1a70e07aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:17 +0000
Subject: [PATCH 06/41] fix: one part without usable records ended the whole
 epoch

When all the records of a part have an empty side, indexing the empty row
array raised IndexError.
---
 nlcodec/db/core.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index 1019bc9..4dbc5d6 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -241,6 +241,8 @@ class Db:
                 rows.append((_id, max(lens)))
         if len(skip_counter) > 0:
             log.warning(f"Skipped :: {skip_counter}")
+        if not rows:
+            return []
         rows = np.array(rows)  # id, len
         np.random.shuffle(rows)  # in-place, along the first axis; for extra rand within len group
         rows = rows[rows[:, 1].argsort()]  # sort by second col wiz len
@@ -266,10 +268,12 @@ class Db:
             batches.append(np.array(batch))
         return batches
 
-    def make_eq_len_ran_batches(self, max_toks, max_sents=float('inf')):
+    def make_eq_len_ran_batches(self, max_toks, max_sents=float('inf'), allow_empty=False):
 
         batches = self._make_eq_len_batch_ids(max_toks=max_toks, max_sents=max_sents)
         if not batches:
+            if allow_empty:
+                return
             raise Exception(f'Found no data. Please check config data paths')
         log.info(f"length sorted random batches = {len(batches)}. Shuffling🔀...")
         # every pass introduce some randomness
@@ -359,10 +363,17 @@ class MultipartDb:
         buff = list(zip(self.part_paths, self.mem))
         random.shuffle(buff)
 
+        found = False
         for path, part in buff:
             if part is None:
                 part = Db.load(path, rec_type=self.rec_type)
-            yield from part.make_eq_len_ran_batches(max_toks=max_toks, max_sents=max_sents)
+            # a part may have nothing but skipped records
+            for batch in part.make_eq_len_ran_batches(max_toks=max_toks, max_sents=max_sents,
+                                                      allow_empty=True):
+                found = True
+                yield batch
+        if not found:
+            raise Exception(f'Found no data. Please check config data paths')
 
     class Writer:
 
-- 
2.43.0


From 1a80e4c00a8f9e9dc1e371214a813fe7c61c087a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:17 +0000
Subject: [PATCH 07/41] fix: an empty partition failed the whole distributed
 write

Db cannot be empty, so the task that writes an empty partition died with
AssertionError, for instance after repartition or filter.
---
 nlcodec/db/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index 4dbc5d6..12f38cc 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -393,6 +393,11 @@ class MultipartDb:
 
         def __call__(self, part_num: int, recs):
             # assume recs have ids created externally
+            recs = iter(recs)
+            first = next(recs, None)
+            if first is None:   # an empty partition (pyspark) has no part
+                return ()
+            recs = itertools.chain([first], recs)
             part = Db.create(recs, field_names=self.field_names, has_id=True)
             part_path = self.path / f'part-{part_num:0{self.part_path_pad}d}'
             part.save(part_path)
-- 
2.43.0


From 20f0fc1b8ea3b677922e49d911481f791029104b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:38 +0000
Subject: [PATCH 08/41] fix: database files could be seen half written

A duplicate attempt of a task truncated the part of the committed attempt and,
if it was killed, left it so under a database already marked _SUCCESS. After a
machine stop, _SUCCESS could be on disk when the data of the parts was not.
Files are now written aside, synced and renamed.
---
 nlcodec/db/core.py | 13 ++++++++-----
 nlcodec/utils.py   | 35 +++++++++++++++++++++++++++++++++++
 2 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index 12f38cc..d363b8e 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -17,7 +17,7 @@ import random
 import numpy as np
 
 from nlcodec import log
-from nlcodec.utils import as_path
+from nlcodec.utils import as_path, replacing
 
 Array = np.ndarray
 Record = Tuple[Array]
@@ -185,8 +185,9 @@ class Db:
 
     def save(self, path):
         log.debug(f"Saving to {path}")
-        with open(path, 'wb') as f:
-            pickle.dump(self, f)
+        with replacing(path) as tmp_path:
+            with open(tmp_path, 'wb') as f:
+                pickle.dump(self, f)
 
     @classmethod
     def load(cls, path, rec_type=None, shuffle=False) -> 'Db':
@@ -404,7 +405,8 @@ class MultipartDb:
             meta_path = part_path.with_suffix('.meta')
             meta = dict(count=len(part), size=part_path.stat().st_size)
             meta = json.dumps(meta, ensure_ascii=False, indent=2)
-            meta_path.write_text(meta)
+            with replacing(meta_path) as tmp_path:
+                tmp_path.write_text(meta)
             return part_path, len(part)
 
         def close(self):
@@ -414,7 +416,8 @@ class MultipartDb:
                 parts[part_name] = json.loads(meta_path.read_text())
             meta = dict(parts=parts, field_names=self.field_names)
             flag_file = self.path / '_SUCCESS'
-            flag_file.write_text(json.dumps(meta, indent=2))
+            with replacing(flag_file) as tmp_path:
+                tmp_path.write_text(json.dumps(meta, indent=2))
 
         def __enter__(self):
             return self
diff --git a/nlcodec/utils.py b/nlcodec/utils.py
index b85072a..667fff4 100644
--- a/nlcodec/utils.py
+++ b/nlcodec/utils.py
@@ -3,13 +3,16 @@
 # Author: Thamme Gowda [tg (at) isi (dot) edu] 
 # Created: 2019-11-12
 import resource
+import shutil
 import sys
 from pathlib import Path
 from typing import List, Any, Iterable, Dict, Tuple, Union
 import collections as coll
 from nlcodec import log
 import gzip
+import os
 import time
+import uuid
 from contextlib import contextmanager
 from datetime import timedelta
 
@@ -59,6 +62,38 @@ def as_path(path: Union[str, Path]) -> Path:
     return path
 
 
+@contextmanager
+def replacing(path: Union[str, Path]):
+    """
+    For writing a file that appears complete or not at all, even when the writer stops half way.
+    Gives the path of a temporary file to be written in the body (it has the same suffix as path);
+    after the body, that file is synced to disk and replaces the file at path.
+    If the body raises, the temporary file is removed and the file at path stays as it was.
+    :param path: path of the file to write
+    """
+    path = Path(os.path.realpath(path))  # if it is a link, what it links to is written
+    if path.exists() and not path.is_file():  # a device or a pipe, for example /dev/stdout
+        yield path
+        return
+    tmp_path = path.with_name(f'.tmp-{uuid.uuid4().hex}-{path.name}')
+    try:
+        yield tmp_path
+        if path.exists():
+            shutil.copymode(path, tmp_path)
+        fd = os.open(tmp_path, os.O_RDONLY)
+        try:
+            os.fsync(fd)
+        finally:
+            os.close(fd)
+        os.replace(tmp_path, path)
+    except BaseException:
+        try:
+            tmp_path.unlink()
+        except OSError:
+            pass
+        raise
+
+
 def max_RSS(who=resource.RUSAGE_SELF) -> Tuple[int, str]:
     """Gets memory usage of current process, maximum so far.
     Maximum so far, since the system call API doesnt provide "current"
-- 
2.43.0


From 23d899024a46dac8aefa0bd6a535f9c231bb8229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:38 +0000
Subject: [PATCH 09/41] fix: a model file cut short by a crash or full disk
 loaded silently

The model is written aside, synced and renamed, and the number of types in the
header is checked when it is read.
---
 nlcodec/codec.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index b118a4a..f16de81 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -13,7 +13,7 @@ from typing import List, TextIO, Dict, Tuple, Union, Iterator, Optional
 import multiprocessing as mp
 from nlcodec import __version__, log
 from nlcodec.dstruct import TrNode
-from nlcodec.utils import filter_types_coverage, IO
+from nlcodec.utils import filter_types_coverage, replacing, IO
 import os
 import sys
 import random
@@ -110,9 +110,11 @@ class Type:  # Type as in word type vs token
     def write_out(cls, table: List['Type'], out: Union[Path, str, TextIO], **meta):
 
         if isinstance(out, Path) or isinstance(out, str):
-            wrtr = open(out, 'w', encoding='utf8', errors='ignore')
-        else:
-            wrtr = out
+            with replacing(out) as tmp_path:
+                with open(tmp_path, 'w', encoding='utf8', errors='ignore') as wrtr:
+                    cls.write_out(table, wrtr, **meta)
+            return
+        wrtr = out
 
         levels = dict(coll.Counter(v.level for v in table))
         max_level = max(levels.keys())
@@ -124,8 +126,6 @@ class Type:  # Type as in word type vs token
         for i, item in enumerate(table):
             assert i == item.idx, f'{item} expected index {i}'
             wrtr.write(item.format() + '\n')
-        if wrtr is not out:
-            wrtr.close()
         log.info(f"Wrote {len(table)} to {wrtr.name}")
 
     @classmethod
@@ -148,6 +148,9 @@ class Type:  # Type as in word type vs token
             v = Type.parse(line=line.rstrip('\n'), vocab=vocab)
             assert v.idx == i
             vocab[i] = v
+        if meta and meta.get('total', len(vocab)) != len(vocab):
+            raise ValueError(f"{rdr.name} is incomplete or corrupted: it should have"
+                             f" {meta['total']} types, but it has {len(vocab)}")
         if rdr is not inp:
             rdr.close()
         log.info(f"read {len(vocab)} types from {rdr.name}")
-- 
2.43.0


From 20b06bc000fe91c050dd173e50f36244db86bc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:34 +0000
Subject: [PATCH 10/41] fix: nlcodec-learn could not be run again

With an existing frequency file, learn_vocab() got the unknown argument 'inp'.
A run stopped while writing that file left part of it, which the next run reused:
an empty .gz even reads as no words at all.
---
 nlcodec/learn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nlcodec/learn.py b/nlcodec/learn.py
index ccf4457..be958e0 100644
--- a/nlcodec/learn.py
+++ b/nlcodec/learn.py
@@ -72,15 +72,15 @@ def main():
         master = args.pop('spark_master')
         driver_mem = args.pop('driver_mem')
         dedup = args.pop('dedup')
+        inp = args.pop('inp')
         if stats_file.exists():
             log.warning(f"{stats_file} exists, reusing it. please delete it if this is wrong.")
         else:
-            inp = args.pop('inp')
             with spark.session(master=master, driver_mem=driver_mem) as session:
                 words, chars, line_count = word_counts(paths=inp, dedup=dedup, spark=session)
-            with utils.IO.writer(words_file) as out:
+            with utils.replacing(words_file) as tmp_file, utils.IO.writer(tmp_file) as out:
                 write_stats(words, out, line_count=line_count)
-            with utils.IO.writer(chars_file) as out:
+            with utils.replacing(chars_file) as tmp_file, utils.IO.writer(tmp_file) as out:
                 write_stats(chars, out, line_count=line_count)
 
     assert stats_file.exists()
-- 
2.43.0


From 28584a38448e8be7da289283c3f3b9e22e912aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:34 +0000
Subject: [PATCH 11/41] fix: decoding of bytes below 0x10

Their pieces have one hex digit, so joining the pieces gave an odd number of
digits or other bytes. encode() also passed the line break to the byte scheme as
part of the text.
---
 nlcodec/codec.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index f16de81..b7f7cf9 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -586,7 +586,7 @@ class ByteScheme(EncoderScheme):
         return f'{code:x}'
 
     def compose_str(self, pieces: List[str]):
-        byte_arr = bytes.fromhex(''.join(pieces))
+        byte_arr = bytes.fromhex(''.join(piece.zfill(2) for piece in pieces))
         return str(byte_arr, encoding=self.encoding, errors=self.errors)
 
     def encode_str(self, line: str) -> List[str]:
@@ -684,6 +684,7 @@ def load_scheme(path: Union[str, Path, TextIO]) -> EncoderScheme:
 def encode(inp: Iterator[str], scheme: EncoderScheme, indices=False) \
         -> Iterator[Union[List[str], List[int]]]:
     for line in inp:
+        line = line.rstrip('\n')
         if indices:
             yield scheme.encode(line)
         else:
-- 
2.43.0


From 022093ddebb07bd69d8091811c00a5918d5d5c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:34 +0000
Subject: [PATCH 12/41] fix: BPE learning raised IndexError when no pairs are
 left to merge

---
 nlcodec/bpe.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nlcodec/bpe.py b/nlcodec/bpe.py
index cfb71ba..4a41a63 100644
--- a/nlcodec/bpe.py
+++ b/nlcodec/bpe.py
@@ -131,6 +131,9 @@ class BPELearn:
         log.info(f"logs every {log_every} seconds")
         for i in range(n_merges):
             # Using MaxHeap for faster lookup of max. But heap gets a bit dirty, so a bit of cleanup
+            if not len(heap):
+                log.warning("Early stop; no more pairs to merge")
+                break
             max_pair, pair_freq = heap.pop()
             while max_pair in heap_dirty:  # clean all max [airs until a clean value
                 freq_update = heap_dirty.pop(max_pair)
@@ -139,10 +142,10 @@ class BPELearn:
                 assert corr_freq >= 0, f'{max_pair}:{pair_freq}, Δ={freq_update} = {corr_freq}'
                 if corr_freq > 0:  # exclude zero count
                     heap.push(max_pair, corr_freq)
-                max_pair, pair_freq = heap.pop()
+                max_pair, pair_freq = heap.pop() if len(heap) else (None, 0)
 
             # here the  actual loop begins
-            if pair_freq < min_co_evidence:
+            if max_pair is None or pair_freq < min_co_evidence:
                 log.warning(f"Early stop; max evidence found is {pair_freq} "
                             f"but min required is {min_co_evidence}")
                 break
-- 
2.43.0


From bddac3b8619cae18c8f1fe30b7dd4248e0ce0cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:34 +0000
Subject: [PATCH 13/41] fix: BPE learning gave different vocabularies from run
 to run

The occurrences of a pair were visited in the order of their memory addresses,
which decides which of overlapping pairs (a a a) merge.
---
 nlcodec/bpe.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/nlcodec/bpe.py b/nlcodec/bpe.py
index 4a41a63..8ceccf2 100644
--- a/nlcodec/bpe.py
+++ b/nlcodec/bpe.py
@@ -6,7 +6,7 @@
 import collections as coll
 import copy
 import time
-from typing import List, Dict, Tuple, Union, Iterator, Set
+from typing import List, Dict, Tuple, Union, Iterator
 
 from nlcodec import log, DEF_MIN_CO_EV
 from nlcodec.codec import Type, Level, Reseved
@@ -39,7 +39,9 @@ class BPELearn:
         self.bi: Dict[Bigram, int] = coll.defaultdict(int)  # bigram frequencies
 
         # Bigram to sequence references
-        self.bi_ixs: Dict[Bigram, Set[LnNode]] = coll.defaultdict(set)
+        # the inner dict is used as an ordered set: LnNode hash is its memory address, so the
+        # iteration order of a set, and the vocabulary learned, would differ from run to run
+        self.bi_ixs: Dict[Bigram, Dict[LnNode, None]] = coll.defaultdict(dict)
 
         self.create_index(seqs)
         self.validate_index()
@@ -68,7 +70,7 @@ class BPELearn:
                     bigm = (seq[i], seq[i + 1])
                     self.bi[bigm] += freq
                     assert nodes[i] not in self.bi_ixs[bigm]
-                    self.bi_ixs[bigm].add(nodes[i])  # bigm found at node i
+                    self.bi_ixs[bigm][nodes[i]] = None  # bigm found at node i
                     self.uni[seq[i]] += freq
                 self.uni[seq[-1]] += freq  # the last unigram count; not covered in the above loop
                 bar_msg = f'MaxRSS={max_RSS()[1]}'
@@ -203,21 +205,21 @@ class BPELearn:
                     heap_deltas[(x_node.val, a)] -= x_node.freq
                     if bi_ixs.get((x_node.val, a)):
                         # not sure why 'if' needed here;
-                        bi_ixs[(x_node.val, a)].remove(x_node)
+                        del bi_ixs[(x_node.val, a)][x_node]
 
                     # add (x_node_val, R) to bi and bi_ixs
                     heap_deltas[(x_node.val, new_type_idx)] += x_node.freq
-                    bi_ixs[(x_node.val, new_type_idx)].add(x_node)
+                    bi_ixs[(x_node.val, new_type_idx)][x_node] = None
                 if y_node:
                     # remove (b, y_node.val) from bi and bi_ixs
                     heap_deltas[(b, y_node.val)] -= b_node.freq
                     if bi_ixs.get((b, y_node.val)):
                         # not sure why 'if' needed here;
-                        bi_ixs[(b, y_node.val)].remove(b_node)
+                        del bi_ixs[(b, y_node.val)][b_node]
 
                     # add (R, y_node.val) to bi and bi_ixs
                     heap_deltas[(new_type_idx, y_node.val)] += b_node.freq
-                    bi_ixs[(new_type_idx, y_node.val)].add(new_node)
+                    bi_ixs[(new_type_idx, y_node.val)][new_node] = None
 
             # however; the counts shouldn't go negative
             assert uni[a] >= 0
-- 
2.43.0


From 5272661e557697089f3faf8f84f9feb976945107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:34 +0000
Subject: [PATCH 14/41] fix: shrunk models lost their scheme

load_scheme() took a shrunk class or byte model for a char model and failed.
---
 nlcodec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index b7f7cf9..3c7aece 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -345,7 +345,7 @@ class EncoderScheme(abc.ABC):
             new_t = old_t.copy(idx=new_idx, kids=new_kids)
             new_table.append(new_t)
         if save_at:
-            Type.write_out(new_table, out=save_at)
+            Type.write_out(new_table, out=save_at, scheme=self.name)
         return mapping
 
     def save(self, out):
-- 
2.43.0


From 8bb5b4b72cd00cc6ae8c166a78dac7237513ba36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:34 +0000
Subject: [PATCH 15/41] fix: shrink_vocab with files of empty lines only raised
 ValueError

---
 nlcodec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index 3c7aece..4bceda6 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -311,7 +311,7 @@ class EncoderScheme(abc.ABC):
             with IO.reader(file) as lines:
                 for line in tqdm(lines):
                     freqs.update(self.encode(line))
-        assert len(self.table) > max(freqs.keys())
+        assert len(self.table) > max(freqs.keys(), default=-1)
         removals = [False] * len(self.table)
         for idx, typ in enumerate(self.table):
             if typ.level == Level.reserved:
-- 
2.43.0


From 81415df9ec0e5fd965387b60421fff6df628328b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:34 +0000
Subject: [PATCH 16/41] fix: the word <!S!> was counted as lines

Also, input without any lines raised KeyError.
---
 nlcodec/term_freq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nlcodec/term_freq.py b/nlcodec/term_freq.py
index b51b6fe..dd71fb9 100644
--- a/nlcodec/term_freq.py
+++ b/nlcodec/term_freq.py
@@ -39,7 +39,7 @@ def word_counts(paths: List[Path], dedup=True, spark=None) \
         if dedup:
             log.info("Dropping duplicates")
             df = df.drop_duplicates()
-        SENT_TAG = '<!S!>'
+        SENT_TAG = None  # no word equals this
         # Tokenize
         # also include a special token, one per line to count lines
         # expand words as sep records
@@ -47,7 +47,7 @@ def word_counts(paths: List[Path], dedup=True, spark=None) \
             .map(lambda word: (word, 1)) \
             .reduceByKey(lambda v1, v2: v1 + v2) \
             .collectAsMap()
-        line_count = word_freqs.pop(SENT_TAG)
+        line_count = word_freqs.pop(SENT_TAG, 0)
         # word_freqs = list(sorted(word_freqs.items(), key=lambda x: x[1], reverse=True))
 
         # char freqs
-- 
2.43.0


From 1b4eadea66a5a72e8f88afb1e77d08b59076ce10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:34 +0000
Subject: [PATCH 17/41] fix: output lost at exit was not reported

The file of -o is never closed; an error while the interpreter flushes it is
ignored and the exit status is 0.
---
 nlcodec/__main__.py  | 1 +
 nlcodec/term_freq.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/nlcodec/__main__.py b/nlcodec/__main__.py
index 1db932b..3481f9e 100644
--- a/nlcodec/__main__.py
+++ b/nlcodec/__main__.py
@@ -16,6 +16,7 @@ def write_lines(lines: Iterator[str], out: TextIO, line_break='\n'):
     for line in lines:
         out.write(line)
         out.write(line_break)
+    out.flush()  # an error at exit (for instance no space left) is not reported
 
 
 class MyFormatter(argparse.ArgumentDefaultsHelpFormatter):
diff --git a/nlcodec/term_freq.py b/nlcodec/term_freq.py
index dd71fb9..ed730e0 100644
--- a/nlcodec/term_freq.py
+++ b/nlcodec/term_freq.py
@@ -77,6 +77,7 @@ def write_stats(stats: Dict[str, int], out, **meta):
     out.write(f"#{header}\n")
     for term, freq in stats:
         out.write(f'{term}\t{freq}\n')
+    out.flush()  # an error at exit (for instance no space left) is not reported
     log.info(f"Wrote {out}")
 
 
-- 
2.43.0


From 1c8ca2accec1df088391e8c1dfcf00af9f477f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:34 +0000
Subject: [PATCH 18/41] fix: dropping longer sentences also dropped those of
 exactly the limit

---
 nlcodec/spark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/spark.py b/nlcodec/spark.py
index 1f7cb03..6834ac4 100644
--- a/nlcodec/spark.py
+++ b/nlcodec/spark.py
@@ -107,7 +107,7 @@ def read_raw_bitext_tok(spark, src_path: Union[str, Path], tgt_path: Union[str,
     if truncate:
         tok_rdd = tok_rdd.map(lambda r: (r[0], r[1][:src_len], r[2][:tgt_len]))
     else:
-        tok_rdd = tok_rdd.filter(lambda r: len(r[1]) < src_len and len(r[2]) < tgt_len)
+        tok_rdd = tok_rdd.filter(lambda r: len(r[1]) <= src_len and len(r[2]) <= tgt_len)
 
     # dataframes doesnt support numpy arrays, so we cast them to python list
     a_row = tok_rdd.take(1)[0]
-- 
2.43.0


From c52aac1040989d329cfa35fbb339bda5fd089e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:58 +0000
Subject: [PATCH 19/41] fix: large values were rounded when a mark was added

---
 nlcodec/db/batch.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nlcodec/db/batch.py b/nlcodec/db/batch.py
index db1b384..ee73395 100644
--- a/nlcodec/db/batch.py
+++ b/nlcodec/db/batch.py
@@ -130,10 +130,12 @@ class Batch:
         seq = getattr(obj, field_name)
         if exist:
             if seq[pos] != val:
+                # the type of batches; numpy promotes uint64 with a signed type to float64
+                seq = np.asarray(seq, dtype=int)
                 if pos == 0:
-                    seq = np.append(np.int32(val), seq)
+                    seq = np.append(val, seq)
                 else:  # pos = -1
-                    seq = np.append(seq, np.int32(val))
+                    seq = np.append(seq, val)
                 # update
                 setattr(obj, field_name, seq)
         else:  # should not have val at pos
-- 
2.43.0


From 2400b8847c12a3d798c4a0c79b4807895a952a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:41 +0000
Subject: [PATCH 20/41] fix: mean lengths by bpe_len depended on the memory
 addresses of its nodes

---
 nlcodec/eval/bpe_len.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/nlcodec/eval/bpe_len.py b/nlcodec/eval/bpe_len.py
index 89dca0d..a59b78b 100644
--- a/nlcodec/eval/bpe_len.py
+++ b/nlcodec/eval/bpe_len.py
@@ -7,7 +7,7 @@ import argparse
 import collections as coll
 import sys
 from pathlib import Path
-from typing import Iterator, Dict, Set, Optional, Union
+from typing import Iterator, Dict, Optional, Union
 
 import numpy as np
 from tqdm import tqdm
@@ -72,7 +72,8 @@ class BpeTracker:
         self.uni: NDArray = np.zeros(bpe.total_types(), dtype=np.long) # term freq ; unigrams
 
         # Bigram to sequence references
-        self.bi_ixs: Dict[Bigram, Set[LnNode]] = coll.defaultdict(set)
+        # the inner dict is used as an ordered set (see BPELearn)
+        self.bi_ixs: Dict[Bigram, Dict[LnNode, None]] = coll.defaultdict(dict)
         self.seq_lens: Optional[NDArray] = None
         self.create_index(data)
 
@@ -99,7 +100,7 @@ class BpeTracker:
         log.info("Encoding and creating index")
         enc_data  = self.bpe.encode_parallel(data)
         uni: Dict[int, int] = coll.defaultdict(int)
-        bi_ixs: Dict[Bigram, Set[LnNode]] = coll.defaultdict(set)
+        bi_ixs: Dict[Bigram, Dict[LnNode, None]] = coll.defaultdict(dict)
         seq_lens = []
         with tqdm(enumerate(enc_data)) as data_bar:
             for idx, seq in data_bar:
@@ -108,7 +109,7 @@ class BpeTracker:
                 for node in seq:
                     uni[node.val] += 1
                 for node in seq[:-1]:
-                    bi_ixs[(node.val, node.right.val)].add(node)
+                    bi_ixs[(node.val, node.right.val)][node] = None
                 bar_msg = f'MaxRSS={max_RSS()[1]}'
                 data_bar.set_postfix_str(bar_msg, refresh=False)
 
@@ -181,12 +182,12 @@ class BpeTracker:
 
                     if u.left:
                         if  bi_ixs.get((u.left.val, a)):
-                            bi_ixs[(u.left.val, a)].remove(u.left)
-                        bi_ixs[(u.left.val, u.val)].add(u.left)
+                            del bi_ixs[(u.left.val, a)][u.left]
+                        bi_ixs[(u.left.val, u.val)][u.left] = None
                     if u.right:
                         if bi_ixs.get((b, u.right.val)):
-                            bi_ixs[(b, u.right.val)].remove(b_node)
-                        bi_ixs[(u.val, u.right.val)].add(u)
+                            del bi_ixs[(b, u.right.val)][b_node]
+                        bi_ixs[(u.val, u.right.val)][u] = None
         k = len(self.bpe)
         emd = self.earth_mov_dist(self.uni[:k])
         mu_len = self.mean_seq_len()
-- 
2.43.0


From d7bac01853fb8df92e9f31b8c39e19a825378a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:41 +0000
Subject: [PATCH 21/41] fix: bpe_len counted pairs that overlap twice

---
 nlcodec/eval/bpe_len.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/eval/bpe_len.py b/nlcodec/eval/bpe_len.py
index a59b78b..ab9e923 100644
--- a/nlcodec/eval/bpe_len.py
+++ b/nlcodec/eval/bpe_len.py
@@ -169,7 +169,7 @@ class BpeTracker:
                         # happens due to repeats like X A A A A Y
                         uni[new_type.idx] -= u.freq
                         uni[a] += u.freq
-                        uni[b] -= u.freq
+                        uni[b] += u.freq
                         continue
                     assert u.val == a
                     assert b_node.val == b, f'expected {a, b} found {u.val, b_node.val} at {b_node}'
-- 
2.43.0


From 3f06756e9b64cf0e90711e7cb04cbcb1b82c5a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:06 +0000
Subject: [PATCH 22/41] fix: pr_measure measured unigrams whatever -n

---
 nlcodec/eval/pr_measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/eval/pr_measure.py b/nlcodec/eval/pr_measure.py
index 232a3d2..a1377ac 100644
--- a/nlcodec/eval/pr_measure.py
+++ b/nlcodec/eval/pr_measure.py
@@ -58,7 +58,7 @@ def main(model_path, cands, refs, n, out, freqs=None):
 
     cands = list(codec.encode_parallel(cands))
     refs = list(codec.encode_parallel(refs))
-    gram_recalls, ref_gram_freqs, gram_precisions, cand_gram_freqs = count_gram_recall(cands, refs)
+    gram_recalls, ref_gram_freqs, gram_precisions, cand_gram_freqs = count_gram_recall(cands, refs, n=n)
     if freqs:
         log.info(f"Loading precomputed gram freqs from {freqs}")
         freqs = [json.loads(l.strip()) for l in freqs]
-- 
2.43.0


From 5b0e9f8262a1643c42a57ec0b147b5d2f8c727bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:06 +0000
Subject: [PATCH 23/41] fix: termfreq and pr_measure did not report output lost
 at exit

---
 nlcodec/eval/pr_measure.py | 1 +
 nlcodec/eval/termfreq.py   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/nlcodec/eval/pr_measure.py b/nlcodec/eval/pr_measure.py
index a1377ac..4ba9d57 100644
--- a/nlcodec/eval/pr_measure.py
+++ b/nlcodec/eval/pr_measure.py
@@ -100,6 +100,7 @@ def main(model_path, cands, refs, n, out, freqs=None):
         cand_freq = cand_gram_freqs.get(gram, -1)
         out.write(f'{i+1}\t{idxs}\t{name}\t{rank_freq}\t{ref_freq}\t{cand_freq}\t{gram_recall:g}'
                   f'\t{gram_precision:g}\t{f1:g}\n')
+    out.flush()  # an error at exit (for instance no space left) is not reported
 
 
 def parse_args():
diff --git a/nlcodec/eval/termfreq.py b/nlcodec/eval/termfreq.py
index 34dd60d..dca021a 100644
--- a/nlcodec/eval/termfreq.py
+++ b/nlcodec/eval/termfreq.py
@@ -42,6 +42,7 @@ def main(inp, out, n, model_path):
         names = [scheme.table[g].name for g in gram]
         line = json.dumps([gram, freq, names], ensure_ascii=False)
         out.write(line + '\n')
+    out.flush()  # an error at exit (for instance no space left) is not reported
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 78b8470577528aa2ad9c18c99dcb200d4dde550b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:06 +0000
Subject: [PATCH 24/41] fix: divergences used np.float, which numpy no longer
 has

---
 nlcodec/qestim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/qestim.py b/nlcodec/qestim.py
index b01a057..d50bea6 100644
--- a/nlcodec/qestim.py
+++ b/nlcodec/qestim.py
@@ -38,7 +38,7 @@ class QualityEstimator:
 
     @staticmethod
     def validate_distribution(distr):
-        assert distr.dtype == np.float
+        assert np.issubdtype(distr.dtype, np.floating)
         assert abs(np.sum(distr) - 1.0) < 1e-4  # sum to 1
         assert np.sum(distr < 0) == 0  # no negatives
 
-- 
2.43.0


From 7e255b6f4e65c0a7e5b1efc7eedf8a66c473e5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:26 +0000
Subject: [PATCH 25/41] fix: estimate counted the last class as unknown, and
 failed for byte models

---
 nlcodec/qestim.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/nlcodec/qestim.py b/nlcodec/qestim.py
index d50bea6..818a89f 100644
--- a/nlcodec/qestim.py
+++ b/nlcodec/qestim.py
@@ -89,25 +89,26 @@ class QualityEstimator:
     def _estimate(self, seqs: Iterator[List[int]]) -> CodecQuality:
         stats = [0] * self.codec.vocab_size
         # lengths = coll.defaultdict(int)
-        n_seqs = 0
+        n_seqs, n_toks, unk_count = 0, 0, 0
+        unk_idx = getattr(self.codec, 'unk_idx', -1)  # -1: it has no type for unknowns
         for seq in tqdm(seqs):
             n_seqs += 1
             for tok in seq:
-                stats[tok] += 1
+                n_toks += 1
+                if tok == unk_idx:
+                    unk_count += 1
+                if tok >= 0:
+                    stats[tok] += 1
 
-        n_toks = sum(stats)
         mean_len = n_toks / n_seqs
         n_types = self.codec.vocab_size
 
-        unk_count = stats[self.codec.unk_idx]
-
         # exclude the reserved types which dont surface in prediction
         #excludes = [typ for typ in self.codec.table if typ.is_reserved and stats[typ.idx] == 0]
         #n_types -= len(excludes)  # exclude reserved
         #for typ in reversed(excludes):  # delete from right
         #    log.info(f'Remove type from balance check: {typ}')
         #    del stats[typ.idx]
-        n_toks = sum(stats)
         imb_measure = self.EMD_simple(stats=stats)
         return CodecQuality(n_types=n_types, imbalance=imb_measure, n_tokens=n_toks,
                             mean_seq_len=mean_len, unk_count=unk_count)
-- 
2.43.0


From 1bb4382b5d434d957e5b4426654ae191f875b1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:26 +0000
Subject: [PATCH 26/41] fix: estimate and the evaluation tools counted line
 breaks as tokens of byte models

---
 nlcodec/eval/pr_measure.py | 2 +-
 nlcodec/eval/termfreq.py   | 2 +-
 nlcodec/qestim.py          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nlcodec/eval/pr_measure.py b/nlcodec/eval/pr_measure.py
index 4ba9d57..9bc7d93 100644
--- a/nlcodec/eval/pr_measure.py
+++ b/nlcodec/eval/pr_measure.py
@@ -53,7 +53,7 @@ def f1_measure(precison, recall):
 
 def main(model_path, cands, refs, n, out, freqs=None):
     codec = load_scheme(model_path)
-    cands, refs = list(cands), list(refs)
+    cands, refs = ([line.rstrip('\n') for line in lines] for lines in (cands, refs))
     assert len(cands) == len(refs), f'cands: {len(cands)} but refs: {len(refs)} lines'
 
     cands = list(codec.encode_parallel(cands))
diff --git a/nlcodec/eval/termfreq.py b/nlcodec/eval/termfreq.py
index dca021a..4eba59d 100644
--- a/nlcodec/eval/termfreq.py
+++ b/nlcodec/eval/termfreq.py
@@ -34,7 +34,7 @@ def encode_all(inp : Iterator[str], scheme: EncoderScheme, index=True):
 
 def main(inp, out, n, model_path):
     scheme = load_scheme(model_path)
-    seqs = scheme.encode_parallel(inp)
+    seqs = scheme.encode_parallel(line.rstrip('\n') for line in inp)
     freqs = make_n_grams_all(seqs, n)
     freqs = sorted(freqs.items(), key=lambda x:x[1], reverse=True)
     for gram, freq in freqs:
diff --git a/nlcodec/qestim.py b/nlcodec/qestim.py
index 818a89f..89424e7 100644
--- a/nlcodec/qestim.py
+++ b/nlcodec/qestim.py
@@ -33,7 +33,7 @@ class QualityEstimator:
         self.codec = codec
 
     def estimate(self, lines: Iterator[str]) -> CodecQuality:
-        seqs = (self.codec.encode(line) for line in lines)
+        seqs = (self.codec.encode(line.rstrip('\n')) for line in lines)
         return self._estimate(seqs)
 
     @staticmethod
-- 
2.43.0


From d697811335679674145f4879084219115552c383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:56 +0000
Subject: [PATCH 27/41] fix: models with pieces longer than the recursion limit
 could not be loaded

---
 nlcodec/dstruct.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/nlcodec/dstruct.py b/nlcodec/dstruct.py
index 459cab4..311f1cf 100644
--- a/nlcodec/dstruct.py
+++ b/nlcodec/dstruct.py
@@ -3,7 +3,7 @@
 # Author: Thamme Gowda [tg (at) isi (dot) edu] 
 # Created: 2019-10-25
 
-from typing import List, Dict, Union, Optional, TypeVar, Generic, Any
+from typing import List, Dict, Union, Optional, TypeVar, Generic, Any, Iterator
 import heapq
 
 
@@ -90,11 +90,20 @@ class TrNode(Generic[T, D]):  # Trie Node or Tree Node
         self.kids = dict() if kids is None else kids
 
     def get_node(self, idxs, create_missing: bool = True) -> 'TrNode[T, D]':
-        if not idxs:
-            return self
-        if create_missing and idxs[0] not in self.kids:  # make one
-            self.kids[idxs[0]] = TrNode(idx=idxs[0], parent=self)
-        return self.kids[idxs[0]].get_node(idxs=idxs[1:], create_missing=create_missing)
+        node = self  # a loop, since names can be longer than the recursion limit
+        for idx in idxs:
+            if create_missing and idx not in node.kids:  # make one
+                node.kids[idx] = TrNode(idx=idx, parent=node)
+            node = node.kids[idx]
+        return node
+
+    def walk(self) -> Iterator['TrNode[T, D]']:
+        """Yields this node and all the nodes under it"""
+        stack = [self]
+        while stack:
+            node = stack.pop()
+            yield node
+            stack.extend(node.kids.values())
 
     @property
     def n_kids(self):
@@ -108,11 +117,11 @@ class TrNode(Generic[T, D]):  # Trie Node or Tree Node
     @property
     def size(self):
         """Number of nodes in the tree at this node. Counts self and all the kids"""
-        return 1 + sum(k.size for k in self.kids.values())
+        return sum(1 for _ in self.walk())
 
     @property
     def data_node_count(self):
-        return (1 if self.has_data else 0) + sum(k.data_node_count for k in self.kids.values())
+        return sum(1 for node in self.walk() if node.has_data)
 
 
 class MaxHeap:
-- 
2.43.0


From c65377820b43f8cb1cd1d58d5e33750207e5d6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:56 +0000
Subject: [PATCH 28/41] fix: models with long pieces could not be sent to
 worker processes

---
 nlcodec/codec.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index 4bceda6..cd7c269 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -447,6 +447,14 @@ class BPEScheme(CharScheme):
                  f" but data_nodes={self.root.data_node_count}")
         assert self.unk_idx
 
+    def __getstate__(self):
+        # the trie is as deep as the longest piece: pickling it could exceed the recursion limit
+        return {name: value for name, value in self.__dict__.items() if name != 'root'}
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        self.root = self.make_vocab_prefix_trie(self.table)
+
     @classmethod
     def make_vocab_prefix_trie(cls, vocab: List[Type]):
         root: TrNode = TrNode[str, Type](idx='')
-- 
2.43.0


From 20bfc77a7f618d1c7703010ace4ee13ac5254eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:17 +0000
Subject: [PATCH 29/41] fix: a database without shuffling was not read in the
 order of storage

---
 nlcodec/db/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index d363b8e..dfbe5aa 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -163,11 +163,11 @@ class Db:
         self._rec_type = rec_type
         self.fields = {f.name: f for f in fields}
         self._len = len(fields[0])
-        self.ids = set(fields[0].ids.keys())
+        self.ids = dict.fromkeys(fields[0].ids)  # unique, in the order of storage
         self.shuffle = shuffle
         for fn, fd in self.fields.items():
             assert self._len == len(fd)  # all have same num of recs
-            assert self.ids == set(fd.ids.keys())  # and same IDs
+            assert self.ids.keys() == fd.ids.keys()  # and same IDs
 
     # noinspection PyPep8Naming
     def RecType(self):
-- 
2.43.0


From cf8baf8d07b7553b338fdde98f9b85f7a52c60c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:17 +0000
Subject: [PATCH 30/41] fix: parts of a database were read in the order of the
 directory

---
 nlcodec/db/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index dfbe5aa..dc46605 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -411,7 +411,9 @@ class MultipartDb:
 
         def close(self):
             parts = {}
-            for meta_path in self.path.glob("part-*.meta"):
+            # in the order of part numbers; the order of a directory is arbitrary
+            for meta_path in sorted(self.path.glob("part-*.meta"),
+                                    key=lambda p: int(p.stem[len('part-'):])):
                 part_name = meta_path.name.rstrip('.meta')
                 parts[part_name] = json.loads(meta_path.read_text())
             meta = dict(parts=parts, field_names=self.field_names)
-- 
2.43.0


From 8bb4cd590bfe294a6641ebd82cf43093c3adc203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:17 +0000
Subject: [PATCH 31/41] fix: databases in memory did not shuffle the records of
 a part

---
 nlcodec/db/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index dc46605..d4de186 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -343,7 +343,7 @@ class MultipartDb:
         self.shuffle =  shuffle
         self.mem = [None] * len(parts)
         if self.keep_in_mem:
-            self.mem = [Db.load(p, rec_type=rec_type) for p in parts]
+            self.mem = [Db.load(p, rec_type=rec_type, shuffle=shuffle) for p in parts]
 
     def __len__(self):
         return self._len
-- 
2.43.0


From 4b5baf8fc7c8c6ef004bb8de246fec3e92744c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:17 +0000
Subject: [PATCH 32/41] fix: batches asked for in random order came in the
 order of storage

---
 nlcodec/db/batch.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nlcodec/db/batch.py b/nlcodec/db/batch.py
index ee73395..ddc6535 100644
--- a/nlcodec/db/batch.py
+++ b/nlcodec/db/batch.py
@@ -219,10 +219,12 @@ class BatchIterable(Iterable[Batch]):
             data_path = Path(data_path)
 
         assert data_path.exists(), f'Invalid State: {data_path} is NOT found.'
+        shuffle = sort_by == 'random'
         if data_path.is_file():
-            self.data = Db.load(data_path, rec_type=IdExample)
+            self.data = Db.load(data_path, rec_type=IdExample, shuffle=shuffle)
         elif data_path.is_dir():
-            self.data = MultipartDb.load(data_path, rec_type=IdExample, keep_in_mem=keep_in_mem)
+            self.data = MultipartDb.load(data_path, rec_type=IdExample, keep_in_mem=keep_in_mem,
+                                         shuffle=shuffle)
         else:
             raise Exception(f'Invalid State: {data_path} is should be a file or dir.')
 
-- 
2.43.0


From 991e1af026d4d579d9289c5c6cbe33c5ab14d5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:08 +0000
Subject: [PATCH 33/41] fix: nlcodec-db ignored the column names, the Spark
 master and the driver memory it was given

---
 nlcodec/bitextdb.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nlcodec/bitextdb.py b/nlcodec/bitextdb.py
index 777a7f5..48a8ec1 100644
--- a/nlcodec/bitextdb.py
+++ b/nlcodec/bitextdb.py
@@ -4,6 +4,7 @@
 # Created: 7/31/20
 
 import logging as log
+import os
 from pathlib import Path
 from nlcodec import load_scheme
 from nlcodec import spark as spark_util
@@ -21,13 +22,13 @@ def main(args=None):
     if args.tgt_model:
         tgt_codec = load_scheme(args.tgt_model)
 
-    with spark_util.session() as session:
+    with spark_util.session(master=args.spark_master, driver_mem=args.driver_mem) as session:
         df = spark_util.read_raw_bitext_tok(
             spark=session, src_path=args.src_text, tgt_path=args.tgt_text, truncate=args.truncate,
             src_len=args.src_len, tgt_len=args.tgt_len,
             src_tokenizer=src_codec.encode, tgt_tokenizer=tgt_codec.encode)
         rdd = df.rdd.map(lambda r: (r.id, (r.x, r.y)))
-        db = spark_util.rdd_as_db(rdd=rdd, db_path=args.db_path, field_names=('x', 'y'),
+        db = spark_util.rdd_as_db(rdd=rdd, db_path=args.db_path, field_names=(args.src_col, args.tgt_col),
                                   repartition=args.num_parts)
         log.info(f"stored {len(db)} recs at {args.db_path}")
 
@@ -59,8 +60,10 @@ def parse_args():
     utils.add_bool_arg(p, 'truncate', default=True, help='truncate longer sentences',
                        nhelp="drop longer sentences")
 
-    p.add_argument("-spark", "--spark_master", default='local[*]', help="Use Spark master")
-    p.add_argument("-dm", "--driver_mem", default='4g', help="Memory for spark driver")
+    p.add_argument("-spark", "--spark_master", default=os.environ.get('SPARK_MASTER', 'local[*]'),
+                   help="Use Spark master")
+    p.add_argument("-dm", "--driver_mem", default=os.environ.get('SPARK_DRIVER_MEM', '4g'),
+                   help="Memory for spark driver")
 
     args = p.parse_args()
     assert args.src_text.exists()
-- 
2.43.0


From ca2f4b6d5dfdba7ddddda98b47be1d17ed825e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:09 +0000
Subject: [PATCH 34/41] fix: MapReduce never returned when its caller was
 interrupted during a reduction

The reducing pool reads its own results, so terminating it while it waits for one of them
never ended. The same could follow an error of the reducer.
---
 nlcodec/para/mapred.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/nlcodec/para/mapred.py b/nlcodec/para/mapred.py
index 7a5ac46..6ad95ae 100644
--- a/nlcodec/para/mapred.py
+++ b/nlcodec/para/mapred.py
@@ -6,6 +6,7 @@
 # Created: 5/2/20
 import collections as coll
 import multiprocessing as mp
+import threading
 from dataclasses import dataclass
 from typing import Dict, Iterator, Any, Callable, TypeVar, Generic
 import itertools
@@ -103,9 +104,27 @@ class MapReduce:
 
         with mp.get_context("spawn").Pool(processes=map_procs) as map_pool, \
                 mp.get_context("spawn").Pool(processes=red_procs) as red_pool:
+            stopped = threading.Event()
+
+            def until_stopped(items):
+                for item in items:
+                    if stopped.is_set():
+                        return
+                    yield item
+
             map_pooler = partial(map_pool.imap, chunksize=chunksize)
             red_pooler = partial(red_pool.imap, chunksize=chunksize)
-            return self(input, map_pool=map_pooler, reduce_pool=red_pooler)
+            try:
+                return self(until_stopped(input),
+                            map_pool=lambda *args: until_stopped(map_pooler(*args)),
+                            reduce_pool=lambda *args: until_stopped(red_pooler(*args)))
+            except BaseException:
+                # red_pool feeds on its own results: terminating it while it waits for one of
+                # them never ends, so no more input, and let it finish what is under way
+                stopped.set()
+                red_pool.close()
+                red_pool.join()
+                raise
 
 
 def word_count_line(text):
-- 
2.43.0


From 898b15c342275f75e0ed1730b4d1e1ca300ab164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:30 +0000
Subject: [PATCH 35/41] fix: length-grouped batches failed, or held wrong
 records, for identifiers numpy cannot hold exactly

---
 nlcodec/db/core.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index d4de186..2713eba 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -232,25 +232,27 @@ class Db:
 
     def _make_eq_len_batch_ids(self, max_toks, max_sents, min_len=1):
         fields = list(self.fields.values())
+        ids = list(self.ids)  # of any type; the array has their positions
         rows = []
         skip_counter = defaultdict(int)
-        for _id in self.ids:
+        for pos, _id in enumerate(ids):
             lens = tuple(field.get_len(_id) for field in fields)
             if min(lens) < min_len:
                 skip_counter[f'len < {min_len}'] += 1
             else:
-                rows.append((_id, max(lens)))
+                rows.append((pos, max(lens)))
         if len(skip_counter) > 0:
             log.warning(f"Skipped :: {skip_counter}")
         if not rows:
             return []
-        rows = np.array(rows)  # id, len
+        rows = np.array(rows)  # position of id, len
         np.random.shuffle(rows)  # in-place, along the first axis; for extra rand within len group
         rows = rows[rows[:, 1].argsort()]  # sort by second col wiz len
         batches = []
         batch = []
         max_len = 0
-        for _id, _len in rows:
+        for pos, _len in rows:
+            _id = ids[pos]
             if _len < 1:
                 log.warning(f"Skipping record {_id}, either source or target is empty")
                 continue
@@ -259,14 +261,14 @@ class Db:
                 if _len > max_toks:
                     raise Exception(f'Unable to make a batch of {max_toks} toks'
                                     f' with a seq of len:{_len}')
-                batches.append(np.array(batch))
+                batches.append(batch)
                 batch = []  # new batch
                 max_len = 0
 
             batch.append(_id)  # this one can go in
             max_len = max(max_len, _len)
         if batch:
-            batches.append(np.array(batch))
+            batches.append(batch)
         return batches
 
     def make_eq_len_ran_batches(self, max_toks, max_sents=float('inf'), allow_empty=False):
-- 
2.43.0


From cc5f582c499249e55c2630de6da389e4e39946af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:54 +0000
Subject: [PATCH 36/41] fix: a writer reported success with no parts when its
 directory could not be listed

---
 nlcodec/db/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nlcodec/db/core.py b/nlcodec/db/core.py
index 2713eba..715270f 100644
--- a/nlcodec/db/core.py
+++ b/nlcodec/db/core.py
@@ -414,7 +414,8 @@ class MultipartDb:
         def close(self):
             parts = {}
             # in the order of part numbers; the order of a directory is arbitrary
-            for meta_path in sorted(self.path.glob("part-*.meta"),
+            # iterdir() because glob() finds nothing when the directory cannot be read
+            for meta_path in sorted((p for p in self.path.iterdir() if p.match('part-*.meta')),
                                     key=lambda p: int(p.stem[len('part-'):])):
                 part_name = meta_path.name.rstrip('.meta')
                 parts[part_name] = json.loads(meta_path.read_text())
-- 
2.43.0


From 0ee7749b05f3732caa94012e25f3de9c839c7ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:41 +0000
Subject: [PATCH 37/41] fix: Ctrl-C ended the workers of a pool amid their
 tasks, and the pool waited for them forever

---
 nlcodec/codec.py       | 5 ++++-
 nlcodec/para/mapred.py | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index cd7c269..14f540f 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -11,6 +11,7 @@ from datetime import datetime
 from pathlib import Path
 from typing import List, TextIO, Dict, Tuple, Union, Iterator, Optional
 import multiprocessing as mp
+import signal
 from nlcodec import __version__, log
 from nlcodec.dstruct import TrNode
 from nlcodec.utils import filter_types_coverage, replacing, IO
@@ -237,7 +238,9 @@ class EncoderScheme(abc.ABC):
     def parallel_map(cls, mapper, collection, n_cpus=N_CPUS, name='', chunksize=1000):
         assert n_cpus > 1, f'at least 2 CPUs needed. chunksize={chunksize}'
         log.info(f"Going to use {n_cpus} parallel processes {name}")
-        with mp.Pool(processes=n_cpus) as pool:
+        # Ctrl-C is for this process, which tells the workers
+        with mp.Pool(processes=n_cpus, initializer=signal.signal,
+                     initargs=(signal.SIGINT, signal.SIG_IGN)) as pool:
             yield from pool.imap(mapper, collection, chunksize=chunksize)
 
     @classmethod
diff --git a/nlcodec/para/mapred.py b/nlcodec/para/mapred.py
index 6ad95ae..0107f46 100644
--- a/nlcodec/para/mapred.py
+++ b/nlcodec/para/mapred.py
@@ -6,6 +6,7 @@
 # Created: 5/2/20
 import collections as coll
 import multiprocessing as mp
+import signal
 import threading
 from dataclasses import dataclass
 from typing import Dict, Iterator, Any, Callable, TypeVar, Generic
@@ -102,8 +103,10 @@ class MapReduce:
         assert red_procs >= 1
         log.info(f"map_processes: {map_procs}, reduce_processes:{red_procs}")
 
-        with mp.get_context("spawn").Pool(processes=map_procs) as map_pool, \
-                mp.get_context("spawn").Pool(processes=red_procs) as red_pool:
+        # Ctrl-C is for this process, which tells the workers
+        pool = partial(mp.get_context("spawn").Pool, initializer=signal.signal,
+                       initargs=(signal.SIGINT, signal.SIG_IGN))
+        with pool(processes=map_procs) as map_pool, pool(processes=red_procs) as red_pool:
             stopped = threading.Event()
 
             def until_stopped(items):
-- 
2.43.0


From aa15840ba02166ab7f5a7254fc41468e87ad45b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:41 +0000
Subject: [PATCH 38/41] fix: leaving a parallel stream early could hang,
 workers were terminated while they sent results

---
 nlcodec/codec.py       | 18 +++++++++++++++++-
 nlcodec/para/mapred.py |  5 ++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index 14f540f..8aa6f6f 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -12,6 +12,7 @@ from pathlib import Path
 from typing import List, TextIO, Dict, Tuple, Union, Iterator, Optional
 import multiprocessing as mp
 import signal
+import threading
 from nlcodec import __version__, log
 from nlcodec.dstruct import TrNode
 from nlcodec.utils import filter_types_coverage, replacing, IO
@@ -241,7 +242,22 @@ class EncoderScheme(abc.ABC):
         # Ctrl-C is for this process, which tells the workers
         with mp.Pool(processes=n_cpus, initializer=signal.signal,
                      initargs=(signal.SIGINT, signal.SIG_IGN)) as pool:
-            yield from pool.imap(mapper, collection, chunksize=chunksize)
+            stopped = threading.Event()
+
+            def until_stopped():
+                for item in collection:
+                    if stopped.is_set():
+                        return
+                    yield item
+
+            try:
+                yield from pool.imap(mapper, until_stopped(), chunksize=chunksize)
+            finally:
+                # terminating workers while they send results may block the pool forever,
+                # so no more input, and let them finish what is under way
+                stopped.set()
+                pool.close()
+                pool.join()
 
     @classmethod
     @abc.abstractmethod
diff --git a/nlcodec/para/mapred.py b/nlcodec/para/mapred.py
index 0107f46..d7c50ad 100644
--- a/nlcodec/para/mapred.py
+++ b/nlcodec/para/mapred.py
@@ -123,9 +123,12 @@ class MapReduce:
                             reduce_pool=lambda *args: until_stopped(red_pooler(*args)))
             except BaseException:
                 # red_pool feeds on its own results: terminating it while it waits for one of
-                # them never ends, so no more input, and let it finish what is under way
+                # them never ends, and so may terminating workers while they send results.
+                # So no more input, and let them finish what is under way
                 stopped.set()
+                map_pool.close()
                 red_pool.close()
+                map_pool.join()
                 red_pool.join()
                 raise
 
-- 
2.43.0


From e82b8e31365b95c0ed3e7bab4e79d4e57ce97c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:32 +0000
Subject: [PATCH 39/41] fix: nlcodec-learn split labels of classes into words

---
 nlcodec/learn.py     | 13 ++++++++++---
 nlcodec/term_freq.py |  5 +++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/nlcodec/learn.py b/nlcodec/learn.py
index be958e0..6b4904c 100644
--- a/nlcodec/learn.py
+++ b/nlcodec/learn.py
@@ -8,6 +8,7 @@ from typing import Dict, Any
 from pathlib import Path
 from nlcodec import DEF_WORD_MIN_FREQ, DEF_CHAR_MIN_FREQ, DEF_CHAR_COVERAGE, DEF_MIN_CO_EV
 from nlcodec import __version__, learn_vocab
+from nlcodec.codec import ClassScheme
 from nlcodec.term_freq import word_counts, write_stats
 from nlcodec import utils
 from nlcodec import spark
@@ -66,6 +67,10 @@ def main():
     model_path: Path = args['model']
     words_file = model_path.with_suffix(".wordfreq.gz")
     chars_file = model_path.with_suffix(".charfreq.gz")
+    split = str.split
+    if args['level'] == 'class':    # a line is one label
+        split = ClassScheme.encode_str
+        words_file, chars_file = model_path.with_suffix(".labelfreq.gz"), None
     stats_file = chars_file if args['level'] == 'char' else words_file
 
     with utils.log_resources(name="extract stats"):
@@ -77,11 +82,13 @@ def main():
             log.warning(f"{stats_file} exists, reusing it. please delete it if this is wrong.")
         else:
             with spark.session(master=master, driver_mem=driver_mem) as session:
-                words, chars, line_count = word_counts(paths=inp, dedup=dedup, spark=session)
+                words, chars, line_count = word_counts(paths=inp, dedup=dedup, spark=session,
+                                                       split=split)
             with utils.replacing(words_file) as tmp_file, utils.IO.writer(tmp_file) as out:
                 write_stats(words, out, line_count=line_count)
-            with utils.replacing(chars_file) as tmp_file, utils.IO.writer(tmp_file) as out:
-                write_stats(chars, out, line_count=line_count)
+            if chars_file:
+                with utils.replacing(chars_file) as tmp_file, utils.IO.writer(tmp_file) as out:
+                    write_stats(chars, out, line_count=line_count)
 
     assert stats_file.exists()
     with utils.log_resources(name=f"learning {args['level']} vocab"):
diff --git a/nlcodec/term_freq.py b/nlcodec/term_freq.py
index ed730e0..ecb810e 100644
--- a/nlcodec/term_freq.py
+++ b/nlcodec/term_freq.py
@@ -14,7 +14,7 @@ log.basicConfig(level=log.INFO)
 
 
 
-def word_counts(paths: List[Path], dedup=True, spark=None) \
+def word_counts(paths: List[Path], dedup=True, spark=None, split=str.split) \
         -> Tuple[Dict[str, int], Dict[str, int], int]:
     """
 
@@ -22,6 +22,7 @@ def word_counts(paths: List[Path], dedup=True, spark=None) \
     :param dedup: deduplicate lines
     :param spark: (optional) provide a spark instance;
      By default, a local spark session is launched and stopped
+    :param split: function that splits a line to its words
     :return: word_freqs, char_freqs, line_count
     """
     own_spark = not spark
@@ -43,7 +44,7 @@ def word_counts(paths: List[Path], dedup=True, spark=None) \
         # Tokenize
         # also include a special token, one per line to count lines
         # expand words as sep records
-        word_freqs = df.rdd.flatMap(lambda row: [SENT_TAG] + row.value.strip().split()) \
+        word_freqs = df.rdd.flatMap(lambda row: [SENT_TAG] + split(row.value.strip())) \
             .map(lambda word: (word, 1)) \
             .reduceByKey(lambda v1, v2: v1 + v2) \
             .collectAsMap()
-- 
2.43.0


From 901f9bdd9bda61b41a2f5e0c7938d4a442f3122d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:32 +0000
Subject: [PATCH 40/41] fix: a type with a tab or a line break in its name was
 written as a model that loads wrongly or not at all

---
 nlcodec/codec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index 8aa6f6f..5da8a80 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -127,6 +127,8 @@ class Type:  # Type as in word type vs token
         wrtr.write(f"#{header}\n")
         for i, item in enumerate(table):
             assert i == item.idx, f'{item} expected index {i}'
+            if any(ch in item.name for ch in '\t\r\n'):
+                raise ValueError(f'{item} cannot be written: its name has a tab or a line break')
             wrtr.write(item.format() + '\n')
         log.info(f"Wrote {len(table)} to {wrtr.name}")
 
-- 
2.43.0


From fc6774a383e17e47ca3c3f2efa7c266a1a20c230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:32 +0000
Subject: [PATCH 41/41] fix: characters that are not valid text were dropped
 from the names of saved types

---
 nlcodec/codec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nlcodec/codec.py b/nlcodec/codec.py
index 5da8a80..8cbda21 100755
--- a/nlcodec/codec.py
+++ b/nlcodec/codec.py
@@ -113,7 +113,7 @@ class Type:  # Type as in word type vs token
 
         if isinstance(out, Path) or isinstance(out, str):
             with replacing(out) as tmp_path:
-                with open(tmp_path, 'w', encoding='utf8', errors='ignore') as wrtr:
+                with open(tmp_path, 'w', encoding='utf8', errors='surrogatepass') as wrtr:
                     cls.write_out(table, wrtr, **meta)
             return
         wrtr = out
@@ -136,7 +136,7 @@ class Type:  # Type as in word type vs token
     def read_vocab(cls, inp: Union[Path, str, TextIO]) -> Tuple[List['Type'], Optional[Dict]]:
 
         if isinstance(inp, Path) or isinstance(inp, str):
-            rdr = open(inp, 'r', encoding='utf8', errors='ignore')
+            rdr = open(inp, 'r', encoding='utf8', errors='surrogatepass')
         else:
             rdr = inp
 
-- 
2.43.0

