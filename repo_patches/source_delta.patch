From 6a355f5309225822e591212dd3bc6fee6336f5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:12 +0000
Subject: [PATCH 01/76] fix: order comparisons on string ids must compare the
 raw ids, not the internal ids

---
 DRecPy/Dataset/mem_dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 8774c71..0bd4489 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -423,10 +423,10 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 value = int(value)
 
             # use internal ids aux structures to speed up search
-            if column == 'user' and self.has_internal_ids and 'int' not in col_dtype:
+            if column == 'user' and operator in ['==', '!='] and self.has_internal_ids and 'int' not in col_dtype:
                 column = 'uid'
                 value = self.user_to_uid(value)
-            elif column == 'item' and self.has_internal_ids and 'int' not in col_dtype:
+            elif column == 'item' and operator in ['==', '!='] and self.has_internal_ids and 'int' not in col_dtype:
                 column = 'iid'
                 value = self.item_to_iid(value)
 
-- 
2.43.0


From 8052f0560e713b7a613c1fca5e46e12f14ccb379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:00 +0000
Subject: [PATCH 02/76] fix: keep the values of integer columns exact when
 reading records of an in-memory dataset

---
 DRecPy/Dataset/mem_dataset.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 0bd4489..88de24f 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -90,13 +90,11 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         df = self._apply_query(query, in_place=False)
         if df.shape[0] == 0: return None
 
-        df_columns = [col for col in self.columns if col != 'rid']
-        col_idxs = {col: df_columns.index(col) for col in columns if col != 'rid'}
         if to_list is True:
-            record = [df[df_columns].values[0][col_idxs[col]] if col != 'rid' else df.index[0] for col in columns]
+            record = [df[col].values[0] if col != 'rid' else df.index[0] for col in columns]
             return record[0] if len(record) == 1 else record
         else:
-            return {col: df[df_columns].values[0][col_idxs[col]] if col != 'rid' else df.index[0] for col in columns}
+            return {col: df[col].values[0] if col != 'rid' else df.index[0] for col in columns}
 
     def select_random_generator(self, query=None, seed=None):
         assert self.has_internal_ids is True, 'No internal ids assigned yet.'
@@ -122,7 +120,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             if len(tmp_df) == 0: continue
 
             chosen_idx = rng.randint(0, tmp_df.shape[0] - 1)
-            record = {k: v for k, v in zip(df_columns, tmp_df.iloc[chosen_idx, :])}
+            record = {k: tmp_df[k].values[chosen_idx] for k in df_columns}
             record['rid'] = tmp_df.index[chosen_idx]
             if record['uid'] is not None: record['uid'] = int(record['uid'])
             if record['iid'] is not None: record['iid'] = int(record['iid'])
@@ -242,15 +240,14 @@ class MemoryInteractionDataset(InteractionDatasetABC):
     def values(self, columns=None, to_list=False):
         columns = self._handle_columns(columns)
 
-        df_columns = [col for col in self.columns if col != 'rid']
-        col_idxs = {col: df_columns.index(col) for col in columns if col != 'rid'}
+        # read each column on its own, because a single array with all the columns would convert int columns to float
+        col_values = [self._df[col].values if col != 'rid' else self._df.index for col in columns]
         if to_list is True:
-            for row, rid in zip(self._df[df_columns].values, self._df.index):
-                record = [row[col_idxs[col]] if col != 'rid' else rid for col in columns]
-                yield record[0] if len(record) == 1 else record
+            for record in zip(*col_values):
+                yield record[0] if len(record) == 1 else list(record)
         else:
-            for row, rid in zip(self._df[df_columns].values, self._df.index):
-                yield {col: row[col_idxs[col]] if col != 'rid' else rid for col in columns}
+            for record in zip(*col_values):
+                yield dict(zip(columns, record))
 
     def drop(self, record_ids, copy=True, keep=False):
         new_ds = self.copy() if copy else self
-- 
2.43.0


From e9fc8fb78f9727e0030b3edbc336023c27d99690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:00 +0000
Subject: [PATCH 03/76] fix: compare integer columns with the exact queried
 integer

---
 DRecPy/Dataset/mem_dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 88de24f..05838e8 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -407,7 +407,9 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             # parse value
             if column not in ['iid', 'uid', 'rid']:
                 try:
-                    if 'float' in col_dtype or 'int' in col_dtype:
+                    if 'int' in col_dtype and value.lstrip('-').isdigit():
+                        value = int(value)  # float would not be able to represent large ids
+                    elif 'float' in col_dtype or 'int' in col_dtype:
                         value = float(value)
                     elif 'obj' in col_dtype:
                         value = eval(value)
-- 
2.43.0


From a1bbdac0cffdee7b859c524353677a9f357b8644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:43 +0000
Subject: [PATCH 04/76] fix: quote string values of database queries as string
 literals

---
 DRecPy/Dataset/db_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index df95d22..ada6f85 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -746,7 +746,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 elif col_type is list:
                     value = list(value).__repr__()
                 else:
-                    value = str('"' + value + '"')
+                    value = "'" + value.replace("'", "''") + "'"  # double quotes would reference a column
             except ValueError:
                 raise Exception(
                     f'Query "{query}" was failed to be parsed: check if no invalid comparisons are being made '
-- 
2.43.0


From 0f5746c0b11cd9afc916780bf33fa7740c1612d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:50 +0000
Subject: [PATCH 05/76] fix: allow datasets with a column subset to be moved to
 a reduced table

---
 DRecPy/Dataset/db_dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index ada6f85..ab05d41 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -908,6 +908,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         }
 
         required_cols = ['rid', 'user', 'item', 'interaction']
+        if table_name != 'interactions': required_cols = ['rid']  # reduced tables might hold a column subset
 
         for req_col in required_cols:
             assert req_col in self.columns, f'Missing "{req_col}" column.'
-- 
2.43.0


From 1e1a3a4cec3c7ed8c98aebb07bec52d4523cd1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:34 +0000
Subject: [PATCH 06/76] fix: close partially read database value generators as
 soon as they go out of scope

---
 DRecPy/Dataset/db_dataset.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index ab05d41..102dbeb 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -280,20 +280,18 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             def __init__(self, open_value_generators, row_to_record_fn):
                 self.open_value_generators = open_value_generators
                 self.row_to_record_fn = row_to_record_fn
-                self.iter = self.__iter__()
                 self.removed_gen = False
                 open_value_generators.add(c)
 
             def __iter__(self):
-                for row in c:
-                    yield self.row_to_record_fn(row, columns, to_list)
-
-                self.removed_gen = True
-                self.open_value_generators.remove(c)
-                c.close()
+                return self  # no reference cycles: must be closed as soon as it goes out of scope
 
             def __next__(self):
-                return next(self.iter)
+                row = None if self.removed_gen else c.fetchone()
+                if row is None:
+                    self.close()
+                    raise StopIteration
+                return self.row_to_record_fn(row, columns, to_list)
 
             def __del__(self):
                 if not self.removed_gen:
-- 
2.43.0


From e5132483aa11bbf2ed88e1d4fe06c02699de17c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:34 +0000
Subject: [PATCH 07/76] fix: value generators of other database files must not
 prevent moving a dataset to its own table

---
 DRecPy/Dataset/db_dataset.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 102dbeb..0293ae1 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -17,6 +17,7 @@ from scipy.sparse import csr_matrix
 
 class DatabaseInteractionDataset(InteractionDatasetABC):
     _open_value_generators = set()  # a set containing the still open value generators (not fully read or not GCed)
+    _shared_open_value_generators = dict()  # maps the db file paths to their set of still open value generators
     _shared_db_instances = dict()  # maps the db file paths to a list of object ids currently using it
     _shared_db_table_instances = dict()  # maps the db file path + table name to a list of object ids currently using it
     _opt_ratio_threshold = 0.8  # after at least a 20% reduction between old and new states
@@ -62,6 +63,9 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._shared_db_instances[self._db_path] = set()
         self._shared_db_instances[self._db_path].add(id(self))
 
+        # generators of other database files do not prevent this one from being modified
+        self._open_value_generators = self._shared_open_value_generators.setdefault(self._db_path, set())
+
         if self._db_path + self._active_table not in self._shared_db_table_instances:
             self._shared_db_table_instances[self._db_path + self._active_table] = set()
         self._shared_db_table_instances[self._db_path + self._active_table].add(id(self))
@@ -593,6 +597,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._shared_db_instances[self._db_path].remove(id(self))
             if len(self._shared_db_instances[self._db_path]) == 0:
                 del self._shared_db_instances[self._db_path]
+                self._shared_open_value_generators.pop(self._db_path, None)
                 if '.tmp.' in self._db_path:
                     remove(self._db_path)
                     unregister_temp_file(self._db_path)
-- 
2.43.0


From 0c64c355278aca01efd4794593e89ec908ef477f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:34 +0000
Subject: [PATCH 08/76] fix: refuse to modify a shared table in place while
 value generators are being read

---
 DRecPy/Dataset/db_dataset.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 0293ae1..abb93db 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -444,6 +444,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                     f.write('\n')
 
     def assign_internal_ids(self):
+        if self._state_query != '': self._assert_no_open_value_generators()
         self._optimize_states()
         self._conn.commit()
 
@@ -509,6 +510,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             assert new_col_type in supported_types, f'New column type "{new_col_type}" is not supported. Supported types: {supported_types}.'
 
             if new_col_type == self._col_types[column]:  # type does not change
+                if self._state_query != '' or len(self._shared_db_table_instances[self._db_path + self._active_table]) > 1:
+                    self._assert_no_open_value_generators()
                 self._optimize_states(skip_empty_query=False)  # migrate records if current table is shared
 
                 cur_read = self._open_cursor()
@@ -807,6 +810,12 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._n_rows_before_opt = self._n_rows
             self._optimize_states()
 
+    def _assert_no_open_value_generators(self):
+        """Records can't be migrated while they're being read, and modifying them in place would affect the other
+        instances that share the same table."""
+        assert len(self._open_value_generators) == 0, \
+            'Cannot modify records while there are value generators being read.'
+
     def _optimize_states(self, skip_empty_query=True):
         """Auxiliary method that should be called inside .values() and .unique() that computes
         the results from executing the self.state_query on the current table and:
-- 
2.43.0


From 58fef0e65b92178253834958f09c8e4c4a80b7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:35 +0000
Subject: [PATCH 09/76] fix: queries on string ids of datasets whose internal
 id columns were projected out

---
 DRecPy/Dataset/mem_dataset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 05838e8..52a94ef 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -422,10 +422,12 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 value = int(value)
 
             # use internal ids aux structures to speed up search
-            if column == 'user' and operator in ['==', '!='] and self.has_internal_ids and 'int' not in col_dtype:
+            if column == 'user' and operator in ['==', '!='] and self.has_internal_ids and 'int' not in col_dtype \
+                    and 'uid' in self.columns:
                 column = 'uid'
                 value = self.user_to_uid(value)
-            elif column == 'item' and operator in ['==', '!='] and self.has_internal_ids and 'int' not in col_dtype:
+            elif column == 'item' and operator in ['==', '!='] and self.has_internal_ids and 'int' not in col_dtype \
+                    and 'iid' in self.columns:
                 column = 'iid'
                 value = self.item_to_iid(value)
 
-- 
2.43.0


From 63011bbb8e8934217b30b830bee8286fb3ef2350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:03 +0000
Subject: [PATCH 10/76] fix: save only the requested columns, correctly quoted,
 without changing the caller's list

---
 DRecPy/Dataset/db_dataset.py  | 13 ++++++-------
 DRecPy/Dataset/mem_dataset.py |  2 +-
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index abb93db..7e6c932 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -431,17 +431,16 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 if isfile(path): remove(path)
                 rename(tmp_path, path)
         else:
-            projected_cols = self._handle_columns(columns)
+            projected_cols = shallowcopy(self._handle_columns(columns))
             if 'rid' in projected_cols: projected_cols.remove('rid')
             if 'uid' in projected_cols: projected_cols.remove('uid')
             if 'iid' in projected_cols: projected_cols.remove('iid')
-            with open(path, 'w') as f:
+            with open(path, 'w', newline='') as f:
+                writer = csv.writer(f, lineterminator='\n')  # quotes the values that contain delimiters or quotes
                 if write_header:
-                    f.write(','.join(projected_cols))
-                    f.write('\n')
-                for row in self.values(columns=projected_cols, to_list=True):
-                    f.write(','.join([str(col) if col is not None else '' for col in row]))
-                    f.write('\n')
+                    writer.writerow(projected_cols)
+                for record in self.values(columns=projected_cols):
+                    writer.writerow([record[col] for col in projected_cols])
 
     def assign_internal_ids(self):
         if self._state_query != '': self._assert_no_open_value_generators()
diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 52a94ef..cdf323a 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -297,7 +297,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
 
         if len(path) == 0: path = self.path
 
-        projected_cols = deepcopy(self.columns)
+        projected_cols = deepcopy(self._handle_columns(columns))
         if 'rid' in projected_cols: projected_cols.remove('rid')
         if 'uid' in projected_cols: projected_cols.remove('uid')
         if 'iid' in projected_cols: projected_cols.remove('iid')
-- 
2.43.0


From 017d91cd4167226cd5a94a615e57ea05c446d01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:51 +0000
Subject: [PATCH 11/76] fix: unique must not change the column list it is given

---
 DRecPy/Dataset/db_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 7e6c932..4c1a5b8 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -236,7 +236,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                     yield random_uid, random_iid
 
     def unique(self, columns=None, copy=True):
-        columns = self._handle_columns(columns)
+        columns = shallowcopy(self._handle_columns(columns))
         new_ds = self.copy() if copy else self
         new_ds.columns = columns
         if copy: self._record_interaction()
-- 
2.43.0


From 911ee266e181e786e8a5f94ff9ad79b163b9f911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:30 +0000
Subject: [PATCH 12/76] fix: assigning internal ids must not renumber the ids
 of the instances that share the table

---
 DRecPy/Dataset/db_dataset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 4c1a5b8..1319c89 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -443,8 +443,9 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                     writer.writerow([record[col] for col in projected_cols])
 
     def assign_internal_ids(self):
-        if self._state_query != '': self._assert_no_open_value_generators()
-        self._optimize_states()
+        if self._state_query != '' or len(self._shared_db_table_instances[self._db_path + self._active_table]) > 1:
+            self._assert_no_open_value_generators()
+        self._optimize_states(skip_empty_query=False)  # migrate records if current table is shared
         self._conn.commit()
 
         # create cursor for reads and updates
-- 
2.43.0


From 588084bbeba7a3858d2dd696c059f684b7e6a4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:33 +0000
Subject: [PATCH 13/76] fix: temporary table and file names must be unique and
 valid for any state of the random generator

---
 DRecPy/Dataset/db_dataset.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 1319c89..80de26a 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -6,6 +6,7 @@ import sqlite3 as sql
 from copy import copy as shallowcopy
 import csv
 import random
+from uuid import uuid4
 from tqdm import tqdm
 from os import remove
 from os import rename
@@ -533,7 +534,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 cur_read.execute(self._build_new_state())
 
                 self._col_types[column] = new_col_type
-                new_table_name = f'interactions_{str(random.random()).split(".")[1]}'
+                new_table_name = f'interactions_{uuid4().hex}'
                 c = self._open_cursor()
                 self._build_table(c, new_table_name)
 
@@ -683,7 +684,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         # open db connection and create table
         self._col_types = infer_col_types(first_line)
-        self._open_connection(join(data_path(), f'interactions_{id(self)}.{str(random.random()).split(".")[1]}.tmp.sqlite'))
+        self._open_connection(join(data_path(), f'interactions_{id(self)}.{uuid4().hex}.tmp.sqlite'))
         self._build_table(self._open_cursor())
         self._n_rows = 0
 
@@ -843,7 +844,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         else:
             # this are more instances using the current active table on this database
             # optimize query path by creating a new compressed query node
-            red_table = f'interactions_{str(random.random()).split(".")[1]}'
+            red_table = f'interactions_{uuid4().hex}'
 
             self._build_table(c, table_name=red_table)
 
-- 
2.43.0


From 7c99b0f0edd8744b9005801a1a5bcd3fbbef363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:26 +0000
Subject: [PATCH 14/76] fix: detect the column types of a csv file using the
 encoding it was told to use

---
 DRecPy/Dataset/db_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 80de26a..b9d6b16 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -675,7 +675,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         # read num of lines + detect column types
         num_lines = 0
         first_line = None
-        with open(path, 'r') as f:
+        with open(path, 'r', encoding=encoding) as f:
             for row in f:
                 if first_line is None and ((num_lines == 0 and has_header is False) or num_lines > 0):
                     if replace_delimiter: row = row.replace(orig_delimiter, new_delimiter)
-- 
2.43.0


From cf13eb2763fe1bc2c36d1b1600d893c3973dc330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:26 +0000
Subject: [PATCH 15/76] fix: compare column labels by value

---
 DRecPy/Dataset/mem_dataset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index cdf323a..33772e6 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -53,15 +53,15 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         if self.columns is None:
             self.columns = list(self._df.columns) + ['rid']
             user_label = kwds.get('user_label', None)
-            if user_label is not None and user_label is not 'user':
+            if user_label is not None and user_label != 'user':
                 self.columns.remove(user_label)
 
             item_label = kwds.get('item_label', None)
-            if item_label is not None and item_label is not 'item':
+            if item_label is not None and item_label != 'item':
                 self.columns.remove(item_label)
 
             interaction_label = kwds.get('interaction_label', None)
-            if interaction_label is not None and interaction_label is not 'interaction':
+            if interaction_label is not None and interaction_label != 'interaction':
                 self.columns.remove(interaction_label)
 
         # remove extra columns
-- 
2.43.0


From 21938df8106b78211fbccf914f1496c7facb87e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:26 +0000
Subject: [PATCH 16/76] fix: record ids of imported dataframes must be unique

---
 DRecPy/Dataset/dataset_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/dataset_factory.py b/DRecPy/Dataset/dataset_factory.py
index 783bcc0..7e504ae 100644
--- a/DRecPy/Dataset/dataset_factory.py
+++ b/DRecPy/Dataset/dataset_factory.py
@@ -50,5 +50,5 @@ class InteractionsDatasetFactory:
         Returns:
             A InteractionDataset instance containing the provided data.
         """
-        return MemoryInteractionDataset(df=df.copy(), user_label=user_label, item_label=item_label,
+        return MemoryInteractionDataset(df=df.reset_index(drop=True), user_label=user_label, item_label=item_label,
                                         interaction_label=interaction_label, **kwds)
-- 
2.43.0


From 834f8db2209fe697432dd991cd276b24c2ae9757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:26 +0000
Subject: [PATCH 17/76] fix: unique and count_unique over all columns must not
 take the record id into account

---
 DRecPy/Dataset/db_dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index b9d6b16..23f0c61 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -244,9 +244,10 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         # make sure to always maintain rid on DatabaseInteractionsDataset instances
         new_cols = ','.join(columns)
+        group_cols = ','.join([col for col in columns if col != 'rid'] or columns)  # rids are always distinct
         new_state = f'SELECT {new_cols} FROM ({new_ds._curr_state_source()}) WHERE rid IN ' \
             f'(SELECT MIN(rid) FROM ({new_ds._curr_state_source()}) ' \
-            f'GROUP BY {new_cols})'
+            f'GROUP BY {group_cols})'
         if 'rid' not in columns:
             new_state = f'SELECT {new_cols}, rid FROM ({new_ds._curr_state_source()}) WHERE rid IN ' \
                 f'(SELECT MIN(rid) FROM ({new_ds._curr_state_source()}) ' \
@@ -259,6 +260,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
     def count_unique(self, columns=None):
         self._record_interaction()
         columns = self._handle_columns(columns)
+        columns = [col for col in columns if col != 'rid'] or columns  # rids are always distinct
 
         c = self._open_cursor()
         c.execute(f'SELECT COUNT(*) FROM (SELECT DISTINCT {",".join(columns)} FROM ({self._curr_state_source()}))')
-- 
2.43.0


From bae2201d165972387ddb20b509517bc15ad90227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:27 +0000
Subject: [PATCH 18/76] fix: interaction vectors of filtered, single user and
 too large in-memory datasets

---
 DRecPy/Dataset/mem_dataset.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 33772e6..72702d1 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -185,7 +185,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 interactions.append(float(row[interaction_col_idx])) # floats due to tf not supporting NPY_INT during np.array to tensor
 
             return csr_matrix((interactions, ([0] * len(interactions), cols)),
-                              shape=(1, self._df.drop_duplicates(subset='iid').shape[0]))[0]
+                              shape=(1, len(self._item_mapping)))[0]
 
     def select_item_interaction_vec(self, iid):
         assert self.has_internal_ids is True, 'Cannot retrieve user interaction vector without assigned internal ids.'
@@ -206,14 +206,14 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             cols, interactions = [], []
             df_segment = self._df[self._df['iid'].values == iid]
             projected_cols = [col for col in self.columns if col != 'rid']
-            iid_col_idx = projected_cols.index('iid')
+            uid_col_idx = projected_cols.index('uid')
             interaction_col_idx = projected_cols.index('interaction')
             for row in df_segment[projected_cols].values:
-                cols.append(row[iid_col_idx])
+                cols.append(row[uid_col_idx])
                 interactions.append(float(row[interaction_col_idx])) # floats due to tf not supporting NPY_INT during np.array to tensor
 
             return csr_matrix((interactions, ([0] * len(interactions), cols)),
-                              shape=(1, self._df.drop_duplicates(subset='uid').shape[0]))[0]
+                              shape=(1, len(self._user_mapping)))[0]
 
     def unique(self, columns=None, copy=True):
         columns = self._handle_columns(columns).copy()
@@ -482,7 +482,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         assert self.has_internal_ids is True, 'Cannot retrieve user interaction vector without assigned internal ids.'
 
         users, cols, interactions = [], [], []
-        n_uids = self.count_unique('uid')
+        n_uids = len(self._user_mapping)  # filtered datasets keep their internal ids
         projected_cols = [col for col in self.columns if col != 'rid']
         iid_col_idx = projected_cols.index('iid')
         interaction_col_idx = projected_cols.index('interaction')
@@ -494,6 +494,6 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 interactions.append(float(row[interaction_col_idx]))  # floats due to tf not supporting NPY_INT during np.array to tensor
 
         self._cached_interaction_matrix = csr_matrix((interactions, (users, cols)),
-                                                     shape=(n_uids, self.count_unique('iid')))
+                                                     shape=(n_uids, len(self._item_mapping)))
 
         self._cached_trans_interaction_matrix = self._cached_interaction_matrix.transpose()
-- 
2.43.0


From 07ae7fc32b82ec338a664eb886af9068f2ecc02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:27 +0000
Subject: [PATCH 19/76] fix: interaction vectors must reflect the changes made
 after they were first computed

---
 DRecPy/Dataset/db_dataset.py  |  7 +++++++
 DRecPy/Dataset/mem_dataset.py | 13 +++++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 23f0c61..75264b3 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -450,6 +450,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._assert_no_open_value_generators()
         self._optimize_states(skip_empty_query=False)  # migrate records if current table is shared
         self._conn.commit()
+        self._clear_interaction_vec_caches()
 
         # create cursor for reads and updates
         c = self._open_cursor()
@@ -565,6 +566,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 self._active_table = new_table_name
                 self._state_query = ''
 
+            if column == 'interaction': self._clear_interaction_vec_caches()
             self._conn.commit()
 
         except Exception as e:
@@ -804,6 +806,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         self._n_rows = self._open_cursor().execute(f'SELECT COUNT(*) FROM ({new_state})').fetchone()[0]
 
         self._state_query = new_state
+        self._clear_interaction_vec_caches()
 
         if self._n_rows_before_opt > 0 and self._n_rows > 0 \
                 and self._queries_wo_optimize >= self._opt_n_query_threshold \
@@ -813,6 +816,10 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._n_rows_before_opt = self._n_rows
             self._optimize_states()
 
+    def _clear_interaction_vec_caches(self):
+        self._user_interaction_vec_cache.clear()
+        self._item_interaction_vec_cache.clear()
+
     def _assert_no_open_value_generators(self):
         """Records can't be migrated while they're being read, and modifying them in place would affect the other
         instances that share the same table."""
diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 72702d1..71c84dd 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -223,6 +223,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         df_columns = [col for col in columns if col != 'rid']
         new_ds._df = new_ds._df.drop_duplicates(subset=df_columns)
         new_ds._df = new_ds._df[df_columns]
+        new_ds._clear_interaction_matrix()
         new_ds.columns = columns
 
         return new_ds
@@ -256,6 +257,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             new_ds._df = new_ds._df[new_ds._df.index.isin(record_ids)]
         else:
             new_ds._df = new_ds._df[~new_ds._df.index.isin(record_ids)]
+        new_ds._clear_interaction_matrix()
         return new_ds
 
     def user_to_uid(self, user):
@@ -305,6 +307,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
 
     def assign_internal_ids(self):
         self._df = self._df.copy()  # to avoid issues with other instances modifying the df (df objects are shared)
+        self._clear_interaction_matrix()
 
         if 'uid' not in self.columns: self.columns.append('uid')
         # convert raw user ids (user column) to internal user ids (uid)
@@ -348,10 +351,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             self._df = self._df.copy()
             self._df[column] = self._df[column].apply(function)
 
-            if column == 'interaction' and self._cached_interaction_matrix is not None:
-                self._cached_interaction_matrix = None
-                self._cached_trans_interaction_matrix = None
-                self._build_interaction_matrix()
+            if column == 'interaction': self._clear_interaction_matrix()
 
         except Exception as e:
             raise Exception(f'Failed to apply operation on column "{column}". Details: {e}')
@@ -472,12 +472,17 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         if in_place:
             if condition_vector is not None:
                 self._df = self._df [condition_vector]
+                self._clear_interaction_matrix()
             return self._df
         else:
             if condition_vector is not None:
                 return self._df[condition_vector]
             return self._df
 
+    def _clear_interaction_matrix(self):
+        self._cached_interaction_matrix = None
+        self._cached_trans_interaction_matrix = None
+
     def _build_interaction_matrix(self):
         assert self.has_internal_ids is True, 'Cannot retrieve user interaction vector without assigned internal ids.'
 
-- 
2.43.0


From 8984fc0e789847fd20b3778ba02844ec7992ab7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:21 +0000
Subject: [PATCH 20/76] fix: infer the column types of datasets loaded from a
 sqlite file

---
 DRecPy/Dataset/db_dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 75264b3..5096fd4 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -618,7 +618,9 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         self._log('Trying to load data from existing database...')
         self._open_connection(path, loading=True)
         self._n_rows = len(self)
-        self.columns = [v[1] for v in self._conn.execute('PRAGMA table_info(interactions)').fetchall() if v[1] not in ['uid', 'iid']]
+        table_info = self._conn.execute('PRAGMA table_info(interactions)').fetchall()
+        self.columns = [v[1] for v in table_info if v[1] not in ['uid', 'iid']]
+        self._col_types = {v[1]: {'INTEGER': int, 'REAL': float}.get(v[2], str) for v in table_info}
 
     def _load_from_csv(self, path, delimiter, has_header, encoding):
 
-- 
2.43.0


From 6f0b83ca2bc93fefd3ff553b717f901d0a216e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:21 +0000
Subject: [PATCH 21/76] fix: never modify, drop or delete the data of sqlite
 files saved by the user

---
 DRecPy/Dataset/db_dataset.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 5096fd4..1821854 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -20,6 +20,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
     _open_value_generators = set()  # a set containing the still open value generators (not fully read or not GCed)
     _shared_open_value_generators = dict()  # maps the db file paths to their set of still open value generators
     _shared_db_instances = dict()  # maps the db file paths to a list of object ids currently using it
+    _temp_db_paths = set()  # paths of the temporary db files, the only ones that can be modified or deleted
     _shared_db_table_instances = dict()  # maps the db file path + table name to a list of object ids currently using it
     _opt_ratio_threshold = 0.8  # after at least a 20% reduction between old and new states
     _opt_n_query_threshold = 3  # only check if should optimize after X queries w/o optimize
@@ -401,7 +402,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         Returns:
             None.
         """
-        if len(path) == 0 and '.tmp.' in self._db_path:
+        if len(path) == 0 and self._db_path in self._temp_db_paths:
             raise Exception('No save path was specified.')
 
         if len(path) == 0: path = self._db_path
@@ -446,7 +447,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                     writer.writerow([record[col] for col in projected_cols])
 
     def assign_internal_ids(self):
-        if self._state_query != '' or len(self._shared_db_table_instances[self._db_path + self._active_table]) > 1:
+        if self._state_query != '' or self._is_persisted_table() \
+                or len(self._shared_db_table_instances[self._db_path + self._active_table]) > 1:
             self._assert_no_open_value_generators()
         self._optimize_states(skip_empty_query=False)  # migrate records if current table is shared
         self._conn.commit()
@@ -514,7 +516,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             assert new_col_type in supported_types, f'New column type "{new_col_type}" is not supported. Supported types: {supported_types}.'
 
             if new_col_type == self._col_types[column]:  # type does not change
-                if self._state_query != '' or len(self._shared_db_table_instances[self._db_path + self._active_table]) > 1:
+                if self._state_query != '' or self._is_persisted_table() \
+                        or len(self._shared_db_table_instances[self._db_path + self._active_table]) > 1:
                     self._assert_no_open_value_generators()
                 self._optimize_states(skip_empty_query=False)  # migrate records if current table is shared
 
@@ -595,7 +598,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._shared_db_table_instances[self._db_path + self._active_table].remove(id(self))
             if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 0:
                 del self._shared_db_table_instances[self._db_path + self._active_table]
-                if len(self._open_value_generators) == 0:
+                if len(self._open_value_generators) == 0 and not self._is_persisted_table():
                     self._open_cursor().execute(f'DROP TABLE {self._active_table}')
 
         if self._conn is not None:
@@ -606,7 +609,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             if len(self._shared_db_instances[self._db_path]) == 0:
                 del self._shared_db_instances[self._db_path]
                 self._shared_open_value_generators.pop(self._db_path, None)
-                if '.tmp.' in self._db_path:
+                if self._db_path in self._temp_db_paths:
+                    self._temp_db_paths.remove(self._db_path)
                     remove(self._db_path)
                     unregister_temp_file(self._db_path)
 
@@ -691,6 +695,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         # open db connection and create table
         self._col_types = infer_col_types(first_line)
         self._open_connection(join(data_path(), f'interactions_{id(self)}.{uuid4().hex}.tmp.sqlite'))
+        self._temp_db_paths.add(self._db_path)
         self._build_table(self._open_cursor())
         self._n_rows = 0
 
@@ -818,6 +823,10 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._n_rows_before_opt = self._n_rows
             self._optimize_states()
 
+    def _is_persisted_table(self):
+        """Returns whether the active table is the one saved on a db file of the user, which must never be modified."""
+        return self._active_table == 'interactions' and self._db_path not in self._temp_db_paths
+
     def _clear_interaction_vec_caches(self):
         self._user_interaction_vec_cache.clear()
         self._item_interaction_vec_cache.clear()
@@ -847,7 +856,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         c = self._open_cursor()
 
-        if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 1:
+        if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 1 and not self._is_persisted_table():
             # this is the only instance using the current active table on this database
             if self._state_query != '':
                 c.execute(f'DELETE FROM {self._active_table} '
@@ -863,7 +872,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             c.execute(f'INSERT INTO {red_table} ({col_names}) SELECT {col_names} FROM ({self._curr_state_source()})')
 
             self._build_indexes(c, table_name=red_table)
-            # do not delete set because there are more instances using the db, table pair
+            # do not delete set because there might be more instances using the db, table pair
             self._shared_db_table_instances[self._db_path + self._active_table].remove(id(self))
             self._shared_db_table_instances[self._db_path + red_table] = set()
             self._shared_db_table_instances[self._db_path + red_table].add(id(self))
-- 
2.43.0


From 322cb82b596274b9559e767efec1d10dcecaa257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:21 +0000
Subject: [PATCH 22/76] fix: a dataset saved into its own sqlite file must keep
 the same records

---
 DRecPy/Dataset/db_dataset.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 1821854..11d6cbe 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -431,6 +431,11 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 if isfile(path): remove(path)
                 rename(tmp_path, path)
                 self._open_connection(path, loading=True)
+                # the new file only has one table, with the records of the current state
+                self._shared_db_table_instances[self._db_path + self._active_table].remove(id(self))
+                self._active_table = 'interactions'
+                self._shared_db_table_instances.setdefault(self._db_path + self._active_table, set()).add(id(self))
+                self._state_query = ''
             else:  # saving into distinct destination
                 if isfile(path): remove(path)
                 rename(tmp_path, path)
-- 
2.43.0


From d2c6372c90503ad6d4106328a622bcd7286bf327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:34 +0000
Subject: [PATCH 23/76] fix: allow skipping several columns of a csv file

---
 DRecPy/Dataset/db_dataset.py  | 2 +-
 DRecPy/Dataset/mem_dataset.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 11d6cbe..205bd54 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -957,7 +957,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             'iid INTEGER'
 
         for col in self.columns:
-            if col not in ['rid', 'uid', 'iid']:
+            if col not in ['rid', 'uid', 'iid', None]:
                 create_sql_statement += f',{col} {py_sql_type[self._col_types[col]]}'
 
         create_sql_statement += ')'
diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 71c84dd..ed6621c 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -34,7 +34,8 @@ class MemoryInteractionDataset(InteractionDatasetABC):
             use_cols = [i for col, i in zip(projected_cols, range(len(projected_cols))) if col is not None]
             skip_rows = 1 if has_header else 0
 
-            self._df = pd.read_csv(path, delimiter=delimiter, names=projected_cols, encoding=kwds.get('encoding'),
+            names = [i if col is None else col for i, col in enumerate(projected_cols)]  # names must be distinct
+            self._df = pd.read_csv(path, delimiter=delimiter, names=names, encoding=kwds.get('encoding'),
                                    skiprows=skip_rows, usecols=use_cols)
             self.columns = [col for col in self.columns if col is not None]  # remove any skip cols
         else:
-- 
2.43.0


From 217d7854dbdccb9168ae8921d12dda51b484b267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:19 +0000
Subject: [PATCH 24/76] fix: the f-score of recommendations without any
 relevant item is 0

---
 DRecPy/Evaluation/Metrics/ranking.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DRecPy/Evaluation/Metrics/ranking.py b/DRecPy/Evaluation/Metrics/ranking.py
index b39d12f..2dba340 100644
--- a/DRecPy/Evaluation/Metrics/ranking.py
+++ b/DRecPy/Evaluation/Metrics/ranking.py
@@ -209,6 +209,8 @@ class FScore(RankingMetricABC):
         p = self.precision(recommendations, relevant_recommendations=relevant_recommendations, k=k)
         r = self.recall(recommendations, relevant_recommendations=relevant_recommendations, k=k)
 
+        if p == 0 and r == 0: return 0  # no relevant recommendations
+
         return (1 + self.beta ** 2) * p * r / ((self.beta ** 2 * p) + r)
 
 
-- 
2.43.0


From 8d88c057189ea175fc44989689cc460bf35880b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:44 +0000
Subject: [PATCH 25/76] fix: split datasets whose user ids are strings

---
 DRecPy/Evaluation/Splits/leave_k_out.py  | 4 ++--
 DRecPy/Evaluation/Splits/matrix_split.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Evaluation/Splits/leave_k_out.py b/DRecPy/Evaluation/Splits/leave_k_out.py
index 2d2a91e..68ad46c 100644
--- a/DRecPy/Evaluation/Splits/leave_k_out.py
+++ b/DRecPy/Evaluation/Splits/leave_k_out.py
@@ -98,7 +98,7 @@ def leave_k_out(interaction_dataset, k=1, min_user_interactions=0, last_timestam
 
 def _leave_k_out_user_ratio(interaction_dataset, train_rids_to_rem, test_rids, min_user_interactions, user, k, rng,
                             last_timestamps, timestamp_label):
-    user_rows_ds = interaction_dataset.select(f'user == {user}')
+    user_rows_ds = interaction_dataset.select(f'user == {user!r}')
     n_sampled_items = int(len(user_rows_ds) * k)
     _leave_k_out_user(user_rows_ds, train_rids_to_rem, test_rids, min_user_interactions, n_sampled_items, rng,
                       last_timestamps, timestamp_label)
@@ -106,7 +106,7 @@ def _leave_k_out_user_ratio(interaction_dataset, train_rids_to_rem, test_rids, m
 
 def _leave_k_out_user_fixed(interaction_dataset, train_rids_to_rem, test_rids, min_user_interactions, user, k, rng,
                             last_timestamps, timestamp_label):
-    user_rows_ds = interaction_dataset.select(f'user == {user}')
+    user_rows_ds = interaction_dataset.select(f'user == {user!r}')
     _leave_k_out_user(user_rows_ds, train_rids_to_rem, test_rids, min_user_interactions, k, rng,
                       last_timestamps, timestamp_label)
 
diff --git a/DRecPy/Evaluation/Splits/matrix_split.py b/DRecPy/Evaluation/Splits/matrix_split.py
index 2d1fa6d..7bfc31a 100644
--- a/DRecPy/Evaluation/Splits/matrix_split.py
+++ b/DRecPy/Evaluation/Splits/matrix_split.py
@@ -86,7 +86,7 @@ def matrix_split(interaction_dataset, user_test_ratio=0.2, item_test_ratio=0.2,
 def _matrix_split_user(interaction_dataset, train_rids_to_rem, test_rids, user, min_user_interactions, test_items_set,
                        test_users_set):
     global n_tasks_done
-    user_rows_ds = interaction_dataset.select(f'user == {user}')
+    user_rows_ds = interaction_dataset.select(f'user == {user!r}')
 
     if len(user_rows_ds) < min_user_interactions:  # not enough user interactions
         with train_rem_lock:
-- 
2.43.0


From 9a02e40ee1415bf1a8d3369bf20948dd3e764dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:11 +0000
Subject: [PATCH 26/76] fix: records of database datasets must be read in the
 same order whatever way they are stored

---
 DRecPy/Dataset/db_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 205bd54..f4cdc88 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -318,7 +318,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         curr_state_query = self._build_new_state()
         c = self._open_cursor()
-        c.execute(curr_state_query)
+        c.execute(f'{curr_state_query} ORDER BY rid')  # the order must not depend on how the state is stored
 
         return ValueGenerator(self._open_value_generators, self._from_row_to_record)
 
-- 
2.43.0


From 755605bb0c409f30d65a024e5337a8bb5394fa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:39 +0000
Subject: [PATCH 27/76] fix: copy database datasets consistently while another
 thread is optimizing them

---
 DRecPy/Dataset/db_dataset.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index f4cdc88..251378a 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -8,6 +8,7 @@ import csv
 import random
 from uuid import uuid4
 from tqdm import tqdm
+from threading import RLock
 from os import remove
 from os import rename
 from os.path import isfile
@@ -37,6 +38,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         self.chunk_size = kwds.get('chunksize', 10 ** 5)
 
         self._state_query = ''
+        self._state_lock = RLock()  # instances might be copied by a thread while another one is optimizing them
         self._queries_wo_optimize = 0
         self._conn = None
         self._db_path = None
@@ -581,18 +583,19 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             raise Exception(f'Failed to apply operation on column "{column}". Details: {e}')
 
     def copy(self):
-        new = type(self)(path=self._db_path, active_table=self._active_table, columns=shallowcopy(self.columns),
-                         verbose=False)
-
-        new.columns = shallowcopy(self.columns)
-        new.has_internal_ids = self.has_internal_ids
-        new._n_rows = self._n_rows
-        new._state_query = shallowcopy(self._state_query)
-        new._col_types = shallowcopy(self._col_types)
-        new._queries_wo_optimize = self._queries_wo_optimize
-        new._n_rows_before_opt = self._n_rows_before_opt
-        new._user_vec_cache_limit = self._default_user_vec_cache_limit
-        new._item_vec_cache_limit = self._default_item_vec_cache_limit
+        with self._state_lock:
+            new = type(self)(path=self._db_path, active_table=self._active_table, columns=shallowcopy(self.columns),
+                             verbose=False)
+
+            new.columns = shallowcopy(self.columns)
+            new.has_internal_ids = self.has_internal_ids
+            new._n_rows = self._n_rows
+            new._state_query = shallowcopy(self._state_query)
+            new._col_types = shallowcopy(self._col_types)
+            new._queries_wo_optimize = self._queries_wo_optimize
+            new._n_rows_before_opt = self._n_rows_before_opt
+            new._user_vec_cache_limit = self._default_user_vec_cache_limit
+            new._item_vec_cache_limit = self._default_item_vec_cache_limit
 
         return new
 
@@ -810,7 +813,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         self._n_direct_interactions += 1
         if self._n_direct_interactions >= self._opt2_n_direct_interactions_threshold \
                 and len(self._open_value_generators) == 0:
-            self._optimize_states()
+            with self._state_lock:
+                self._optimize_states()
 
     def _update_state(self, new_state):
         self._queries_wo_optimize += 1
-- 
2.43.0


From 3b451c17d1dd863a9a78406fb06dfc4092238aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:04 +0000
Subject: [PATCH 28/76] fix: similarity functions must not fail when there is
 no similarity between any rows

---
 DRecPy/Recommender/Baseline/similarity.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DRecPy/Recommender/Baseline/similarity.py b/DRecPy/Recommender/Baseline/similarity.py
index 159dbce..64a1cc0 100644
--- a/DRecPy/Recommender/Baseline/similarity.py
+++ b/DRecPy/Recommender/Baseline/similarity.py
@@ -55,7 +55,7 @@ def cosine_sim_cf(matrix):
             rows.append(i), cols.append(j), data.append(s)
             if i != j: rows.append(j), cols.append(i), data.append(s)
 
-    return csr_matrix((data, (rows, cols)))
+    return csr_matrix((data, (rows, cols)), shape=None if data else (n, n))
 
 
 def adjusted_cosine_sim(matrix):
@@ -111,7 +111,7 @@ def jaccard_sim(matrix):
                 rows.append(i), cols.append(j), data.append(s)
                 if i != j: rows.append(j), cols.append(i), data.append(s)
 
-        return csr_matrix((data, (rows, cols)))
+        return csr_matrix((data, (rows, cols)), shape=None if data else (n, n))
 
     try:
         return matrix_jacc(matrix)
@@ -166,7 +166,7 @@ def pearson_corr(matrix):
             rows.append(i), cols.append(j), data.append(s)
             if i != j: rows.append(j), cols.append(i), data.append(s)
 
-    return csr_matrix((data, (rows, cols)))
+    return csr_matrix((data, (rows, cols)), shape=None if data else (n, n))
 
 
 def msd(matrix):
@@ -206,7 +206,7 @@ def msd(matrix):
             rows.append(i), cols.append(j), data.append(s)
             if i != j: rows.append(j), cols.append(i), data.append(s)
 
-    return csr_matrix((data, (rows, cols)))
+    return csr_matrix((data, (rows, cols)), shape=None if data else (n, n))
 
 
 def _subtract_row_mean(A):
-- 
2.43.0


From 63f8df06c0cdab6c898e31a66de18f8c551fefd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:04 +0000
Subject: [PATCH 29/76] fix: mean squared difference similarity of matrices in
 which all values are equal

---
 DRecPy/Recommender/Baseline/similarity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DRecPy/Recommender/Baseline/similarity.py b/DRecPy/Recommender/Baseline/similarity.py
index 64a1cc0..f7d140f 100644
--- a/DRecPy/Recommender/Baseline/similarity.py
+++ b/DRecPy/Recommender/Baseline/similarity.py
@@ -174,6 +174,8 @@ def msd(matrix):
         matrix = csr_matrix(matrix)
 
     max_diff = matrix.max() - matrix.min()
+    if max_diff == 0:  # all values are equal, thus there's no difference to normalize
+        max_diff = 1
 
     if type(matrix) is not lil_matrix:
         matrix = lil_matrix(matrix)
-- 
2.43.0


From 79ec478c1ca46bf7e0e1d443ea2be75f32f1d864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:43 +0000
Subject: [PATCH 30/76] fix: null pair generator of in-memory datasets: removed
 numpy alias, and pairs bellow the interaction threshold

---
 DRecPy/Dataset/mem_dataset.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index ed6621c..109bca2 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -139,14 +139,14 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         else:
             try:
                 negative_ds = self._apply_query(f'interaction < {interaction_threshold}', in_place=False)
-                existing_null_pair_gen = self.select_random_generator(negative_ds, seed=seed)
+                existing_null_pair_gen = self._select_random_generator(negative_ds, seed)
                 next(existing_null_pair_gen)  # force error if there's no matches
             except:
                 existing_null_pair_gen = None
 
-        max_uid = self.max('uid')
-        max_iid = self.max('iid')
-        n_possible_combs = max_uid.astype(np.float) * max_iid.astype(np.float)
+        max_uid = int(self.max('uid'))
+        max_iid = int(self.max('iid'))
+        n_possible_combs = max_uid * max_iid
 
         uid_values = self._df['uid'].values
         iid_values = self._df['iid'].values
-- 
2.43.0


From 0b85b551e767717a4e1ed3e0685c72ad13c13007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:43 +0000
Subject: [PATCH 31/76] fix: null pair generators of datasets with a single
 user or item must also draw pairs without records

---
 DRecPy/Dataset/db_dataset.py  | 2 +-
 DRecPy/Dataset/mem_dataset.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 251378a..95aeec8 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -224,7 +224,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         max_uid = self.max('uid')
         max_iid = self.max('iid')
-        n_possible_combs = max_uid * max_iid
+        n_possible_combs = (max_uid + 1) * (max_iid + 1)
 
         c = self._open_cursor()
         while True:
diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 109bca2..98eaf31 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -146,7 +146,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
 
         max_uid = int(self.max('uid'))
         max_iid = int(self.max('iid'))
-        n_possible_combs = max_uid * max_iid
+        n_possible_combs = (max_uid + 1) * (max_iid + 1)
 
         uid_values = self._df['uid'].values
         iid_values = self._df['iid'].values
-- 
2.43.0


From d27440c67fd3dde0d70d75f879854498c299d5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:04 +0000
Subject: [PATCH 32/76] fix: random generators of database datasets must not
 lock the table in between draws

---
 DRecPy/Dataset/db_dataset.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 95aeec8..9b28924 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -189,18 +189,12 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             count = c.execute(f'SELECT COUNT(*) FROM ({new_state})').fetchone()[0]
             if count == 0: continue
 
-            chosen_record = None
             chosen_idx = rng.randint(0, count - 1)
 
-            c.execute(new_state)
-            curr_idx = 0
-            for row in c:
-                if curr_idx == chosen_idx:
-                    chosen_record = {k: v for k, v in zip(self.columns, row)}
-                    break
-                curr_idx += 1
-
-            if chosen_record is not None: yield chosen_record
+            # must fetch all rows, because a partially read cursor locks the table until the generator is closed
+            rows = c.execute(f'{new_state} ORDER BY rid LIMIT 1 OFFSET {chosen_idx}').fetchall()
+            for row in rows:
+                yield {k: v for k, v in zip(self.columns, row)}
 
     def null_interaction_pair_generator(self, interaction_threshold=None, seed=None):
         assert self.has_internal_ids is True, 'No internal ids assigned yet.'
@@ -236,7 +230,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 random_iid = rng.randint(0, max_iid)
                 query_conditions = self._parse_query(f'uid == {random_uid}, iid == {random_iid}')
                 new_state = self._build_new_state(query_conditions)
-                if c.execute(new_state).fetchone() is None:
+                if len(c.execute(new_state).fetchall()) == 0:
                     yield random_uid, random_iid
 
     def unique(self, columns=None, copy=True):
-- 
2.43.0


From 47d92f162a2889b0d82e9eecbef9bff5b4f0b365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:44 +0000
Subject: [PATCH 33/76] fix: sample negative ids from a sorted list, since sets
 can not be sampled and have no fixed order

---
 DRecPy/Sampler/list_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Sampler/list_sampler.py b/DRecPy/Sampler/list_sampler.py
index a6175ef..a2f6369 100644
--- a/DRecPy/Sampler/list_sampler.py
+++ b/DRecPy/Sampler/list_sampler.py
@@ -144,7 +144,7 @@ class ListSampler:
                                         f'({self.neg_ratio}) or the n_targets ({self.n_targets}).')
                     continue
 
-                negative_ids = self.rng.sample(eligible_negative_ids, n_negative_ids)
+                negative_ids = self.rng.sample(sorted(eligible_negative_ids), n_negative_ids)
                 group_records_list.append((positive_group_records, target_group_records, negative_ids))
                 break
 
-- 
2.43.0


From b94a2162ab24e105bf3b4267137a1c50433d88df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:44 +0000
Subject: [PATCH 34/76] fix: list sampler must quote the values of string group
 columns

---
 DRecPy/Sampler/list_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Sampler/list_sampler.py b/DRecPy/Sampler/list_sampler.py
index a2f6369..8d7a377 100644
--- a/DRecPy/Sampler/list_sampler.py
+++ b/DRecPy/Sampler/list_sampler.py
@@ -94,7 +94,7 @@ class ListSampler:
                 chosen_group = self.rng.choice(self.unique_groups)
                 if not isinstance(chosen_group, list):
                     chosen_group = [chosen_group]
-                query = ','.join([f'{group_col} == {chosen_col_group}' for group_col, chosen_col_group
+                query = ','.join([f'{group_col} == {chosen_col_group!r}' for group_col, chosen_col_group
                                   in zip(self.group_columns, chosen_group)])
                 group_records_ds = self.interaction_dataset.select(query)
                 if self.interaction_threshold is None:
-- 
2.43.0


From 597434b7ea458d95a4f5f7a941c779e2755123d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:44 +0000
Subject: [PATCH 35/76] fix: list sampler sequences that need no padding must
 have n_targets targets, which are the last records

---
 DRecPy/Sampler/list_sampler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Sampler/list_sampler.py b/DRecPy/Sampler/list_sampler.py
index 8d7a377..c480356 100644
--- a/DRecPy/Sampler/list_sampler.py
+++ b/DRecPy/Sampler/list_sampler.py
@@ -116,7 +116,8 @@ class ListSampler:
                 all_positive_group_records = positive_group_records
 
                 padding = None
-                if self.max_positive_records is not None and len(positive_group_records) > self.max_positive_records:
+                if self.max_positive_records is not None and \
+                        len(positive_group_records) > self.max_positive_records + (self.n_targets or 0):
                     if self.n_targets is None:
                         padding = self.rng.randint(0, len(positive_group_records) - self.max_positive_records)
                     else:
@@ -129,8 +130,8 @@ class ListSampler:
 
                 eligible_negative_ids = self.unique_negative_ids.difference(set([rec[self.negative_ids_col] for rec in all_positive_group_records]))
                 if padding is None:
-                    target_group_records = positive_group_records[self.n_targets:]
-                    positive_group_records = positive_group_records[:self.n_targets]
+                    target_group_records = positive_group_records[-self.n_targets:]
+                    positive_group_records = positive_group_records[:-self.n_targets]
                 else:
                     target_group_records = all_positive_group_records[padding + self.max_positive_records:padding + self.max_positive_records + self.n_targets]
 
-- 
2.43.0


From bd1a9c037333a5ce49599cdd2d49ad4ae0042127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:49 +0000
Subject: [PATCH 36/76] fix: random generators of in-memory and database
 datasets must draw the same records for the same seed

---
 DRecPy/Dataset/mem_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 98eaf31..3cee021 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -113,7 +113,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
         rng = random
         if seed is not None: rng = random.Random(seed)
 
-        max_uid = self.max('uid')
+        max_uid = int(df['uid'].max())
         df_columns = [col for col in self.columns if col != 'rid']
         while True:
             random_uid = rng.randint(0, max_uid)
-- 
2.43.0


From fc47584eb8890f360360b5faafdba776b27084bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:39 +0000
Subject: [PATCH 37/76] fix: temporary files must remain registered if there is
 a crash while another one is being unregistered

---
 DRecPy/Dataset/file_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Dataset/file_utils.py b/DRecPy/Dataset/file_utils.py
index 140a84d..706e498 100644
--- a/DRecPy/Dataset/file_utils.py
+++ b/DRecPy/Dataset/file_utils.py
@@ -35,13 +35,15 @@ def unregister_temp_file(file_path):
     try:
         with open(os.path.join(data_path(), 'tmp_files.txt'), 'r') as f:
             paths = f.readlines()
-        with open(os.path.join(data_path(), 'tmp_files.txt'), 'w') as f:
+        # replace the file at once, otherwise a crash in between would leave temp files that are never deleted
+        with open(os.path.join(data_path(), 'tmp_files.txt.new'), 'w') as f:
             for path in paths:
                 if path.strip("\n") != file_path:
                     f.write(path)
                     empty = False
+        os.replace(os.path.join(data_path(), 'tmp_files.txt.new'), os.path.join(data_path(), 'tmp_files.txt'))
     except NameError: pass
-    except FileNotFoundError: pass
+    except FileNotFoundError: return
 
     if empty:
         os.remove(os.path.join(data_path(), 'tmp_files.txt'))
-- 
2.43.0


From 7dcbfbbcff7946ca6178bdc36e8ae4ba1dde2f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:39 +0000
Subject: [PATCH 38/76] fix: a sqlite file must be replaced at once when
 saving, to never be lost by a crash

---
 DRecPy/Dataset/db_dataset.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 9b28924..9a8ed8e 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -10,7 +10,7 @@ from uuid import uuid4
 from tqdm import tqdm
 from threading import RLock
 from os import remove
-from os import rename
+from os import replace
 from os.path import isfile
 from os.path import join
 from os.path import expanduser
@@ -424,8 +424,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
             if path == self._db_path:  # updating origin db - requires to re-open connection
                 self._conn.close()
-                if isfile(path): remove(path)
-                rename(tmp_path, path)
+                replace(tmp_path, path)
                 self._open_connection(path, loading=True)
                 # the new file only has one table, with the records of the current state
                 self._shared_db_table_instances[self._db_path + self._active_table].remove(id(self))
@@ -433,8 +432,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 self._shared_db_table_instances.setdefault(self._db_path + self._active_table, set()).add(id(self))
                 self._state_query = ''
             else:  # saving into distinct destination
-                if isfile(path): remove(path)
-                rename(tmp_path, path)
+                replace(tmp_path, path)
         else:
             projected_cols = shallowcopy(self._handle_columns(columns))
             if 'rid' in projected_cols: projected_cols.remove('rid')
-- 
2.43.0


From 256507523cc283f2ece1bd5885ea0e61a58f47aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:39 +0000
Subject: [PATCH 39/76] fix: closing a dataset twice must have no effect, and
 failing to load one must not leave its temporary file behind

---
 DRecPy/Dataset/db_dataset.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 9a8ed8e..4c4ff8d 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -595,7 +595,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         """Cleanup method to delete temporary database files when they're not in use anymore."""
 
         if self._db_path is not None and self._db_path + self._active_table in self._shared_db_table_instances:
-            self._shared_db_table_instances[self._db_path + self._active_table].remove(id(self))
+            self._shared_db_table_instances[self._db_path + self._active_table].discard(id(self))
             if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 0:
                 del self._shared_db_table_instances[self._db_path + self._active_table]
                 if len(self._open_value_generators) == 0 and not self._is_persisted_table():
@@ -605,14 +605,16 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._conn.close()
 
         if self._db_path is not None and self._db_path in self._shared_db_instances:
-            self._shared_db_instances[self._db_path].remove(id(self))
+            self._shared_db_instances[self._db_path].discard(id(self))
             if len(self._shared_db_instances[self._db_path]) == 0:
                 del self._shared_db_instances[self._db_path]
                 self._shared_open_value_generators.pop(self._db_path, None)
-                if self._db_path in self._temp_db_paths:
-                    self._temp_db_paths.remove(self._db_path)
-                    remove(self._db_path)
-                    unregister_temp_file(self._db_path)
+
+        if self._db_path in self._temp_db_paths and self._db_path not in self._shared_db_instances:
+            # no longer in use, or failed to load
+            self._temp_db_paths.remove(self._db_path)
+            if isfile(self._db_path): remove(self._db_path)
+            unregister_temp_file(self._db_path)
 
     def __str__(self):
         return f'[DatabaseInteractionDataset with shape ({len(self)}, {len(self.columns)})]'
-- 
2.43.0


From 25843db3c50ad88f4bad759b78c8330dbabd8509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:18 +0000
Subject: [PATCH 40/76] fix: ranking and recommendation evaluations of datasets
 with string ids

---
 DRecPy/Evaluation/Processes/ranking_evaluation.py        | 6 +++---
 DRecPy/Evaluation/Processes/recommendation_evaluation.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/DRecPy/Evaluation/Processes/ranking_evaluation.py b/DRecPy/Evaluation/Processes/ranking_evaluation.py
index 4333e20..bf0833d 100644
--- a/DRecPy/Evaluation/Processes/ranking_evaluation.py
+++ b/DRecPy/Evaluation/Processes/ranking_evaluation.py
@@ -164,7 +164,7 @@ def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos
                               train_evaluation, metrics, novelty, metric_sums, k, generate_negative_pairs, rng):
     """Gathers the user positive and negative interactions, applies a ranking on them, and evaluates the provided
     metrics, adding the results to the metric_sums structure."""
-    user_ds = ds_test.select(f'user == {user}')
+    user_ds = ds_test.select(f'user == {user!r}')
 
     # get positive interactions
     user_test_pos_ds = user_ds.select(f'interaction >= {interaction_threshold}')
@@ -194,7 +194,7 @@ def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos
                 user_train_pos_ds = user_test_pos_ds
             else:
                 user_train_pos_ds = model.interaction_dataset \
-                    .select(f'user == {user}, interaction >= {interaction_threshold}')
+                    .select(f'user == {user!r}, interaction >= {interaction_threshold}')
 
             item_blacklist = set(user_train_pos_ds.unique('item').values_list('item', to_list=True))
             if not train_evaluation:
@@ -220,7 +220,7 @@ def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos
 
     # rank according to model
     recommendations = [item for _, item in model.rank(user, all_items, novelty=novelty, skip_invalid_items=True)]
-    relevancies = {item: (user_ds.select_one(f'item == {item}', ['interaction'], to_list=True) or 0)
+    relevancies = {item: (user_ds.select_one(f'item == {item!r}', ['interaction'], to_list=True) or 0)
                    for item in all_items}
 
     # evaluate performance
diff --git a/DRecPy/Evaluation/Processes/recommendation_evaluation.py b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
index 98816b9..fc1bf11 100644
--- a/DRecPy/Evaluation/Processes/recommendation_evaluation.py
+++ b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
@@ -138,7 +138,7 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
     """Gathers the user positive and negative interactions, applies a ranking on them, and evaluates the provided
     metrics, adding the results to the metric_sums structure."""
     global n_tasks_done
-    user_ds = ds_test.select(f'user == {user}')
+    user_ds = ds_test.select(f'user == {user!r}')
 
     # get positive interactions
     user_test_pos_ds = user_ds.select(f'interaction >= {interaction_threshold}')
@@ -163,7 +163,7 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
 
     recommendations = [item for _, item in model.recommend(user, n=max(k), novelty=novelty, skip_invalid_items=True,
                                                            interaction_threshold=ignore_low_predictions_threshold)]
-    relevancies = {item: (user_ds.select_one(f'item == {item}', ['interaction'], to_list=True) or 0)
+    relevancies = {item: (user_ds.select_one(f'item == {item!r}', ['interaction'], to_list=True) or 0)
                    for item in set(user_interacted_items).union(set(recommendations))}
 
     # evaluate performance
-- 
2.43.0


From b752d8e34af2d336c2875ddc907141367cfbc613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:38 +0000
Subject: [PATCH 41/76] fix: the most relevant item of a user is the one with
 the highest interaction

---
 DRecPy/Evaluation/Processes/ranking_evaluation.py        | 2 +-
 DRecPy/Evaluation/Processes/recommendation_evaluation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Evaluation/Processes/ranking_evaluation.py b/DRecPy/Evaluation/Processes/ranking_evaluation.py
index bf0833d..659b256 100644
--- a/DRecPy/Evaluation/Processes/ranking_evaluation.py
+++ b/DRecPy/Evaluation/Processes/ranking_evaluation.py
@@ -176,7 +176,7 @@ def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos
         user_interacted_items = rng.sample(user_test_pos_ds.values_list(['item', 'interaction']), n_pos_interactions)
 
     best_item = None if len(user_interacted_items) == 0 else \
-        max(user_interacted_items, key=lambda p: -p['interaction'])['item']
+        max(user_interacted_items, key=lambda p: p['interaction'])['item']
     user_interacted_items = [pair['item'] for pair in user_interacted_items]
 
     # get negative interactions
diff --git a/DRecPy/Evaluation/Processes/recommendation_evaluation.py b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
index fc1bf11..d0588ca 100644
--- a/DRecPy/Evaluation/Processes/recommendation_evaluation.py
+++ b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
@@ -152,7 +152,7 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
         user_interacted_items = rng.sample(user_test_pos_ds.values_list(['item', 'interaction']), n_pos_interactions)
 
     best_item = None if len(user_interacted_items) == 0 else \
-        max(user_interacted_items, key=lambda p: -p['interaction'])['item']
+        max(user_interacted_items, key=lambda p: p['interaction'])['item']
     user_interacted_items = [pair['item'] for pair in user_interacted_items]
 
     # join and shuffle all items
-- 
2.43.0


From 34008fdc7de87e4d42ef356b92f84909d9f28bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:11 +0000
Subject: [PATCH 42/76] fix: generated negative pairs of the ranking evaluation
 must be items known by the model

---
 DRecPy/Evaluation/Processes/ranking_evaluation.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/DRecPy/Evaluation/Processes/ranking_evaluation.py b/DRecPy/Evaluation/Processes/ranking_evaluation.py
index 659b256..43452a7 100644
--- a/DRecPy/Evaluation/Processes/ranking_evaluation.py
+++ b/DRecPy/Evaluation/Processes/ranking_evaluation.py
@@ -101,6 +101,10 @@ def ranking_evaluation(model, ds_test=None, n_test_users=None, k=10, n_pos_inter
     else:
         _iter = unique_test_users_ds.values(['user'], to_list=True)
 
+    train_items = None  # raw ids of the items that can be sampled when generating negative pairs
+    if generate_negative_pairs:
+        train_items = sorted(model.interaction_dataset.unique('item').values_list('item', to_list=True))
+
     global n_tasks_done
     n_tasks_done, n_tasks = 0, 0
 
@@ -110,7 +114,7 @@ def ranking_evaluation(model, ds_test=None, n_test_users=None, k=10, n_pos_inter
 
         pool.apply_async(_ranking_evaluation_user, (model, user, ds_test, interaction_threshold, n_pos_interactions,
                                                     n_neg_interactions, train_evaluation, metrics, novelty, metric_sums,
-                                                    k, generate_negative_pairs, random.Random(seed)))
+                                                    k, generate_negative_pairs, train_items, random.Random(seed)))
         n_tasks += 1
         num_users_made += 1
         seed += 1
@@ -147,12 +151,12 @@ def ranking_evaluation(model, ds_test=None, n_test_users=None, k=10, n_pos_inter
 
 
 def _ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos_interactions, n_neg_interactions,
-                             train_evaluation, metrics, novelty, metric_sums, k, generate_negative_pairs, rng):
+                             train_evaluation, metrics, novelty, metric_sums, k, generate_negative_pairs, train_items, rng):
     global n_tasks_done
 
     try:
         __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos_interactions, n_neg_interactions,
-                                  train_evaluation, metrics, novelty, metric_sums, k, generate_negative_pairs, rng)
+                                  train_evaluation, metrics, novelty, metric_sums, k, generate_negative_pairs, train_items, rng)
     except Exception as e:
         logging.error(e)
     finally:
@@ -161,7 +165,7 @@ def _ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos_
 
 
 def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos_interactions, n_neg_interactions,
-                              train_evaluation, metrics, novelty, metric_sums, k, generate_negative_pairs, rng):
+                              train_evaluation, metrics, novelty, metric_sums, k, generate_negative_pairs, train_items, rng):
     """Gathers the user positive and negative interactions, applies a ranking on them, and evaluates the provided
     metrics, adding the results to the metric_sums structure."""
     user_ds = ds_test.select(f'user == {user!r}')
@@ -208,7 +212,7 @@ def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos
                 return
 
             while len(user_non_interacted_items) < n_neg_interactions:
-                new_item = rng.randint(0, model.n_items - 1)
+                new_item = train_items[rng.randint(0, len(train_items) - 1)]
                 if new_item not in item_blacklist and new_item not in user_non_interacted_items:
                     user_non_interacted_items.append(new_item)
 
-- 
2.43.0


From 30332e3bab5f0871fe5b734f50861159df4f12c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:58 +0000
Subject: [PATCH 43/76] fix: a user whose recommendations fail must not block
 the recommendation evaluation

---
 .../Processes/recommendation_evaluation.py    | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/DRecPy/Evaluation/Processes/recommendation_evaluation.py b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
index d0588ca..d629959 100644
--- a/DRecPy/Evaluation/Processes/recommendation_evaluation.py
+++ b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
@@ -9,6 +9,7 @@ import matplotlib.pyplot as plt
 from multiprocessing.pool import ThreadPool
 from threading import Lock
 import time
+import logging
 
 n_tasks_done = 0
 n_tasks_lock = Lock()
@@ -135,9 +136,22 @@ def recommendation_evaluation(model, ds_test=None, n_test_users=None, k=10, n_po
 
 def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold, n_pos_interactions, metrics,
                                     novelty, ignore_low_predictions_threshold, metric_sums, k, rng):
+    global n_tasks_done
+
+    try:
+        __recommendation_evaluation_user(model, user, ds_test, interaction_threshold, n_pos_interactions, metrics,
+                                         novelty, ignore_low_predictions_threshold, metric_sums, k, rng)
+    except Exception as e:
+        logging.error(e)
+    finally:
+        with n_tasks_lock:
+            n_tasks_done += 1
+
+
+def __recommendation_evaluation_user(model, user, ds_test, interaction_threshold, n_pos_interactions, metrics,
+                                     novelty, ignore_low_predictions_threshold, metric_sums, k, rng):
     """Gathers the user positive and negative interactions, applies a ranking on them, and evaluates the provided
     metrics, adding the results to the metric_sums structure."""
-    global n_tasks_done
     user_ds = ds_test.select(f'user == {user!r}')
 
     # get positive interactions
@@ -146,8 +160,6 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
         user_interacted_items = user_test_pos_ds.values_list(['item', 'interaction'])
     else:
         if len(user_test_pos_ds) < n_pos_interactions:  # not enough positive interactions
-            with n_tasks_lock:
-                n_tasks_done += 1
             return
         user_interacted_items = rng.sample(user_test_pos_ds.values_list(['item', 'interaction']), n_pos_interactions)
 
@@ -157,8 +169,6 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
 
     # join and shuffle all items
     if len(user_interacted_items) == 0:
-        with n_tasks_lock:
-            n_tasks_done += 1
         return
 
     recommendations = [item for _, item in model.recommend(user, n=max(k), novelty=novelty, skip_invalid_items=True,
@@ -187,6 +197,3 @@ def _recommendation_evaluation_user(model, user, ds_test, interaction_threshold,
                     metric_sums[(m.name, k_)][0] += m(**params)
                     metric_sums[(m.name, k_)][1] += 1
                 except: pass
-
-    with n_tasks_lock:
-        n_tasks_done += 1
-- 
2.43.0


From 68db058693a16a28837fb62bf7dbfe369ad6a050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:18 +0000
Subject: [PATCH 44/76] fix: database datasets must be usable by several
 threads, as the evaluation processes do

---
 DRecPy/Dataset/db_dataset.py | 112 +++++++++++++++++++++++------------
 1 file changed, 75 insertions(+), 37 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 4c4ff8d..6f5cc77 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -9,6 +9,7 @@ import random
 from uuid import uuid4
 from tqdm import tqdm
 from threading import RLock
+from functools import wraps
 from os import remove
 from os import replace
 from os.path import isfile
@@ -17,7 +18,18 @@ from os.path import expanduser
 from scipy.sparse import csr_matrix
 
 
+def synchronized(method):
+    """Instances can be shared by threads, and those that are not might still share the same db file, so only one thread
+    at a time can be using or modifying it."""
+    @wraps(method)
+    def wrapper(self, *args, **kwds):
+        with self._lock:
+            return method(self, *args, **kwds)
+    return wrapper
+
+
 class DatabaseInteractionDataset(InteractionDatasetABC):
+    _lock = RLock()  # held by the thread that is using any of the db files
     _open_value_generators = set()  # a set containing the still open value generators (not fully read or not GCed)
     _shared_open_value_generators = dict()  # maps the db file paths to their set of still open value generators
     _shared_db_instances = dict()  # maps the db file paths to a list of object ids currently using it
@@ -38,7 +50,6 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         self.chunk_size = kwds.get('chunksize', 10 ** 5)
 
         self._state_query = ''
-        self._state_lock = RLock()  # instances might be copied by a thread while another one is optimizing them
         self._queries_wo_optimize = 0
         self._conn = None
         self._db_path = None
@@ -79,6 +90,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         self._log('Done!')
 
+    @synchronized
     def __len__(self):
         if self._n_rows is None:
             c = self._open_cursor()
@@ -86,6 +98,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._n_rows = c.fetchone()[0]
         return self._n_rows
 
+    @synchronized
     def select(self, query, copy=True):
         new_ds = self.copy() if copy else self
         if copy: self._record_interaction()
@@ -96,6 +109,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         return new_ds
 
+    @synchronized
     def select_one(self, query, columns=None, to_list=False):
         self._record_interaction()
         query_conditions = self._parse_query(query)
@@ -110,6 +124,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         return self._from_row_to_record(row, columns, to_list)
 
+    @synchronized
     def select_user_interaction_vec(self, uid):
         assert self.has_internal_ids is True, 'Cannot retrieve user interaction vector without assigned internal ids.'
         assert self.uid_to_user(uid) is not None, f'User internal id {uid} was not found.'
@@ -136,6 +151,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         return self._user_interaction_vec_cache[uid]
 
+    @synchronized
     def select_item_interaction_vec(self, iid):
         assert self.has_internal_ids is True, 'Cannot retrieve user interaction vector without assigned internal ids.'
         assert self.iid_to_item(iid) is not None, f'Item internal id {iid} was not found.'
@@ -162,6 +178,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         return self._item_interaction_vec_cache[iid]
 
+    @synchronized
     def select_random_generator(self, query=None, seed=None):
         assert self.has_internal_ids is True, 'No internal ids assigned yet.'
 
@@ -184,15 +201,16 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         max_uid = self.max('uid')
         while True:
             random_uid = rng.randint(0, max_uid)
-            query_conditions = self._parse_query(f'uid == {random_uid}')
-            new_state = self._build_new_state(query_conditions)
-            count = c.execute(f'SELECT COUNT(*) FROM ({new_state})').fetchone()[0]
-            if count == 0: continue
+            with self._lock:
+                query_conditions = self._parse_query(f'uid == {random_uid}')
+                new_state = self._build_new_state(query_conditions)
+                count = c.execute(f'SELECT COUNT(*) FROM ({new_state})').fetchone()[0]
+                if count == 0: continue
 
-            chosen_idx = rng.randint(0, count - 1)
+                chosen_idx = rng.randint(0, count - 1)
 
-            # must fetch all rows, because a partially read cursor locks the table until the generator is closed
-            rows = c.execute(f'{new_state} ORDER BY rid LIMIT 1 OFFSET {chosen_idx}').fetchall()
+                # must fetch all rows, because a partially read cursor locks the table until the generator is closed
+                rows = c.execute(f'{new_state} ORDER BY rid LIMIT 1 OFFSET {chosen_idx}').fetchall()
             for row in rows:
                 yield {k: v for k, v in zip(self.columns, row)}
 
@@ -228,11 +246,14 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             else:
                 random_uid = rng.randint(0, max_uid)
                 random_iid = rng.randint(0, max_iid)
-                query_conditions = self._parse_query(f'uid == {random_uid}, iid == {random_iid}')
-                new_state = self._build_new_state(query_conditions)
-                if len(c.execute(new_state).fetchall()) == 0:
+                with self._lock:
+                    query_conditions = self._parse_query(f'uid == {random_uid}, iid == {random_iid}')
+                    new_state = self._build_new_state(query_conditions)
+                    has_records = len(c.execute(new_state).fetchall()) > 0
+                if not has_records:
                     yield random_uid, random_iid
 
+    @synchronized
     def unique(self, columns=None, copy=True):
         columns = shallowcopy(self._handle_columns(columns))
         new_ds = self.copy() if copy else self
@@ -254,6 +275,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         new_ds._update_state(new_state)
         return new_ds
 
+    @synchronized
     def count_unique(self, columns=None):
         self._record_interaction()
         columns = self._handle_columns(columns)
@@ -263,6 +285,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         c.execute(f'SELECT COUNT(*) FROM (SELECT DISTINCT {",".join(columns)} FROM ({self._curr_state_source()}))')
         return c.fetchone()[0]
 
+    @synchronized
     def max(self, column=None):
         self._record_interaction()
         self._validate_column(column)
@@ -271,6 +294,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         c.execute(f'SELECT MAX({column}) FROM ({self._curr_state_source()})')
         return c.fetchone()[0]
 
+    @synchronized
     def min(self, column=None):
         self._record_interaction()
         self._validate_column(column)
@@ -279,6 +303,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         c.execute(f'SELECT MIN({column}) FROM ({self._curr_state_source()})')
         return c.fetchone()[0]
 
+    @synchronized
     def values(self, columns=None, to_list=False):
         class ValueGenerator:
             def __init__(self, open_value_generators, row_to_record_fn):
@@ -291,20 +316,22 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 return self  # no reference cycles: must be closed as soon as it goes out of scope
 
             def __next__(self):
-                row = None if self.removed_gen else c.fetchone()
-                if row is None:
-                    self.close()
-                    raise StopIteration
+                with lock:
+                    row = None if self.removed_gen else c.fetchone()
+                    if row is None:
+                        self.close()
+                        raise StopIteration
                 return self.row_to_record_fn(row, columns, to_list)
 
             def __del__(self):
-                if not self.removed_gen:
-                    self.open_value_generators.remove(c)
-                    self.removed_gen = True
-                    try:
-                        c.close()
-                    except Exception:
-                        pass
+                with lock:
+                    if not self.removed_gen:
+                        self.open_value_generators.remove(c)
+                        self.removed_gen = True
+                        try:
+                            c.close()
+                        except Exception:
+                            pass
 
             def close(self):
                 self.__del__()
@@ -312,12 +339,14 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         self._record_interaction()
         columns = self._handle_columns(columns)
 
+        lock = self._lock
         curr_state_query = self._build_new_state()
         c = self._open_cursor()
         c.execute(f'{curr_state_query} ORDER BY rid')  # the order must not depend on how the state is stored
 
         return ValueGenerator(self._open_value_generators, self._from_row_to_record)
 
+    @synchronized
     def drop(self, record_ids, copy=True, keep=False):
         new_ds = self.copy() if copy else self
         if copy: self._record_interaction()
@@ -331,6 +360,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         new_ds._update_state(new_state)
         return new_ds
 
+    @synchronized
     def user_to_uid(self, user):
         assert self.has_internal_ids is True, 'No internal ids assigned yet.'
 
@@ -348,6 +378,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         return None if ret is None else ret[0]
 
+    @synchronized
     def uid_to_user(self, uid):
         assert self.has_internal_ids is True, 'No internal ids assigned yet.'
 
@@ -357,6 +388,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         return None if ret is None else ret[0]
 
+    @synchronized
     def item_to_iid(self, item):
         assert self.has_internal_ids is True, 'No internal ids assigned yet.'
 
@@ -374,6 +406,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         return None if ret is None else ret[0]
 
+    @synchronized
     def iid_to_item(self, iid):
         assert self.has_internal_ids is True, 'No internal ids assigned yet.'
 
@@ -383,6 +416,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         return None if ret is None else ret[0]
 
+    @synchronized
     def save(self, path='', columns=None, write_header=False):
         """Persists the current dataset instance in the provided path, as a csv or sqlite file.
         Note that internal identifiers, such as the row id (rid), user internal id (uid) and item internal id (iid)
@@ -445,6 +479,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 for record in self.values(columns=projected_cols):
                     writer.writerow([record[col] for col in projected_cols])
 
+    @synchronized
     def assign_internal_ids(self):
         if self._state_query != '' or self._is_persisted_table() \
                 or len(self._shared_db_table_instances[self._db_path + self._active_table]) > 1:
@@ -493,6 +528,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         self._conn.commit()
         self.has_internal_ids = True
 
+    @synchronized
     def remove_internal_ids(self):
         self.has_internal_ids = False
         if 'uid' in self.columns:
@@ -500,6 +536,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self.columns.remove('uid')
             self.columns.remove('iid')
 
+    @synchronized
     def apply(self, column, function):
         self._validate_column(column)
         read_only_columns = ['rid', 'uid', 'iid', 'user', 'item']
@@ -574,23 +611,24 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         except Exception as e:
             raise Exception(f'Failed to apply operation on column "{column}". Details: {e}')
 
+    @synchronized
     def copy(self):
-        with self._state_lock:
-            new = type(self)(path=self._db_path, active_table=self._active_table, columns=shallowcopy(self.columns),
-                             verbose=False)
-
-            new.columns = shallowcopy(self.columns)
-            new.has_internal_ids = self.has_internal_ids
-            new._n_rows = self._n_rows
-            new._state_query = shallowcopy(self._state_query)
-            new._col_types = shallowcopy(self._col_types)
-            new._queries_wo_optimize = self._queries_wo_optimize
-            new._n_rows_before_opt = self._n_rows_before_opt
-            new._user_vec_cache_limit = self._default_user_vec_cache_limit
-            new._item_vec_cache_limit = self._default_item_vec_cache_limit
+        new = type(self)(path=self._db_path, active_table=self._active_table, columns=shallowcopy(self.columns),
+                         verbose=False)
+
+        new.columns = shallowcopy(self.columns)
+        new.has_internal_ids = self.has_internal_ids
+        new._n_rows = self._n_rows
+        new._state_query = shallowcopy(self._state_query)
+        new._col_types = shallowcopy(self._col_types)
+        new._queries_wo_optimize = self._queries_wo_optimize
+        new._n_rows_before_opt = self._n_rows_before_opt
+        new._user_vec_cache_limit = self._default_user_vec_cache_limit
+        new._item_vec_cache_limit = self._default_item_vec_cache_limit
 
         return new
 
+    @synchronized
     def close(self):
         """Cleanup method to delete temporary database files when they're not in use anymore."""
 
@@ -807,9 +845,9 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         self._n_direct_interactions += 1
         if self._n_direct_interactions >= self._opt2_n_direct_interactions_threshold \
                 and len(self._open_value_generators) == 0:
-            with self._state_lock:
-                self._optimize_states()
+            self._optimize_states()
 
+    @synchronized
     def _update_state(self, new_state):
         self._queries_wo_optimize += 1
 
-- 
2.43.0


From d0731787f5fc284a2ede8aaacac0ba2af5453387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:17 +0000
Subject: [PATCH 45/76] fix: user knn rankings using averages must not leave
 out the items without neighbour interactions

---
 DRecPy/Recommender/Baseline/user_knn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Recommender/Baseline/user_knn.py b/DRecPy/Recommender/Baseline/user_knn.py
index 7803dbf..042998f 100644
--- a/DRecPy/Recommender/Baseline/user_knn.py
+++ b/DRecPy/Recommender/Baseline/user_knn.py
@@ -72,7 +72,8 @@ class UserKNN(BaseKNN):
             rated_items = self.interaction_dataset.select(f'uid == {uid}').values_list('iid', to_list=True)
             iids = iids.difference(set(rated_items))
 
-        tmp_iid_info = dict()
+        # when using averages, there must also be predictions for the items without neighbour interactions
+        tmp_iid_info = {iid: ([], []) for iid in iids} if self.use_averages else dict()
 
         for similarity, neighbour in self._neighbours[uid]:
             neighbour_records = self.interaction_dataset.select(f'uid == {neighbour}')
-- 
2.43.0


From 791915733032a21143c2d9f634fa3cadcaba04e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:08 +0000
Subject: [PATCH 46/76] fix: knn models that are fitted again must not keep the
 previous similarities

---
 DRecPy/Recommender/Baseline/base_knn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DRecPy/Recommender/Baseline/base_knn.py b/DRecPy/Recommender/Baseline/base_knn.py
index 22867e7..2874b99 100644
--- a/DRecPy/Recommender/Baseline/base_knn.py
+++ b/DRecPy/Recommender/Baseline/base_knn.py
@@ -73,6 +73,9 @@ class BaseKNN(RecommenderABC, ABC):
         self._neighbours = dict()
 
     def _pre_fit(self, learning_rate, neg_ratio, reg_rate, **kwds):
+        self._similarities = dict()  # must not depend on previous fits
+        self._neighbours = dict()
+
         self._info('Computing similarity matrix...')
         self._compute_similarities()
 
-- 
2.43.0


From 9dbe3fae05cfce21f01cf421871be090f1868951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:31 +0000
Subject: [PATCH 47/76] fix: train deep models with the keras version of
 current tensorflow releases

---
 DRecPy/Recommender/cdae.py            |  2 +-
 DRecPy/Recommender/dmf.py             |  2 +-
 DRecPy/Recommender/recommender_abc.py | 10 +++++-----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/DRecPy/Recommender/cdae.py b/DRecPy/Recommender/cdae.py
index a908503..23d69ad 100644
--- a/DRecPy/Recommender/cdae.py
+++ b/DRecPy/Recommender/cdae.py
@@ -76,7 +76,7 @@ class CDAE(RecommenderABC):
         return tf.sigmoid(tf.matmul(hidden_layer, self.W_) + self.b_)  # K x I
 
     def _compute_batch_loss(self, predictions, desired_values, **kwds):
-        return self._loss(desired_values, predictions)
+        return self._loss(tf.convert_to_tensor(desired_values, dtype=tf.float32), tf.concat(predictions, 0))
 
     def _compute_reg_loss(self, reg_rate, batch_size, trainable_models, trainable_layers, trainable_weights, **kwds):
         return sum([tf.nn.l2_loss(v) for v in [self.W, self.W_, self.V]]) * reg_rate / batch_size
diff --git a/DRecPy/Recommender/dmf.py b/DRecPy/Recommender/dmf.py
index 33a8b66..7519fd6 100644
--- a/DRecPy/Recommender/dmf.py
+++ b/DRecPy/Recommender/dmf.py
@@ -96,7 +96,7 @@ class DMF(RecommenderABC):
         return predictions, batch_samples['desired_values']
 
     def _compute_batch_loss(self, predictions, desired_values, **kwds):
-        return self._loss(desired_values, predictions)
+        return self._loss(tf.convert_to_tensor(desired_values, dtype=tf.float32), predictions)
 
     def _predict(self, uid, iid, **kwds):
         user_tensors, item_tensors = self._preprocess_input([uid], [iid])
diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index 352aac3..de6b742 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -194,7 +194,7 @@ class RecommenderABC(ABC):
                 trainable_weights = self.trainable_weights + \
                                     [layer.trainable_weights for layer in self.trainable_layers] + \
                                     [model.trainable_weights for model in self.trainable_models]
-                for trainable_weight in trainable_weights:
+                for trainable_weight in self.trainable_weights:  # those of layers and models are watched by default
                     tape.watch(trainable_weight)
 
                 loss = self._compute_batch_loss(predictions, desired_values, **kwds) + \
@@ -326,12 +326,12 @@ class RecommenderABC(ABC):
                     for trainable in trainable_layers + trainable_models])
 
     def _update_weights(self, gradients, trainable_weights):
+        grads_and_vars = []  # must be applied at once, since optimizers are built for a fixed set of variables
         for gradient, trainable_var in zip(gradients, trainable_weights):
-            if tf.is_tensor(gradient):
-                gradient = [gradient]
             if tf.is_tensor(trainable_var):
-                trainable_var = [trainable_var]
-            self.optimizer.apply_gradients(zip(gradient, trainable_var))
+                gradient, trainable_var = [gradient], [trainable_var]
+            grads_and_vars.extend(zip(gradient, trainable_var))
+        self.optimizer.apply_gradients(grads_and_vars)
 
     def _store_epoch_weights(self):
         self.epoch_weights.append({
-- 
2.43.0


From 7cfd9de5ce3a8a7bd24f08fdd6ce3d6c3e62670b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:31 +0000
Subject: [PATCH 48/76] fix: caser must only rank the requested items

---
 DRecPy/Recommender/caser.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/DRecPy/Recommender/caser.py b/DRecPy/Recommender/caser.py
index b816bb8..20bd463 100644
--- a/DRecPy/Recommender/caser.py
+++ b/DRecPy/Recommender/caser.py
@@ -135,12 +135,9 @@ class Caser(RecommenderABC):
 
         all_items = list(range(self.n_items))
         predictions = self._predict_batch_aux([uid], [user_iids[-self.L:]], [all_items])[0]
-        item_preds = list(zip(predictions, all_items))
 
+        iids = set(iids)
         if novelty:
-            user_iids_set = set(user_iids)
-            novel_user_iids = list(filter(lambda x: x not in user_iids_set, iids))
-            item_preds = [(pred, item) for pred, item in item_preds if item in novel_user_iids]
-            return nlargest(n, item_preds)
+            iids = iids.difference(set(user_iids))
 
-        return nlargest(n, item_preds)
+        return nlargest(n, [(pred, item) for pred, item in zip(predictions, all_items) if item in iids])
-- 
2.43.0


From 523b1d3aaa2f0ce7d4153135e96ab8643cdc7b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:48 +0000
Subject: [PATCH 49/76] fix: fitting a copy of the dataset

---
 DRecPy/Recommender/recommender_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index de6b742..aa198de 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -134,7 +134,7 @@ class RecommenderABC(ABC):
         self.interaction_dataset = interaction_dataset
         if copy_dataset:
             self._info('Cloning new dataset instance...')
-            self.interaction_dataset = interaction_dataset.__copy__()
+            self.interaction_dataset = interaction_dataset.copy()
         self.interaction_dataset.assign_internal_ids()
 
         self.min_interaction = self.interaction_dataset.min('interaction')
-- 
2.43.0


From 0949df22cbd854b4d887f1ff2eee0800f53b1623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:48 +0000
Subject: [PATCH 50/76] fix: models that are fitted again must not keep the
 trainable variables and weights of previous fits

---
 DRecPy/Recommender/recommender_abc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index aa198de..7a0139d 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -147,6 +147,10 @@ class RecommenderABC(ABC):
 
         self._loss_tracker = LossTracker()
 
+        # must not depend on previous fits
+        self.trainable_weights, self.trainable_layers, self.trainable_models = [], [], []
+        self.epoch_weights = []
+
         self._log_initial_info()
 
         self._info('Creating auxiliary structures...')
-- 
2.43.0


From a63d9d53fdf1effe445b373378b1418906f7ee02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:48 +0000
Subject: [PATCH 51/76] fix: the weights of layers and models stored for each
 epoch must not change on the following epochs

---
 DRecPy/Recommender/recommender_abc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index 7a0139d..c6aefb1 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -340,8 +340,8 @@ class RecommenderABC(ABC):
     def _store_epoch_weights(self):
         self.epoch_weights.append({
             'trainable_weights': copy.deepcopy(self.trainable_weights),
-            'trainable_layers': [layer.trainable_weights for layer in self.trainable_layers],
-            'trainable_models': [model.trainable_weights for model in self.trainable_models]
+            'trainable_layers': [layer.get_weights() for layer in self.trainable_layers],
+            'trainable_models': [model.get_weights() for model in self.trainable_models]
         })
 
     def _revert_weights(self, epoch):
-- 
2.43.0


From 53b123cb009170b3dd2f08a56a8a25cd7330a399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:48 +0000
Subject: [PATCH 52/76] fix: early stopping rules that can not be computed must
 not make the fit fail

---
 DRecPy/Recommender/recommender_abc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index c6aefb1..9efefb8 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -232,8 +232,8 @@ class RecommenderABC(ABC):
                                                                             self._loss_tracker.called_epochs)
                     if early_stopping_rule.stop_training(e, early_stopping_best_epoch, epochs):
                         break
-                except InvalidEpochValidationResultsException as e:
-                    self._warn(f'Failed to compute early stopping rule {early_stopping_rule.__class__.__name__}: {e}')
+                except InvalidEpochValidationResultsException as err:
+                    self._warn(f'Failed to compute early stopping rule {early_stopping_rule.__class__.__name__}: {err}')
 
             if early_stopping_best_epoch is not None:
                 progress_desc += f' | {early_stopping_rule.__class__.__name__} best epoch: {early_stopping_best_epoch}'
@@ -251,8 +251,8 @@ class RecommenderABC(ABC):
                 if self.verbose:
                     _iter.set_description(progress_desc)
                 self._info(progress_desc, log_console=False)
-            except InvalidEpochValidationResultsException as e:
-                self._warn(f'Failed to compute early stopping rule {early_stopping_rule.__class__.__name__}: {e}')
+            except InvalidEpochValidationResultsException as err:
+                self._warn(f'Failed to compute early stopping rule {early_stopping_rule.__class__.__name__}: {err}')
 
         if early_stopping_best_epoch is not None and early_stopping_best_epoch != epochs:
             self._info(f'Reverting network weights to epoch {early_stopping_best_epoch} due to the evaluation of the '
-- 
2.43.0


From b8e69d1db2292eb708c1730cb0b50cf734da0462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:57 +0000
Subject: [PATCH 53/76] fix: models with a seed must always have the same
 initial weights

---
 DRecPy/Recommender/recommender_abc.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index 9efefb8..5e20899 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -155,7 +155,15 @@ class RecommenderABC(ABC):
 
         self._info('Creating auxiliary structures...')
         self._register_optimizer(tf.keras.optimizers.Adam(learning_rate=learning_rate))  # default optimizer
-        self._pre_fit(learning_rate, neg_ratio, reg_rate, **kwds)
+        self._rng = random.Random(self.seed)
+        tf.random.set_seed(self.seed)
+        global_rng_state = random.getstate()
+        if self.seed is not None:
+            random.seed(self.seed)  # keras draws the seed of each layer and initializer from the global generator
+        try:
+            self._pre_fit(learning_rate, neg_ratio, reg_rate, **kwds)
+        finally:
+            if self.seed is not None: random.setstate(global_rng_state)
         if kwds.get('optimizer', None) is not None:  # allow forcing custom optimizer
             self._register_optimizer(kwds.get('optimizer'))
         self.fitted = True  # should be able to make predictions after pre fit
-- 
2.43.0


From 1209dc973e29b6e9b5b23d56ba46e70ff1a2d3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:24 +0000
Subject: [PATCH 54/76] fix: early stopping must be able to revert to the
 weights of epoch 0

---
 DRecPy/Recommender/recommender_abc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Recommender/recommender_abc.py b/DRecPy/Recommender/recommender_abc.py
index 5e20899..1d7a06b 100644
--- a/DRecPy/Recommender/recommender_abc.py
+++ b/DRecPy/Recommender/recommender_abc.py
@@ -195,6 +195,8 @@ class RecommenderABC(ABC):
             for metric in epoch_callback_ret:
                 self._loss_tracker.add_epoch_callback_result(metric, epoch_callback_ret[metric], 0)
 
+        self._store_epoch_weights()  # epoch 0: might also be the best one, since epoch callbacks can be called before it
+
         _iter = range(1, epochs+1)
         if self.verbose:
             _iter = tqdm(range(1, epochs+1), total=epochs, desc='Fitting model...', position=0, leave=True)
@@ -353,7 +355,7 @@ class RecommenderABC(ABC):
         })
 
     def _revert_weights(self, epoch):
-        target_weights = self.epoch_weights[epoch-1]  # convert to 0-based idx
+        target_weights = self.epoch_weights[epoch]
         for model, weights in zip(self.trainable_models, target_weights['trainable_models']):
             model.set_weights(weights)
         for layer, weights in zip(self.trainable_layers, target_weights['trainable_layers']):
@@ -361,7 +363,7 @@ class RecommenderABC(ABC):
         for variable, weights in zip(self.trainable_weights, target_weights['trainable_weights']):
             variable.assign(weights)
 
-        self._info(f'Network weights reverted from epoch {len(self.epoch_weights)} to epoch {epoch}.')
+        self._info(f'Network weights reverted from epoch {len(self.epoch_weights) - 1} to epoch {epoch}.')
 
     def predict(self, user_id, item_id, skip_errors=False, **kwds):
         """Performs a prediction using the provided user_id and item_id.
-- 
2.43.0


From a4ef6c5f513d620a1f732a7605069037d3d60785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:55 +0000
Subject: [PATCH 55/76] fix: models fitted on out of memory datasets must be
 possible to save

---
 DRecPy/Dataset/db_dataset.py | 48 ++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 6f5cc77..071085f 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -74,16 +74,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         else:
             self._load_from_csv(path, kwds.get('delimiter', ','), kwds.get('has_header', True), kwds.get('encoding', None))
 
-        if self._db_path not in self._shared_db_instances:
-            self._shared_db_instances[self._db_path] = set()
-        self._shared_db_instances[self._db_path].add(id(self))
-
-        # generators of other database files do not prevent this one from being modified
-        self._open_value_generators = self._shared_open_value_generators.setdefault(self._db_path, set())
-
-        if self._db_path + self._active_table not in self._shared_db_table_instances:
-            self._shared_db_table_instances[self._db_path + self._active_table] = set()
-        self._shared_db_table_instances[self._db_path + self._active_table].add(id(self))
+        self._register_instance()
 
         self._n_rows = len(self)
         self._n_rows_before_opt = self._n_rows
@@ -654,10 +645,47 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             if isfile(self._db_path): remove(self._db_path)
             unregister_temp_file(self._db_path)
 
+    @synchronized
+    def __getstate__(self):
+        # the db file might not exist or be different when loading, so the records themselves are stored
+        state = self.__dict__.copy()
+        for attr in ['_conn', '_db_path', '_open_value_generators']: state.pop(attr, None)
+        state['_records'] = [list(r.values()) for r in self.values(columns=self.columns)]
+        return state
+
+    @synchronized
+    def __setstate__(self, state):
+        records = state.pop('_records')
+        self.__dict__.update(state)
+        self._state_query = ''
+        self._open_connection(join(data_path(), f'interactions_{id(self)}.{uuid4().hex}.tmp.sqlite'))
+        self._temp_db_paths.add(self._db_path)
+
+        c = self._open_cursor()
+        self._build_table(c, self._active_table)
+        c.executemany(f'INSERT INTO {self._active_table} ({",".join(self.columns)}) '
+                      f'VALUES ({",".join("?" * len(self.columns))})', records)
+        self._build_indexes(c, self._active_table)
+        self._conn.commit()
+        self._register_instance()
+
     def __str__(self):
         return f'[DatabaseInteractionDataset with shape ({len(self)}, {len(self.columns)})]'
 
     """ Auxiliary private methods"""
+    def _register_instance(self):
+        """Registers the current instance as a user of its db file and active table."""
+        if self._db_path not in self._shared_db_instances:
+            self._shared_db_instances[self._db_path] = set()
+        self._shared_db_instances[self._db_path].add(id(self))
+
+        # generators of other database files do not prevent this one from being modified
+        self._open_value_generators = self._shared_open_value_generators.setdefault(self._db_path, set())
+
+        if self._db_path + self._active_table not in self._shared_db_table_instances:
+            self._shared_db_table_instances[self._db_path + self._active_table] = set()
+        self._shared_db_table_instances[self._db_path + self._active_table].add(id(self))
+
     def _load_from_db(self, path):
         self._log('Trying to load data from existing database...')
         self._open_connection(path, loading=True)
-- 
2.43.0


From 1df4e2c57e223bf2105197f0cd7ab2e9c8ca7741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:55 +0000
Subject: [PATCH 56/76] fix: models that use point samplers must be possible to
 save

---
 DRecPy/Sampler/point_sampler.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Sampler/point_sampler.py b/DRecPy/Sampler/point_sampler.py
index bc62f0d..f75fd64 100644
--- a/DRecPy/Sampler/point_sampler.py
+++ b/DRecPy/Sampler/point_sampler.py
@@ -30,15 +30,26 @@ class PointSampler:
         self.neg_ratio = neg_ratio
         self.interaction_threshold = interaction_threshold
         self.rng = random.Random(seed)
+        self.seed = seed
+        self._build_generators()
 
+    def __getstate__(self):
+        # generators can't be stored, so they start again when loading
+        return {k: v for k, v in self.__dict__.items() if k not in ['null_pair_gen', 'pos_pair_gen']}
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        self._build_generators()
+
+    def _build_generators(self):
         self.null_pair_gen = self.interaction_dataset.null_interaction_pair_generator(
-            seed=seed, interaction_threshold=interaction_threshold
+            seed=self.seed, interaction_threshold=self.interaction_threshold
         )
         if self.interaction_threshold is None:
-            self.pos_pair_gen = self.interaction_dataset.select_random_generator(seed=seed)
+            self.pos_pair_gen = self.interaction_dataset.select_random_generator(seed=self.seed)
         else:
             self.pos_pair_gen = self.interaction_dataset.select_random_generator(
-                f'interaction >= {interaction_threshold}', seed=seed
+                f'interaction >= {self.interaction_threshold}', seed=self.seed
             )
 
     def sample(self, n=16):
-- 
2.43.0


From 5a2bbdc33761ee6fe4b0152796d45f29ac7f62aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:32 +0000
Subject: [PATCH 57/76] fix: CDAE must not predict unknown items

---
 DRecPy/Recommender/cdae.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/DRecPy/Recommender/cdae.py b/DRecPy/Recommender/cdae.py
index 23d69ad..b4686e3 100644
--- a/DRecPy/Recommender/cdae.py
+++ b/DRecPy/Recommender/cdae.py
@@ -81,14 +81,13 @@ class CDAE(RecommenderABC):
     def _compute_reg_loss(self, reg_rate, batch_size, trainable_models, trainable_layers, trainable_weights, **kwds):
         return sum([tf.nn.l2_loss(v) for v in [self.W, self.W_, self.V]]) * reg_rate / batch_size
 
-    def _predict(self, uid, iid=None, **kwds):
-        if uid is None: return None
+    def _predict(self, uid, iid, **kwds):
+        if uid is None or iid is None: return None
 
-        predictions = self._reconstruct_for_predictions(uid)
-        return predictions if iid is None else predictions[iid]
+        return self._reconstruct_for_predictions(uid)[iid]
 
     def _rank(self, uid, iids, n, novelty):
-        predictions = self._predict(uid)
+        predictions = self._reconstruct_for_predictions(uid)
 
         if novelty:
             user_ds = self.interaction_dataset.select(f'uid == {uid}')
-- 
2.43.0


From 583c86746b4a2f9db1490953155c80f7700029e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:47 +0000
Subject: [PATCH 58/76] fix: integrated datasets must keep the ids with
 characters outside of ascii

---
 DRecPy/Dataset/integrated_datasets.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Dataset/integrated_datasets.py b/DRecPy/Dataset/integrated_datasets.py
index 452fda7..1d6a4ea 100644
--- a/DRecPy/Dataset/integrated_datasets.py
+++ b/DRecPy/Dataset/integrated_datasets.py
@@ -86,8 +86,8 @@ def download_dataset(ds_name):
 
         os.remove(tmp_path)
     else:
-        with open(os.path.join(dataset_path, ds_options.full_file), 'w') as f:
-            f.write(data.decode(ds_options.encoding))
+        with open(os.path.join(dataset_path, ds_options.full_file), 'wb') as f:
+            f.write(data)
 
 
 def get_dataset(ds_name, path, is_generated=False, force_out_of_memory=False, verbose=True, **kwds):
@@ -100,7 +100,7 @@ def get_dataset(ds_name, path, is_generated=False, force_out_of_memory=False, ve
         download_dataset(ds_name)
 
     if is_generated:
-        return InteractionDataset(path, delimiter=',', columns=ds_options.columns, encoding=ds_options.encoding,
+        return InteractionDataset(path, delimiter=',', columns=ds_options.columns, encoding='utf8',
                                   in_memory=not force_out_of_memory, verbose=verbose, **kwds)
     else:
         return InteractionDataset(path, delimiter=ds_options.delimiter, columns=ds_options.columns,
-- 
2.43.0


From 5f651cf92ae878d3f321ab9e531b496b03bb2dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:51 +0000
Subject: [PATCH 59/76] fix: failed downloads of integrated datasets must be
 repeated, and generated splits complete

---
 DRecPy/Dataset/integrated_datasets.py | 28 +++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/DRecPy/Dataset/integrated_datasets.py b/DRecPy/Dataset/integrated_datasets.py
index 1d6a4ea..406a20a 100644
--- a/DRecPy/Dataset/integrated_datasets.py
+++ b/DRecPy/Dataset/integrated_datasets.py
@@ -1,4 +1,5 @@
 import os
+import shutil
 from zipfile import ZipFile
 import requests
 from DRecPy.Dataset import InteractionDataset
@@ -60,11 +61,14 @@ def download_dataset(ds_name):
     """Download the dataset with name passed as argument."""
     ds_options = DATASETS[ds_name]
     print('> Downloading from', ds_options.url)
-    data = requests.get(ds_options.url).content
+    response = requests.get(ds_options.url)
+    response.raise_for_status()
+    data = response.content
 
-    dataset_path = get_dataset_path(ds_name)
-    if not os.path.exists(dataset_path):
-        os.makedirs(dataset_path)
+    # the dataset is only considered stored after all its files are, so that failed downloads are repeated
+    dataset_path = get_dataset_path(ds_name) + '.tmp'
+    shutil.rmtree(dataset_path, ignore_errors=True)
+    os.makedirs(dataset_path)
 
     if ds_options.unzip:
         print('> Extracting files from zip')
@@ -89,6 +93,14 @@ def download_dataset(ds_name):
         with open(os.path.join(dataset_path, ds_options.full_file), 'wb') as f:
             f.write(data)
 
+    os.rename(dataset_path, get_dataset_path(ds_name))
+
+
+def store_dataset(dataset, path):
+    """Saves the generated dataset, making sure that the file located at path is always complete."""
+    dataset.save(path + '.tmp')
+    os.replace(path + '.tmp', path)
+
 
 def get_dataset(ds_name, path, is_generated=False, force_out_of_memory=False, verbose=True, **kwds):
     """Returns an InteractionDataset containing the data present in the path argument, and uses the
@@ -140,8 +152,8 @@ def get_train_dataset(ds_name, force_out_of_memory=False, verbose=True, **kwds):
         train_ds, test_ds = leave_k_out(full_ds, k=10, min_user_interactions=10, seed=10)
 
         # store generated datasets for future calls
-        train_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen'))
-        test_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen'))
+        store_dataset(train_ds, os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen'))
+        store_dataset(test_ds, os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen'))
         return train_ds
 
     path = os.path.join(get_dataset_path(ds_name), ds_options.train_file)
@@ -180,8 +192,8 @@ def get_test_dataset(ds_name, force_out_of_memory=False, verbose=True, **kwds):
         train_ds, test_ds = leave_k_out(full_ds, k=10, min_user_interactions=10, seed=10)
 
         # store generated datasets for future calls
-        train_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen'))
-        test_ds.save(os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen'))
+        store_dataset(train_ds, os.path.join(get_dataset_path(ds_name), ds_name + '_train.gen'))
+        store_dataset(test_ds, os.path.join(get_dataset_path(ds_name), ds_name + '_test.gen'))
         return test_ds
 
     path = os.path.join(get_dataset_path(ds_name), ds_options.test_file)
-- 
2.43.0


From 87f1a7530793c3def831c23201cf6865ba59c2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:40 +0000
Subject: [PATCH 60/76] fix: Caser could not have fewer horizontal filters than
 the sequence is long

---
 DRecPy/Recommender/caser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Recommender/caser.py b/DRecPy/Recommender/caser.py
index 20bd463..356876f 100644
--- a/DRecPy/Recommender/caser.py
+++ b/DRecPy/Recommender/caser.py
@@ -105,7 +105,7 @@ class Caser(RecommenderABC):
         out_h = []
         for conv_h in self.convs_h:
             conv_output = self.act_h(conv_h(items_embeddings))
-            out_h.append(tf.squeeze(tf.nn.max_pool1d(conv_output, self.n_h, self.n_h, 'SAME'), 1))
+            out_h.append(tf.reduce_max(conv_output, axis=1))
 
         out_h = tf.concat(out_h, 1)
         concat_out = tf.concat([out_v, out_h], 1)
-- 
2.43.0


From dc8f1320dab552dba63ea5f41e7f613d1ac8aa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:55 +0000
Subject: [PATCH 61/76] fix: importing the package must not delete the temp
 files of other running processes

---
 DRecPy/Dataset/file_utils.py | 51 +++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 12 deletions(-)

diff --git a/DRecPy/Dataset/file_utils.py b/DRecPy/Dataset/file_utils.py
index 706e498..1c39d4c 100644
--- a/DRecPy/Dataset/file_utils.py
+++ b/DRecPy/Dataset/file_utils.py
@@ -1,4 +1,5 @@
 import os
+import re
 
 
 def data_path():
@@ -21,9 +22,23 @@ def is_stored(ds_name):
     return os.path.exists(ds_path)
 
 
+def _register_path():
+    """Each process has its own register of temp files, since those of other running processes must be kept."""
+    return os.path.join(data_path(), f'tmp_files_{os.getpid()}.txt')
+
+
+def _is_running(pid):
+    if os.name == 'nt': return False  # there, files that are being used can't be deleted anyway
+    try:
+        os.kill(pid, 0)
+    except ProcessLookupError: return False
+    except OSError: pass  # not allowed to signal it
+    return True
+
+
 def register_temp_file(file_path):
     try:
-        with open(os.path.join(data_path(), 'tmp_files.txt'), 'a') as f:
+        with open(_register_path(), 'a') as f:
             f.write(file_path + '\n')
     except NameError: pass  # possible errors with calling 'open' on __del__
     except FileNotFoundError: pass
@@ -33,29 +48,41 @@ def unregister_temp_file(file_path):
     empty = True
 
     try:
-        with open(os.path.join(data_path(), 'tmp_files.txt'), 'r') as f:
+        with open(_register_path(), 'r') as f:
             paths = f.readlines()
         # replace the file at once, otherwise a crash in between would leave temp files that are never deleted
-        with open(os.path.join(data_path(), 'tmp_files.txt.new'), 'w') as f:
+        with open(_register_path() + '.new', 'w') as f:
             for path in paths:
                 if path.strip("\n") != file_path:
                     f.write(path)
                     empty = False
-        os.replace(os.path.join(data_path(), 'tmp_files.txt.new'), os.path.join(data_path(), 'tmp_files.txt'))
+        os.replace(_register_path() + '.new', _register_path())
     except NameError: pass
     except FileNotFoundError: return
 
     if empty:
-        os.remove(os.path.join(data_path(), 'tmp_files.txt'))
+        os.remove(_register_path())
 
 
 def delete_temp_files():
+    """Deletes the temp files left behind by processes that are no longer running."""
     try:
-        with open(os.path.join(data_path(), 'tmp_files.txt'), 'r') as f:
-            for path in f:
-                try:
-                    os.remove(path.strip())
-                except: pass
-        os.remove(os.path.join(data_path(), 'tmp_files.txt'))
+        for name in os.listdir(data_path()):
+            match = re.match(r'tmp_files(?:_(\d+))?\.txt(?:\.new)?$', name)
+            if match is None: continue
+            pid = int(match.group(1)) if match.group(1) is not None else None
+            if pid is not None and pid != os.getpid() and _is_running(pid): continue
+
+            try:
+                paths = []
+                if not name.endswith('.new'):  # otherwise is an incomplete copy
+                    with open(os.path.join(data_path(), name), 'r') as f:
+                        paths = [path.strip('\n') for path in f]
+                for path in paths:
+                    try:
+                        os.remove(path)
+                    except: pass
+                if not any(os.path.exists(path) for path in paths):
+                    os.remove(os.path.join(data_path(), name))
+            except FileNotFoundError: pass  # deleted by another process meanwhile
     except NameError: pass
-    except FileNotFoundError: pass
\ No newline at end of file
-- 
2.43.0


From 28cdedfba28432f6c5caea6ec897b65f552b2d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:53 +0000
Subject: [PATCH 62/76] fix: threads reading item vectors failed while another
 one was building the interaction matrix

---
 DRecPy/Dataset/mem_dataset.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 3cee021..27ce485 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -499,7 +499,8 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 cols.append(row[iid_col_idx])
                 interactions.append(float(row[interaction_col_idx]))  # floats due to tf not supporting NPY_INT during np.array to tensor
 
-        self._cached_interaction_matrix = csr_matrix((interactions, (users, cols)),
-                                                     shape=(n_uids, len(self._item_mapping)))
+        interaction_matrix = csr_matrix((interactions, (users, cols)), shape=(n_uids, len(self._item_mapping)))
 
-        self._cached_trans_interaction_matrix = self._cached_interaction_matrix.transpose()
+        # must be set before, since other threads use both as soon as the interaction matrix is set
+        self._cached_trans_interaction_matrix = interaction_matrix.transpose()
+        self._cached_interaction_matrix = interaction_matrix
-- 
2.43.0


From 244caa8b7ee0886e1a5396fa350d804a7c12e736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:43 +0000
Subject: [PATCH 63/76] fix: out-of-memory loading of csv files with blank
 lines, line breaks within values and multi-char delimiters

---
 DRecPy/Dataset/db_dataset.py | 47 ++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 071085f..23ad0f4 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -707,16 +707,23 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
             return col_types
 
-        def process_segment(chunk, delimiter):
+        def read_rows():
+            # records might span several lines, and blank lines are not records
+            with open(path, 'r', encoding=encoding, newline='') as f:
+                if has_header is not False: f.readline()
+                lines = (line.replace(orig_delimiter, new_delimiter) for line in f) if replace_delimiter else f
+                for row in csv.reader(lines, delimiter=new_delimiter):
+                    if len(row) > 0: yield row
+
+        def process_segment(chunk):
             c = self._open_cursor()
             projected_cols = shallowcopy(self.columns)
             # rid is never read from file - remove it to not cause issues with zip(row, projected_cols)
             projected_cols.remove('rid')
 
             try:
-                csv_reader = csv.reader(chunk, delimiter=delimiter)
                 records = []
-                for row in csv_reader:
+                for row in chunk:
                     record = []
                     for value, col in zip(row, projected_cols):
                         if col is None:  # accept None cols when reading as skip cols
@@ -748,17 +755,14 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         replace_delimiter = False
         if len(orig_delimiter) > 1:  # due to csv not accept delimiters with more than 1 char
             replace_delimiter = True
-            new_delimiter = ','
+            new_delimiter = '\x1f'  # unit separator, since any printable char might be part of the values
 
         # read num of lines + detect column types
         num_lines = 0
         first_line = None
-        with open(path, 'r', encoding=encoding) as f:
-            for row in f:
-                if first_line is None and ((num_lines == 0 and has_header is False) or num_lines > 0):
-                    if replace_delimiter: row = row.replace(orig_delimiter, new_delimiter)
-                    first_line = next(csv.reader([row], delimiter=new_delimiter))
-                num_lines += 1
+        for row in read_rows():
+            if first_line is None: first_line = row
+            num_lines += 1
 
         # open db connection and create table
         self._col_types = infer_col_types(first_line)
@@ -770,19 +774,16 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         # import data into db
         chunk = []
         curr_line = 0
-        with open(path, 'r', encoding=encoding) as f:
-            if has_header is not False: f.readline()
-            _iter = f
-            if self.verbose: _iter = tqdm(f, total=num_lines, desc='Importing dataset')
-            for row in _iter:
-                curr_line += 1
-                if replace_delimiter: row = row.replace(orig_delimiter, new_delimiter)
-                chunk.append(row)
-                if len(chunk) == self.chunk_size:
-                    process_segment(chunk, new_delimiter)
-                    chunk = []
-            if len(chunk) > 0:
-                process_segment(chunk, new_delimiter)
+        _iter = read_rows()
+        if self.verbose: _iter = tqdm(_iter, total=num_lines, desc='Importing dataset')
+        for row in _iter:
+            curr_line += 1
+            chunk.append(row)
+            if len(chunk) == self.chunk_size:
+                process_segment(chunk)
+                chunk = []
+        if len(chunk) > 0:
+            process_segment(chunk)
 
         self._build_indexes(self._open_cursor())
         self._conn.commit()
-- 
2.43.0


From c695012e6a21481baf9517243a0396b96a836ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:11 +0000
Subject: [PATCH 64/76] fix: infer the column types of out-of-memory csv files
 from all the values

---
 DRecPy/Dataset/db_dataset.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 23ad0f4..c5ee797 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -696,16 +696,12 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
     def _load_from_csv(self, path, delimiter, has_header, encoding):
 
-        def infer_col_types(first_line):
-            projected_cols = shallowcopy(self.columns)
-            # rid is never read from file - remove it to not cause issues with zip(row, projected_cols)
-            projected_cols.remove('rid')
-
-            col_types = {'rid': int}
-            for value, col in zip(first_line, projected_cols):
-                col_types[col] = self._infer_value_type(value)
-
-            return col_types
+        def update_col_types(row):
+            # the type of a column must be able to represent all its values
+            for value, col in zip(row, projected_cols):
+                if self._col_types.get(col) is str or value == '': continue
+                value_type = self._infer_value_type(value)
+                if value_type is not int or col not in self._col_types: self._col_types[col] = value_type
 
         def read_rows():
             # records might span several lines, and blank lines are not records
@@ -759,13 +755,14 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
         # read num of lines + detect column types
         num_lines = 0
-        first_line = None
+        projected_cols = [col for col in self.columns if col != 'rid']  # rid is never read from file
+        self._col_types = {'rid': int}
         for row in read_rows():
-            if first_line is None: first_line = row
+            update_col_types(row)
             num_lines += 1
+        for col in projected_cols: self._col_types.setdefault(col, str)  # columns without any value
 
         # open db connection and create table
-        self._col_types = infer_col_types(first_line)
         self._open_connection(join(data_path(), f'interactions_{id(self)}.{uuid4().hex}.tmp.sqlite'))
         self._temp_db_paths.add(self._db_path)
         self._build_table(self._open_cursor())
@@ -791,6 +788,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         self.columns = [col for col in self.columns if col is not None]  # remove any skip cols
 
     def _infer_value_type(self, value):
+        if '_' in value or not value.isascii(): return str  # valid python numbers, but sqlite stores them as text
+
         try:
             if '.' in value:
                 raise Exception
-- 
2.43.0


From 68038a96d8315827fe0f31b540e312433cb45822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:48 +0000
Subject: [PATCH 65/76] fix: infer the column types of large in-memory csv
 files from all the values

---
 DRecPy/Dataset/mem_dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 27ce485..6838f8a 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -36,7 +36,9 @@ class MemoryInteractionDataset(InteractionDatasetABC):
 
             names = [i if col is None else col for i, col in enumerate(projected_cols)]  # names must be distinct
             self._df = pd.read_csv(path, delimiter=delimiter, names=names, encoding=kwds.get('encoding'),
-                                   skiprows=skip_rows, usecols=use_cols)
+                                   skiprows=skip_rows, usecols=use_cols,
+                                   # otherwise, the types of large files would be inferred separately for each chunk
+                                   low_memory=len(delimiter) > 1)  # can't be changed for delimiters with more chars
             self.columns = [col for col in self.columns if col is not None]  # remove any skip cols
         else:
             self._df = kwds.get('df')
-- 
2.43.0


From cafba5a1ac3d8ad70c69e2d0da5c62f0b985a1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:46 +0000
Subject: [PATCH 66/76] fix: out-of-memory interaction vectors could not be
 read after running out of memory

---
 DRecPy/Dataset/db_dataset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index c5ee797..16e25f7 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -139,6 +139,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                                                                shape=(1, max_iid + 1))[0]
         except MemoryError:
             self._user_interaction_vec_cache.clear()
+            self._user_interaction_vec_cache[uid] = csr_matrix((interactions, ([0] * len(interactions), cols)),
+                                                               shape=(1, max_iid + 1))[0]
 
         return self._user_interaction_vec_cache[uid]
 
@@ -166,6 +168,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                                                                shape=(1, max_uid + 1))[0]
         except MemoryError:
             self._item_interaction_vec_cache.clear()
+            self._item_interaction_vec_cache[iid] = csr_matrix((interactions, ([0] * len(interactions), cols)),
+                                                               shape=(1, max_uid + 1))[0]
 
         return self._item_interaction_vec_cache[iid]
 
-- 
2.43.0


From 555ea401e81c2655224d083891d39c3979a8f09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:20 +0000
Subject: [PATCH 67/76] fix: a failed apply left the records of out-of-memory
 datasets partially changed

---
 DRecPy/Dataset/db_dataset.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 16e25f7..3997fd9 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -538,6 +538,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         supported_types = [int, float, str]
         if column in read_only_columns: raise Exception(f'Column "{column}" is read-only.')
 
+        prev_col_type = self._col_types[column]
         try:
             value_gen = self.values(columns=[column])
             test_record = next(value_gen)
@@ -573,6 +574,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 self._col_types[column] = new_col_type
                 new_table_name = f'interactions_{uuid4().hex}'
                 c = self._open_cursor()
+                c.execute('BEGIN')
                 self._build_table(c, new_table_name)
 
                 cols = ','.join(self.columns)
@@ -604,6 +606,9 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._conn.commit()
 
         except Exception as e:
+            # undo any changes made until the failure
+            self._conn.rollback()
+            self._col_types[column] = prev_col_type
             raise Exception(f'Failed to apply operation on column "{column}". Details: {e}')
 
     @synchronized
-- 
2.43.0


From a9d5d0acf4606dbc4e54f70d5fbc1e4f32e5d9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:31 +0000
Subject: [PATCH 68/76] fix: ids of in-memory datasets with decimal users or
 items could not be converted

---
 DRecPy/Dataset/mem_dataset.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index 6838f8a..a7d065d 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -272,6 +272,11 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 user = int(user)
             except ValueError:
                 raise Exception(f'The provided user type does not match the inferred type (expected: int, found: {type(user)}')
+        elif 'float' in user_dtype:
+            try:
+                user = float(user)
+            except ValueError:
+                return None
         else: user = str(user)
         return self._user_mapping[user] if user in self._user_mapping else None
 
@@ -289,6 +294,11 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                 item = int(item)
             except ValueError:
                 raise Exception(f'The provided item type does not match the inferred type (expected: int, found: {type(item)}')
+        elif 'float' in item_dtype:
+            try:
+                item = float(item)
+            except ValueError:
+                return None
         else: item = str(item)
         return self._item_mapping[item] if item in self._item_mapping else None
 
-- 
2.43.0


From d21515cee2edc210389b41ca0c131f37db217900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:20 +0000
Subject: [PATCH 69/76] fix: queries with string values that contain spaces or
 commas

---
 DRecPy/Dataset/dataset_abc.py | 13 +++++++++++++
 DRecPy/Dataset/db_dataset.py  |  4 ++--
 DRecPy/Dataset/mem_dataset.py |  4 ++--
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/DRecPy/Dataset/dataset_abc.py b/DRecPy/Dataset/dataset_abc.py
index c4f1539..65c5cba 100644
--- a/DRecPy/Dataset/dataset_abc.py
+++ b/DRecPy/Dataset/dataset_abc.py
@@ -1,5 +1,6 @@
 from abc import abstractmethod, ABC
 from copy import copy
+import re
 
 
 class InteractionDatasetABC(ABC):
@@ -338,6 +339,18 @@ class InteractionDatasetABC(ABC):
         assert type(column) is str, f'Unexpected column type "{type(column)}".'
         assert column in self.columns, f'Unexpected column "{column}".'
 
+    def _split_query(self, query, delimiter):
+        """Splits the query by the delimiters that are not part of a quoted value."""
+        segments = ['']
+        for i, part in enumerate(re.split(r'''("(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*')''', query)):
+            if i % 2 == 1:  # quoted value
+                segments[-1] += part
+            else:
+                first_segment, *other_segments = part.split(delimiter)
+                segments[-1] += first_segment
+                segments.extend(other_segments)
+        return segments
+
     def _handle_columns(self, columns):
         if columns is None: columns = copy(self.columns)
         if type(columns) is not list: columns = [columns]
diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 3997fd9..6978a8d 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -817,12 +817,12 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
     def _parse_query(self, query):
         query = str(query)
-        query_segments = query.split(',')
+        query_segments = self._split_query(query, ',')
         query_conditions = []
 
         for segment in query_segments:
             segment = segment.strip()
-            column, operator, value = segment.split(" ")
+            column, operator, value = self._split_query(segment, " ")
             assert column is not None or operator is not None or value is not None, \
                 'Invalid get query, must be in form: column1 operator1 value1, column2 operator2 value2, ...'
             assert column in self.columns, 'Unexpected column "{c}".'.format(c=column)
diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index a7d065d..addcf95 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -394,14 +394,14 @@ class MemoryInteractionDataset(InteractionDatasetABC):
     """ Auxiliary methods """
     def _apply_query(self, query, in_place=True):
         query = str(query)
-        query_segments = query.split(',')
+        query_segments = self._split_query(query, ',')
 
         condition_vector = None
 
         for idx, segment in enumerate(query_segments):
             segment = segment.strip()
             try:
-                column, operator, value = segment.split(" ")
+                column, operator, value = self._split_query(segment, " ")
             except ValueError:
                 raise Exception(
                     f'Query segment failed to be parsed. Check if there are no missing spaces or invalid characters.'
-- 
2.43.0


From 9be1858e3ceed4302aa877a45c5d40e6df8f8875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 70/76] fix: a failed apply corrupted out-of-memory datasets
 that do not fit in the page cache

---
 DRecPy/Dataset/db_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 6978a8d..4fe6eb7 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -1064,7 +1064,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
 
     @staticmethod
     def _set_pragmas(conn):
-        conn.execute('PRAGMA journal_mode=OFF')  # no need for rollback journals - https://www.sqlite.org/pragma.html#pragma_journal_mode
+        conn.execute('PRAGMA journal_mode=MEMORY')  # no need for rollback journal files - https://www.sqlite.org/pragma.html#pragma_journal_mode
         conn.commit()
         conn.execute('PRAGMA synchronous=OFF')  # no need to sync - https://www.sqlite.org/pragma.html#pragma_synchronous
         conn.commit()
-- 
2.43.0


From 87d6e5c13e222895cd24418aa55274628ab240e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:58 +0000
Subject: [PATCH 71/76] fix: long sequences of filters on out-of-memory
 datasets exceeded the query depth limit

---
 DRecPy/Dataset/db_dataset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 4fe6eb7..ac31e0e 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -38,6 +38,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
     _opt_ratio_threshold = 0.8  # after at least a 20% reduction between old and new states
     _opt_n_query_threshold = 3  # only check if should optimize after X queries w/o optimize
     _opt_n_rows_threshold = 5000  # only optimize if the row diff between states is at least X
+    _opt_max_queries_threshold = 50  # always optimize after X queries w/o optimize, since sqlite limits their depth
     _opt2_n_direct_interactions_threshold = 4  # another optimization strategy independend from the previous one: optimize if the #direct interactions is bigger than this
     _default_user_vec_cache_limit = 1000
     _default_item_vec_cache_limit = 1000
@@ -901,6 +902,9 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._n_rows_before_opt = self._n_rows
             self._optimize_states()
 
+        if self._queries_wo_optimize >= self._opt_max_queries_threshold:
+            self._optimize_states()
+
     def _is_persisted_table(self):
         """Returns whether the active table is the one saved on a db file of the user, which must never be modified."""
         return self._active_table == 'interactions' and self._db_path not in self._temp_db_paths
-- 
2.43.0


From ae05c3704c20780684550e00c9fc77c82719a35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:03 +0000
Subject: [PATCH 72/76] fix: ids that do not fit in 64 bits were merged in
 out-of-memory datasets

---
 DRecPy/Dataset/db_dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index ac31e0e..f489459 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -803,8 +803,8 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         try:
             if '.' in value:
                 raise Exception
-            int(value)
-            return int
+            # sqlite would round ints that do not fit in 64 bits
+            return int if -2 ** 63 <= int(value) < 2 ** 63 else str
         except:
             pass
 
-- 
2.43.0


From c943dd4ad4a93cec64fded14d781865d0f4f1ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:52 +0000
Subject: [PATCH 73/76] fix: tables of derived datasets could be left behind in
 the sqlite file of the user

---
 DRecPy/Dataset/db_dataset.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index f489459..8405292 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -33,6 +33,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
     _open_value_generators = set()  # a set containing the still open value generators (not fully read or not GCed)
     _shared_open_value_generators = dict()  # maps the db file paths to their set of still open value generators
     _shared_db_instances = dict()  # maps the db file paths to a list of object ids currently using it
+    _unused_db_tables = dict()  # maps the db file paths to their set of tables that are still to be deleted
     _temp_db_paths = set()  # paths of the temporary db files, the only ones that can be modified or deleted
     _shared_db_table_instances = dict()  # maps the db file path + table name to a list of object ids currently using it
     _opt_ratio_threshold = 0.8  # after at least a 20% reduction between old and new states
@@ -457,6 +458,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                 replace(tmp_path, path)
                 self._open_connection(path, loading=True)
                 # the new file only has one table, with the records of the current state
+                self._unused_db_tables.pop(path, None)
                 self._shared_db_table_instances[self._db_path + self._active_table].remove(id(self))
                 self._active_table = 'interactions'
                 self._shared_db_table_instances.setdefault(self._db_path + self._active_table, set()).add(id(self))
@@ -597,7 +599,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
                     c.executemany(f'INSERT INTO {new_table_name} ({cols}) VALUES ({vars})', chunk)
 
                 self._build_indexes(self._open_cursor(), table_name=new_table_name)
-                self._shared_db_table_instances[self._db_path + self._active_table].remove(id(self))
+                self._release_active_table()
                 self._shared_db_table_instances[self._db_path + new_table_name] = set()
                 self._shared_db_table_instances[self._db_path + new_table_name].add(id(self))
                 self._active_table = new_table_name
@@ -634,11 +636,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         """Cleanup method to delete temporary database files when they're not in use anymore."""
 
         if self._db_path is not None and self._db_path + self._active_table in self._shared_db_table_instances:
-            self._shared_db_table_instances[self._db_path + self._active_table].discard(id(self))
-            if len(self._shared_db_table_instances[self._db_path + self._active_table]) == 0:
-                del self._shared_db_table_instances[self._db_path + self._active_table]
-                if len(self._open_value_generators) == 0 and not self._is_persisted_table():
-                    self._open_cursor().execute(f'DROP TABLE {self._active_table}')
+            self._release_active_table()
 
         if self._conn is not None:
             self._conn.close()
@@ -648,6 +646,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             if len(self._shared_db_instances[self._db_path]) == 0:
                 del self._shared_db_instances[self._db_path]
                 self._shared_open_value_generators.pop(self._db_path, None)
+                self._unused_db_tables.pop(self._db_path, None)
 
         if self._db_path in self._temp_db_paths and self._db_path not in self._shared_db_instances:
             # no longer in use, or failed to load
@@ -696,6 +695,20 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
             self._shared_db_table_instances[self._db_path + self._active_table] = set()
         self._shared_db_table_instances[self._db_path + self._active_table].add(id(self))
 
+    def _release_active_table(self):
+        """Unregisters the current instance as a user of its active table, and deletes the tables that are not in use
+        anymore, as soon as there are no value generators being read."""
+        table_key = self._db_path + self._active_table
+        self._shared_db_table_instances[table_key].discard(id(self))
+        if len(self._shared_db_table_instances[table_key]) == 0:
+            del self._shared_db_table_instances[table_key]
+            if not self._is_persisted_table():
+                self._unused_db_tables.setdefault(self._db_path, set()).add(self._active_table)
+
+        if len(self._open_value_generators) == 0:
+            for table in self._unused_db_tables.pop(self._db_path, set()):
+                self._open_cursor().execute(f'DROP TABLE {table}')
+
     def _load_from_db(self, path):
         self._log('Trying to load data from existing database...')
         self._open_connection(path, loading=True)
-- 
2.43.0


From 9bf5b1ec17bc26eb32f00b6d211ea0d3321000c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:23 +0000
Subject: [PATCH 74/76] fix: metrics of the same name were averaged together by
 the evaluation processes

---
 DRecPy/Evaluation/Metrics/metric_abc.py           | 12 ++++++++++++
 .../Evaluation/Processes/predictive_evaluation.py |  3 ++-
 DRecPy/Evaluation/Processes/ranking_evaluation.py | 15 +++++++++------
 .../Processes/recommendation_evaluation.py        | 15 +++++++++------
 4 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/DRecPy/Evaluation/Metrics/metric_abc.py b/DRecPy/Evaluation/Metrics/metric_abc.py
index 82f723d..eed1d6f 100644
--- a/DRecPy/Evaluation/Metrics/metric_abc.py
+++ b/DRecPy/Evaluation/Metrics/metric_abc.py
@@ -16,3 +16,15 @@ class MetricABC(ABC):
     @abstractmethod
     def __call__(self, *args, **kwargs):
         pass
+
+
+def get_distinct_names(metrics):
+    """Returns the name to be reported for each of the given metrics: its own name, followed by a number (starting at 2)
+    if a previous metric already uses that name, e.g. when the same metric is evaluated with distinct parameters."""
+    names = []
+    for m in metrics:
+        name, n = m.name, 2
+        while name in names:
+            name, n = f'{m.name}_{n}', n + 1
+        names.append(name)
+    return names
diff --git a/DRecPy/Evaluation/Processes/predictive_evaluation.py b/DRecPy/Evaluation/Processes/predictive_evaluation.py
index 26e337d..c598e0a 100644
--- a/DRecPy/Evaluation/Processes/predictive_evaluation.py
+++ b/DRecPy/Evaluation/Processes/predictive_evaluation.py
@@ -1,6 +1,7 @@
 from DRecPy.Evaluation.Metrics import PredictiveMetricABC
 from DRecPy.Evaluation.Metrics import RMSE
 from DRecPy.Evaluation.Metrics import MSE
+from DRecPy.Evaluation.Metrics.metric_abc import get_distinct_names
 from tqdm import tqdm
 
 
@@ -60,6 +61,6 @@ def predictive_evaluation(model, ds_test=None, count_none_predictions=False, n_t
         num_predictions_made += 1
 
     # evaluate performance
-    metric_values = {m.name: round(m(y_true, y_pred), 4) for m in metrics}
+    metric_values = {name: round(m(y_true, y_pred), 4) for name, m in zip(get_distinct_names(metrics), metrics)}
 
     return metric_values
diff --git a/DRecPy/Evaluation/Processes/ranking_evaluation.py b/DRecPy/Evaluation/Processes/ranking_evaluation.py
index 43452a7..bfc45ef 100644
--- a/DRecPy/Evaluation/Processes/ranking_evaluation.py
+++ b/DRecPy/Evaluation/Processes/ranking_evaluation.py
@@ -3,6 +3,7 @@ from DRecPy.Evaluation.Metrics import Precision
 from DRecPy.Evaluation.Metrics import Recall
 from DRecPy.Evaluation.Metrics import HitRatio
 from DRecPy.Evaluation.Metrics import NDCG
+from DRecPy.Evaluation.Metrics.metric_abc import get_distinct_names
 import random
 from tqdm import tqdm
 import matplotlib.pyplot as plt
@@ -58,7 +59,8 @@ def ranking_evaluation(model, ds_test=None, n_test_users=None, k=10, n_pos_inter
         block: A boolean indicating whether the displayed graph block code execution or not. Note that this graph is
             only displayed when verbose=True. Default: true.
     Returns:
-        A dict containing each metric name mapping to the corresponding metric value.
+        A dict containing each metric name mapping to the corresponding metric value. When several metrics have the
+        same name, the second one is reported as name_2, the third one as name_3, and so on.
     """
     assert n_test_users is None or n_test_users > 0, f'The number of test users ({n_test_users}) should be > 0.'
     assert n_pos_interactions is None or n_pos_interactions > 0,\
@@ -89,7 +91,8 @@ def ranking_evaluation(model, ds_test=None, n_test_users=None, k=10, n_pos_inter
     for m in metrics:
         assert isinstance(m, RankingMetricABC), f'Expected metric {m} to be an instance of type RankingMetricABC.'
 
-    metric_sums = {(m.name, k_): [0, 0] for m in metrics for k_ in k}  # list of (metric value sum, metric rankings count)
+    metrics = list(zip(get_distinct_names(metrics), metrics))
+    metric_sums = {(name, k_): [0, 0] for name, _ in metrics for k_ in k}  # list of (metric value sum, metric rankings count)
     num_users_made = 0
 
     unique_test_users_ds = ds_test.unique('user')
@@ -143,7 +146,7 @@ def ranking_evaluation(model, ds_test=None, n_test_users=None, k=10, n_pos_inter
         axes.set_ylabel("Value", fontsize=12)
         axes.set_xlabel("k", fontsize=12)
         k = sorted(k)
-        for m in metrics: axes.plot(k, [results[m.name + f'@{k_}'] for k_ in k], '--o', label=m.name)
+        for name, _ in metrics: axes.plot(k, [results[name + f'@{k_}'] for k_ in k], '--o', label=name)
         plt.legend()
         plt.show(block=kwds.get('block', True))
 
@@ -229,7 +232,7 @@ def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos
 
     # evaluate performance
     with metric_lock:
-        for m in metrics:
+        for name, m in metrics:
             for k_ in k:
                 param_names = m.__call__.__code__.co_varnames
                 params = dict()
@@ -245,6 +248,6 @@ def __ranking_evaluation_user(model, user, ds_test, interaction_threshold, n_pos
                     elif param_name == 'k':
                         params[param_name] = k_
                 try:
-                    metric_sums[(m.name, k_)][0] += m(**params)
-                    metric_sums[(m.name, k_)][1] += 1
+                    metric_sums[(name, k_)][0] += m(**params)
+                    metric_sums[(name, k_)][1] += 1
                 except: pass
diff --git a/DRecPy/Evaluation/Processes/recommendation_evaluation.py b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
index d629959..5cefd38 100644
--- a/DRecPy/Evaluation/Processes/recommendation_evaluation.py
+++ b/DRecPy/Evaluation/Processes/recommendation_evaluation.py
@@ -3,6 +3,7 @@ from DRecPy.Evaluation.Metrics import Precision
 from DRecPy.Evaluation.Metrics import Recall
 from DRecPy.Evaluation.Metrics import HitRatio
 from DRecPy.Evaluation.Metrics import NDCG
+from DRecPy.Evaluation.Metrics.metric_abc import get_distinct_names
 import random
 from tqdm import tqdm
 import matplotlib.pyplot as plt
@@ -54,7 +55,8 @@ def recommendation_evaluation(model, ds_test=None, n_test_users=None, k=10, n_po
             only displayed when verbose=True. Default: true.
 
     Returns:
-        A dict containing each metric name mapping to the corresponding metric value.
+        A dict containing each metric name mapping to the corresponding metric value. When several metrics have the
+        same name, the second one is reported as name_2, the third one as name_3, and so on.
     """
     assert n_test_users is None or n_test_users > 0, f'The number of test users ({n_test_users}) should be > 0.'
     assert n_pos_interactions is None or n_pos_interactions > 0,\
@@ -76,7 +78,8 @@ def recommendation_evaluation(model, ds_test=None, n_test_users=None, k=10, n_po
     for m in metrics:
         assert isinstance(m, RankingMetricABC), f'Expected metric {m} to be an instance of type RankingMetricABC.'
 
-    metric_sums = {(m.name, k_): [0, 0] for m in metrics for k_ in k}  # list of (metric value sum, metric rankings count)
+    metrics = list(zip(get_distinct_names(metrics), metrics))
+    metric_sums = {(name, k_): [0, 0] for name, _ in metrics for k_ in k}  # list of (metric value sum, metric rankings count)
     num_users_made = 0
 
     unique_test_users_ds = ds_test.unique('user')
@@ -127,7 +130,7 @@ def recommendation_evaluation(model, ds_test=None, n_test_users=None, k=10, n_po
         axes.set_ylabel("Value", fontsize=12)
         axes.set_xlabel("k", fontsize=12)
         k = sorted(k)
-        for m in metrics: axes.plot(k, [results[m.name + f'@{k_}'] for k_ in k], '--o', label=m.name)
+        for name, _ in metrics: axes.plot(k, [results[name + f'@{k_}'] for k_ in k], '--o', label=name)
         plt.legend()
         plt.show(block=kwds.get('block', True))
 
@@ -178,7 +181,7 @@ def __recommendation_evaluation_user(model, user, ds_test, interaction_threshold
 
     # evaluate performance
     with metric_lock:
-        for m in metrics:
+        for name, m in metrics:
             for k_ in k:
                 param_names = m.__call__.__code__.co_varnames
                 params = dict()
@@ -194,6 +197,6 @@ def __recommendation_evaluation_user(model, user, ds_test, interaction_threshold
                     elif param_name == 'k':
                         params[param_name] = k_
                 try:
-                    metric_sums[(m.name, k_)][0] += m(**params)
-                    metric_sums[(m.name, k_)][1] += 1
+                    metric_sums[(name, k_)][0] += m(**params)
+                    metric_sums[(name, k_)][1] += 1
                 except: pass
-- 
2.43.0


From d81a973273fc65e070141b8ffe4c0c4e5c7635e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:19 +0000
Subject: [PATCH 75/76] fix: using a closed out-of-memory dataset left an empty
 file behind or changed the datasets sharing its table

---
 DRecPy/Dataset/db_dataset.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/DRecPy/Dataset/db_dataset.py b/DRecPy/Dataset/db_dataset.py
index 8405292..6d5da5c 100644
--- a/DRecPy/Dataset/db_dataset.py
+++ b/DRecPy/Dataset/db_dataset.py
@@ -998,11 +998,7 @@ class DatabaseInteractionDataset(InteractionDatasetABC):
         self._set_pragmas(self._conn)
 
     def _open_cursor(self):
-        try:
-            return self._conn.cursor()
-        except:
-            self._open_connection(self._db_path)
-            return self._conn.cursor()
+        return self._conn.cursor()
 
     def _copy_to_new_db(self, c, keep_rids=False):
         """Copies the records returned from the current state to the interactions table of the provided connection."""
-- 
2.43.0


From a8be504322c0d87bc0eab87ee29bcc5e96fa1652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:13 +0000
Subject: [PATCH 76/76] fix: queries of in-memory datasets refused decimal
 values for record ids and internal ids

---
 DRecPy/Dataset/mem_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DRecPy/Dataset/mem_dataset.py b/DRecPy/Dataset/mem_dataset.py
index addcf95..3bceb18 100644
--- a/DRecPy/Dataset/mem_dataset.py
+++ b/DRecPy/Dataset/mem_dataset.py
@@ -432,7 +432,7 @@ class MemoryInteractionDataset(InteractionDatasetABC):
                         f'(column of type int being compared to a str, or vice versa).'
                     )
             else:
-                value = int(value)
+                value = int(value) if value.lstrip('-').isdigit() else float(value)
 
             # use internal ids aux structures to speed up search
             if column == 'user' and operator in ['==', '!='] and self.has_internal_ids and 'int' not in col_dtype \
-- 
2.43.0

