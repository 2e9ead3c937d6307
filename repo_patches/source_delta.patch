From e5757c02ad82e8dea0f0c62281c9493dbfcb4983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 01/53] fix: PanDatFactory compound foreign key check when
 native and foreign field names overlap

---
 ticdat/pandatfactory.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 6f7c4bc..68af141 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -1467,8 +1467,10 @@ class PanDatFactory(object):
                 new_index = mappings.native_field
             else:
                 parent = parent.drop_duplicates([_.foreign_field for _ in mappings], inplace=False).copy(deep=True)
-                for _ in mappings:
-                    parent[_.native_field] = parent[_.foreign_field]
+                # need to look up all the foreign columns before assigning any, as native and foreign names can overlap
+                foreign_columns = [(_.native_field, parent[_.foreign_field]) for _ in mappings]
+                for native_field, foreign_column in foreign_columns:
+                    parent[native_field] = foreign_column
                 new_index = [_.native_field for _ in mappings]
             # sadly a join might knacker the row order, hence the ugliness with magic_field*2 for child
             parent[magic_field] = True
-- 
2.43.0


From c7fa2bb5ccc7058be047fd8b97a91de702bab0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 02/53] fix: PanDatFactory foreign key check when pandas cannot
 join mixed type keys (issue 173)

---
 ticdat/pandatfactory.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 68af141..2dc8dc8 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -1483,8 +1483,13 @@ class PanDatFactory(object):
                 joined = None # see ticdat issue 173
             except:
                 raise
-            bad_rows = set(child[magic_field*2]) if joined is None else \
-                       set(joined[joined[magic_field] != True][magic_field*2])
+            if joined is None: # pandas can't join these indexes (mixed types), so look up the keys one by one
+                _null_safe = lambda x: None if utils.safe_apply(isnull)(x) is True else x
+                _key = lambda k: tuple(map(_null_safe, k)) if isinstance(k, tuple) else _null_safe(k)
+                parent_keys = set(map(_key, parent.index))
+                bad_rows = {row for row, k in zip(child[magic_field*2], child.index) if _key(k) not in parent_keys}
+            else:
+                bad_rows = set(joined[joined[magic_field] != True][magic_field*2])
             if bad_rows:
                 # I'm casting to list here because child is a copy that doesn't have the original index
                 # This is fixable, (i.e. we could return a Series with an index matching the original child table)
-- 
2.43.0


From 534118e774d156ab267ebc7cb08ef64467bb78d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 03/53] fix: TicDatFactory.remove_foreign_key_failures
 RecursionError on long cascades

---
 ticdat/ticdatfactory.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 3c7da71..2e604cc 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1814,19 +1814,19 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         :return: tic_dat, with the foreign key failures removed
         """
         fk_failures = self.find_foreign_key_failures(tic_dat)
-        needs_removal = set()
-        for fk, (_, failed_pks) in fk_failures.items():
-            for failed_pk in failed_pks:
-                if self.primary_key_fields.get(fk.native_table):
-                    assert dictish(getattr(tic_dat, fk.native_table))
-                    if failed_pk in getattr(tic_dat, fk.native_table) :
-                        del(getattr(tic_dat, fk.native_table)[failed_pk])
-                else:
-                    needs_removal.add((fk.native_table, failed_pk))
-        for t,row_index in sorted(needs_removal, reverse=True):
-            getattr(tic_dat, t).pop(row_index)
-        if fk_failures and propagate:
-            return self.remove_foreign_key_failures(tic_dat)
+        while fk_failures: # a loop, as opposed to recursion, because the removals can cascade arbitrarily deep
+            needs_removal = set()
+            for fk, (_, failed_pks) in fk_failures.items():
+                for failed_pk in failed_pks:
+                    if self.primary_key_fields.get(fk.native_table):
+                        assert dictish(getattr(tic_dat, fk.native_table))
+                        if failed_pk in getattr(tic_dat, fk.native_table) :
+                            del(getattr(tic_dat, fk.native_table)[failed_pk])
+                    else:
+                        needs_removal.add((fk.native_table, failed_pk))
+            for t,row_index in sorted(needs_removal, reverse=True):
+                getattr(tic_dat, t).pop(row_index)
+            fk_failures = self.find_foreign_key_failures(tic_dat) if propagate else None
         return tic_dat
 
     def _get_full_row(self, ticdat, table, pk):
-- 
2.43.0


From fb9c127b80858b575c8673671550326b3760e34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 04/53] fix: TicDatFactory foreign key check when native fields
 share a foreign field

---
 ticdat/ticdatfactory.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 2e604cc..b4a77ef 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1756,6 +1756,10 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                      return getcell(native, native_pk, native_data_row, field_name)
                 for fk in fks:
                     foreign_to_native = fk.foreigntonativemapping()
+                    # native fields sharing a foreign field with another native field (i.e. they need to be equal)
+                    sharing = [(_.native_field, foreign_to_native[_.foreign_field])
+                               for _ in (() if type(fk.mapping) is ForeignKeyMapping else fk.mapping)
+                               if _.native_field != foreign_to_native[_.foreign_field]]
                     for native_pk, native_data_row in (getattr(tic_dat, native).items()
                                 if dictish(getattr(tic_dat, native))
                                 else enumerate(getattr(tic_dat, native))):
@@ -1767,7 +1771,9 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                         if ffs == self.primary_key_fields.get(fk.foreign_table) and len(ffs)==1:
                             foreign_look_up = foreign_look_up[0]
                         foreign_look_into = get_table_data(fk.foreign_table, ffs)
-                        if foreign_look_up not in foreign_look_into:
+                        if foreign_look_up not in foreign_look_into or \
+                                any(getcell_(native_pk, native_data_row, a) != getcell_(native_pk, native_data_row, b)
+                                    for a, b in sharing):
                             rtn_pks[fk].add(native_pk)
                             if type(fk.mapping) is ForeignKeyMapping :
                                 rtn_values[fk].add(getcell_(native_pk, native_data_row,
-- 
2.43.0


From 41d8b6e0b2a82c4035346db49fd3c243f8bf0b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 05/53] fix: PanDatFactory.replace_data_type_failures KeyError
 for an explicit primary key replacement

---
 ticdat/pandatfactory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 2dc8dc8..ce75a2e 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -1228,8 +1228,8 @@ class PanDatFactory(object):
         for table, type_row in self._true_data_types().items():
             for field in type_row:
                 if ((table, field) in replacement_values) or (field in self.default_values.get(table, {})):
-                    real_replacements[table, field] = replacement_values.get((table, field),
-                        self.default_values[table][field])
+                    real_replacements[table, field] = replacement_values[table, field] \
+                        if (table, field) in replacement_values else self.default_values[table][field]
         for (table, field), value in real_replacements.items():
             if (table, field) in replacements_needed:
                 verify(self._true_data_types()[table][field].valid_data(value),
-- 
2.43.0


From 80568b9cbea9d0b8ee9114c6e4efbe7da3adc614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:45 +0000
Subject: [PATCH 06/53] fix: find_data_type_failures excludes only Null for
 primary key fields with no data type

---
 ticdat/pandatfactory.py |  9 +++------
 ticdat/ticdatfactory.py |  9 +++------
 ticdat/utils.py         | 10 ++++++++++
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index ce75a2e..62ae3f4 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -1126,14 +1126,11 @@ class PanDatFactory(object):
         for more info
         :return:
         '''
-        tmp_pdf = PanDatFactory.create_from_full_schema(self.schema(include_ancillary_info=True))
+        rtn = {t: dict(v) for t, v in self._data_types.items()}
         for t, pks in self.primary_key_fields.items():
             for pk in pks:
-                if pk not in self._data_types.get(t, ()):
-                    tmp_pdf.set_data_type(t, pk, number_allowed=True,
-                      inclusive_min=True, inclusive_max=True, min=-float("inf"), max=float("inf"),
-                      must_be_int=False, strings_allowed='*', nullable=False, datetime=False)
-        return tmp_pdf.data_types
+                rtn.setdefault(t, {}).setdefault(pk, utils.NonNullTypeDictionary.creator())
+        return rtn
     def find_data_type_failures(self, pan_dat, as_table=True, max_failures=float("inf")):
         """
         Finds the data type failures for a pandat object
diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index b4a77ef..4d2f103 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1879,20 +1879,17 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         assert max_failures > 0, "max_failures should be a positive number"
 
         rtn_values, rtn_pks = clt.defaultdict(set), clt.defaultdict(set)
-        tmp_tdf = TicDatFactory.create_from_full_schema(self.schema(include_ancillary_info=True))
+        true_data_types = {t: dict(v) for t, v in self._data_types.items()}
         for t, pks in self.primary_key_fields.items():
             for pk in pks:
-                if pk not in self._data_types.get(t, ()):
-                    tmp_tdf.set_data_type(t, pk, number_allowed=True,
-                      inclusive_min=True, inclusive_max=True, min=-float("inf"), max=float("inf"),
-                      must_be_int=False, strings_allowed='*', nullable=False, datetime=False)
+                true_data_types.setdefault(t, {}).setdefault(pk, utils.NonNullTypeDictionary.creator())
         number_failures = [0] if max_failures < float("inf") else None
         def populate_rtn():
             def inc_failures_trips_end():
                 if number_failures:
                     number_failures[0] += 1
                     return number_failures[0] >= max_failures
-            for table, type_row in tmp_tdf._data_types.items():
+            for table, type_row in true_data_types.items():
                 _table = getattr(tic_dat, table)
                 if dictish(_table):
                     for pk  in _table:
diff --git a/ticdat/utils.py b/ticdat/utils.py
index 765fa9d..0d44eaf 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -320,6 +320,16 @@ class TypeDictionary(namedtuple("TypeDictionary",
                               min=0, max=float("inf"), inclusive_min=True, inclusive_max=True, must_be_int=False,
                               datetime=False)
 
+class NonNullTypeDictionary(TypeDictionary):
+    # the temporary filter, that excludes only Null, for primary key fields with no explicit data type
+    def valid_data(self, data):
+        return not ((pd and pd.isnull(data)) or (data is None))
+    @staticmethod
+    def creator():
+        return NonNullTypeDictionary(number_allowed=True, inclusive_min=True, inclusive_max=True, min=-float("inf"),
+                                     max=float("inf"), must_be_int=False, strings_allowed='*', nullable=False,
+                                     datetime=False)
+
 class ForeignKey(namedtuple("ForeignKey", ("native_table", "foreign_table", "mapping", "cardinality"))) :
     def nativefields(self):
         return (self.mapping.native_field,) if type(self.mapping) is ForeignKeyMapping \
-- 
2.43.0


From 0bd40f10fa03047d6a3c9ae7603fb5ddea216cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 07/53] fix: freezing a TicDat also freezes its foreign key
 links

---
 ticdat/ticdatfactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 4d2f103..ff91c31 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -757,7 +757,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                             setattr(self, t, tuple(_t))
                     else :
                         assert callable(_t) and t in superself.generator_tables
-                for _t in getattr(self, "_allDataDicts", ()) :
+                for _t in getattr(self, "_all_data_dicts", ()) :
                     if utils.dictish(_t) and not getattr(_t, "_attributesFrozen", False) :
                         _t._dataFrozen  = True
                         _t._attributesFrozen = True
-- 
2.43.0


From 6edb4662784e5cbd6f94623aa3bac75396f0d3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 08/53] fix: frozen dictionaries refuse clear, popitem,
 setdefault and |=

---
 ticdat/utils.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index 0d44eaf..4d2f0b6 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -1014,6 +1014,21 @@ class FreezeableDict(_FreezableDictBase) :
         if not getattr(self, "_dataFrozen", False) :
             return super(FreezeableDict, self).pop(*args, **kwargs)
         raise TicDatError("Can't edit a frozen " + self.__class__.__name__)
+    def popitem(self) :
+        if not getattr(self, "_dataFrozen", False) :
+            return super(FreezeableDict, self).popitem()
+        raise TicDatError("Can't edit a frozen " + self.__class__.__name__)
+    def clear(self) :
+        if not getattr(self, "_dataFrozen", False) :
+            return super(FreezeableDict, self).clear()
+        raise TicDatError("Can't edit a frozen " + self.__class__.__name__)
+    def setdefault(self, *args, **kwargs) :
+        if not getattr(self, "_dataFrozen", False) :
+            return super(FreezeableDict, self).setdefault(*args, **kwargs)
+        raise TicDatError("Can't edit a frozen " + self.__class__.__name__)
+    def __ior__(self, other) :
+        self.update(other)
+        return self
 
 class FrozenDict(FreezeableDict) :
     def __init__(self, *args, **kwargs):
-- 
2.43.0


From 738b61adc0aaffab04b208aeeba96b5cfcf28712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:28 +0000
Subject: [PATCH 09/53] fix: update and setdefault on a TicDat table make
 proper rows and check keys

---
 ticdat/ticdatfactory.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index ff91c31..b983206 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -704,11 +704,24 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                     def __init__(self, *_args, **_kwargs):
                         super(TicDatDict, self).__init__(*_args, **_kwargs)
                         alldatadicts.append(self)
-                    def __setitem__(self, key, value):
+                    def _verify_key(self, key):
                         verify(containerish(key) ==  (keylen > 1) and
                                (keylen == 1 or keylen == len(key)),
                                "inconsistent key length for %s"%tablename)
+                    def __setitem__(self, key, value):
+                        self._verify_key(key)
                         return super(TicDatDict, self).__setitem__(key, rowfactory(value))
+                    def update(self, *_args, **_kwargs):
+                        verify(not getattr(self, "_dataFrozen", False), "Can't edit a frozen " + tablename)
+                        new_rows = dict(*_args, **_kwargs)
+                        for k in new_rows:
+                            self._verify_key(k)
+                        return super(TicDatDict, self).update({k: rowfactory(v) for k, v in new_rows.items()})
+                    def setdefault(self, key, *_args):
+                        verify(not getattr(self, "_dataFrozen", False), "Can't edit a frozen " + tablename)
+                        if key not in self:
+                            self[key] = _args[0] if _args else {}
+                        return self[key]
                     def __getitem__(self, item):
                         if (item not in self) and (not getattr(self, "_dataFrozen", False)):
                             self[item] = rowfactory({})
-- 
2.43.0


From f833259c84c1d9efa1f07ee32b19a150ecbeaca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:28 +0000
Subject: [PATCH 10/53] fix: list of dictionary rows for a keyed table honours
 default values

---
 ticdat/ticdatfactory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index b983206..7c67613 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -827,10 +827,11 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                           apply(v, lambda row_dict: getattr(self, t).append(_rd_(row_dict)))
                     elif superself.primary_key_fields.get(t) and not utils.dictish(v):
                          pklen = len(superself.primary_key_fields[t])
+                         defaults = superself.default_values.get(t, {})
                          def handle_row_dict(r):
                              if not utils.dictish(r):
                                  return r
-                             return [r.get(k, 0) for k in superself.primary_key_fields[t] +
+                             return [r.get(k, defaults.get(k, 0)) for k in superself.primary_key_fields[t] +
                                       superself.data_fields.get(t,[])]
                          drf = datarowfactory(t) # lots of verification inside the datarowfactory
                          setattr(self, t, ticdattablefactory(self._all_data_dicts, t)(
-- 
2.43.0


From 2cca885a409f25d26db09d79973c639e69775793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:28 +0000
Subject: [PATCH 11/53] fix: copy_to_pandas copies generic tables

---
 ticdat/ticdatfactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 7c67613..57c4975 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1668,7 +1668,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         for tname in table_restrictions:
             tdtable = getattr(tic_dat, tname)
             if tname in self.generic_tables:
-                df = tname
+                df = tdtable.copy(deep=True)
             elif len(tdtable) == 0 :
                 df = DataFrame([], columns = self.primary_key_fields.get(tname,tuple()) +
                                                 self.data_fields.get(tname, tuple()))
-- 
2.43.0


From 0399360226e45822e933aea2cf54cc3fbe0d8a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:24 +0000
Subject: [PATCH 12/53] fix: generic tables of a TicDat don't share data with
 the frames they were built from

---
 ticdat/ticdatfactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 57c4975..4a917db 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -794,7 +794,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                 for t in init_tables :
                     verify(t in superself.all_tables, "Unexpected table name %s"%t)
                     if t in superself.generic_tables:
-                        setattr(self, t, DataFrame(init_tables[t]))
+                        setattr(self, t, DataFrame(init_tables[t]).copy(deep=True))
                 for t,v in init_tables.items():
                   if t not in superself.generic_tables:
                     badticdattable = []
-- 
2.43.0


From 5ff019e2a8c2cff3407341d8fb5502687da6eb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:47 +0000
Subject: [PATCH 13/53] fix: default values for primary key fields don't
 override the index of a DataFrame

---
 ticdat/ticdatfactory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 4a917db..9be995e 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -800,9 +800,10 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                     badticdattable = []
                     if DataFrame and isinstance(v, DataFrame) and \
                        set(superself.default_values.get(t, {})).difference(v.columns):
+                        pk_is_index = tuple(v.index.names) == superself.primary_key_fields.get(t)
                         v = v.copy(deep=True)
                         for f, d in superself.default_values.get(t, {}).items():
-                            if f not in v.columns:
+                            if f not in v.columns and not (pk_is_index and f in v.index.names):
                                 v[f] = d
                     if not (goodticdattable(v, t, lambda x : badticdattable.append(x))) :
                         raise utils.TicDatError(t + " cannot be treated as a ticDat table : " +
-- 
2.43.0


From 281399eb8b1cce65b355ae5b30bb2ccc292effa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:22 +0000
Subject: [PATCH 14/53] fix: rows listed for a generator table are not mistaken
 for duplicates

---
 ticdat/ticdatfactory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 9be995e..a29e959 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -790,7 +790,8 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                 superself._trigger_has_been_used()
                 self._all_data_dicts = []
                 self._made_foreign_links = False
-                lens = {t: l for t, v in init_tables.items() for l in [utils.safe_apply(len)(v)] if l is not None}
+                lens = {t: l for t, v in init_tables.items() for l in [utils.safe_apply(len)(v)] if l is not None
+                        and t not in superself.generator_tables}
                 for t in init_tables :
                     verify(t in superself.all_tables, "Unexpected table name %s"%t)
                     if t in superself.generic_tables:
-- 
2.43.0


From f8600baf139cb69615f473ebfa4a9dd6009e9c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 15/53] fix: generic tables built from a dictionary of columns
 are not mistaken for duplicates

---
 ticdat/ticdatfactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index a29e959..75803c1 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -791,7 +791,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                 self._all_data_dicts = []
                 self._made_foreign_links = False
                 lens = {t: l for t, v in init_tables.items() for l in [utils.safe_apply(len)(v)] if l is not None
-                        and t not in superself.generator_tables}
+                        and t not in superself.generator_tables and t not in superself.generic_tables}
                 for t in init_tables :
                     verify(t in superself.all_tables, "Unexpected table name %s"%t)
                     if t in superself.generic_tables:
-- 
2.43.0


From 2bdee16daf53b8a9495cd8aa7bd6f906be77894b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 16/53] fix: a foreign key whose field pairs are given in
 another order is the same foreign key

---
 ticdat/pandatfactory.py | 4 +++-
 ticdat/ticdatfactory.py | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 62ae3f4..888a857 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -912,7 +912,9 @@ class PanDatFactory(object):
         if utils.does_new_fk_complete_circle(native_table, foreign_table, self):
             print(f"*** A circular foreign key relationship will be creating by adding the {native_table} to " +
                   f"{foreign_table} connection")
-        self._foreign_keys[native_table, foreign_table].add(tuple(_mappings.items()))
+        current_fks = self._foreign_keys[native_table, foreign_table]
+        if set(_mappings.items()) not in map(set, current_fks): # the order of the pairs is irrelevant
+            current_fks.add(tuple(_mappings.items()))
     def _trigger_has_been_used(self):
         self._has_been_used = True
     def __init__(self, **init_fields):
diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 75803c1..69ddb79 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -534,7 +534,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                     newnativeft = tuple((bridgetonative[bf], ff) for ff,bf in
                                          foreigntobridge.items() if bf in bridgetonative)
                     fkSet = self._foreign_keys[nativetable, bfk.foreign_table]
-                    if newnativeft not in fkSet and self._simple_fk(bfk.foreign_table, newnativeft):
+                    if set(newnativeft) not in map(set, fkSet) and self._simple_fk(bfk.foreign_table, newnativeft):
                         return fkSet.add(newnativeft) or True
         while findderivedforeignkey():
             pass
@@ -578,7 +578,9 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         if utils.does_new_fk_complete_circle(native_table, foreign_table, self):
             print(f"*** A circular foreign key relationship will be creating by adding the {native_table} to " +
                   f"{foreign_table} connection")
-        self._foreign_keys[native_table, foreign_table].add(tuple(_mappings.items()))
+        current_fks = self._foreign_keys[native_table, foreign_table]
+        if set(_mappings.items()) not in map(set, current_fks): # the order of the pairs is irrelevant
+            current_fks.add(tuple(_mappings.items()))
 
     def _simple_fk(self, ftbl, fk):
         assert ftbl in self.all_tables
-- 
2.43.0


From 772a4e3824df008ef549b67e654bf00f74aa4219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 17/53] fix: looking for circular foreign keys doesn't
 enumerate every path

---
 ticdat/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index 4d2f0b6..df6b52d 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -1361,7 +1361,8 @@ def does_new_fk_complete_circle(native_tbl, foreign_tbl, tdf):
         if t == native_tbl:
             rtn[:] = [True]
         elif t not in already_seen:
+            already_seen.add(t)
             for fk in fks.get(t, ()):
-                process_table(fk.foreign_table, already_seen + [t])
-    process_table(foreign_tbl, [])
+                process_table(fk.foreign_table, already_seen)
+    process_table(foreign_tbl, set())
     return bool(rtn)
\ No newline at end of file
-- 
2.43.0


From a1ad85ce84b204b75715aa5bc4a220b1b7662bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 18/53] fix: set_default_values that is refused doesn't apply
 some of the defaults

---
 ticdat/pandatfactory.py | 2 ++
 ticdat/ticdatfactory.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 888a857..db5519e 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -831,6 +831,8 @@ class PanDatFactory(object):
             verify(dictish(v) and set(v).issubset(self.data_fields[k] + self.primary_key_fields[k]),
                 "Default values for %s should be a dictionary mapping field names to values"
                 %k)
+            verify(all(utils.acceptable_default(_v) for _v in v.values()), "some default values are unacceptable")
+        for k,v in table_defaults.items():
             for f, dv in v.items():
                 self.set_default_value(k, f, dv)
 
diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 69ddb79..688dae5 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -439,6 +439,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                 "Default values for %s should be a dictionary mapping field names to values"
                 %k)
             verify(all(utils.acceptable_default(_v) for _v in v.values()), "some default values are unacceptable")
+        for k,v in tableDefaults.items():
             self._default_values[k] = dict(self._default_values[k], **v)
     def set_generator_tables(self, g):
         """
-- 
2.43.0


From ff2e20cb00134c3365700c980a3bc3b79b187766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 19/53] fix: factories with generic tables can be restricted
 and edited when cloned

---
 ticdat/utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index df6b52d..02a8c9c 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -193,15 +193,19 @@ def clone_a_anchillary_info_schema(schema, table_restrictions, fields_to_remove=
     fields_to_remove = clean_up_set_of_str_pairs(fields_to_remove, "fields_to_remove")
     verify(set(table_restrictions).issubset(schema["tables_fields"]),
            "table_restrictions needs to be a subset of schema['tables_fields']")
-    all_fields = {(t, f) for t, (pks, dfs) in schema["tables_fields"].items() for f in pks + dfs}
+    all_fields = {(t, f) for t, fields in schema["tables_fields"].items() if fields != '*' # i.e. not a generic table
+                  for f in fields[0] + fields[1]}
     verify(fields_to_remove.issubset(all_fields),
            "fields_to_remove needs to be a subset of the aggregate field set in schema['tables_fields']")
     rtn = {}
     for k, v in schema.items():
         if k == "tables_fields":
             rtn[k] = {}
-            for t, (pks, dfs) in schema[k].items():
-                if t in table_restrictions:
+            for t, fields in schema[k].items():
+                if t in table_restrictions and fields == '*':
+                    rtn[k][t] = fields
+                elif t in table_restrictions:
+                    pks, dfs = fields
                     pks = [f for f in pks if (t, f) not in fields_to_remove]
                     dfs = [f for f in dfs if (t, f) not in fields_to_remove]
                     rtn[k][t] = [pks, dfs]
-- 
2.43.0


From 0a7ecc9cf3fd298477e9f9d25c9cc89b05cc3921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 20/53] fix: a clone may leave out a generator table

---
 ticdat/ticdatfactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 688dae5..1a1282b 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1402,7 +1402,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                                                            table_restrictions)
         rtn = clone_factory(full_schema)
         if hasattr(rtn, "set_generator_tables"):
-            rtn.set_generator_tables(self.generator_tables)
+            rtn.set_generator_tables([t for t in self.generator_tables if t in rtn.all_tables])
         for tbl, row_predicates in self._data_row_predicates.items():
             if table_restrictions is None or tbl in table_restrictions:
                 for pn, rpi in row_predicates.items():
-- 
2.43.0


From 83209b72bc873e2f95a5e275d3e3375fe8befc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 21/53] fix: a TicDatFactory with foreign key links enabled can
 be cloned into a PanDatFactory

---
 ticdat/ticdatfactory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 1a1282b..79208ab 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1410,7 +1410,8 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                         rtn.add_data_row_predicate(tbl, predicate=rpi.predicate, predicate_name=pn,
                                                    predicate_kwargs_maker=rpi.predicate_kwargs_maker,
                                                    predicate_failure_response=rpi.predicate_failure_response)
-        rtn.enable_foreign_key_links() if self._foreign_key_links_enabled else None
+        if self._foreign_key_links_enabled and hasattr(rtn, "enable_foreign_key_links"):
+            rtn.enable_foreign_key_links()
         if convert_dat: # this function is effectively a constructor so _ reference is ok
             assert callable(convert_dat) and len(inspect.getfullargspec(convert_dat).args) >= 1
             rtn._convert_dat[:] = [convert_dat,
-- 
2.43.0


From 5f843ecf6b2c343c5eded259c047cf30303f9c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:59 +0000
Subject: [PATCH 22/53] fix: renaming the only column of a table, or a column
 of the parameters table

---
 ticdat/utils.py | 40 +++++++++++++++-------------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index 02a8c9c..4379758 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -137,33 +137,23 @@ def clone_rename_a_column(tdf_pdf, table, field, new_field):
     verify(table in tdf_pdf.all_tables, "Unrecognized table name %s" % table)
     verify(field in tdf_pdf.primary_key_fields[table] + tdf_pdf.data_fields[table],
            f"field needs to be one of {tdf_pdf.primary_key_fields[table] + tdf_pdf.data_fields[table]}")
-    if field in tdf_pdf.primary_key_fields[table]:
-        args = ("primary key", tdf_pdf.primary_key_fields[table].index(field))
-    else:
-        args = ("data", tdf_pdf.data_fields[table].index(field))
     verify(new_field not in tdf_pdf.primary_key_fields[table] + tdf_pdf.data_fields[table],
            f"new_field cannot be one of {tdf_pdf.primary_key_fields[table] + tdf_pdf.data_fields[table]}")
-    rtn = clone_add_a_column(clone_remove_a_column(tdf_pdf, table, field), table, new_field, *args)
-    if field in tdf_pdf.data_types.get(table, {}):
-        rtn.set_data_type(table, new_field, *tdf_pdf.data_types[table][field])
-    if field in tdf_pdf.default_values.get(table, {}):
-        rtn.set_default_value(table, new_field, tdf_pdf.default_values[table][field])
-    for fk in tdf_pdf.foreign_keys:
-        def needs_renaming(mp):
-            if hasattr(mp, "native_field"):
-                return (table, field) in {(fk.native_table, mp.native_field), (fk.foreign_table, mp.foreign_field)}
-            return any(needs_renaming(_) for _ in mp) if containerish(mp) else False
-        def do_renaming(mp):
-            field_renaming = lambda _t, _f: new_field if (_t, _f) == (table, field) else _f
-            if hasattr(mp, "native_field"):
-                return (field_renaming(fk.native_table, mp.native_field),
-                        field_renaming(fk.foreign_table, mp.foreign_field))
-            return tuple(do_renaming(_) for _ in mp)if containerish(mp) else mp
-        if needs_renaming(fk.mapping):
-            rtn.add_foreign_key(fk.native_table, fk.foreign_table, do_renaming(fk.mapping))
-    if (table, field) in tdf_pdf.tooltips:
-        rtn.set_tooltip(table, new_field, tdf_pdf.tooltips[table, field])
-    return rtn
+    def renamed(t, f):
+        return new_field if (t, f) == (table, field) else f
+    def renamed_fk(fk):
+        mappings = [fk.mapping] if hasattr(fk.mapping, "native_field") else fk.mapping
+        return [fk.native_table, fk.foreign_table, [[renamed(fk.native_table, mp.native_field),
+                                                     renamed(fk.foreign_table, mp.foreign_field)] for mp in mappings]]
+    def clone_factory(full_schema):
+        full_schema = clone_a_anchillary_info_schema(full_schema, table_restrictions=set(tdf_pdf.all_tables))
+        full_schema["tables_fields"][table] = [[renamed(table, f) for f in fields]
+                                               for fields in full_schema["tables_fields"][table]]
+        for k in ["default_values", "data_types", "tooltips"]:
+            full_schema[k] = {t: {renamed(t, f): v for f, v in fields.items()} for t, fields in full_schema[k].items()}
+        full_schema["foreign_keys"] = [renamed_fk(fk) for fk in full_schema["foreign_keys"]]
+        return tdf_pdf.create_from_full_schema(full_schema)
+    return tdf_pdf.clone(clone_factory=clone_factory)
 
 def clone_a_anchillary_info_schema(schema, table_restrictions, fields_to_remove=None):
     '''
-- 
2.43.0


From 6a96850f64e1eaa96bbf322cbfca46a0f912d508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:48 +0000
Subject: [PATCH 23/53] fix: no foreign keys without fields are implied

---
 ticdat/ticdatfactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 79208ab..96236e2 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -535,7 +535,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
                     newnativeft = tuple((bridgetonative[bf], ff) for ff,bf in
                                          foreigntobridge.items() if bf in bridgetonative)
                     fkSet = self._foreign_keys[nativetable, bfk.foreign_table]
-                    if set(newnativeft) not in map(set, fkSet) and self._simple_fk(bfk.foreign_table, newnativeft):
+                    if newnativeft and set(newnativeft) not in map(set, fkSet) and self._simple_fk(bfk.foreign_table, newnativeft):
                         return fkSet.add(newnativeft) or True
         while findderivedforeignkey():
             pass
-- 
2.43.0


From 36d97dda30fe75c5f953bd9cfd00f7800cd5117d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:09 +0000
Subject: [PATCH 24/53] fix: csv write_directory checks the files it writes
 when case_space_table_names is set, also with generic tables

---
 ticdat/csvtd.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ticdat/csvtd.py b/ticdat/csvtd.py
index d4de8f7..3128220 100644
--- a/ticdat/csvtd.py
+++ b/ticdat/csvtd.py
@@ -241,22 +241,24 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
         verify(not os.path.isfile(dir_path), "A file is not a valid directory path")
         if self.tic_dat_factory.generic_tables:
             dat, tdf = create_generic_free(tic_dat, self.tic_dat_factory)
-            return tdf.csv.write_directory(dat, dir_path, allow_overwrite, dialect, write_header)
+            return tdf.csv.write_directory(dat, dir_path, allow_overwrite, dialect, write_header,
+                                           case_space_table_names)
         tdf = self.tic_dat_factory
         msg = []
         if not self.tic_dat_factory.good_tic_dat_object(tic_dat, lambda m : msg.append(m)) :
             raise TicDatError("Not a valid TicDat object for this schema : " + " : ".join(msg))
+        case_space_table_names = case_space_table_names and \
+                                 len(set(self.tic_dat_factory.all_tables)) == \
+                                 len(set(map(case_space_to_pretty, self.tic_dat_factory.all_tables)))
+        file_path = lambda t: os.path.join(dir_path, (case_space_to_pretty(t) if case_space_table_names else t) + ".csv")
         if not allow_overwrite:
             for t in tdf.all_tables :
-                f = os.path.join(dir_path, t + ".csv")
+                f = file_path(t)
                 verify(not os.path.exists(f), "The %s path exists and overwrite is not allowed"%f)
         if not os.path.isdir(dir_path) :
             os.mkdir(dir_path)
-        case_space_table_names = case_space_table_names and \
-                                 len(set(self.tic_dat_factory.all_tables)) == \
-                                 len(set(map(case_space_to_pretty, self.tic_dat_factory.all_tables)))
         for t in tdf.all_tables :
-            f = os.path.join(dir_path, (case_space_to_pretty(t) if case_space_table_names else t) + ".csv")
+            f = file_path(t)
             with open(f, 'w', newline='') as csvfile:
                  writer = csv.DictWriter(csvfile,dialect=dialect, fieldnames=
                         tdf.primary_key_fields.get(t, ()) + tdf.data_fields.get(t, ()) )
-- 
2.43.0


From c21f65612e747cf71da9d2dcc2bc6d82be22551a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:09 +0000
Subject: [PATCH 25/53] fix: carriage returns in text survive reading csv files

---
 ticdat/csvtd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ticdat/csvtd.py b/ticdat/csvtd.py
index 3128220..d6d9dd0 100644
--- a/ticdat/csvtd.py
+++ b/ticdat/csvtd.py
@@ -148,7 +148,7 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
         rtn = {t:defaultdict(int) for t,_ in tdf.primary_key_fields.items()
                if _ and self._get_file_path(dir_path, t)}
         for t in rtn:
-            with open(self._get_file_path(dir_path, t), encoding=encoding) as csvfile:
+            with open(self._get_file_path(dir_path, t), newline="", encoding=encoding) as csvfile:
                 for r in self._get_data(csvfile, t, dialect, headers_present):
                     p_key = r[tdf.primary_key_fields[t][0]] \
                             if len(tdf.primary_key_fields[t])==1 else \
@@ -195,12 +195,12 @@ class CsvTicFactory(freezable_factory(object, "_isFrozen")) :
         tdf = self.tic_dat_factory
         if table in tdf.generator_tables:
             def rtn() :
-                with open(file_path, encoding=encoding) as csvfile:
+                with open(file_path, newline="", encoding=encoding) as csvfile:
                     for r in self._get_data(csvfile, table, dialect, headers_present):
                         yield tuple(r[_] for _ in tdf.data_fields[table])
         else:
             rtn = {} if tdf.primary_key_fields.get(table) else []
-            with open(file_path, encoding=encoding) as csvfile:
+            with open(file_path, newline="", encoding=encoding) as csvfile:
                 for r in self._get_data(csvfile, table, dialect, headers_present) :
                     if tdf.primary_key_fields.get(table) :
                         p_key = r[tdf.primary_key_fields[table][0]] \
-- 
2.43.0


From 94665887516e86e8759d311c7924648bbce14424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:09 +0000
Subject: [PATCH 26/53] fix: sqlite schemas can be written for self referencing
 and circular foreign keys

---
 ticdat/sqlitetd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index f7dcce0..9e9c673 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -238,10 +238,11 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
                         rtn[table].append(data)
         return rtn
     def _ordered_tables(self):
-        rtn = []
+        rtn, started = [], set()
         fks = self._fks()
         def processTable(t) :
-            if t not in rtn:
+            if t not in started: # foreign keys can be circular
+                started.add(t)
                 for fk in fks.get(t, ()) :
                     processTable(fk.foreign_table)
                 rtn.append(t)
-- 
2.43.0


From de85c9bd5c22424586f5774b7a3eaa8d29657b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:09 +0000
Subject: [PATCH 27/53] fix: text with semicolons survives reading sql files

---
 ticdat/sqlitetd.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 9e9c673..f381d63 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -141,9 +141,8 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
                 for str in self._get_schema_sql(set(tdf.all_tables).
                                                 difference(tdf.generic_tables)):
                     con.execute(str)
-            with open(sql_file_path, "r") as f:
-                for str in f.read().split(";"):
-                    con.execute(str)
+            with open(sql_file_path, "r", newline="") as f:
+                con.executescript(f.read())
             return self._create_tic_dat_from_con(con,
                         {t:t for t in self.tic_dat_factory.all_tables})
     def _get_table_names(self, db_file_path, tables):
@@ -385,7 +384,7 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
         return self._write_sql_file(tic_dat, sql_file_path, must_schema)
 
     def _write_sql_file(self, tic_dat, sql_file_path, schema_tables):
-        with open(sql_file_path, "w") as f:
+        with open(sql_file_path, "w", newline="") as f:
             for str in self._get_schema_sql(schema_tables) + \
                        self._get_data(tic_dat, as_sql=True):
                 f.write(str + "\n")
-- 
2.43.0


From 3b18a59fa75722bb5446b5e00f7a4c3ed3be1d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:26 +0000
Subject: [PATCH 28/53] fix: sqlite tables without primary key apply the
 infinity flag and write booleans like other tables

---
 ticdat/sqlitetd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index f381d63..23f8e18 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -300,6 +300,7 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
             else :
                 for sqldatarow in (_t if containerish(_t) else _t()) :
                     k,v = zip(*sqldatarow.items())
+                    v = tuple(self._write_data_cell(t, f, x) for f,x in zip(k, v))
                     str = "INSERT INTO [%s] (%s) VALUES (%s)"%\
                              (t, ",".join(_brackets(k)), ",".join(
                                 ["%s" if as_sql else "?"]*len(sqldatarow)))
-- 
2.43.0


From 891826b38b24ee7ce47ceab65c2b9d54aab6b0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:53 +0000
Subject: [PATCH 29/53] fix: date-times can be written to sqlite

---
 ticdat/pandatio.py | 8 ++++++--
 ticdat/sqlitetd.py | 2 ++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index 999f500..5303344 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -496,8 +496,12 @@ class SqlPanFactory(freezable_factory(object, "_isFrozen")):
         with con_maker() as _:
             con_ = con or _
             for t in self.pan_dat_factory.all_tables:
-                getattr(pan_dat, t).to_sql(name=case_space_to_pretty(t) if case_space_table_names else t,
-                                           con=con_, if_exists=if_exists, index=False)
+                df = getattr(pan_dat, t).copy()
+                for f in df.columns: # SQLite can't bind the Timestamps of a column that isn't all datetimes
+                    if df[f].dtype == object and df[f].map(lambda x: isinstance(x, pd.Timestamp)).any():
+                        df[f] = df[f].map(lambda x: str(x) if isinstance(x, pd.Timestamp) else x)
+                df.to_sql(name=case_space_to_pretty(t) if case_space_table_names else t,
+                          con=con_, if_exists=if_exists, index=False)
 
 class XlsPanFactory(freezable_factory(object, "_isFrozen")):
     """
diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 23f8e18..0937b08 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -278,6 +278,8 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
     def _write_data_cell(self, t, f, x):
         if x is True or x is False:
             return str(x)
+        if isinstance(x, datetime.datetime):
+            return str(x)
         return self.tic_dat_factory._infinity_flag_write_cell(t, f, x)
     def _get_data(self, tic_dat, as_sql):
         rtn = []
-- 
2.43.0


From 443508b5d638b1ffc23757a6c286f80397b7300a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:53 +0000
Subject: [PATCH 30/53] fix: text that looks like a formula or a link survives
 writing to xlsx files

---
 ticdat/pandatio.py | 3 +++
 ticdat/xls.py      | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index 5303344..96058c4 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -623,6 +623,9 @@ class XlsPanFactory(freezable_factory(object, "_isFrozen")):
                                  len(set(self.pan_dat_factory.all_tables)) == \
                                  len(set(map(case_space_to_pretty, self.pan_dat_factory.all_tables)))
         with pd.ExcelWriter(file_path) as writer:
+            for setting in ["strings_to_formulas", "strings_to_urls"]: # xlsxwriter only
+                if hasattr(writer.book, setting):
+                    setattr(writer.book, setting, False)
             for t in self.pan_dat_factory.all_tables:
                 getattr(pan_dat, t).to_excel \
                     (writer, sheet_name=(case_space_to_pretty(t) if case_space_sheet_names else t)[:_longest_sheet],
diff --git a/ticdat/xls.py b/ticdat/xls.py
index 6be01f4..47420f2 100644
--- a/ticdat/xls.py
+++ b/ticdat/xls.py
@@ -449,7 +449,7 @@ class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
         tdf = self.tic_dat_factory
         if os.path.exists(file_path):
             os.remove(file_path)
-        book = xlsx.Workbook(file_path)
+        book = xlsx.Workbook(file_path, {"strings_to_formulas": False, "strings_to_urls": False})
         def clean_for_write(t, f, x):
             if self.tic_dat_factory.infinity_io_flag != "N/A" or \
                (t == "parameters" and self.tic_dat_factory.parameters):
-- 
2.43.0


From 8fe2c0b88dabf5c7b09135fd927fcace4483bde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:53 +0000
Subject: [PATCH 31/53] fix: the infinity flag doesn't apply to an undeclared
 parameters table when writing either

---
 ticdat/ticdatfactory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 96236e2..b94b625 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1077,9 +1077,10 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         :param x: cell value which might need to be adjusted
         :return: x, adjusted as required
         """
-        if t == "parameters" and self._parameters: # SPEED IS IMPORTANT
+        if t == "parameters": # SPEED IS IMPORTANT
+            # infinity flagging doesn't apply to parameters table, see set_infinity_flag __doc__
             # I will assume a parameters table without parameters specification is just a naive developer
-            return None if x is None or (utils.pd and utils.pd.isnull(x)) else x
+            return None if self._parameters and (x is None or (utils.pd and utils.pd.isnull(x))) else x
         if self.infinity_io_flag is None and (self._none_as_infinity_bias(t, f) or float("nan"))*float("inf") == x:
             return None
         if utils.numericish(self.infinity_io_flag) and utils.numericish(x):
-- 
2.43.0


From c2248e6d373b01c0def97f52fd313fe7961ecf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:12 +0000
Subject: [PATCH 32/53] fix: text munged into a number is subject to the
 infinity flag when reading frames

---
 ticdat/pandatfactory.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index db5519e..d341525 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -465,6 +465,11 @@ class PanDatFactory(object):
         for t in set(self.all_tables).difference(["parameters"]): # parameters table is handled differently
             df = getattr(dat, t)
             all_fields = tuple(self.primary_key_fields.get(t, ()) + self.data_fields.get(t, ()))
+            for f in all_fields: # before the infinity flagging, since text might turn out to be the flag
+                dt = self.data_types.get(t, {}).get(f, None)
+                if dt and not dt.datetime and dt.strings_allowed and dt.number_allowed and \
+                    self.automunge_multitype_fields:
+                    df[f] = df[f].apply(_multitype_cell_adj)
             if utils.numericish(self.infinity_io_flag):
                 fields_w_issues = set()
                 def find_fields_w_issues(row):
@@ -476,9 +481,6 @@ class PanDatFactory(object):
                     df[f] = df[f].apply(_inf_cell_adj)
             for f in all_fields:
                 dt = self.data_types.get(t, {}).get(f, None)
-                if dt and not dt.datetime and dt.strings_allowed and dt.number_allowed and \
-                    self.automunge_multitype_fields:
-                    df[f] = df[f].apply(_multitype_cell_adj)
                 if not utils.numericish(self.infinity_io_flag) and utils.numericish(self._none_as_infinity_bias(t, f)):
                     assert self.infinity_io_flag is None
                     df[f] = df[f].apply(lambda x: self._none_as_infinity_bias(t, f) * float("inf")
-- 
2.43.0


From 718c450239d892f9d33924543cf5e1e54bb42c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:46 +0000
Subject: [PATCH 33/53] fix: the infinity flag, parameters and generator tables
 are respected when writing data sets with generic tables

---
 ticdat/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index 4379758..7a6b26d 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -846,7 +846,10 @@ def create_generic_free(td, tdf):
     for t in tdf.generic_tables:
         if len(getattr(td, t)):
             sch[t] = [[],list(getattr(td, t).columns)]
-    rtn_tdf = ticdat.TicDatFactory(**sch)
+    # the defaults, data types, parameters, etc all impact how the data is written
+    rtn_tdf = ticdat.TicDatFactory.create_from_full_schema(
+                    dict(tdf.schema(include_ancillary_info=True), tables_fields=sch, tooltips={}))
+    rtn_tdf.set_generator_tables(tdf.generator_tables)
     return rtn_tdf.TicDat(**{t:getattr(td, t) for t in rtn_tdf.all_tables}), rtn_tdf
 
 class Slicer(object):
-- 
2.43.0


From 75b6067bde41f07ef0e77e19bb724833403ef63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 34/53] fix: date-time parameters survive writing json with
 write_file_pd

---
 ticdat/pandatio.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index 96058c4..3ff2991 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -231,7 +231,9 @@ class JsonPanFactory(freezable_factory(object, "_isFrozen")):
                  replace(-float("inf"), f"-{infinity_flagging_str}")
             for f in df.columns:
                 dt = self.pan_dat_factory.data_types.get(t, {}).get(f, None)
-                if dt and dt.datetime:
+                is_parameter_value = t == "parameters" and self.pan_dat_factory.parameters and \
+                                     f in self.pan_dat_factory.data_fields[t]
+                if is_parameter_value or (dt and dt.datetime):
                     # pandas can be a real PIA when trying to mix types in a column
                     def fixed(row): # this might not always fix things
                         if isinstance(row[f], (pd.Timestamp, numpy.datetime64)):
-- 
2.43.0


From 5b3fd33592395a9502674505fbd02772d0c6e183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 35/53] fix: numbers in object columns survive writing sqlite
 files

---
 ticdat/pandatio.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index 3ff2991..fce392c 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -8,7 +8,7 @@ import uuid
 import os
 from ticdat.utils import freezable_factory, verify, case_space_to_pretty, pd, TicDatError, FrozenDict, all_fields
 from ticdat.utils import all_underscore_replacements, stringish, dictish, containerish, debug_break, faster_df_apply
-from ticdat.utils import safe_apply
+from ticdat.utils import safe_apply, numericish
 from itertools import product, chain
 from collections import defaultdict
 import datetime
@@ -502,6 +502,10 @@ class SqlPanFactory(freezable_factory(object, "_isFrozen")):
                 for f in df.columns: # SQLite can't bind the Timestamps of a column that isn't all datetimes
                     if df[f].dtype == object and df[f].map(lambda x: isinstance(x, pd.Timestamp)).any():
                         df[f] = df[f].map(lambda x: str(x) if isinstance(x, pd.Timestamp) else x)
+                    elif df[f].dtype == object and any(isinstance(x, float) and not pd.isnull(x) for x in df[f]) and \
+                            all(numericish(x) or pd.isnull(x) for x in df[f]):
+                        # to_sql would make text out of floats that are mixed with None or with integers
+                        df[f] = df[f].astype(float)
                 df.to_sql(name=case_space_to_pretty(t) if case_space_table_names else t,
                           con=con_, if_exists=if_exists, index=False)
 
-- 
2.43.0


From 43f7427c91e6a5cb6fc84e4bfec57c40ec1354e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 36/53] fix: xlsx sheets that begin with empty rows, or have
 nothing but empty rows, are read completely

---
 ticdat/xls.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ticdat/xls.py b/ticdat/xls.py
index 47420f2..1896c1b 100644
--- a/ticdat/xls.py
+++ b/ticdat/xls.py
@@ -70,13 +70,14 @@ class _OpenPyxlSheetWrapper(object):
             self._max_row = i+1
     @property
     def nrows(self):
-        return self._sheet.max_row-self._sheet.min_row+1
+        return self._sheet.max_row # rows are numbered from the top of the sheet, even if it begins with empty rows
     def row_values(self, row_index): # openpyxl used 1 based indexing
         return tuple(x.value for x in next(iter(self._sheet.iter_rows(min_row=row_index+1, max_row=row_index+1,
                                                                       min_col=1, max_col=self._max_col))))
     def col_values(self, col_index): # openpyxl used 1 based indexing
         return tuple(x.value for x in next(iter(self._sheet.iter_cols(min_col=col_index+1, max_col=col_index+1,
-                                                                      min_row=1, max_row=self._max_row))))
+                                                                      min_row=1, max_row=self._max_row or 1
+                                                                      ))))[:self._max_row]
 
 class XlsTicFactory(freezable_factory(object, "_isFrozen")) :
     """
-- 
2.43.0


From fa37dcd1d1b72fbf9f1424690c2a8dd43d83b95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 37/53] fix: generic tables are found in sqlite files under any
 spelling of their name

---
 ticdat/sqlitetd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/sqlitetd.py b/ticdat/sqlitetd.py
index 0937b08..87487c1 100644
--- a/ticdat/sqlitetd.py
+++ b/ticdat/sqlitetd.py
@@ -221,7 +221,7 @@ class SQLiteTicFactory(freezable_factory(object, "_isFrozen")) :
             fields = tdf.primary_key_fields.get(table, ()) + tdf.data_fields.get(table, ())
             if not fields:
                 assert table in tdf.generic_tables
-                fields = tuple(x[1] for x in con.execute("PRAGMA table_info(%s)"%table))
+                fields = tuple(x[1] for x in con.execute("PRAGMA table_info([%s])"%table_names[table]))
             rtn[table]= {} if tdf.primary_key_fields.get(table, ())  else []
             for row in con.execute("Select %s from [%s]"%(", ".join(_brackets(fields)),
                                                           table_names[table])):
-- 
2.43.0


From 989f9ee88975b3d719a21c35a4b249fbaef21c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 38/53] fix: duplicates in json files are found under any
 spelling of the table names

---
 ticdat/jsontd.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ticdat/jsontd.py b/ticdat/jsontd.py
index 8d58c23..b4ca71f 100644
--- a/ticdat/jsontd.py
+++ b/ticdat/jsontd.py
@@ -130,6 +130,7 @@ class JsonTicFactory(freezable_factory(object, "_isFrozen")) :
             jdict = self._create_jdict(json_file_path)
             if self._looks_pandas(jdict):
                 return self.find_duplicates(json_file_path, from_pandas=True)
+            jdict = self._matching_tables(jdict)
         rtn = find_duplicates_from_dict_ticdat(self.tic_dat_factory, jdict)
         return rtn or {}
     def _create_jdict(self, path_or_buf):
@@ -157,7 +158,7 @@ class JsonTicFactory(freezable_factory(object, "_isFrozen")) :
         verify(all(map(containerish, jdict.values())),
                "The dictionary loaded from %s doesn't have containers as values" % reasonble_string)
         return jdict
-    def _create_tic_dat_dict(self, jdict):
+    def _matching_tables(self, jdict):
         tdf = self.tic_dat_factory
         rtn = {}
         table_keys = defaultdict(list)
@@ -168,7 +169,10 @@ class JsonTicFactory(freezable_factory(object, "_isFrozen")) :
             if len(table_keys[t]) >= 1:
                 verify(len(table_keys[t]) < 2, "Found duplicate matching keys for table %s"%t)
                 rtn[t] = jdict[table_keys[t][0]]
-        orig_rtn, rtn = rtn, {}
+        return rtn
+    def _create_tic_dat_dict(self, jdict):
+        tdf = self.tic_dat_factory
+        orig_rtn, rtn = self._matching_tables(jdict), {}
         for t, rows in orig_rtn.items():
             all_fields = tdf.primary_key_fields.get(t, ()) + tdf.data_fields.get(t, ())
             rtn[t] = []
-- 
2.43.0


From 41ceb9c676d797118243fbc75ae515f398b45d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 39/53] fix: slices made with gurobipy don't share data with
 the Slicer, and tuples only match themselves

---
 ticdat/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index 7a6b26d..db8ced1 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -892,7 +892,9 @@ class Slicer(object):
             return []
         verify(len(args) == len((self._indicies or self._gu)[0]), "inconsistent number of elements")
         if self._gu:
-            return self._gu.select(*args)
+            if any(isinstance(_, (tuple, frozenset)) for _ in args):
+                return [] # not an index here, but select would match any of their elements
+            return gu.tuplelist(self._gu.select(*args)) # select doesn't always copy
         wildcards = tuple(i for i,x in enumerate(args) if x == "*")
         fixedposns = tuple(i for i in range(len(args)) if i not in wildcards)
         def fa(t):
-- 
2.43.0


From 4ab20f751a05ce0c4a2e2d4f625023abea9af4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 40/53] fix: obfusimplify copes with keys of different types,
 with generic tables and with table names that need long prefixes

---
 ticdat/ticdatfactory.py | 8 ++++++--
 ticdat/utils.py         | 6 +++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index b94b625..d68c8c9 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -2197,7 +2197,9 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
 
         reverse_renamings = {}
         for t in table_prepends :
-            for i,k in enumerate(sorted(getattr(tic_dat, t))) :
+            keys = getattr(tic_dat, t)
+            sorted_keys = utils.safe_apply(sorted)(keys) # keys of different types can't be sorted
+            for i,k in enumerate(keys if sorted_keys is None else sorted_keys) :
                 reverse_renamings[t, k] = "%s%s"%(table_prepends[t],i+1)
         foreign_keys = {}
         for fk in better_self.foreign_keys:
@@ -2213,7 +2215,9 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
             def fix_all_row(all_row):
                 return {k: reverse_renamings[foreign_keys[t, k], v] if (t,k) in foreign_keys else v
                            for k,v in all_row.items()}
-            if dictish(read_table):
+            if t in better_self.generic_tables:
+                rtn_dict[t] = read_table
+            elif dictish(read_table):
                 for pk, data_row in read_table.items():
                     if len(better_self.primary_key_fields.get(t, ())) == 1:
                         pkf = better_self.primary_key_fields[t][0]
diff --git a/ticdat/utils.py b/ticdat/utils.py
index db8ced1..e008b55 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -970,9 +970,9 @@ def baseConverter(number, base):
     while power * base <= number:
         power *= base
     while power >= base :
-        rtn.append(number / power)
-        number -= power * (number/power)
-        power /= base
+        rtn.append(number // power)
+        number -= power * (number // power)
+        power //= base
     rtn.append(number%base)
     return rtn
 
-- 
2.43.0


From a3bf1ba50e04f7bdb2eaa72c4f360b4a11e4bc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 41/53] fix: the error report of standard_main copes with
 generic tables

---
 ticdat/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index e008b55..d18c5d6 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -358,8 +358,9 @@ def _integrity_solve(input_schema, dat):
                                                dat_version_of_func(predicate_tuple.predicate_kwargs_maker),
                                                predicate_tuple.predicate_failure_response)
 
-    _id_flds = {t: (pks or dfs) for t, (pks, dfs) in input_schema.schema().items()}
-    longest_id_flds =  max(len(id_fld) for id_fld in _id_flds.values())
+    _id_flds = {t: (pks or dfs) for t, (pks, dfs) in # generic tables can't have data integrity errors
+                ((t, v) for t, v in input_schema.schema().items() if t not in input_schema.generic_tables)}
+    longest_id_flds =  max((len(id_fld) for id_fld in _id_flds.values()), default=0)
     _fld_names = [f"Field {_ + 1}" for _ in range(longest_id_flds)]
     solution_schema = ticdat.PanDatFactory(
         duplicate_rows=[["Table Name"] + _fld_names, []],
-- 
2.43.0


From 7dd91cb24a3698ddf39c415ca50956b1ea695948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 42/53] fix: a successful xpress solve is recognised under
 every Python version

---
 ticdat/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticdat/model.py b/ticdat/model.py
index 974491a..2d0e14c 100644
--- a/ticdat/model.py
+++ b/ticdat/model.py
@@ -209,7 +209,8 @@ class Model(object):
             return rtn
         if self.model_type == "xpress":
             self.core_model.solve(*args, **kwargs)
-            rtn = str(self.core_model.attributes.solstatus) in ['SolStatus.OPTIMAL', 'SolStatus.FEASIBLE']
+            # the string representation of solstatus depends on the Python version
+            rtn = self.core_model.attributes.solstatus in [xpress.SolStatus.OPTIMAL, xpress.SolStatus.FEASIBLE]
             self._xpress_solution_list = self.core_model.getSolution() if rtn else []
             return rtn
     def get_solution_value(self, var):
-- 
2.43.0


From 535a48398e38c41b340e5832c85672b86dda5a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:34 +0000
Subject: [PATCH 43/53] fix: text and infinite default values in the PostgreSQL
 schema

---
 ticdat/pgtd.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ticdat/pgtd.py b/ticdat/pgtd.py
index a29ee70..8dddac1 100644
--- a/ticdat/pgtd.py
+++ b/ticdat/pgtd.py
@@ -149,10 +149,14 @@ class _PostgresFactory(freezable_factory(object, "_isFrozen"),):
                 return bool(rtn)
             if rtn is None or rtn == "":
                 return "NULL"
-            if numericish(rtn) and abs(rtn) == float("inf") and numericish(self.tdf.infinity_io_flag):
-                return math.copysign(self.tdf.infinity_io_flag, rtn)
-            if stringish(rtn) and rtn:
-                return f"'{rtn}'"
+            if numericish(rtn) and abs(rtn) == float("inf"):
+                if numericish(self.tdf.infinity_io_flag):
+                    return math.copysign(self.tdf.infinity_io_flag, rtn)
+                if (self.tdf._none_as_infinity_bias(t, f) or float("nan")) * float("inf") == rtn:
+                    return "NULL"
+                return f"'{float(rtn)}'"
+            if stringish(rtn) and rtn: # need to escape for SQL and for sqlalchemy.text
+                return "'" + rtn.replace("'", "''").replace(":", "\\:") + "'"
             return rtn
 
         def nullable(t, f):
-- 
2.43.0


From fe029e9404ec7895b6cfa63563b525b77881364b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:34 +0000
Subject: [PATCH 44/53] fix: parameters tables hold text in PostgreSQL schemas
 without ancillary info too

---
 ticdat/pgtd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ticdat/pgtd.py b/ticdat/pgtd.py
index 8dddac1..98e38eb 100644
--- a/ticdat/pgtd.py
+++ b/ticdat/pgtd.py
@@ -225,7 +225,9 @@ class _PostgresFactory(freezable_factory(object, "_isFrozen"),):
                 for f, dfv in dfvs.items():
                     tdf.set_default_value(t, f, dfv)
             forced_field_types_ = {(t, f): "text" for t, (pks, dfs) in self.tdf.schema().items() for f in pks
-                       if f not in tdf.data_types.get(t, {})}
+                       if f not in tdf.data_types.get(t, {}) or (t == "parameters" and self.tdf.parameters)}
+            if self.tdf.parameters:
+                forced_field_types_.update({("parameters", f): "text" for f in self.tdf.data_fields["parameters"]})
             forced_field_types_.update(forced_field_types)
             return PostgresTicFactory(tdf).write_schema(engine, schema, forced_field_types_)
 
-- 
2.43.0


From 00aed7962f35f3dd389305a38b99f139fb0cb7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:34 +0000
Subject: [PATCH 45/53] fix: write_data to PostgreSQL refuses generator tables
 before it deletes anything

---
 ticdat/pgtd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ticdat/pgtd.py b/ticdat/pgtd.py
index 98e38eb..d1ebc98 100644
--- a/ticdat/pgtd.py
+++ b/ticdat/pgtd.py
@@ -451,6 +451,8 @@ class PostgresTicFactory(_PostgresFactory):
             raise TicDatError("Not a valid TicDat object for this schema : " + " : ".join(msg))
         verify(not self.tdf.generic_tables,
                "TicDat for postgres does not yet support generic tables")
+        verify(not self.tdf.generator_tables,
+               "TicDat for postgres does not yet support generator tables")
         self.check_tables_fields(engine, schema, error_on_missing_table=True) # call self.write_schema as needed
         self._handle_prexisting_rows(engine, schema, pre_existing_rows or {})
         if dsn:
-- 
2.43.0


From bc198c1e219ebe791d9730cb11b03c982e40e777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:54 +0000
Subject: [PATCH 46/53] fix: null in text columns survives reading json with
 pandas

---
 ticdat/pandatio.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ticdat/pandatio.py b/ticdat/pandatio.py
index fce392c..6b78d77 100644
--- a/ticdat/pandatio.py
+++ b/ticdat/pandatio.py
@@ -120,6 +120,12 @@ class JsonPanFactory(freezable_factory(object, "_isFrozen")):
                 if "dtype" not in kwargs_:
                     kwargs_["dtype"] = self.pan_dat_factory._dtypes_for_pandas_read(t)
                 rtn[t] = pd.read_json(StringIO(json.dumps(loaded_dict[f])), orient=orient, **kwargs_)
+                if "dtype" not in kwargs and kwargs_["dtype"]:
+                    # a str dtype turns null into "None" or "nan", depending on the rest of the column
+                    nulls = pd.read_json(StringIO(json.dumps(loaded_dict[f])), orient=orient,
+                                         **dict(kwargs_, dtype=False, convert_dates=False)).isnull()
+                    for c in set(kwargs_["dtype"]).intersection(rtn[t].columns):
+                        rtn[t].loc[nulls[c].values, c] = None
             missing_fields = {(t, f) for t in rtn for f in all_fields(self.pan_dat_factory, t)
                               if f not in rtn[t].columns}
             if fill_missing_fields:
-- 
2.43.0


From 48489dcf8297a86f3359b198dbe8a7b0eb4e7de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:52 +0000
Subject: [PATCH 47/53] fix: copy_to_ampl works with generic tables

---
 ticdat/pandatfactory.py | 2 +-
 ticdat/ticdatfactory.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index d341525..5353b83 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -1632,7 +1632,7 @@ class PanDatFactory(object):
         verify(not excluded_tables or (containerish(excluded_tables) and
                                        set(excluded_tables).issubset(self.all_tables)),
                "bad excluded_tables argument")
-        copy_tables = {t for t in self.all_tables if self.primary_key_fields[t]}.\
+        copy_tables = {t for t in self.all_tables if self.primary_key_fields.get(t)}.\
                       difference(excluded_tables or [])
         field_renamings = field_renamings or {}
         verify(dictish(field_renamings), "invalid field_renamings argument")
diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index d68c8c9..7aeb6e6 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1578,7 +1578,7 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         verify(not excluded_tables or (containerish(excluded_tables) and
                                        set(excluded_tables).issubset(self.all_tables)),
                "bad excluded_tables argument")
-        copy_tables = {t for t in self.all_tables if self.primary_key_fields[t]}.\
+        copy_tables = {t for t in self.all_tables if self.primary_key_fields.get(t)}.\
                       difference(excluded_tables or [])
         field_renamings = field_renamings or {}
         verify(dictish(field_renamings) and
-- 
2.43.0


From 16e690ca4dbdd67182a51a5ebad05829a7c2a3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:52 +0000
Subject: [PATCH 48/53] fix: cplex listener reports the missing incumbent as an
 infinite bound

---
 ticdat/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ticdat/utils.py b/ticdat/utils.py
index d18c5d6..2f3167c 100644
--- a/ticdat/utils.py
+++ b/ticdat/utils.py
@@ -1319,7 +1319,7 @@ class Progress(object):
         class MyListener(cplexprogress.ProgressListener):
             def notify_progress(self, progress_data):
                 no_feasible_yet = {"minimize": float("inf"), "maximize": -float("inf")}
-                ub = no_feasible_yet if progress_data.current_objective is None else progress_data.current_objective
+                ub = no_feasible_yet[sense] if progress_data.current_objective is None else progress_data.current_objective
                 lb = progress_data.best_bound
                 lb, ub = (lb, ub) if sense == "minimize" else (ub, lb)
                 keep_going = super_self.mip_progress(theme, lb, ub)
-- 
2.43.0


From 23ed277add3528f27db3d938b9f11cd019a12139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:52 +0000
Subject: [PATCH 49/53] fix: writing to Access brackets table names

---
 ticdat/mdb.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ticdat/mdb.py b/ticdat/mdb.py
index 459dda8..de050cd 100644
--- a/ticdat/mdb.py
+++ b/ticdat/mdb.py
@@ -309,10 +309,10 @@ class MdbTicFactory(freezable_factory(object, "_isFrozen")) :
                 verify(table_names.get(t) == t, "Failed to find table %s in path %s"%(t, mdb_file_path))
                 if not allow_overwrite :
                     with con.cursor() as cur :
-                        cur.execute("Select * from %s"%t)
+                        cur.execute("Select * from [%s]"%t)
                         verify(not any(True for _ in cur.fetchall()),
                             "allow_overwrite is False, but there are already data records in %s"%t)
-                con.cursor().execute("Delete from %s"%t).commit() if allow_overwrite else None
+                con.cursor().execute("Delete from [%s]"%t).commit() if allow_overwrite else None
                 _t = getattr(tic_dat, t)
                 if dictish(_t) :
                     primary_keys = tuple(self.tic_dat_factory.primary_key_fields[t])
@@ -322,12 +322,12 @@ class MdbTicFactory(freezable_factory(object, "_isFrozen")) :
                         data_row = ((pk_row,) if len(primary_keys)==1 else pk_row) + tuple(x[1] for x in _items)
                         assert len(data_row) == len(fields)
                         data_row = tuple(write_data(f, x) for f, x in zip(fields, data_row))
-                        str = "INSERT INTO %s (%s) VALUES (%s)"%\
+                        str = "INSERT INTO [%s] (%s) VALUES (%s)"%\
                               (t, ",".join(fields), ",".join("?" for _ in fields))
                         con.cursor().execute(str, data_row).commit()
                 else :
                     for sql_data_row in (_t if containerish(_t) else _t()) :
-                        str = "INSERT INTO %s (%s) VALUES (%s)"%(t,
+                        str = "INSERT INTO [%s] (%s) VALUES (%s)"%(t,
                           ",".join(_brackets(sql_data_row.keys())),
                           ",".join(["?"]*len(sql_data_row)))
                         data_row = tuple(write_data(f, x) for f, x in sql_data_row.items())
-- 
2.43.0


From 0456badf2828b84ace2fae2ed1ffcfa87ae2be2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:52 +0000
Subject: [PATCH 50/53] fix: the infinity flag is applied to keyed tables
 written to Access

---
 ticdat/mdb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ticdat/mdb.py b/ticdat/mdb.py
index de050cd..7c24e1c 100644
--- a/ticdat/mdb.py
+++ b/ticdat/mdb.py
@@ -318,12 +318,12 @@ class MdbTicFactory(freezable_factory(object, "_isFrozen")) :
                     primary_keys = tuple(self.tic_dat_factory.primary_key_fields[t])
                     for pk_row, sql_data_row in _t.items() :
                         _items = tuple(sql_data_row.items())
-                        fields = _brackets(primary_keys + tuple(x[0] for x in _items))
+                        fields = primary_keys + tuple(x[0] for x in _items)
                         data_row = ((pk_row,) if len(primary_keys)==1 else pk_row) + tuple(x[1] for x in _items)
                         assert len(data_row) == len(fields)
                         data_row = tuple(write_data(f, x) for f, x in zip(fields, data_row))
                         str = "INSERT INTO [%s] (%s) VALUES (%s)"%\
-                              (t, ",".join(fields), ",".join("?" for _ in fields))
+                              (t, ",".join(_brackets(fields)), ",".join("?" for _ in fields))
                         con.cursor().execute(str, data_row).commit()
                 else :
                     for sql_data_row in (_t if containerish(_t) else _t()) :
-- 
2.43.0


From 94416bbddde92067d623004d3020ad516f369ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:53 +0000
Subject: [PATCH 51/53] fix: write_file to Access checks every table before it
 deletes anything

---
 ticdat/mdb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ticdat/mdb.py b/ticdat/mdb.py
index 7c24e1c..50f7121 100644
--- a/ticdat/mdb.py
+++ b/ticdat/mdb.py
@@ -304,14 +304,15 @@ class MdbTicFactory(freezable_factory(object, "_isFrozen")) :
         table_names = self._check_tables_fields(mdb_file_path, self.tic_dat_factory.all_tables)
         with _connect(_connection_str(mdb_file_path)) as con:
             for t in self.tic_dat_factory.all_tables:
-                def write_data(f, x):
-                    return self.tic_dat_factory._infinity_flag_write_cell(t, f, x)
                 verify(table_names.get(t) == t, "Failed to find table %s in path %s"%(t, mdb_file_path))
                 if not allow_overwrite :
                     with con.cursor() as cur :
                         cur.execute("Select * from [%s]"%t)
                         verify(not any(True for _ in cur.fetchall()),
                             "allow_overwrite is False, but there are already data records in %s"%t)
+            for t in self.tic_dat_factory.all_tables:
+                def write_data(f, x):
+                    return self.tic_dat_factory._infinity_flag_write_cell(t, f, x)
                 con.cursor().execute("Delete from [%s]"%t).commit() if allow_overwrite else None
                 _t = getattr(tic_dat, t)
                 if dictish(_t) :
-- 
2.43.0


From 94981fe03d5dcb2158464561335d677e5e82c562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:07 +0000
Subject: [PATCH 52/53] fix: null in a text parameter that isn't nullable
 survives reading with pandas

PanDatFactory turned null into the text "nan" or "None", which then passed as valid.
---
 ticdat/pandatfactory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ticdat/pandatfactory.py b/ticdat/pandatfactory.py
index 5353b83..656a7b6 100644
--- a/ticdat/pandatfactory.py
+++ b/ticdat/pandatfactory.py
@@ -510,7 +510,8 @@ class PanDatFactory(object):
                     _can_parameter_have_data(key, None):
                     return None
                 if not _can_parameter_have_number(key):
-                    if push_parameters_to_be_valid and not _can_parameter_have_data(key, value) and \
+                    if push_parameters_to_be_valid and safe_apply(isnull)(value) is not True and \
+                       not _can_parameter_have_data(key, value) and \
                        _can_parameter_have_data(key, str(value)):
                         return str(value) # this is a bit of extreme defensive programming, not covered by unittests
                     return value
-- 
2.43.0


From 013c2ae58a0bef290b799551caba2a005cf40ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:07 +0000
Subject: [PATCH 53/53] fix: key-only tables given as dictionaries of other
 fields aren't good

good_tic_dat_object(row_checking='generous') counted the entries of a dictionary
in place of a key without looking at their names, and accepted tables which
copy_tic_dat could not copy.
---
 ticdat/ticdatfactory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ticdat/ticdatfactory.py b/ticdat/ticdatfactory.py
index 7aeb6e6..f0e11e7 100644
--- a/ticdat/ticdatfactory.py
+++ b/ticdat/ticdatfactory.py
@@ -1266,6 +1266,9 @@ class TicDatFactory(freezable_factory(object, "_isFrozen", {"ampl_prepend"})) :
         if not all(_keylen(k) == len(self.primary_key_fields[tablename])  for k in ticdat_table):
             bad_msg_handler("Inconsistent key lengths")
             return False
+        if not all(set(k).issubset(self.primary_key_fields[tablename]) for k in ticdat_table if dictish(k)):
+            bad_msg_handler("Inconsistent primary key field names")
+            return False
         return True
     def _good_ticdat_dict_table(self, ticdat_table, table_name, bad_msg_handler = lambda x : None,
                                 row_checking="generous"):
-- 
2.43.0

