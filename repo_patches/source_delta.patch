From 50f11b5ee0e3d3331f4fa3220be2839e927f0056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 01/73] fix: Container.read must return falsy objects that are
 stored

---
 citrine/storage/container.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 4af595f..6c83335 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -365,8 +365,8 @@ class Container(Persistent, ContainerProperties):
         :return: the desired object if it exists, or the default if provided
         """
         for group in self.groups:
-            if ret := group.get(id):
-                return ret
+            if group.has_key(id):
+                return group.get(id)
         return default
 
     def write(self, id, obj):
-- 
2.43.0


From 1719cbbb4f0f593c34a81396d12c0101170d7707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:54 +0000
Subject: [PATCH 02/73] fix: Container.delete must pop only from the groups
 that hold the id

---
 citrine/storage/container.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 6c83335..d2f901a 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -385,7 +385,8 @@ class Container(Persistent, ContainerProperties):
         :param id: identifier of the object
         :return: removed object
         """
-        return tuple(group.pop(id) for group in self.groups if self.has(id))
+        return tuple(group.pop(id) for group in self.groups
+                     if group.has_key(id))
 
     def __add__(self, other):
         """
-- 
2.43.0


From 35527c4f40df139d9196278a6a468d775095de04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 03/73] fix: Collection.insert must not refuse an existing key
 in a full strict collection

---
 citrine/storage/collection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/collection.py b/citrine/storage/collection.py
index d2d2e5e..0f4ffa7 100644
--- a/citrine/storage/collection.py
+++ b/citrine/storage/collection.py
@@ -147,7 +147,8 @@ class Collection(Persistent):
         :raises CollectionCapacityError: if the size of the collection exceeds
         the limit in strict mode
         """
-        if self.size >= self.max_size and self.strict:
+        if (self.size >= self.max_size and self.strict
+                and not self.has_key(key)):
             raise CollectionCapacityError(
                 f'Cannot insert "{key}"; maximum size reached!'
             )
-- 
2.43.0


From 2cf6f818a9f42f60c30ce0a5f115609283369b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 04/73] fix: Collection.setdefault must enforce the strict size
 limit

---
 citrine/storage/collection.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/citrine/storage/collection.py b/citrine/storage/collection.py
index 0f4ffa7..4983c48 100644
--- a/citrine/storage/collection.py
+++ b/citrine/storage/collection.py
@@ -193,7 +193,14 @@ class Collection(Persistent):
         :param key: id of item to write to
         :param value: the value to write, if applicable
         :return: existing value or provided value if no value currently exists
+        :raises CollectionCapacityError: if the size of the collection exceeds
+        the limit in strict mode
         """
+        if (self.size >= self.max_size and self.strict
+                and not self.has_key(key)):
+            raise CollectionCapacityError(
+                f'Cannot set "{key}"; maximum size reached!'
+            )
         return self.tree.setdefault(key, value)
 
     def clear(self):
-- 
2.43.0


From b3c1c62ee591daa9d1ccd6d91b547f581e5564f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 05/73] fix: Group.new must give the group the requested
 strictness

---
 citrine/storage/group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index bff8d13..57b0e36 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -269,7 +269,7 @@ class Group(Persistent):
                 raise ValueError('Collection sizes cannot be less than 1')
             collections = tuple(Collection(max_size=max_collection_size)
                                 for _ in range(size))
-            return Group(collections=collections)
+            return Group(collections=collections, strict=strict)
         # ensure any gaps are filled if custom definition is provided
         keys = tuple(custom.keys())
         if any(not isinstance(key, int) for key in keys):
@@ -289,7 +289,7 @@ class Group(Persistent):
         collections = tuple(Collection(max_size=max_collection_size,
                                        strict=strict)
                             for _, max_collection_size in sorted(custom.items()))
-        return Group(collections=collections)
+        return Group(collections=collections, strict=strict)
 
     @groupfn
     def get(self, key, default=None):
-- 
2.43.0


From 112f06b8ae7ef35757c6b3031ea49139d5f013b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 06/73] fix: Group.update must not store part of an update that
 is refused

---
 citrine/storage/group.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 57b0e36..5bc6b9b 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -5,7 +5,7 @@ from uuid import uuid4
 
 from persistent import Persistent
 
-from citrine.storage.collection import Collection
+from citrine.storage.collection import Collection, CollectionCapacityError
 from citrine.storage.consts import DEFAULT_COLLECTION_SIZE
 
 minimum = min
@@ -332,6 +332,16 @@ class Group(Persistent):
             split_collection[get_group_index(key, num_collections)][key] = value
         split_collection = {k: v for k, v in split_collection.items() if v}
 
+        # refuse before anything is written; if one collection were to fail
+        # after another was updated, only part of the update would be stored
+        for index, values in split_collection.items():
+            target = self.collections[index]
+            added = [key for key in values if not target.has_key(key)]
+            if target.strict and target.size + len(added) > target.max_size:
+                raise CollectionCapacityError(
+                    'Cannot update group; maximum collection size reached!'
+                )
+
         for index, collection in split_collection.items():
             self.collections[index].update(collection)
 
-- 
2.43.0


From 30b6fbca373d344315997ba0f0e26fb0ed7170fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 07/73] fix: Group iteration must not stop at falsy keys or
 values

---
 citrine/storage/group.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 5bc6b9b..fc6e647 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -402,7 +402,7 @@ class Group(Persistent):
                 vals.append(next(gen))
             except StopIteration:
                 vals.append(None)
-        while any(vals):
+        while any(v is not None for v in vals):
             # get the lowest value
             next_val = minimum((v for v in vals if v is not None))
             # replace the lowest value with the next value from the generator
@@ -429,20 +429,22 @@ class Group(Persistent):
         """
         gens = [collection.itervalues(min, max)
                 for collection in self.collections]
+        # None is a legitimate value, so it cannot mark an exhausted generator
+        exhausted = object()
         vals = list()
         for gen in gens:
             try:
                 vals.append(next(gen))
             except StopIteration:
-                vals.append(None)
-        while any(vals):
+                vals.append(exhausted)
+        while any(v is not exhausted for v in vals):
             # get the lowest value
-            next_val = minimum((v for v in vals if v is not None))
+            next_val = minimum((v for v in vals if v is not exhausted))
             # replace the lowest value with the next value from the generator
             try:
                 vals[vals.index(next_val)] = next(gens[vals.index(next_val)])
             except StopIteration:
-                vals[vals.index(next_val)] = None
+                vals[vals.index(next_val)] = exhausted
             yield next_val
 
     def items(self):
@@ -471,7 +473,7 @@ class Group(Persistent):
                 items[item[0]] = item[1]
             except StopIteration:
                 keys.append(None)
-        while any(keys):
+        while any(key is not None for key in keys):
             # get the lowest value
             next_key = minimum((v for v in keys if v is not None))
             # replace the lowest value with the next value from the generator
-- 
2.43.0


From da79292c08b997252dd2439c9f02caad9fefb28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 08/73] fix: Group.minKey and maxKey must skip empty
 collections

---
 citrine/storage/group.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index fc6e647..985768a 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -506,8 +506,7 @@ class Group(Persistent):
         :param max: highest key value to return
         :raise ValueError: if there are no keys in the collection
         """
-        return maximum(collection.maxKey(max)
-                       for collection in self.collections)
+        return maximum(self.__bound_keys(Collection.maxKey, max))
 
     def minKey(self, min=None):
         """
@@ -516,8 +515,15 @@ class Group(Persistent):
         :param max: lowest key value to return
         :raise ValueError: if there are no keys in the collection
         """
-        return minimum(collection.minKey(min)
-                       for collection in self.collections)
+        return minimum(self.__bound_keys(Collection.minKey, min))
+
+    def __bound_keys(self, fn, bound):
+        # collections with no keys inside of the bound have nothing to compare
+        for collection in self.collections:
+            try:
+                yield fn(collection, bound)
+            except ValueError:
+                continue
 
     @groupfn
     def has_key(self, key):
-- 
2.43.0


From aae75459107076372f3e73beb592cfe4bef96052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 09/73] fix: Group.popitem must raise KeyError when the group
 is empty

---
 citrine/storage/group.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 985768a..1fa6c44 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -360,7 +360,11 @@ class Group(Persistent):
         Pop a key from the collection and return the key-value pair
         :raise KeyError: if the key is not present in the collection
         """
-        return self.minKey(), self.pop(self.minKey())
+        try:
+            key = self.minKey()
+        except ValueError:
+            raise KeyError('Cannot pop an item from an empty group')
+        return key, self.pop(key)
 
     @groupfn
     def setdefault(self, key, value):
-- 
2.43.0


From cb9e2aaa08a1bfe0f650d00350477c5ad0d82d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 10/73] fix: get_primes must stop at its maximum

---
 citrine/storage/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/storage/utils.py b/citrine/storage/utils.py
index 38e4dd9..907f1d2 100644
--- a/citrine/storage/utils.py
+++ b/citrine/storage/utils.py
@@ -23,7 +23,7 @@ def get_primes(min=1, max=None):
     :return: prime integers
     """
     val = min
-    while not max or val > max:
+    while not max or val <= max:
         if is_prime(val):
             yield val
         val += 1
-- 
2.43.0


From 62cee756557cc21e86287c8406870642b6fc1b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 11/73] fix: Container must keep its primary group in front of
 the others

---
 citrine/storage/container.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index d2f901a..df4c1c7 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -177,17 +177,17 @@ class Container(Persistent, ContainerProperties):
                  strict: bool = False, **kwargs):
         """
         Creates the Container. If the primary_group is not in the groups, it
-        will be added, however if it is in the groups it will just be set as
-        the primary_group property
+        will be added, and in either case it will be the first of the groups
         :param groups: all groups to include in the container
         :param primary_group: the primary group for the container
         :param strict: whether to enforce size restrictions
         """
         super().__init__()
         self.___primary___ = primary_group
-        self.___groups___ = groups
-        if self.primary not in self.groups:
-            self.___groups___ = (self.primary,) + self.groups
+        # the primary has to be read first; anything written to it would
+        # otherwise be hidden behind the groups in front of it
+        self.___groups___ = (primary_group,) + tuple(
+            group for group in groups if group is not primary_group)
         self.___metadata___ = ContainerMeta(self)
         self.strict = strict
 
-- 
2.43.0


From ac51f13a0e94a6e1b9fa82404dd0e75dae0314b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 12/73] fix: Container.resize must refuse a capacity smaller
 than its contents

---
 citrine/storage/container.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index df4c1c7..7cf4621 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -262,6 +262,10 @@ class Container(Persistent, ContainerProperties):
         # Don't try to reinvent the wheel with a complex system, it will not
         # scale like the ugly if-else method does. Trust me, I tried.
 
+        if capacity < self.size:
+            raise ValueError(f'Cannot resize to {capacity}; container holds ' +
+                             f'{self.size} objects')
+
         # create a new group with a prime number of containers capable of
         # handling the capacity
         size = number_of_collections(
-- 
2.43.0


From 7f7d03ada6d3b0debbd58b8dc26211abb0fb4732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 13/73] fix: Container.resize must not take groups out of the
 container while it runs

---
 citrine/storage/container.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 7cf4621..fbf2a57 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -295,12 +295,11 @@ class Container(Persistent, ContainerProperties):
                                     transaction_manager=transaction_manager)
         else:
             # if we only want to move over the data from the old primary,
-            # set aside all other groups, use condense, and put them back after
-            secondaries = self.groups[2:]
-            self.___groups___ = self.___groups___[:2]
-            removed = self.condense(transfer=transfer,
-                                    transaction_manager=transaction_manager)
-            self.___groups___ += secondaries
+            # condense that group alone; the other groups have to stay in
+            # place, or they would be missing from anything committed (or left
+            # behind by an exception) before the data has been moved
+            removed = self.__condense(self.groups[1:2], transfer,
+                                      transaction_manager)
         return removed
 
     def condense(self, transfer: bool = True, transaction_manager=None) \
@@ -323,8 +322,13 @@ class Container(Persistent, ContainerProperties):
         :param transaction_manager: transaction manager to use, if any
         :return: secondary groups removed from the container
         """
-        source_groups = self.groups[1:]
+        return self.__condense(self.groups[1:], transfer, transaction_manager)
 
+    def __condense(self, source_groups, transfer, transaction_manager) \
+            -> List[Group]:
+        """
+        Condenses the given secondary groups into the primary group
+        """
         if transfer:
             fn = lambda group, key: self.primary.insert(key, group.pop(key))
         else:
@@ -342,13 +346,15 @@ class Container(Persistent, ContainerProperties):
                     fn(group, key)
 
         if transfer:
-            discarded = list(self.groups[1:])
+            discarded = list(source_groups)
+            kept = tuple(group for group in self.groups
+                         if not any(group is source for source in source_groups))
             if transaction_manager:
                 with transaction_manager as tm:
-                    self.___groups___ = (self.groups[0],)
+                    self.___groups___ = kept
                     tm.commit()
             else:
-                self.___groups___ = (self.groups[0],)
+                self.___groups___ = kept
             return discarded
         return []
 
-- 
2.43.0


From 0c4eac4b8e4b5c3c55a2023f6779445c9320cdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 14/73] fix: Container.condense must not remove an object
 before it is stored

---
 citrine/storage/container.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index fbf2a57..6f8b6ed 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -329,10 +329,12 @@ class Container(Persistent, ContainerProperties):
         """
         Condenses the given secondary groups into the primary group
         """
-        if transfer:
-            fn = lambda group, key: self.primary.insert(key, group.pop(key))
-        else:
-            fn = lambda group, key: self.primary.insert(key, group.get(key))
+        def fn(group, key):
+            # the insert can be refused, the object must not be removed from
+            # where it is until after it has been stored
+            self.primary.insert(key, group.get(key))
+            if transfer:
+                group.pop(key)
 
         if transaction_manager:
             with transaction_manager as tm:
-- 
2.43.0


From b51ff2a3a2d081f904a1783284762f4bde2b3d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 15/73] fix: Container.condense must commit each object as its
 own transaction

---
 citrine/storage/container.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 6f8b6ed..a846800 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -337,9 +337,11 @@ class Container(Persistent, ContainerProperties):
                 group.pop(key)
 
         if transaction_manager:
-            with transaction_manager as tm:
-                for group in source_groups:
-                    for key in list(group.keys()):
+            # a transaction can only be committed once, so each of the objects
+            # needs to have its own
+            for group in source_groups:
+                for key in list(group.keys()):
+                    with transaction_manager as tm:
                         fn(group, key)
                         tm.commit()
         else:
-- 
2.43.0


From 715babe2502b25721dd42b8c553595c0fb50422d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 16/73] fix: ContainerConnection item access must find falsy
 objects

---
 citrine/connection/container_connection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/citrine/connection/container_connection.py b/citrine/connection/container_connection.py
index 145e4e6..138b2a8 100644
--- a/citrine/connection/container_connection.py
+++ b/citrine/connection/container_connection.py
@@ -232,10 +232,10 @@ class ContainerConnection(Connection, ContainerConnectionProperties):
         if not isinstance(ids, Iterable):
             raise IndexError(f'index selector must be string or iterable of ' +
                              f'strings, not {ids}')
-        results = [self.container.read(id) for id in ids]
-        if not any(results):
+        ids = list(ids)
+        if not any(self.container.has(id) for id in ids):
             raise KeyError(f'No values found for any of {ids}')
-        return results
+        return [self.container.read(id) for id in ids]
 
     def __enter__(self):
         """
-- 
2.43.0


From 549e7f7de5db13717cd8230da7310f129a1af481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 17/73] fix: ContainerConnection must pass autocommit on to its
 transaction manager

---
 citrine/connection/container_connection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/citrine/connection/container_connection.py b/citrine/connection/container_connection.py
index 138b2a8..a4a4d2a 100644
--- a/citrine/connection/container_connection.py
+++ b/citrine/connection/container_connection.py
@@ -159,6 +159,8 @@ class ContainerConnection(Connection, ContainerConnectionProperties):
 
         self.transaction_manager = (transaction_manager or
                                     ThreadTransactionManager())
+        if not autocommit:
+            self.transaction_manager.autocommit = False
         self.open(self.transaction_manager)
 
         self.___root___ = self.root
-- 
2.43.0


From 4333d7bec7c82ad0e2b81d57ad1f143eea781ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 18/73] fix: a failed commit must not leave automatic commits
 turned off

---
 citrine/storage/transaction.py | 38 ++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/citrine/storage/transaction.py b/citrine/storage/transaction.py
index a04a09f..e79f151 100644
--- a/citrine/storage/transaction.py
+++ b/citrine/storage/transaction.py
@@ -28,14 +28,17 @@ class TransactionManager(ZoTransactionManager):
         return super().__enter__()
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_val is None:
-            self.commit()
-            self.logger.info(f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
-        else:
-            self.abort()
-            self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
-        self.autocommit = True
-        self.transaction_uuid = None
+        try:
+            if exc_val is None:
+                self.commit()
+                self.logger.info(f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
+            else:
+                self.abort()
+                self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
+        finally:
+            # a commit can fail, and anything after it still has to be committed
+            self.autocommit = True
+            self.transaction_uuid = None
 
 
 class ThreadTransactionManager(ZoThreadTransactionManager):
@@ -57,14 +60,17 @@ class ThreadTransactionManager(ZoThreadTransactionManager):
         return super().__enter__()
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_val is None:
-            self.commit()
-            self.logger.info(f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
-        else:
-            self.abort()
-            self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
-        self.autocommit = True
-        self.transaction_uuid = None
+        try:
+            if exc_val is None:
+                self.commit()
+                self.logger.info(f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
+            else:
+                self.abort()
+                self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
+        finally:
+            # a commit can fail, and anything after it still has to be committed
+            self.autocommit = True
+            self.transaction_uuid = None
 
 
 def autocommit(fn):
-- 
2.43.0


From 67af0594bdf3fe83f76ebb79d3d933f953782bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 19/73] fix: DbContainer.expand_size must keep stored objects
 reachable

---
 citrine/persistence.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/citrine/persistence.py b/citrine/persistence.py
index bdf47d6..0d4f80b 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -119,10 +119,15 @@ class DbContainer(Persistent):
             raise ValueError(f'Cannot expand from {self.containers_size} ' +
                              f'containers to {new_size} containers, new size ' +
                              f'must be larger than existing size')
+        # ids are located by the number of containers, so every object has to be
+        # moved to where it will be looked for
+        objects = [item for container in self.containers.values()
+                   for item in container.items()]
         self.containers = PersistentMapping({
-            key: self.containers.get(key, PersistentMapping())
-            for key in range(new_size)
+            key: PersistentMapping() for key in range(new_size)
         })
+        for id, obj in objects:
+            self.write(id, obj)
 
     def has(self, id) -> bool:
         """
-- 
2.43.0


From 0ff0e0784dcd3a079991e48c4dba79e080b89f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 20/73] fix: DbModule.create must pass overwrite as overwrite

---
 citrine/cluster_tools/dbmodule/dbmodule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index 661010b..4abb5c4 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -175,7 +175,7 @@ class DbModule:
 
         The provided name will be given to the newly created database
         """
-        module_path = create_dbmodule(path, name, overwrite)
+        module_path = create_dbmodule(path, name, overwrite=overwrite)
         return DbModule(module_path)
 
     @classmethod
-- 
2.43.0


From bba5c5dde18e8e4b83ede3fb2a358f60de129534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 21/73] fix: create_dbmodule must be able to overwrite an
 existing module

---
 citrine/cluster_tools/dbmodule/dbmodule.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index 4abb5c4..c0c32f2 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -30,7 +30,10 @@ def create_dbmodule(path: str = '.', name: str = None, discoverable: bool = True
     path = join(path, name)
     if not overwrite and exists(path):
         raise IOError(f'DbModule already exists at "{path}"')
-    mkdir(path)
+    if exists(path):
+        delete_dbmodule(path, remove_empty=False)
+    else:
+        mkdir(path)
     init_path = join(path, '__init__.py')
     with open(init_path, 'w') as writer:
         if discoverable:
-- 
2.43.0


From 3fac55b4bea80f7f936aecddee4c26e514aaf9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 22/73] fix: delete_dbmodule must not remove every file when
 the path ends in a separator

---
 citrine/cluster_tools/dbmodule/dbmodule.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index c0c32f2..d018e76 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -5,7 +5,7 @@ citrine.cluster.DbModule object.
 from uuid import uuid4
 
 from os import mkdir, listdir, rmdir, remove
-from os.path import join, exists, split, isfile
+from os.path import abspath, join, exists, split, isfile
 from shutil import rmtree
 from persistent import Persistent
 from persistent.mapping import PersistentMapping
@@ -58,7 +58,8 @@ def delete_dbmodule(path: str, remove_empty: bool = True,
     if remove_all:
         rmtree(path)
         return
-    name = split(path)[1]
+    # a trailing separator would leave an empty name, which every file starts with
+    name = split(abspath(path))[1]
     affected = [join(path, file) for file in listdir(path)
                 if (isfile(join(path, file)) and file.startswith(name))
                     or file == '__init__.py']
-- 
2.43.0


From fc5cc8e97c618d7082d35f33825d5e788c0fcaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 23/73] fix: ClusterRegistryContainer must keep its modules in
 a persistent mapping

---
 citrine/cluster_tools/clusterdb/container.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/citrine/cluster_tools/clusterdb/container.py b/citrine/cluster_tools/clusterdb/container.py
index 245fac2..85f89cb 100644
--- a/citrine/cluster_tools/clusterdb/container.py
+++ b/citrine/cluster_tools/clusterdb/container.py
@@ -40,7 +40,8 @@ class ClusterRegistryContainer(Persistent):
 
     def __init__(self, modules: dict | PersistentMapping = None):
         super().__init__()
-        self.modules = modules if modules else PersistentMapping()
+        # a plain dict would not be saved when a module is written or deleted
+        self.modules = PersistentMapping(modules if modules else {})
 
     def has(self, id) -> bool:
         """
-- 
2.43.0


From 14e877aadd0478fd221dcc1abe7a3a7b5d38980c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 24/73] fix: ContainerDb.create must honour strict

---
 citrine/database/containerdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 8e3386c..32f89fa 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -178,7 +178,7 @@ class ContainerDb(DB):
 
         :return: FileStorage object connecting back to the new ``ContainerDb``
         """
-        container = Container.new(capacity=capacity)
+        container = Container.new(capacity=capacity, strict=strict)
         storage = FileStorage(file_name, create=create, read_only=read_only,
                               stop=stop, quota=quota, pack_gc=pack_gc,
                               pack_keep_old=pack_keep_old, packer=packer,
-- 
2.43.0


From 11118ac87d0b8713b939d4d984a8357369cbec80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 25/73] fix: GroupReadConnection must raise on duplicate ids

---
 citrine/connection/group_connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/connection/group_connection.py b/citrine/connection/group_connection.py
index d490d38..7d096e2 100644
--- a/citrine/connection/group_connection.py
+++ b/citrine/connection/group_connection.py
@@ -41,7 +41,7 @@ class GroupReadConnection:
         if not results:
             return None
         if len(results) > 1 and not multiple:
-            CitrineDuplicateIdError(id)
+            raise CitrineDuplicateIdError(id)
         return results[0] if not multiple else results
 
     async def __read(self, id: str, timeout: timedelta = None,
-- 
2.43.0


From 90db42f9482623a2fc719be225bef5e3e616dc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 26/73] fix: GroupReadConnection must be able to return
 multiple results

---
 citrine/connection/group_connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/connection/group_connection.py b/citrine/connection/group_connection.py
index 7d096e2..f168301 100644
--- a/citrine/connection/group_connection.py
+++ b/citrine/connection/group_connection.py
@@ -80,8 +80,8 @@ class GroupReadConnection:
             results = [res.result() for res in results
                        if res.result() is not None]
         else:
-            results = {key: val.results() for key, val in results.items()
-                       if val.results() is not None}
+            results = {key: val.result() for key, val in results.items()
+                       if val.result() is not None}
         return results
 
     async def __read_db(self, connection, id: str):
-- 
2.43.0


From e8ae0a121f61b542637ffc3213dc479c4a021ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 27/73] fix: GroupReadConnection must be able to read with a
 timeout

---
 citrine/connection/group_connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/connection/group_connection.py b/citrine/connection/group_connection.py
index f168301..6087199 100644
--- a/citrine/connection/group_connection.py
+++ b/citrine/connection/group_connection.py
@@ -50,8 +50,8 @@ class GroupReadConnection:
         Reads from all connections and returns all located values.
         """
         if timeout:
-            with aiotimeout(timeout.seconds):
-                with TaskGroup() as tg:
+            async with aiotimeout(timeout.total_seconds()):
+                async with TaskGroup() as tg:
                     # if we're getting multiple back, it's good to give a link
                     # back to the relevant db
                     if multiple:
-- 
2.43.0


From 425a91e64d10806f319dd062c7c715d477700200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 28/73] fix: GroupReadConnection must let connection arguments
 override its defaults

---
 citrine/connection/group_connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/connection/group_connection.py b/citrine/connection/group_connection.py
index 6087199..1d3e2a7 100644
--- a/citrine/connection/group_connection.py
+++ b/citrine/connection/group_connection.py
@@ -28,8 +28,8 @@ class GroupReadConnection:
         default = {'transaction_manager': transaction_manager}
         for db in dbs:
             connection_details = {
-                **connection_args.get(db.database_name, default),
-                **default
+                **default,
+                **connection_args.get(db.database_name, {})
             }
             self.connections += (db.open(**connection_details),)
 
-- 
2.43.0


From d8b3747ce3d33315eaa0ad82f4e519769e098b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 29/73] fix: JSON-LD output must keep booleans and None as they
 are

---
 jsonld/jsonld.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonld/jsonld.py b/jsonld/jsonld.py
index 447b9a7..1582c36 100644
--- a/jsonld/jsonld.py
+++ b/jsonld/jsonld.py
@@ -46,6 +46,8 @@ class PropertyJsonLD(PropertyAwareObject):
         str: lambda val, *args, **kwargs: val,
         int: lambda val, *args, **kwargs: val,
         float: lambda val, *args, **kwargs: val,
+        bool: lambda val, *args, **kwargs: val,
+        type(None): lambda val, *args, **kwargs: val,
         list: lambda val, fn, *args, **kwargs: [fn(item) for item in val],
         set: lambda val, fn, *args, **kwargs: [fn(item) for item in val],
         tuple: lambda val, fn, *args, **kwargs: [fn(item) for item in val],
-- 
2.43.0


From 55e175d03c90e1dc168326cf36d448f2387c15c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 30/73] fix: nested JSON-LD objects must not lose properties
 named like part of acontext

---
 jsonld/jsonld.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonld/jsonld.py b/jsonld/jsonld.py
index 1582c36..83d9a77 100644
--- a/jsonld/jsonld.py
+++ b/jsonld/jsonld.py
@@ -57,7 +57,7 @@ class PropertyJsonLD(PropertyAwareObject):
 
     def __handler(self, value):
         if isinstance(value, PropertyJsonLD):
-            return value.data(exclude='acontext')
+            return value.data(exclude=('acontext',))
         if type(value) in self.__data_handler_fns.keys():
             return self.__data_handler_fns[type(value)](value, self.__handler)
         if isinstance(value, Iterable):
-- 
2.43.0


From 1bb046ddae25b86ee7a81cc99f84a41458c952a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 31/73] fix: a duration of zero must be written as a valid
 duration

---
 jsonld/engine/utils.py   | 3 +++
 jsonld/tools/datetime.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/jsonld/engine/utils.py b/jsonld/engine/utils.py
index 0535a77..00fef7c 100644
--- a/jsonld/engine/utils.py
+++ b/jsonld/engine/utils.py
@@ -81,6 +81,9 @@ def stringify_timedelta(obj) -> str:
     hms = 'T' + (f'{hours}H' if hours else '') + \
           (f'{minutes}M' if minutes else '') + \
           (f'{seconds}S' if seconds else '')
+    # at least one value is required, even if there is no time at all
+    if len(ymd) == 1 and len(hms) == 1:
+        return 'PT0S'
     # The entire HMS section is optional, however we ALWAYS need at least the
     # "P" from the ymd section (indicates this is a "period")
     return f'{ymd}{hms if len(hms) > 1 else ""}'
diff --git a/jsonld/tools/datetime.py b/jsonld/tools/datetime.py
index a140ecf..c8dfd5c 100644
--- a/jsonld/tools/datetime.py
+++ b/jsonld/tools/datetime.py
@@ -63,6 +63,9 @@ def timedelta_str(obj) -> str:
     hms = 'T' + (f'{hours}H' if hours else '') + \
           (f'{minutes}M' if minutes else '') + \
           (f'{seconds}S' if seconds else '')
+    # at least one value is required, even if there is no time at all
+    if len(ymd) == 1 and len(hms) == 1:
+        return 'PT0S'
     # The entire HMS section is optional, however we ALWAYS need at least the
     # "P" from the ymd section (indicates this is a "period")
     return f'{ymd}{hms if len(hms) > 1 else ""}'
-- 
2.43.0


From e93c4e876ba4bdc74249f589d0dcd55f70781aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 32/73] fix: date-times must be written in UTC with a four
 digit year

---
 jsonld/engine/utils.py   | 8 ++++++--
 jsonld/tools/datetime.py | 9 ++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/jsonld/engine/utils.py b/jsonld/engine/utils.py
index 00fef7c..77309e6 100644
--- a/jsonld/engine/utils.py
+++ b/jsonld/engine/utils.py
@@ -2,7 +2,7 @@ import logging
 import re
 from urllib import parse
 from collections.abc import Iterable
-from datetime import datetime, timedelta
+from datetime import datetime, timedelta, timezone
 
 from validate_email import validate_email
 
@@ -95,7 +95,11 @@ def stringify_datetime(obj: datetime) -> str:
     :param obj: the datetime object to convert
     :return: "YYYY-mm-ddTHH:MM:SSZ" string
     """
-    return obj.strftime('%Y-%m-%dT%H:%M:%SZ')
+    # anything that is not aware of a timezone is taken as UTC
+    if obj.utcoffset() is not None:
+        obj = obj.astimezone(timezone.utc)
+    # strftime does not pad the year to four digits
+    return obj.replace(tzinfo=None).isoformat(timespec='seconds') + 'Z'
 
 
 # matches a data type to a function
diff --git a/jsonld/tools/datetime.py b/jsonld/tools/datetime.py
index c8dfd5c..3793bf6 100644
--- a/jsonld/tools/datetime.py
+++ b/jsonld/tools/datetime.py
@@ -1,5 +1,5 @@
 import re
-from datetime import datetime
+from datetime import datetime, timezone
 from types import NoneType
 
 AS2_TIME = re.compile(
@@ -77,6 +77,9 @@ def datetime_str(obj: datetime) -> str:
     :param obj: the datetime object to convert
     :return: "YYYY-mm-ddTHH:MM:SSZ" string
     """
-    # TODO: implement handling for timezone-aware datetimes
     # TODO: implement millisecond handling
-    return obj.strftime('%Y-%m-%dT%H:%M:%SZ')
\ No newline at end of file
+    # anything that is not aware of a timezone is taken as UTC
+    if obj.utcoffset() is not None:
+        obj = obj.astimezone(timezone.utc)
+    # strftime does not pad the year to four digits
+    return obj.replace(tzinfo=None).isoformat(timespec='seconds') + 'Z'
\ No newline at end of file
-- 
2.43.0


From 254b079bd813efe92b4827f997031b21e0a95e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 33/73] fix: is_activity_datetime must check all of the string

---
 jsonld/tools/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonld/tools/datetime.py b/jsonld/tools/datetime.py
index 3793bf6..8a75a6c 100644
--- a/jsonld/tools/datetime.py
+++ b/jsonld/tools/datetime.py
@@ -24,7 +24,7 @@ def is_activity_datetime(val, prop='', **kwargs):
         return
     if isinstance(val, datetime):
         return True
-    if isinstance(val, str) and re.search(AS2_DATE_TIME, val) is None:
+    if isinstance(val, str) and re.fullmatch(AS2_DATE_TIME, val) is None:
         raise ValueError(
             f'Property "{prop}" must be in "YYYY-mm-dd-THH:MM:SSZ" format; ' +
             f'got {val} ({type(val)})')
-- 
2.43.0


From 8ae9c71483923c529ea8131001a22430f9d04e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 34/73] fix: URL checks must look at every character of the
 host, not the first

---
 jsonld/docloader.py    | 2 +-
 jsonld/engine/utils.py | 2 +-
 jsonld/tools/url.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonld/docloader.py b/jsonld/docloader.py
index 75b12cd..cd27967 100644
--- a/jsonld/docloader.py
+++ b/jsonld/docloader.py
@@ -64,7 +64,7 @@ class RequestsJsonLoader:
         if not pieces.netloc:
             raise ValueError('Cannot dereference url without body')
         # urls can only have certain characters
-        if re.match(JSON_LD_URL_REGEX, pieces.netloc):
+        if re.search(JSON_LD_URL_REGEX, pieces.netloc):
             raise ValueError('url cannot contain characters outside of' +
                              'alphanumeric (a-Z, 0-9), "-", "_", ":", and "."' +
                              f';\ngot: "{url}" ')
diff --git a/jsonld/engine/utils.py b/jsonld/engine/utils.py
index 77309e6..dc8974a 100644
--- a/jsonld/engine/utils.py
+++ b/jsonld/engine/utils.py
@@ -35,7 +35,7 @@ def validate_url(url, secure: bool = False):
         logger.debug('Cannot dereference url without body')
         return False
     # urls can only have certain characters
-    if re.match(VALID_URL_REGEX, pieces.netloc):
+    if re.search(VALID_URL_REGEX, pieces.netloc):
         logger.debug('url cannot contain characters outside of' +
                     'alphanumeric (a-Z, 0-9), "-", "_", ":", and "."')
         return False
diff --git a/jsonld/tools/url.py b/jsonld/tools/url.py
index 00f4cce..b053ed4 100644
--- a/jsonld/tools/url.py
+++ b/jsonld/tools/url.py
@@ -49,7 +49,7 @@ def validate_url(url, secure: bool = False, **kwargs):
         logger.debug('Cannot dereference url without body')
         return False
     # urls can only have certain characters
-    if re.match(VALID_URL_REGEX, pieces.netloc):
+    if re.search(VALID_URL_REGEX, pieces.netloc):
         logger.debug('url cannot contain characters outside of' +
                     'alphanumeric (a-Z, 0-9), "-", "_", ":", and "."')
         return False
-- 
2.43.0


From add3c293f640dd82b8189191e190f70a0b08c8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 35/73] fix: hreflang must return the value it was set to

---
 activitystreams/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index e6e3257..ea1a08a 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -1026,7 +1026,7 @@ class HrefLang(ActivityStreamsProperty):
     @hreflang.setter
     @SetterValidator(types=(str,), functional=True).check
     def hreflang(self, val):
-        self.__hrefLang = val
+        self.___hreflang___ = val
 
 
 class PartOf(ActivityStreamsProperty):
-- 
2.43.0


From 6af557e77a54e72e30485c5e24aabd5537841f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 36/73] fix: properties after the object property must accept
 Object models

---
 activitystreams/properties.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index ea1a08a..6f9c199 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -669,7 +669,9 @@ class Next(ActivityStreamsProperty):
         self.___next___ = val
 
 
-class Object(ActivityStreamsProperty):
+# named differently until the end of the module, the properties below need to be
+# able to refer to the Object model
+class ObjectProperty(ActivityStreamsProperty):
     """
     When used within an Activity, describes the direct object of the activity.
     For instance, in the activity "John added a movie to his wishlist", the
@@ -1415,3 +1417,6 @@ class Deleted(ActivityStreamsProperty):
                      additional=(is_activity_datetime,)).check
     def deleted(self, val):
         self.___deleted___ = val
+
+
+Object = ObjectProperty
-- 
2.43.0


From 34d83f5cd90aa865a743264995ecbcef2c344423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 37/73] fix: deleted must accept a date-time string like the
 other date-times

---
 activitystreams/properties.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index 6f9c199..56f68a6 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -1413,10 +1413,10 @@ class Deleted(ActivityStreamsProperty):
         return val
 
     @deleted.setter
-    @SetterValidator(types=(datetime,), functional=True,
+    @SetterValidator(types=(datetime, str), functional=True,
                      additional=(is_activity_datetime,)).check
     def deleted(self, val):
-        self.___deleted___ = val
+        self.___deleted___ = parse_activitystream_datetime(val)
 
 
 Object = ObjectProperty
-- 
2.43.0


From 0004ca7917e8d0b36212dc3443f6c61de07975ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 38/73] fix: closed must accept a date-time string

---
 activitystreams/properties.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index 56f68a6..2598ff9 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -617,8 +617,11 @@ class Closed(ActivityStreamsProperty):
 
     @closed.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link, datetime, bool)).check
+    @SetterValidator(types=(Object, Link, datetime, bool, str),
+                     additional=(is_activity_datetime,)).check
     def closed(self, val):
+        if isinstance(val, str):
+            val = parse_activitystream_datetime(val)
         self.___closed___ = val
 
 
-- 
2.43.0


From ea717422ad16f01f658675d35206b621b8d96971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 39/73] fix: Tombstone must keep the former type it is given

---
 activitystreams/models.py     | 5 +++--
 activitystreams/properties.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 0412f1c..8e7dfe9 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -917,9 +917,10 @@ class Tombstone(Object):
     """
     type = "Tombstone"
 
-    def __init__(self, id, former_type=None, deleted=None, **kwargs):
+    def __init__(self, id, former_type=None, deleted=None, formerType=None,
+                 **kwargs):
         super().__init__(id, **kwargs)
-        self.former_type = former_type
+        self.formerType = formerType if formerType is not None else former_type
         self.deleted = deleted
 
 
diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index 2598ff9..95d7c8e 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -1393,7 +1393,7 @@ class FormerType(ActivityStreamsProperty):
         return getattr(self, '___formerType___', None)
 
     @formerType.setter
-    @SetterValidator(types=(Object,)).check
+    @SetterValidator(types=(Object, str)).check
     def formerType(self, val):
         self.___formerType___ = val
 
-- 
2.43.0


From d9304b7ef1a7f6a250a4863c2c83f4574f5fcbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 40/73] fix: Object and Link must keep their namespace in a
 package

---
 activitystreams/models.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 8e7dfe9..add60b4 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -41,8 +41,10 @@ class Object(ApplicationActivityJson):
 
     @classmethod
     def __get_namespace__(cls):
-        # provides namespacing logic for ALL derived children
-        return f'{ACTIVITYSTREAMS_NS}#{cls.type}'
+        # provides namespacing logic for ALL derived children; packages replace
+        # ``type`` with a property on the class they link it to
+        type = cls.type if isinstance(cls.type, str) else cls.__name__
+        return f'{ACTIVITYSTREAMS_NS}#{type}'
 
     def __init__(self, id=None, type=None, attachment=None, attributedTo=None,
                  audience=None, content=None, context=None, name=None,
@@ -98,8 +100,10 @@ class Link(ApplicationActivityJson):
 
     @classmethod
     def __get_namespace__(cls):
-        # provides namespacing logic for ALL derived children
-        return f'{ACTIVITYSTREAMS_NS}#{cls.type}'
+        # provides namespacing logic for ALL derived children; packages replace
+        # ``type`` with a property on the class they link it to
+        type = cls.type if isinstance(cls.type, str) else cls.__name__
+        return f'{ACTIVITYSTREAMS_NS}#{type}'
 
     def __init__(self, href=None, rel=None, mediaType=None, name=None,
                  hreflang=None, height=None, width=None, preview=None,
-- 
2.43.0


From 7121b16c7917e5ff28f30a42c23de52aa366055f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 41/73] fix: Object and Link must keep the type they are given
 in a package

---
 activitystreams/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index add60b4..b14295d 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -57,7 +57,7 @@ class Object(ApplicationActivityJson):
                  **kwargs):
         ApplicationActivityJson.__init__(self, acontext=acontext)
         self.id = id
-        self.type = getattr(self, 'type', type)
+        self.type = getattr(self, 'type', None) or type
         self.attachment = attachment
         self.attributedTo = attributedTo
         self.audience = audience
@@ -123,7 +123,7 @@ class Link(ApplicationActivityJson):
         self.width = width
         self.preview = preview
         self.context = context
-        self.type = getattr(self, 'type', type)
+        self.type = getattr(self, 'type', None) or type
 
     @classmethod
     def get(cls, data, *args, **kwargs):
-- 
2.43.0


From 7fb983a5449f95e12cd57d67d88c757793a2f924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 42/73] fix: data of an unknown type must be refused with a
 ValueError

---
 jsonld/engine/json_input.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/jsonld/engine/json_input.py b/jsonld/engine/json_input.py
index a8714a5..258b241 100644
--- a/jsonld/engine/json_input.py
+++ b/jsonld/engine/json_input.py
@@ -61,10 +61,7 @@ class PropertyJsonIntake:
             class_type = 'default'
 
         # gets the class for the object that needs to be created from the
-        object_class = self.class_registry.get(class_type)
-        if not object_class:
-            ValueError(f'Provided data has invalid or missing "@type"')
-        return object_class
+        return self.class_registry.get(class_type)
 
     def _unpack_objects(self, data, context):
         """
@@ -112,6 +109,8 @@ class PropertyJsonIntake:
             logger.debug(f"No '@context' provided, using '{DEFAULT_CONTEXT}'")
             data.update({'@context': DEFAULT_CONTEXT})
         object_class = self._get_object_class(data)
+        if not object_class:
+            raise ValueError(f'Provided data has invalid or missing "@type"')
 
         # only include values from the json that are properties of the class
         # unpack data structures and populate None values where appropriate
-- 
2.43.0


From 009f4c061bb04d313f43429ba4090eaa56a982ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 43/73] fix: Collection must keep the items it is given in a
 package

---
 activitystreams/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index b14295d..aabf588 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -356,7 +356,8 @@ class Collection(Object):
         self.last = last
         # some inheritors may override this with more specific orderings,
         # they should be given precedence
-        self.items = getattr(self, 'items', items)
+        if getattr(self, 'items', None) is None:
+            self.items = items
 
         # supplied value takes priority, followed by size of items if they are
         # sizeable, defaulting to 0 if not
-- 
2.43.0


From 6579c2d55ca90443540afb60bc64848be9622a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 44/73] fix: Collection must keep a total of zero

---
 activitystreams/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index aabf588..a15a918 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -361,7 +361,7 @@ class Collection(Object):
 
         # supplied value takes priority, followed by size of items if they are
         # sizeable, defaulting to 0 if not
-        self.totalItems = totalItems if totalItems else (
+        self.totalItems = totalItems if totalItems is not None else (
             0 if not isinstance(self.items, Sized) else len(self.items)
         )
 
-- 
2.43.0


From c489de02b449f84de1fa00e7a5eae21f8b0e9131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 45/73] fix: iterating a Collection without items must not fail

---
 activitystreams/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index a15a918..9605a01 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -367,7 +367,7 @@ class Collection(Object):
 
     def __iter__(self):
         if not self.items:
-            yield
+            return
         for item in self.items:
             yield item
 
-- 
2.43.0


From 037bc2c92479d0fe0224724c5df163e23cedf9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 46/73] fix: JsonLdPackage addition must combine the property
 mappings

---
 jsonld/package.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsonld/package.py b/jsonld/package.py
index d77b823..173a7f9 100644
--- a/jsonld/package.py
+++ b/jsonld/package.py
@@ -31,7 +31,7 @@ class JsonLdPackage(ClassCloner):
         self.property_ref = self.clone_classes(properties)
         self.properties = tuple(self.property_ref.values())
         # property_mapping connects properties to classes on instantiation
-        self.property_mapping = property_mapping
+        self.property_mapping = property_mapping if property_mapping else {}
 
         self.__ref = {obj.__get_namespace__(): obj
                       for obj in self.objects + self.properties}
@@ -157,7 +157,9 @@ class JsonLdPackage(ClassCloner):
         properties = kept_props + other.properties
 
         return JsonLdPackage(namespace=self.namespace, objects=objects,
-                             properties=properties)
+                             properties=properties,
+                             property_mapping={**self.property_mapping,
+                                               **other.property_mapping})
 
     def __sub__(self, other):
         if not isinstance(other, JsonLdPackage):
-- 
2.43.0


From 0724e9f12173fd3076b236452b51fb75c65a2dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 47/73] fix: JsonLdPackage subtraction must keep what is not
 removed

---
 jsonld/package.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jsonld/package.py b/jsonld/package.py
index 173a7f9..7c36d95 100644
--- a/jsonld/package.py
+++ b/jsonld/package.py
@@ -169,9 +169,14 @@ class JsonLdPackage(ClassCloner):
                               if cls.__get_namespace__() not in removed_obj_ns)
 
         removed_prp_ns = [cls.__get_namespace__() for cls in other.properties]
-        remaining_prps = tuple(prp for prp in other.properties
+        remaining_prps = tuple(prp for prp in self.properties
                                if prp.__get_namespace__() not in removed_prp_ns)
 
         return JsonLdPackage(namespace=self.namespace,
                              objects=remaining_objs,
-                             properties=remaining_prps)
+                             properties=remaining_prps,
+                             property_mapping={
+                                 obj: tuple(prp for prp in prps
+                                            if prp not in removed_prp_ns)
+                                 for obj, prps in self.property_mapping.items()
+                                 if obj not in removed_obj_ns})
-- 
2.43.0


From 1e9a839c5edc77c96bb0d14aa65e546225d16bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 48/73] fix: JsonLdEngine must accept several packages

---
 jsonld/engine/jsonld_engine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonld/engine/jsonld_engine.py b/jsonld/engine/jsonld_engine.py
index 8f1eadd..eb0a9b7 100644
--- a/jsonld/engine/jsonld_engine.py
+++ b/jsonld/engine/jsonld_engine.py
@@ -17,7 +17,8 @@ class JsonLdEngine(PropertyJsonIntake):
         :param packages: the packages to load into the engine
         """
         # keeps a copy of all the packages provided
-        packages = (packages,) if packages is not Iterable else packages
+        packages = tuple(packages) if isinstance(packages, Iterable) \
+            else (packages,)
         self.___packages___ = packages
         if not self.packages:
             raise ValueError(f'No packages provided!')
-- 
2.43.0


From aaa951ba047057ea73094fdf3f6beff927b08a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 49/73] fix: packages and engines must be addable to and
 removable from an engine

---
 jsonld/engine/jsonld_engine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonld/engine/jsonld_engine.py b/jsonld/engine/jsonld_engine.py
index eb0a9b7..a03a6ea 100644
--- a/jsonld/engine/jsonld_engine.py
+++ b/jsonld/engine/jsonld_engine.py
@@ -91,7 +91,7 @@ class JsonLdEngine(PropertyJsonIntake):
 
     def __add__(self, other):
         if isinstance(other, JsonLdPackage):
-            return JsonLdEngine(self.packages + other)
+            return JsonLdEngine(self.packages + (other,))
 
         if isinstance(other, JsonLdEngine):
             # combine packages from both engines with the second engine's
@@ -103,10 +103,10 @@ class JsonLdEngine(PropertyJsonIntake):
 
     def __sub__(self, other):
         if isinstance(other, JsonLdPackage):
-            return JsonLdEngine(self.packages - other)
+            return JsonLdEngine(self.package - other)
 
         if isinstance(other, JsonLdEngine):
-            return JsonLdEngine(self.packages - other.packages)
+            return JsonLdEngine(self.package - other.package)
 
         raise TypeError(f'Can only subtract "JsonLdPackage" and ' +
                         f'"JsonLdEngine" from JsonLdEngine objects')
-- 
2.43.0


From da501fa25a78fe361d7e406311f58e103695e1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:39 +0000
Subject: [PATCH 50/73] fix: ContainerDb must accept a databases dict and a
 path

---
 citrine/database/containerdb.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 32f89fa..2d50851 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -110,8 +110,13 @@ class ContainerDb(DB):
                 database_name=database_name, databases=databases,
                 xrefs=xrefs, large_record_size=large_record_size,
                 **storage_args)
+            # a second initialization would open the storage and register the
+            # database name again
+            return
         except POSKeyError:
             # often happens if the db is newly created
+            if databases is not None:
+                databases.pop(database_name, None)
             if not isinstance(storage, FileStorage):
                 # closing if storage is FileStorage will make the db unopenable
                 self.close()
-- 
2.43.0


From c793e94999ad98ccded62d3ef1480226dde0a72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 51/73] fix: specialized strings, numbers and dicts must keep
 their form in data output

---
 jsonld/jsonld.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jsonld/jsonld.py b/jsonld/jsonld.py
index 83d9a77..eeae4d8 100644
--- a/jsonld/jsonld.py
+++ b/jsonld/jsonld.py
@@ -60,6 +60,11 @@ class PropertyJsonLD(PropertyAwareObject):
             return value.data(exclude=('acontext',))
         if type(value) in self.__data_handler_fns.keys():
             return self.__data_handler_fns[type(value)](value, self.__handler)
+        # a specialized string, number or dictionary is still one
+        if isinstance(value, (str, int, float)):
+            return value
+        if isinstance(value, dict):
+            return self.__data_handler_fns[dict](value, self.__handler)
         if isinstance(value, Iterable):
             return self.__data_handler_fns[list](value, self.__handler)
         return str(value)
-- 
2.43.0


From 2617c52b16e3714ced7aa4768c6e6d117813a5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 52/73] fix: height must be readable before it is set

---
 activitystreams/properties.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index 95d7c8e..197be17 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -990,17 +990,15 @@ class Height(ActivityStreamsProperty):
     pixels of the linked resource.
     """
 
-    __height = None
-
     @contextualproperty
     def height(self):
-        return self.__height
+        return getattr(self, '___height___', None)
 
     @height.setter
     @SetterValidator(types=(int,), functional=True,
                      additional=(is_nonnegative,)).check
     def height(self, val):
-        self.__height = val
+        self.___height___ = val
 
 
 class Href(ActivityStreamsProperty):
-- 
2.43.0


From 58af5fd2c4b0dc100548f4bf33eded1617f3e4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 53/73] fix: OrderedCollectionPage must keep the items it is
 given

---
 activitystreams/models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 9605a01..1255f27 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -478,6 +478,7 @@ class OrderedCollectionPage(OrderedCollection, CollectionPage):
                                 cc=cc, bcc=bcc, mediaType=mediaType,
                                 duration=duration, totalItems=totalItems,
                                 current=current, first=first, last=last,
+                                items=items,
                                 partOf=partOf, next=next, prev=prev,
                                 acontext=acontext)
         self.startIndex = startIndex if startIndex else 0
-- 
2.43.0


From 3ca9e243236902c3cb360647c802c01d292254a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 54/73] fix: cloned classes must keep the resolution order of
 the originals

---
 jsonld/kamino.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsonld/kamino.py b/jsonld/kamino.py
index 0bca12c..167e9ae 100644
--- a/jsonld/kamino.py
+++ b/jsonld/kamino.py
@@ -87,9 +87,10 @@ class ClassCloner:
 
         for node in ordered_nodes:
             # IF there is a cloned class for a dependency (root will not have!)
-            # THEN have the dependent cloned class inherit from it
+            # THEN have the dependent cloned class inherit from it; listing all
+            # of them in the order of the original keeps the resolution order
             cls = node.cls
-            inherits = [class_ref.get(p) for p in node.parents.keys()] + [cls]
+            inherits = [class_ref.get(p) for p in cls.mro() if p != cls] + [cls]
             inherits = tuple(filter(lambda n: n is not None, inherits))
 
             class_ref[cls] = type(cls.__name__, inherits, cls.__dict__.copy())
-- 
2.43.0


From a5d32ea636b728cc4e390467cddb7486f8cbd4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:18 +0000
Subject: [PATCH 55/73] fix: overwriting must not be refused by a store that is
 over its limit

---
 citrine/storage/collection.py | 3 ++-
 citrine/storage/group.py      | 9 ++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/citrine/storage/collection.py b/citrine/storage/collection.py
index 4983c48..f42670b 100644
--- a/citrine/storage/collection.py
+++ b/citrine/storage/collection.py
@@ -162,7 +162,8 @@ class Collection(Persistent):
         inserted will exceed the limit in strict mode
         """
         new_keys = [key for key in collection.keys() if key not in self.keys()]
-        if self.size + len(new_keys) > self.max_size and self.strict:
+        if (new_keys and self.size + len(new_keys) > self.max_size
+                and self.strict):
             raise CollectionCapacityError(
                 f'Cannot update collection; maximum size reached!'
             )
diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 1fa6c44..06e48eb 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -322,8 +322,10 @@ class Group(Persistent):
         :raises CollectionCapacityError: if the size of the new keys to be
         inserted will exceed the limit in strict mode
         """
-        new_keys = (key for key in collection.keys() if key not in self.keys())
-        if len(tuple(new_keys)) + self.size > self.max_size and self.strict:
+        new_keys = tuple(key for key in collection.keys()
+                         if key not in self.keys())
+        if (new_keys and len(new_keys) + self.size > self.max_size
+                and self.strict):
             raise GroupCapacityError("Maximum size reached! Cannot perform update")
 
         num_collections = len(self.collections)
@@ -337,7 +339,8 @@ class Group(Persistent):
         for index, values in split_collection.items():
             target = self.collections[index]
             added = [key for key in values if not target.has_key(key)]
-            if target.strict and target.size + len(added) > target.max_size:
+            if (added and target.strict
+                    and target.size + len(added) > target.max_size):
                 raise CollectionCapacityError(
                     'Cannot update group; maximum collection size reached!'
                 )
-- 
2.43.0


From 76ac5fd2cd44395cddefbc09a994a060c554fac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 56/73] fix: setdefault must not add to a group that is over
 its limit

---
 citrine/storage/group.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 06e48eb..3313e80 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -377,7 +377,13 @@ class Group(Persistent):
         :param key: id of item to write to
         :param value: the value to write, if applicable
         :return: existing value or provided value if no value currently exists
+        :raises GroupCapacityError: if the size of the collection exceeds
+        the limit in strict mode
         """
+        if (self.size >= self.max_size
+                and key not in self.keys()
+                and self.strict):
+            raise GroupCapacityError("Maximum size reached! Cannot set")
         return Collection.setdefault
 
     def clear(self):
-- 
2.43.0


From 33c29f5713248418247ab5bf64eec984596f93fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:24 +0000
Subject: [PATCH 57/73] fix: the URL gates answer False for addresses that
 cannot be parsed

---
 jsonld/engine/utils.py | 7 ++++++-
 jsonld/tools/url.py    | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/jsonld/engine/utils.py b/jsonld/engine/utils.py
index dc8974a..2d18304 100644
--- a/jsonld/engine/utils.py
+++ b/jsonld/engine/utils.py
@@ -24,7 +24,12 @@ def validate_url(url, secure: bool = False):
     :param secure: whether to accept only HTTPS urls
     :return: True if valid, False otherwise
     """
-    pieces = parse.urlparse(url)
+    try:
+        pieces = parse.urlparse(url)
+    except ValueError:
+        # e.g. an unclosed bracket in the host part
+        logger.debug('Cannot parse malformed url')
+        return False
     if not pieces.scheme or pieces.scheme not in ['http', 'https']:
         logger.debug('Cannot dereference url without valid scheme; add ' +
                     f'''{'"http://" or' if not secure else ''} ''' +
diff --git a/jsonld/tools/url.py b/jsonld/tools/url.py
index b053ed4..61e28fd 100644
--- a/jsonld/tools/url.py
+++ b/jsonld/tools/url.py
@@ -38,7 +38,12 @@ def validate_url(url, secure: bool = False, **kwargs):
     :param secure: whether to accept only HTTPS urls
     :return: True if valid, False otherwise
     """
-    pieces = parse.urlparse(url)
+    try:
+        pieces = parse.urlparse(url)
+    except ValueError:
+        # e.g. an unclosed bracket in the host part
+        logger.debug('Cannot parse malformed url')
+        return False
     if not pieces.scheme or pieces.scheme not in ['http', 'https']:
         logger.debug('Cannot dereference url without valid scheme; add ' +
                     f'''{'"http://" or' if not secure else ''} ''' +
-- 
2.43.0


From 57731cf3cfdddef91c8fde5a7dc6aebcb50ded53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:27 +0000
Subject: [PATCH 58/73] fix: a dictionary whose href is no string is passed on
 unchanged

---
 activitystreams/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 1255f27..992d279 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -231,8 +231,8 @@ class Link(ApplicationActivityJson):
             if (isinstance(v, str) and
                     (validate_url(v) or validate_acct_or_email(v))):
                 return link_cls(href=v)
-            if isinstance(v, dict) and v.get('href', None) and validate_url(
-                    v.get('href', '')):
+            if isinstance(v, dict) and isinstance(
+                    v.get('href', None), str) and validate_url(v['href']):
                 return link_cls(**v)
             # if it's an iterable other than a string or dict, create many links
             if isinstance(v, (list, tuple, set)):
-- 
2.43.0


From 7694d3f39e6d186519d4cd90bd0692bce00407ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:11 +0000
Subject: [PATCH 59/73] fix: discovery finds a module that is called like the
 root

---
 citrine/cluster_tools/dbmodule/dbmodule.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index d018e76..694bc79 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -86,8 +86,7 @@ def is_path_dbmodule(path):
 def find_dbmodules(path: str):
     # find every directory with an init file
     potential_dbmodules = [join(path, file) for file in listdir(path)
-                           if exists(join(path, file, '__init__.py'))
-                           and file != path]
+                           if exists(join(path, file, '__init__.py'))]
     # import the init files and look for DB_MODULE == True
     return (mod for mod in potential_dbmodules if is_path_dbmodule(mod))
 
-- 
2.43.0


From d8d1864003e82596fe93981bd754ad9bdca3863e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:52 +0000
Subject: [PATCH 60/73] fix: an object that changes class does not change the
 namespace of that class

---
 jsonld/kamino.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonld/kamino.py b/jsonld/kamino.py
index 167e9ae..6eb4f6b 100644
--- a/jsonld/kamino.py
+++ b/jsonld/kamino.py
@@ -113,6 +113,8 @@ class ClassCloner:
                  for name in getattr(obj, '__properties__', ())}
         # merge both for simplicity and to avoid setting the same values twice
         data = {**props, **attrs}
+        # the namespace is that of the class; setting it would change the class
+        data.pop('__namespace__', None)
         obj.__class__ = new_class
         obj.__properties__ = obj.__get_properties__(refresh=True)
         for name, val in data.items():
-- 
2.43.0


From bb0e65a4d6db8f6c0d49f7fb058209caba6df1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:56 +0000
Subject: [PATCH 61/73] fix: static methods, nested classes and callable
 attributes of a package's classes stay usable

---
 jsonld/kamino.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jsonld/kamino.py b/jsonld/kamino.py
index 6eb4f6b..fd9735c 100644
--- a/jsonld/kamino.py
+++ b/jsonld/kamino.py
@@ -139,8 +139,13 @@ class ClassCloner:
         # locate anything callable and wrap it so output values will be mapped,
         # when applicable
         for name, method in cls.__dict__.items():
-            if callable(method):
-                setattr(cls, name, wrapper(method))
+            if not callable(method) or isinstance(method, type):
+                continue
+            wrapped = wrapper(method)
+            if isinstance(method, staticmethod) or not hasattr(method, '__get__'):
+                # it is not given the object it is called on
+                wrapped = staticmethod(wrapped)
+            setattr(cls, name, wrapped)
 
     def wrap_properties(self, cls):
         """
-- 
2.43.0


From 2ddbbcd1a7cfb93ad1d95b93b31adb068e0ecd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:48 +0000
Subject: [PATCH 62/73] fix: number of collections for capacities beyond float
 precision

---
 citrine/storage/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/utils.py b/citrine/storage/utils.py
index 907f1d2..c70baf9 100644
--- a/citrine/storage/utils.py
+++ b/citrine/storage/utils.py
@@ -42,7 +42,8 @@ def number_of_collections(
     :param max_collection_size: the maximum number of items per collection
     :return: smallest prime number of collections capable of handling capacity
     """
-    needed_collections = ceil(capacity / max_collection_size)
+    # floor division is exact where float division is not
+    needed_collections = -(-capacity // max_collection_size)
 
     # the number needs to be prime, or we risk entire collections being skipped
     # by the id hashing process
-- 
2.43.0


From d743b36ae7260aa54093318d3caad1a6be5d9b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:47 +0000
Subject: [PATCH 63/73] fix: what a class method of a package's class hands out
 becomes an object of the package

---
 jsonld/kamino.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonld/kamino.py b/jsonld/kamino.py
index fd9735c..13cf501 100644
--- a/jsonld/kamino.py
+++ b/jsonld/kamino.py
@@ -139,6 +139,9 @@ class ClassCloner:
         # locate anything callable and wrap it so output values will be mapped,
         # when applicable
         for name, method in cls.__dict__.items():
+            if isinstance(method, classmethod) and callable(method.__func__):
+                setattr(cls, name, classmethod(wrapper(method.__func__)))
+                continue
             if not callable(method) or isinstance(method, type):
                 continue
             wrapped = wrapper(method)
-- 
2.43.0


From 46386492a7e0cf879133f69dda3b1f39b3981a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:35 +0000
Subject: [PATCH 64/73] fix: a created database module opens a ContainerDb; the
 package has no CitrineDB

---
 citrine/cluster_tools/dbmodule/consts.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/citrine/cluster_tools/dbmodule/consts.py b/citrine/cluster_tools/dbmodule/consts.py
index 45e8742..d9535c9 100644
--- a/citrine/cluster_tools/dbmodule/consts.py
+++ b/citrine/cluster_tools/dbmodule/consts.py
@@ -6,10 +6,10 @@ DBMODULE_DISCOVERABLE_INIT = '''"""
 AUTOGENERATED INIT FILE FOR DBMODULE
 """
 from os.path import dirname, exists, join, split
-from citrine import CitrineDB
+from citrine.database.containerdb import ContainerDb
 DB_ID = split(dirname(__file__))[1]
 DB_PATH = join(dirname(__file__), DB_ID)
-db = lambda: CitrineDB(DB_PATH, database_name=DB_ID) if exists(DB_PATH) else CitrineDB.new(DB_PATH, database_name=DB_ID)
+db = lambda: ContainerDb(DB_PATH, database_name=DB_ID) if exists(DB_PATH) else ContainerDb.new(DB_PATH, database_name=DB_ID)
 DB_MODULE = True
 DISCOVERABLE = True
 '''
@@ -18,10 +18,10 @@ DBMODULE_UNDISCOVERABLE_INIT = '''"""
 AUTOGENERATED INIT FILE FOR DBMODULE
 """
 from os.path import dirname, exists, join, split
-from citrine import CitrineDB
+from citrine.database.containerdb import ContainerDb
 DB_ID = split(dirname(__file__))[1]
 DB_PATH = join(dirname(__file__), DB_ID)
-db = lambda: CitrineDB(DB_PATH, database_name=DB_ID) if exists(DB_PATH) else CitrineDB.new(DB_PATH, database_name=DB_ID)
+db = lambda: ContainerDb(DB_PATH, database_name=DB_ID) if exists(DB_PATH) else ContainerDb.new(DB_PATH, database_name=DB_ID)
 DB_MODULE = True
 DISCOVERABLE = False
 '''
-- 
2.43.0


From 3a6b742288e79465e3e3dded19eaaffb7b7e3d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:41 +0000
Subject: [PATCH 65/73] fix: the size of a database module is that of its
 container

---
 citrine/cluster_tools/dbmodule/dbmodule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index 694bc79..8864652 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -143,7 +143,7 @@ class DbModule:
     @property
     def size(self):
         with self.db as connection:
-            return connection.size
+            return connection.container.size
 
     def __init__(self, path: str = '.'):
         self.path = path
-- 
2.43.0


From 76a2fd15efe212c0535160fdac3eefa84fe577cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:47 +0000
Subject: [PATCH 66/73] fix: a destroyed database is no longer a module of its
 group

---
 citrine/cluster_tools/dbmodule/dbgroup.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/citrine/cluster_tools/dbmodule/dbgroup.py b/citrine/cluster_tools/dbmodule/dbgroup.py
index d0933e8..b13ebda 100644
--- a/citrine/cluster_tools/dbmodule/dbgroup.py
+++ b/citrine/cluster_tools/dbmodule/dbgroup.py
@@ -77,6 +77,7 @@ class DbGroup:
         :param name: The name of the database to be destroyed
         """
         DbModule.destroy(join(self.root, name))
+        self.modules.pop(name, None)
 
     @staticmethod
     def discover(root):
-- 
2.43.0


From 1357b206d8b4358975fe5b97d2433602d2ac0568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:51 +0000
Subject: [PATCH 67/73] fix: a connection says of automatic commits what its
 manager does

---
 citrine/connection/container_connection.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/citrine/connection/container_connection.py b/citrine/connection/container_connection.py
index a4a4d2a..4c0a9eb 100644
--- a/citrine/connection/container_connection.py
+++ b/citrine/connection/container_connection.py
@@ -70,7 +70,6 @@ class ContainerConnectionProperties:
     # should be overridden by instances of implementing class
     ___metadata___ = None
     ___root___ = None
-    ___autocommit___ = None
 
     @property
     def container(self):
@@ -133,13 +132,12 @@ class ContainerConnectionProperties:
         Whether to automatically commit actions performed by ``create``,
         ``update``, and ``delete``
         """
-        return self.___autocommit___
+        return self.transaction_manager.autocommit
 
     @autocommit.setter
     def autocommit(self, value):
         if not isinstance(value, bool):
             raise TypeError("'autocommit' must be a boolean")
-        self.___autocommit___ = value
         self.transaction_manager.autocommit = value
 
 
@@ -155,7 +153,6 @@ class ContainerConnection(Connection, ContainerConnectionProperties):
         super().__init__(db=db, cache_size=cache_size, before=before,
                          cache_size_bytes=cache_size_bytes)
         self.___metadata___ = ContainerConnectionMeta(self)
-        self.___autocommit___ = autocommit
 
         self.transaction_manager = (transaction_manager or
                                     ThreadTransactionManager())
-- 
2.43.0


From 5e843733ad34c16cb767a94e7408278fc46a32eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:56 +0000
Subject: [PATCH 68/73] fix: the properties of a class are its own, not those
 cached for its parent

---
 jsonld/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonld/base.py b/jsonld/base.py
index dd55f04..96fada2 100644
--- a/jsonld/base.py
+++ b/jsonld/base.py
@@ -321,7 +321,8 @@ class PropertyAwareObject(NamespacedObject):
         Creates a list of all @property objects defined and inherited in
         this class
         """
-        if not hasattr(cls, '__properties__') or refresh:
+        # what a parent class has cached is not that of this class
+        if '__properties__' not in cls.__dict__ or refresh:
             # we cache a copy
             cls.__properties__ = tuple(set(chain(key for kls in cls.mro()
                                              for key, value in
-- 
2.43.0


From 11a894780d7b9f0552ed47cea92eb0aaec1b2686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:00 +0000
Subject: [PATCH 69/73] fix: a property class derived from another has its own
 name and registration

---
 jsonld/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jsonld/base.py b/jsonld/base.py
index 96fada2..58888cb 100644
--- a/jsonld/base.py
+++ b/jsonld/base.py
@@ -258,7 +258,8 @@ class JsonProperty(NamespacedObject):
         :param refresh:
         :return:
         """
-        if not hasattr(cls, '__property_name__') or refresh:
+        # what a parent class has cached is not that of this class
+        if '__property_name__' not in cls.__dict__ or refresh:
             prop = [key for key, value in cls.__dict__.items()
                     if isinstance(value, property)]
             # the registration process only supports ONE property per class;
@@ -278,10 +279,10 @@ class JsonProperty(NamespacedObject):
         :param refresh:
         :return:
         """
-        if not hasattr(cls, '__property_name__') or refresh:
+        if '__property_name__' not in cls.__dict__ or refresh:
             cls.__property_name__ = cls.__get_property_name__(refresh=True)
         # caches the registration for ease of use
-        if not hasattr(cls, '__registration__') or refresh:
+        if '__registration__' not in cls.__dict__ or refresh:
             prop = getattr(cls, cls.__property_name__, None)
             if prop:
                 cls.__registration__ = (prop.fget, prop.fset, prop.fdel,
-- 
2.43.0


From 0b94d1a0ff8f0d5fc3388babf06526c3ed9e3b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:05 +0000
Subject: [PATCH 70/73] fix: a cloned property class does not keep the
 registration of the original

---
 jsonld/kamino.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonld/kamino.py b/jsonld/kamino.py
index 13cf501..e2a4e79 100644
--- a/jsonld/kamino.py
+++ b/jsonld/kamino.py
@@ -93,7 +93,10 @@ class ClassCloner:
             inherits = [class_ref.get(p) for p in cls.mro() if p != cls] + [cls]
             inherits = tuple(filter(lambda n: n is not None, inherits))
 
-            class_ref[cls] = type(cls.__name__, inherits, cls.__dict__.copy())
+            # a registration is of the property as it was before it is wrapped
+            attrs = {name: value for name, value in cls.__dict__.items()
+                     if name != '__registration__'}
+            class_ref[cls] = type(cls.__name__, inherits, attrs)
             # change the return value for callables in class and properties
             self.wrap_callables(class_ref[cls])
             self.wrap_properties(class_ref[cls])
-- 
2.43.0


From a5c8c4ddb18059c613fc8fa4023b71ab769fc053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:57 +0000
Subject: [PATCH 71/73] fix: making a group does not change the custom
 definition it is given

---
 citrine/storage/group.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 3313e80..51a1e94 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -278,7 +278,8 @@ class Group(Persistent):
             size = max(custom.keys())
         if size and size < max(custom.keys()):
             raise KeyError("Size must be greater than highest key")
-        # fill gaps with default generation
+        # fill gaps with default generation; the definition stays the caller's
+        custom = dict(custom)
         for key in range(size):
             if key not in keys:
                 custom[key] = max_collection_size
-- 
2.43.0


From 1a5a41d81023308da48dcaf876a9856853b7d52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:14 +0000
Subject: [PATCH 72/73] fix: an id that is stored is in the container

---
 citrine/storage/container.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index a846800..7b6e731 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -417,6 +417,7 @@ class Container(Persistent, ContainerProperties):
         :param item:
         :return:
         """
+        return bool(self.has(item))
 
     def __iter__(self):
         """
-- 
2.43.0


From 65d1990c18a8b3b65520c47bea81af30c5218fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:10 +0000
Subject: [PATCH 73/73] fix: ContainerDb must open a fresh storage of any kind

---
 citrine/database/containerdb.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 2d50851..f53e27e 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -117,9 +117,9 @@ class ContainerDb(DB):
             # often happens if the db is newly created
             if databases is not None:
                 databases.pop(database_name, None)
-            if not isinstance(storage, FileStorage):
-                # closing if storage is FileStorage will make the db unopenable
-                self.close()
+            # the storage is open already: closing it would make it (and so the
+            # db) unopenable, and a path or None would get a second storage
+            storage, storage_args = self.storage, {}
             db = DB(storage)
             conn = db.open()
             with conn.transaction_manager as tm:
@@ -129,8 +129,6 @@ class ContainerDb(DB):
                     conn.root.container = Container.new()
                     tm.commit()
             conn.close()
-            if not isinstance(storage, FileStorage):
-                db.close()
         super().__init__(
             storage=storage, pool_size=pool_size,
             pool_timeout=pool_timeout, cache_size=cache_size,
-- 
2.43.0

