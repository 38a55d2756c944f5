"""Edits that keep the behaviour: (name, properties, [(file, old, new)])."""
CON = 'citrine/storage/container.py'
GRP = 'citrine/storage/group.py'
COL = 'citrine/storage/collection.py'
UTL = 'citrine/storage/utils.py'
TRN = 'citrine/storage/transaction.py'
CCN = 'citrine/connection/container_connection.py'
GCN = 'citrine/connection/group_connection.py'
CDB = 'citrine/database/containerdb.py'
PER = 'citrine/persistence.py'
DBM = 'citrine/cluster_tools/dbmodule/dbmodule.py'
DBG = 'citrine/cluster_tools/dbmodule/dbgroup.py'
REG = 'citrine/cluster_tools/clusterdb/container.py'
TUR = 'jsonld/tools/url.py'

EDITS = [
    # ---- container
    ('con-delete-loop', 'C02', [(CON, '''        return tuple(group.pop(id) for group in self.groups
                     if group.has_key(id))''', '''        removed = []
        for group in self.groups:
            if not group.has_key(id):
                continue
            removed.append(group.pop(id))
        return tuple(removed)''')]),
    ('con-has-count', 'C01 C11', [(CON, '''        return sum(1 for group in self.groups if group.has_key(id))''',
                                   '''        count = 0
        for group in self.groups:
            if group.has_key(id):
                count += 1
        return count''')]),
    ('con-has-len', 'C01 C11', [(CON, '''        return sum(1 for group in self.groups if group.has_key(id))''',
                                 '''        return len([group for group in self.groups if group.has_key(id)])''')]),
    ('con-has-sumbool', 'C01 C11', [(CON, '''        return sum(1 for group in self.groups if group.has_key(id))''',
                                     '''        return sum(bool(grp.has_key(id)) for grp in self.groups)''')]),
    ('con-read-next', 'C01', [(CON, '''        for group in self.groups:
            if group.has_key(id):
                return group.get(id)
        return default''', '''        holder = next((group for group in self.groups if group.has_key(id)),
                      None)
        if holder is None:
            return default
        return holder.get(id)''')]),
    ('con-read-found', 'C01', [(CON, '''        for group in self.groups:
            if group.has_key(id):
                return group.get(id)
        return default''', '''        result = default
        for candidate in self.groups:
            if candidate.has_key(id):
                result = candidate.get(id)
                break
        return result''')]),
    ('con-write-plain', 'C01 C04', [(CON, '''        if not (res := self.primary.insert(id, obj)):
            return self.primary.update({id: obj})
        return res''', '''        target = self.primary
        inserted = target.insert(id, obj)
        if inserted:
            return inserted
        return target.update({id: obj})''')]),
    ('con-init-list', 'C01 C05', [(CON, '''        self.___groups___ = (primary_group,) + tuple(
            group for group in groups if group is not primary_group)''',
                                   '''        others = [group for group in groups if group is not primary_group]
        self.___groups___ = (primary_group, *others)''')]),
    ('con-new-min', 'C05', [(CON, '''        if size * capacity < collection_max_size:
            collection_max_size = size * capacity
        primary = Group.new(''', '''        collection_max_size = min(size * capacity, collection_max_size)
        primary = Group.new(''')]),
    ('con-new-cls', 'C05', [(CON, '''        return Container(primary, strict=strict)''',
                             '''        return cls(primary_group=primary, strict=strict)''')]),
    ('con-meta-loop', 'C08', [(CON, '''        return sum(grp.size for grp in self.obj.groups)''',
                               '''        total = 0
        for grp in self.obj.groups:
            total += grp.size
        return total''')]),
    ('con-meta-map', 'C08', [(CON, '''        return sum(grp.max_size for grp in self.obj.groups)''',
                              '''        return sum([group.max_size for group in self.obj.groups])''')]),
    ('condense-helper', 'C06 C07', [(CON, '''        def fn(group, key):
            # the insert can be refused, the object must not be removed from
            # where it is until after it has been stored
            self.primary.insert(key, group.get(key))
            if transfer:
                group.pop(key)
''', ''), (CON, '''                    with transaction_manager as tm:
                        fn(group, key)
                        tm.commit()
''', '''                    with transaction_manager as tm:
                        self._move(group, key, transfer)
                        tm.commit()
'''), (CON, '''                for key in list(group.keys()):
                    fn(group, key)
''', '''                for key in list(group.keys()):
                    self._move(group, key, transfer)
'''), (CON, '''    def has(self, id) -> int:''', '''    def _move(self, source, key, transfer):
        value = source.get(key)
        self.primary.insert(key, value)
        if not transfer:
            return
        source.pop(key)

    def has(self, id) -> int:''')]),
    ('condense-tuple', 'C06 C07', [(CON, '''            for group in source_groups:
                for key in list(group.keys()):
                    fn(group, key)
''', '''            for group in source_groups:
                keys = tuple(group.keys())
                for key in keys:
                    fn(group, key)
''')]),
    ('condense-rename', 'C06 C07', [(CON, '''            for group in source_groups:
                for key in list(group.keys()):
                    with transaction_manager as tm:
                        fn(group, key)
                        tm.commit()
''', '''            for source in source_groups:
                for item_id in list(source.keys()):
                    with transaction_manager as manager:
                        fn(source, item_id)
                        manager.commit()
''')]),
    ('condense-early', 'C06 C07', [(CON, '''        if transfer:
            discarded = list(source_groups)
            kept = tuple(group for group in self.groups
                         if not any(group is source for source in source_groups))
            if transaction_manager:
                with transaction_manager as tm:
                    self.___groups___ = kept
                    tm.commit()
            else:
                self.___groups___ = kept
            return discarded
        return []''', '''        if not transfer:
            return []
        kept = tuple(group for group in self.groups
                     if all(group is not source for source in source_groups))
        if transaction_manager:
            with transaction_manager as tm:
                self.___groups___ = kept
                tm.commit()
        else:
            self.___groups___ = kept
        return list(source_groups)''')]),
    ('condense-kept-loop', 'C06 C07', [(CON, '''            kept = tuple(group for group in self.groups
                         if not any(group is source for source in source_groups))
''', '''            kept = []
            for group in self.groups:
                if not any(group is source for source in source_groups):
                    kept.append(group)
            kept = tuple(kept)
''')]),
    ('resize-order', 'C06 C07', [(CON, '''        if transaction_manager:
            with transaction_manager as tm:
                self.___groups___ = (new_primary,) + self.groups
                self.___primary___ = new_primary
                tm.commit()
        else:
            self.___groups___ = (new_primary,) + self.groups
            self.___primary___ = new_primary
''', '''        if transaction_manager:
            with transaction_manager as tm:
                self._promote(new_primary)
                tm.commit()
        else:
            self._promote(new_primary)
'''), (CON, '''    def has(self, id) -> int:''', '''    def _promote(self, group):
        self.___primary___ = group
        self.___groups___ = (group, *self.groups)

    def has(self, id) -> int:''')]),
    ('resize-return', 'C06 C07', [(CON, '''        if condense:
            removed = self.condense(transfer=transfer,
                                    transaction_manager=transaction_manager)
        else:''', '''        if condense:
            return self.condense(transfer=transfer,
                                 transaction_manager=transaction_manager)
        if True:''')]),
    # ---- group
    ('grp-index-big', 'C01 C03', [(GRP, '''    return int.from_bytes(id.encode()) % num_collections''',
                                   '''    number = int.from_bytes(id.encode('utf-8'), 'big')
    return number % num_collections''')]),
    ('grp-fn-bound', 'C03 C04 C02', [(GRP, '''        index = get_group_index(key, len(obj.collections))
        collection = obj.collections[index]
        # fn gives us the function from Collection
        return fn(obj, *args, **kwargs)(collection, *args, **kwargs)''',
                                      '''        collections = obj.collections
        target = collections[get_group_index(key, len(collections))]
        method = fn(obj, *args, **kwargs)
        return method(target, *args, **kwargs)''')]),
    ('grp-fn-key', 'C03 C04', [(GRP, '''        key = kwargs.get('key', None if not args else args[0])
''', '''        if 'key' in kwargs:
            key = kwargs['key']
        else:
            key = args[0] if args else None
''')]),
    ('grp-wraps', 'C03 C04', [(GRP, '''    # they key MUST be either a kwarg OR the first positional arg
    def decorator(obj, *args, **kwargs):''', '''    # they key MUST be either a kwarg OR the first positional arg
    @wraps(fn)
    def decorator(obj, *args, **kwargs):'''), (GRP, '''from itertools import chain
''', '''from functools import wraps
from itertools import chain
''')]),
    ('grp-insert-order', 'C04', [(GRP, '''        if (self.size >= self.max_size
                and key not in self.keys()
                and self.strict):
            raise GroupCapacityError("Maximum size reached! Cannot insert")''',
                                  '''        if (self.strict and self.size >= self.max_size
                and key not in self.keys()):
            raise GroupCapacityError("Maximum size reached! Cannot insert")''')]),
    ('grp-insert-helper', 'C04', [(GRP, '''        if (self.size >= self.max_size
                and key not in self.keys()
                and self.strict):
            raise GroupCapacityError("Maximum size reached! Cannot insert")''',
                                   '''        if self._is_full_for(key):
            raise GroupCapacityError("Maximum size reached! Cannot insert")'''),
                                  (GRP, '''        if (self.size >= self.max_size
                and key not in self.keys()
                and self.strict):
            raise GroupCapacityError("Maximum size reached! Cannot set")''',
                                   '''        if self._is_full_for(key):
            raise GroupCapacityError("Maximum size reached! Cannot set")'''),
                                  (GRP, '''    @groupfn
    def get(self, key, default=None):''', '''    def _is_full_for(self, key):
        if not self.strict:
            return False
        return self.size >= self.max_size and key not in self.keys()

    @groupfn
    def get(self, key, default=None):''')]),
    ('grp-insert-haskey', 'C04', [(GRP, '''        if (self.size >= self.max_size
                and key not in self.keys()
                and self.strict):
            raise GroupCapacityError("Maximum size reached! Cannot insert")''',
                                   '''        if (self.size >= self.max_size
                and not self.has_key(key)
                and self.strict):
            raise GroupCapacityError("Maximum size reached! Cannot insert")''')]),
    ('grp-update-list', 'C04 C03 C01', [(GRP, '''        new_keys = tuple(key for key in collection.keys()
                         if key not in self.keys())
        if (new_keys and len(new_keys) + self.size > self.max_size
                and self.strict):''', '''        existing = self.keys()
        new_keys = [key for key in collection.keys() if key not in existing]
        if (self.strict and new_keys
                and self.size + len(new_keys) > self.max_size):''')]),
    ('grp-update-split', 'C04 C03 C01', [(GRP, '''        num_collections = len(self.collections)
        split_collection = {_: {} for _ in range(len(self.collections))}
        for key, value in collection.items():
            split_collection[get_group_index(key, num_collections)][key] = value
        split_collection = {k: v for k, v in split_collection.items() if v}
''', '''        num_collections = len(self.collections)
        split_collection = {}
        for key, value in collection.items():
            index = get_group_index(key, num_collections)
            split_collection.setdefault(index, {})[key] = value
''')]),
    ('grp-update-helper', 'C04 C03 C01', [(GRP, '''        for index, values in split_collection.items():
            target = self.collections[index]
            added = [key for key in values if not target.has_key(key)]
            if (added and target.strict
                    and target.size + len(added) > target.max_size):
                raise CollectionCapacityError(
                    'Cannot update group; maximum collection size reached!'
                )

        for index, collection in split_collection.items():
            self.collections[index].update(collection)
''', '''        for index, values in split_collection.items():
            self._check_room(self.collections[index], values)

        for index in split_collection:
            self.collections[index].update(split_collection[index])

    @staticmethod
    def _check_room(target, values):
        added = [key for key in values if not target.has_key(key)]
        if not added or not target.strict:
            return
        if target.size + len(added) > target.max_size:
            raise CollectionCapacityError(
                'Cannot update group; maximum collection size reached!'
            )
''')]),
    ('grp-meta-loop', 'C08', [(GRP, '''        return sum(collection.size for collection in self.collections)''',
                               '''        total = 0
        for col in self.collections:
            total = total + col.size
        return total''')]),
    ('grp-meta-list', 'C08', [(GRP, '''        return max(collection.max_size for collection in self.collections)''',
                               '''        sizes = [collection.max_size for collection in self.collections]
        return max(sizes)''')]),
    ('grp-status', 'C08', [(GRP, '''        return max(collection.status for collection in self.collections)''',
                            '''        worst = self.collections[0].status
        for collection in self.collections[1:]:
            worst = max(worst, collection.status)
        return worst''')]),
    ('grp-usage', 'C08', [(GRP, '''        return {collection: collection.usage for collection in self.collections}''',
                           '''        usage = dict()
        for collection in self.collections:
            usage[collection] = collection.usage
        return usage''')]),
    ('grp-view-len', 'C03', [(GRP, '''        count = 0
        for _ in self:
            count += 1
        return count''', '''        return sum(1 for _ in self)''')]),
    ('grp-view-iter', 'C03', [(GRP, '''            for item in self.fn(collection):
                yield item''', '''            yield from self.fn(collection)''')]),
    ('grp-view-chain', 'C03', [(GRP, '''        for collection in self.collections:
            for item in self.fn(collection):
                yield item''', '''        return chain.from_iterable(self.fn(collection)
                                   for collection in self.collections)''')]),
    ('grp-strict', 'C04 C05', [(GRP, '''        return all(collection.strict for collection in self.collections)''',
                                '''        return not any(not collection.strict for collection in self.collections)''')]),
    ('grp-strict-loop', 'C04 C05', [(GRP, '''        return all(collection.strict for collection in self.collections)''',
                                '''        for collection in self.collections:
            if not collection.strict:
                return False
        return True''')]),
    ('grp-clear', 'C03', [(GRP, '''        return [collection.clear() for collection in self.collections]''',
                           '''        results = []
        for collection in self.collections:
            results.append(collection.clear())
        return results''')]),
    ('grp-popitem', 'C09', [(GRP, '''        try:
            key = self.minKey()
        except ValueError:
            raise KeyError('Cannot pop an item from an empty group')
        return key, self.pop(key)''', '''        try:
            lowest = self.minKey()
        except ValueError as cause:
            raise KeyError('Cannot pop an item from an empty group') from cause
        value = self.pop(lowest)
        return lowest, value''')]),
    ('grp-bound', 'C09', [(GRP, '''        return maximum(self.__bound_keys(Collection.maxKey, max))''',
                           '''        candidates = list(self.__bound_keys(Collection.maxKey, max))
        return maximum(candidates)''')]),
    ('grp-bound-loop', 'C09', [(GRP, '''        for collection in self.collections:
            try:
                yield fn(collection, bound)
            except ValueError:
                continue''', '''        for collection in self.collections:
            try:
                key = fn(collection, bound)
            except ValueError:
                pass
            else:
                yield key''')]),
    ('grp-byvalue', 'C09', [(GRP, '''        values = [collection.byValue(min) for collection in self.collections]
        combined = list()
        for group in values:
            combined += list(group)
        for val in sorted(combined, reverse=True):
            yield val''', '''        combined = list(chain.from_iterable(
            collection.byValue(min) for collection in self.collections))
        yield from sorted(combined, reverse=True)''')]),
    ('grp-iterkeys-index', 'C09', [(GRP, '''            next_val = minimum((v for v in vals if v is not None))
            # replace the lowest value with the next value from the generator
            try:
                vals[vals.index(next_val)] = next(gens[vals.index(next_val)])
            except StopIteration:
                vals[vals.index(next_val)] = None
            yield next_val''', '''            next_val = minimum((v for v in vals if v is not None))
            index = vals.index(next_val)
            # replace the lowest value with the next value from the generator
            vals[index] = next(gens[index], None)
            yield next_val''')]),
    ('grp-iterkeys-first', 'C09', [(GRP, '''        vals = list()
        for gen in gens:
            try:
                vals.append(next(gen))
            except StopIteration:
                vals.append(None)
        while any(v is not None for v in vals):''', '''        vals = [next(gen, None) for gen in gens]
        while any(v is not None for v in vals):''')]),
    ('grp-iteritems-else', 'C09', [(GRP, '''            try:
                item = next(gens[keys.index(next_key)])
                keys[keys.index(next_key)] = item[0]
                items[item[0]] = item[1]
                yield next_key, items.pop(next_key)
            except StopIteration:
                keys[keys.index(next_key)] = None
                yield next_key, items.pop(next_key)''', '''            position = keys.index(next_key)
            try:
                key, value = next(gens[position])
                keys[position] = key
                items[key] = value
            except StopIteration:
                keys[position] = None
            yield next_key, items.pop(next_key)''')]),
    ('grp-new-list', 'C05', [(GRP, '''            collections = tuple(Collection(max_size=max_collection_size)
                                for _ in range(size))
            return Group(collections=collections, strict=strict)''',
                              '''            created = []
            for _ in range(size):
                created.append(Collection(max_size=max_collection_size))
            return Group(collections=tuple(created), strict=strict)''')]),
    ('grp-new-guard', 'C05', [(GRP, '''        for key, value in custom.items():
            if value <= 0:
                raise ValueError('Collection sizes cannot be less than 1')
''', '''        if any(value <= 0 for value in custom.values()):
            raise ValueError('Collection sizes cannot be less than 1')
''')]),
    # ---- collection
    ('col-insert-nested', 'C04 C01', [(COL, '''        if (self.size >= self.max_size and self.strict
                and not self.has_key(key)):
            raise CollectionCapacityError(
                f'Cannot insert "{key}"; maximum size reached!'
            )
        return self.tree.insert(key, value)''', '''        if self.strict and not self.has_key(key):
            if not self.size < self.max_size:
                raise CollectionCapacityError(
                    f'Cannot insert "{key}"; maximum size reached!'
                )
        result = self.tree.insert(key, value)
        return result''')]),
    ('col-update-sum', 'C04 C01', [(COL, '''        new_keys = [key for key in collection.keys() if key not in self.keys()]
        if (new_keys and self.size + len(new_keys) > self.max_size
                and self.strict):''', '''        added = sum(1 for key in collection.keys() if key not in self.keys())
        if self.strict and added and self.size + added > self.max_size:''')]),
    ('col-pop-haskey', 'C02', [(COL, '''        if key not in self.keys() and default is None:
            raise KeyError(f'Key "{key}" not found in collection')
        return self.tree.pop(key, default)''', '''        if default is None and not self.has_key(key):
            raise KeyError(f'Key "{key}" not found in collection')
        return self.tree.pop(key, default)''')]),
    ('col-setdefault', 'C04 C03', [(COL, '''                f'Cannot set "{key}"; maximum size reached!'
            )
        return self.tree.setdefault(key, value)''', '''                f'Cannot set "{key}"; maximum size reached!'
            )
        if self.tree.has_key(key):
            return self.tree.get(key)
        self.tree.insert(key, value)
        return value''')]),
    ('col-status-sorted', 'C08', [(COL, '''        return max(v for v in self.LEVELS if v <= ceil(self.usage * 100))''',
                                   '''        percent = ceil(self.usage * 100)
        return max(level for level in self.LEVELS if percent >= level)''')]),
    ('col-status-loop', 'C08', [(COL, '''        return max(v for v in self.LEVELS if v <= ceil(self.usage * 100))''',
                                 '''        percent = ceil(self.usage * 100)
        current = None
        for level in sorted(self.LEVELS):
            if level <= percent:
                current = level
        return current''')]),
    ('col-iterkeys', 'C09', [(COL, '''        return (key for key, value in self.iteritems(min, max))''',
                              '''        for item in self.iteritems(min, max):
            yield item[0]''')]),
    # ---- utils
    ('utl-prime-all', 'C05', [(UTL, '''    for i in range(2, int(sqrt(num)) + 1):
        if num % i == 0:
            return False
    return True
''', '''    return all(num % i for i in range(2, int(sqrt(num)) + 1))
''')]),
    ('utl-prime-any', 'C05', [(UTL, '''    for i in range(2, int(sqrt(num)) + 1):
        if num % i == 0:
            return False
    return True
''', '''    limit = int(sqrt(num)) + 1
    return not any(num % divisor == 0 for divisor in range(2, limit))
''')]),
    ('utl-primes-true', 'C05', [(UTL, '''    val = min
    while not max or val <= max:
        if is_prime(val):
            yield val
        val += 1
''', '''    val = min
    while True:
        if max and val > max:
            return
        if is_prime(val):
            yield val
        val += 1
''')]),
    ('utl-number', 'C05', [(UTL, '''    needed_collections = -(-capacity // max_collection_size)

    # the number needs to be prime, or we risk entire collections being skipped
    # by the id hashing process
    next_prime = next(get_primes(min=needed_collections))

    return next_prime

def next''', '''    whole, rest = divmod(capacity, max_collection_size)
    minimum = whole + (1 if rest else 0)
    return next(get_primes(min=minimum))

def next''')]),
    # ---- transaction
    ('trn-exit-else', 'C10', [(TRN, '''class ThreadTransactionManager(''', '''def _finish(tm, failed):
    if failed:
        tm.abort()
        tm.logger.error(f'TRANSACTION {tm.transaction_uuid} FAILED')
        return
    tm.commit()
    tm.logger.info(f'TRANSACTION {tm.transaction_uuid} SUCCESSFUL')


class ThreadTransactionManager('''), ]),
    ('trn-auto-merge', 'C10', [(TRN, '''        tm = obj.transaction_manager
        if not tm.autocommit:
            if getattr(tm, 'transaction_uuid', None):
                tm.logger.info(f'{tm.transaction_uuid}: {fn.__name__} {id}')
            return fn(obj, id, *args, **kwargs)
        with tm:
            tm.logger.info(f'{tm.transaction_uuid}: {fn.__name__} {id}')
            return fn(obj, id, *args, **kwargs)
''', '''        manager = obj.transaction_manager
        if manager.autocommit:
            with manager:
                manager.logger.info(
                    f'{manager.transaction_uuid}: {fn.__name__} {id}')
                result = fn(obj, id, *args, **kwargs)
            return result
        current = getattr(manager, 'transaction_uuid', None)
        if current:
            manager.logger.info(f'{current}: {fn.__name__} {id}')
        return fn(obj, id, *args, **kwargs)
''')]),
    # ---- connection
    ('ccn-create', 'C11 C10', [(CCN, '''        if not self.container.has(id):
            return self.container.write(id, obj)
        else:
            raise ObjectOverwriteError(id=id)''', '''        container = self.container
        if container.has(id):
            raise ObjectOverwriteError(id=id)
        return container.write(id, obj)''')]),
    ('ccn-getitem', 'C11', [(CCN, '''        if isinstance(ids, str):
            if not self.container.has(ids):
                raise KeyError(f'{ids} not found')
            return self.container.read(ids)
        if not isinstance(ids, Iterable):''', '''        if isinstance(ids, str):
            if self.container.has(ids):
                return self.container.read(ids)
            raise KeyError(f'{ids} not found')
        if not isinstance(ids, Iterable):''')]),
    ('ccn-getitem-all', 'C11', [(CCN, '''        if not any(self.container.has(id) for id in ids):
            raise KeyError(f'No values found for any of {ids}')
        return [self.container.read(id) for id in ids]''', '''        if all(not self.container.has(id) for id in ids):
            raise KeyError(f'No values found for any of {ids}')
        values = []
        for id in ids:
            values.append(self.container.read(id))
        return values''')]),
    ('ccn-getitem-found', 'C11', [(CCN, '''        if not any(self.container.has(id) for id in ids):
            raise KeyError(f'No values found for any of {ids}')
        return [self.container.read(id) for id in ids]''', '''        found = False
        for id in ids:
            if self.container.has(id):
                found = True
                break
        if not found:
            raise KeyError(f'No values found for any of {ids}')
        return [self.container.read(id) for id in ids]''')]),
    ('ccn-exit', 'C10', [(CCN, '''        self.autocommit = True
        return self.transaction_manager.__exit__(exc_type, exc_val, exc_tb)''',
                          '''        manager = self.transaction_manager
        self.___autocommit___ = True
        manager.autocommit = True
        return manager.__exit__(exc_type, exc_val, exc_tb)''')]),
    # ---- group connection
    ('gcn-init', 'C13', [(GCN, '''        self.connections = tuple()
        default = {'transaction_manager': transaction_manager}
        for db in dbs:
            connection_details = {
                **default,
                **connection_args.get(db.database_name, {})
            }
            self.connections += (db.open(**connection_details),)''',
                          '''        opened = []
        for db in dbs:
            details = {'transaction_manager': transaction_manager}
            details.update(connection_args.get(db.database_name, {}))
            opened.append(db.open(**details))
        self.connections = tuple(opened)''')]),
    ('gcn-read', 'C13', [(GCN, '''        if not results:
            return None
        if len(results) > 1 and not multiple:
            raise CitrineDuplicateIdError(id)
        return results[0] if not multiple else results''', '''        if not results:
            return None
        if multiple:
            return results
        if len(results) != 1:
            raise CitrineDuplicateIdError(id)
        return results[0]''')]),
    # ---- database
    ('cdb-create', 'C12', [(CDB, '''        conn = DB(storage).open()
        with conn.transaction_manager as tm:
            conn.root.container = container
            tm.commit()
        conn.close()
        return storage''', '''        database = DB(storage)
        connection = database.open()
        with connection.transaction_manager as manager:
            connection.root.container = container
            manager.commit()
        connection.close()
        return storage''')]),
    # ---- legacy
    ('per-expand', 'C14', [(PER, '''        objects = [item for container in self.containers.values()
                   for item in container.items()]
        self.containers = PersistentMapping({
            key: PersistentMapping() for key in range(new_size)
        })
        for id, obj in objects:
            self.write(id, obj)''', '''        previous = self.containers
        self.containers = PersistentMapping({
            key: PersistentMapping() for key in range(new_size)
        })
        for container in previous.values():
            for id, obj in container.items():
                self.write(id, obj)''')]),
    ('per-locate', 'C14', [(PER, '''        val = int.from_bytes(str(id).encode(), 'big')
        val = val % self.containers_size
        return self.containers[val]''', '''        number = int.from_bytes(str(id).encode('utf-8'), byteorder='big')
        return self.containers[number % len(self.containers)]''')]),
    ('per-has', 'C14', [(PER, '''        return id in self.__locate_container(id).keys()''',
                         '''        container = self.__locate_container(id)
        return id in container''')]),
    ('per-size', 'C14', [(PER, '''        return sum((len(con.keys()) for con in self.containers.values()))''',
                          '''        return sum(len(con) for con in self.containers.values())''')]),
]

BAS = 'jsonld/base.py'
JLD = 'jsonld/jsonld.py'
PKG = 'jsonld/package.py'
KAM = 'jsonld/kamino.py'
DOC = 'jsonld/docloader.py'
TYP = 'jsonld/tools/type.py'
DTM = 'jsonld/tools/datetime.py'
URL = 'jsonld/tools/url.py'
INP = 'jsonld/engine/json_input.py'
ENG = 'jsonld/engine/jsonld_engine.py'
EUT = 'jsonld/engine/utils.py'
MOD = 'activitystreams/models.py'
PRO = 'activitystreams/properties.py'

EDITS += [
    # ---- contexts
    ('bas-fget', 'C16', [(BAS, '''        context = self.get_context(obj)
        return self.__fget_contexts.get(
            context if context in self.__fget_contexts.keys() else None)(obj)
''', '''        context = self.get_context(obj)
        if context not in self.__fget_contexts:
            context = None
        getter = self.__fget_contexts[context]
        return getter(obj)
''')]),
    ('bas-fset-default', 'C16', [(BAS, '''        return self.__fset_contexts.get(
            context if context in self.__fset_contexts.keys() else None)(obj, val)
''', '''        fset = self.__fset_contexts.get(context, self.__fset_contexts.get(None))
        return fset(obj, val)
''')]),
    ('bas-exit', 'C16', [(BAS, '''        self.context = None if not self.__stack else self.__stack.pop()
        self.active = False
''', '''        if self.__stack:
            self.context = self.__stack.pop()
        else:
            self.context = None
        self.active = False
''')]),
    ('bas-call', 'C16', [(BAS, '''        self.__stack.append(self.context)
        self.context = context
        return self
''', '''        previous = self.context
        self.context = context
        self.__stack.append(previous)
        return self
''')]),
    ('bas-copy', 'C16', [(BAS, '''        new_prop.__fget_contexts = self.__fget_contexts.copy()
        new_prop.__fset_contexts = self.__fset_contexts.copy()
        new_prop.__fdel_contexts = self.__fdel_contexts.copy()
        return new_prop''', '''        new_prop.__fget_contexts = dict(self.__fget_contexts)
        new_prop.__fset_contexts = dict(self.__fset_contexts)
        new_prop.__fdel_contexts = {**self.__fdel_contexts}
        return new_prop''')]),
    ('bas-getitem', 'C17', [(BAS, '''        keys = [keys] if isinstance(keys, str) else keys
        if any(key not in self.__properties__ for key in keys):
            bad_keys = [key for key in keys if key not in self.__properties__]
            raise''', '''        if isinstance(keys, str):
            keys = [keys]
        bad_keys = [key for key in keys if key not in self.__properties__]
        if bad_keys:
            raise''')]),
    ('bas-props', 'C17 C27', [(BAS, '''            cls.__properties__ = tuple(set(chain(key for kls in cls.mro()
                                             for key, value in
                                             kls.__dict__.items()
                                             if isinstance(value, property))))''',
                               '''            names = set()
            for kls in cls.mro():
                for key, value in kls.__dict__.items():
                    if isinstance(value, property):
                        names.add(key)
            cls.__properties__ = tuple(names)''')]),
    # ---- output
    ('jld-helper', 'C17', [(JLD, '''                for prop in self.__properties__
                # if include_null is True or the property is not None
                if (include_none or getattr(self, prop) is not None)
                   # AND if including everything OR if specifically included
                   and (not include or prop in include)
                   # AND if excluding nothing OR if not specifically excluded
                   and not (exclude and prop in exclude)
                   and getattr(self, prop) not in reject_values}''',
                            '''                for prop in self.__properties__
                if self._selected(prop, include, exclude, include_none,
                                  reject_values)}'''),
                           (JLD, '''    def data(self, include''', '''    def _selected(self, prop, include, exclude, include_none, reject_values):
        value = getattr(self, prop)
        if value is None and not include_none:
            return False
        if include and prop not in include:
            return False
        if exclude and prop in exclude:
            return False
        return value not in reject_values

    def data(self, include''')]),
    ('jld-loop', 'C17', [(JLD, '''            data = {
                # change name of property, if provided in mapping
                rename.get(prop, prop): self.__handler(getattr(self, prop, None))
                for prop in self.__properties__
                # if include_null is True or the property is not None
                if (include_none or getattr(self, prop) is not None)
                   # AND if including everything OR if specifically included
                   and (not include or prop in include)
                   # AND if excluding nothing OR if not specifically excluded
                   and not (exclude and prop in exclude)
                   and getattr(self, prop) not in reject_values}''',
                          '''            data = {}
            for prop in self.__properties__:
                value = getattr(self, prop)
                if value is None and not include_none:
                    continue
                if include and prop not in include:
                    continue
                if exclude and prop in exclude:
                    continue
                if value in reject_values:
                    continue
                data[rename.get(prop, prop)] = self.__handler(value)''')]),
    ('jld-rename', 'C17', [(JLD, '''            rename = {**JSON_LD_KEYMAP, **(rename if rename else {})}
''', '''            names = dict(JSON_LD_KEYMAP)
            if rename:
                names.update(rename)
            rename = names
''')]),
    ('jld-handler-order', 'C17', [(JLD, '''        if type(value) in self.__data_handler_fns.keys():
            return self.__data_handler_fns[type(value)](value, self.__handler)
''', '''        handler = self.__data_handler_fns.get(type(value))
        if handler is not None:
            return handler(value, self.__handler)
''')]),
    ('jld-handler-inline', 'C17', [(JLD, '''        if isinstance(value, dict):
            return self.__data_handler_fns[dict](value, self.__handler)
        if isinstance(value, Iterable):
            return self.__data_handler_fns[list](value, self.__handler)
        return str(value)''', '''        if isinstance(value, dict):
            return {key: self.__handler(item) for key, item in value.items()}
        if isinstance(value, Iterable):
            return [self.__handler(item) for item in value]
        return str(value)''')]),
    ('jld-json', 'C17', [(JLD, '''        separators = (',', ':') if minified else None
        return json.dumps(self.data(include=include, exclude=exclude,
                                    transforms=transforms, rename=rename,
                                    include_none=include_none,
                                    context=JSON_DATA_CONTEXT),
                          separators=separators,
                          indent=indent)''', '''        data = self.data(include, exclude, transforms, rename, include_none)
        if minified:
            return json.dumps(data, separators=(',', ':'), indent=indent)
        return json.dumps(data, indent=indent)''')]),
    # ---- validation
    ('typ-loop', 'C18 C19', [(TYP, '''        return [evaluate_value(v, types=types, prop=prop, functional=functional,
                               additional=additional, **kwargs)
                for v in val]
''', '''        checked = []
        for item in val:
            checked.append(evaluate_value(item, types, prop,
                                          functional=functional,
                                          additional=additional, **kwargs))
        return checked
''')]),
    ('typ-types', 'C18 C19', [(TYP, '''    types = set(types)
    types = types if functional and list not in types else (set(types) | {list})
''', '''    types = set(types)
    if not functional or list in types:
        types.add(list)
''')]),
    ('typ-msg', 'C18', [(TYP, '''        raise ValueError(f"Property '{prop}' must be one of: ('" +
                         f\'\'\'{"', '".join(t.__name__ for t in types
                                          if t != NoneType)}') \'\'\' +
                         f'got "{val}" {type(val)}')''', '''        names = "', '".join(t.__name__ for t in types if t != NoneType)
        raise ValueError(f"Property '{prop}' must be one of: ('{names}') "
                         f'got "{val}" {type(val)}')''')]),
    ('typ-check', 'C18 C19', [(TYP, '''            set_prop(obj, evaluate_value(val, types=self.types,
                                         prop=set_prop.__name__,
                                         functional=self.functional,
                                         additional=self.additional,
                                         **self.kwargs))
''', '''            checked = evaluate_value(
                val, types=self.types, prop=set_prop.__name__,
                functional=self.functional, additional=self.additional,
                **self.kwargs)
            set_prop(obj, checked)
''')]),
    # ---- dates and durations
    ('dtm-divmod', 'C21', [(DTM, '''    years = obj.days // 365
    months = (obj.days % 365) // 30
    days = (obj.days % 365) % 30
    hours = obj.seconds // 3600
    minutes = (obj.seconds % 3600) // 60
    seconds = (obj.seconds % 3600) % 60
''', '''    years, rest = divmod(obj.days, 365)
    months, days = divmod(rest, 30)
    hours, rest = divmod(obj.seconds, 3600)
    minutes, seconds = divmod(rest, 60)
''')]),
    ('dtm-join', 'C21', [(DTM, '''    ymd = 'P' + (f'{years}Y' if years else '') + \\
          (f'{months}M' if months else '') + \\
          (f'{days}D' if days else '')
    # T<hours>H<minutes>M<seconds>S
    hms = 'T' + (f'{hours}H' if hours else '') + \\
          (f'{minutes}M' if minutes else '') + \\
          (f'{seconds}S' if seconds else '')
    # at least one value is required, even if there is no time at all
    if len(ymd) == 1 and len(hms) == 1:
        return 'PT0S'
    # The entire HMS section is optional, however we ALWAYS need at least the
    # "P" from the ymd section (indicates this is a "period")
    return f'{ymd}{hms if len(hms) > 1 else ""}\'''', '''    ymd = ''.join(f'{n}{unit}' for n, unit in
                  ((years, 'Y'), (months, 'M'), (days, 'D')) if n)
    hms = ''.join(f'{n}{unit}' for n, unit in
                  ((hours, 'H'), (minutes, 'M'), (seconds, 'S')) if n)
    if not ymd and not hms:
        return 'PT0S'
    return 'P' + ymd + ('T' + hms if hms else '')''')]),
    ('dtm-cases', 'C21', [(DTM, '''    if len(ymd) == 1 and len(hms) == 1:
        return 'PT0S'
    # The entire HMS section is optional, however we ALWAYS need at least the
    # "P" from the ymd section (indicates this is a "period")
    return f'{ymd}{hms if len(hms) > 1 else ""}\'''', '''    if hms == 'T':
        return 'PT0S' if ymd == 'P' else ymd
    return ymd + hms''')]),
    ('dtm-is', 'C20', [(DTM, '''    if isinstance(val, NoneType):
        return
    if isinstance(val, datetime):
        return True
    if isinstance(val, str) and re.fullmatch(AS2_DATE_TIME, val) is None:
        raise''', '''    if val is None:
        return None
    if isinstance(val, datetime):
        return True
    if isinstance(val, str) and not AS2_DATE_TIME.fullmatch(val):
        raise''')]),
    ('dtm-parse', 'C20', [(DTM, '''    dt_str = '%Y-%m-%dT%H:%M'
    val_time = re.search(AS2_TIME, val)
    # 9 characters indicates seconds have been included
    dt_str += ':%S' if val_time.span()[1] - val_time.span()[0] == 9 else ''
    dt_str += '.%f' if '.' in val else ''
    dt_str += 'Z' if not re.search(AS2_TZ, val) else (
        'Z%z' if 'Z' in val else '%z')
    return datetime.strptime(val, dt_str)''', '''    parts = ['%Y-%m-%dT%H:%M']
    start, end = re.search(AS2_TIME, val).span()
    # 9 characters indicates seconds have been included
    if end - start == 9:
        parts.append(':%S')
    if '.' in val:
        parts.append('.%f')
    if not re.search(AS2_TZ, val):
        parts.append('Z')
    elif 'Z' in val:
        parts.append('Z%z')
    else:
        parts.append('%z')
    return datetime.strptime(val, ''.join(parts))''')]),
    ('dtm-str', 'C20', [(DTM, '''    if obj.utcoffset() is not None:
        obj = obj.astimezone(timezone.utc)
    # strftime does not pad the year to four digits
    return obj.replace(tzinfo=None).isoformat(timespec='seconds') + 'Z\'''', '''    aware = obj.utcoffset() is not None
    moment = obj.astimezone(timezone.utc) if aware else obj
    text = moment.replace(tzinfo=None).isoformat(timespec='seconds')
    return f'{text}Z\'''')]),
    # ---- url
    ('url-single', 'C22', [(URL, '''    if not pieces.scheme or pieces.scheme not in ['http', 'https']:
        logger''', '''    if pieces.scheme not in ('http', 'https'):
        logger''')]),
    ('url-match', 'C22', [(URL, '''    if re.search(VALID_URL_REGEX, pieces.netloc):
''', '''    if VALID_URL_REGEX.search(pieces.netloc) is not None:
''')]),
    ('url-order', 'C22', [(URL, '''    # urls must have a body
    if not pieces.netloc:
        logger.debug('Cannot dereference url without body')
        return False
    # urls can only have certain characters
    if re.search(VALID_URL_REGEX, pieces.netloc):
        logger.debug('url cannot contain characters outside of' +
                    'alphanumeric (a-Z, 0-9), "-", "_", ":", and "."')
        return False
    # secure connections MUST use https
    if secure and pieces.scheme != 'https':
        logger.debug('Cannot dereference non-"https://" url when ' +
                    'secure=True; set secure=False or change scheme')
        return False
    return True
''', '''    # secure connections MUST use https
    if secure and pieces.scheme != 'https':
        logger.debug('Cannot dereference non-"https://" url when ' +
                    'secure=True; set secure=False or change scheme')
        return False
    return _valid_host(pieces.netloc)


def _valid_host(netloc):
    # urls must have a body
    if not netloc:
        logger.debug('Cannot dereference url without body')
        return False
    # urls can only have certain characters
    return re.search(VALID_URL_REGEX, netloc) is None
''')]),
    ('url-full', 'C22', [(URL, '''    if re.search(VALID_URL_REGEX, pieces.netloc):
''', '''    if not re.fullmatch('[a-zA-Z0-9_.:-]+', pieces.netloc):
''')]),
    ('doc-check', 'C22 C23', [(DOC, '''        pieces = parse.urlparse(url)
        # urls must start with "http" or "https"
        if not pieces.scheme or pieces.scheme not in ['http', 'https']:
''', '''        pieces = parse.urlparse(url)
        scheme = pieces.scheme
        # urls must start with "http" or "https"
        if scheme not in ('http', 'https'):
''')]),
    ('doc-content', 'C23', [(DOC, '''        content_type = response.headers.get('content-type')
        if not content_type:
            content_type = 'application/octet-stream'
''', '''        content_type = (response.headers.get('content-type')
                        or 'application/octet-stream')
''')]),
    ('doc-cache', 'C23', [(DOC, '''            if url not in self.cached_schemas.keys():
                self.logger.info(f'Caching schema for {url}')
                CachedRequestsJsonLoader.cached_schemas[url] = self.get(url)
            return self.cached_schemas.get(url)
''', '''            cache = CachedRequestsJsonLoader.cached_schemas
            if url in cache:
                return cache[url]
            self.logger.info(f'Caching schema for {url}')
            document = self.get(url)
            cache[url] = document
            return document
''')]),
    ('doc-cache-try', 'C23', [(DOC, '''            if url not in self.cached_schemas.keys():
                self.logger.info(f'Caching schema for {url}')
                CachedRequestsJsonLoader.cached_schemas[url] = self.get(url)
            return self.cached_schemas.get(url)
''', '''            try:
                return self.cached_schemas[url]
            except KeyError:
                self.logger.info(f'Caching schema for {url}')
            self.cached_schemas[url] = self.get(url)
            return self.cached_schemas[url]
''')]),
    ('doc-link', 'C23', [(DOC, '''        link_header = response.headers.get('link')
        if link_header:
            linked_context = parse_link_header(link_header).get(LINK_HEADER_REL)
''', '''        link_header = response.headers.get('link')
        if link_header:
            links = parse_link_header(link_header)
            linked_context = links.get(LINK_HEADER_REL)
'''), (DOC, '''            linked_alternate = parse_link_header(link_header).get('alternate')
''', '''            linked_alternate = links.get('alternate')
''')]),
    # ---- packages
    ('pkg-add', 'C24', [(PKG, '''        new_namespaces = [cls.__get_namespace__() for cls in other.objects]
        kept_classes = tuple(cls for cls in self.objects
                             if cls.__get_namespace__() not in new_namespaces)
        objects = kept_classes + other.objects
''', '''        new_namespaces = {cls.__get_namespace__() for cls in other.objects}
        objects = []
        for cls in self.objects:
            if cls.__get_namespace__() not in new_namespaces:
                objects.append(cls)
        objects = tuple(objects) + other.objects
''')]),
    ('pkg-sub', 'C24', [(PKG, '''                             property_mapping={
                                 obj: tuple(prp for prp in prps
                                            if prp not in removed_prp_ns)
                                 for obj, prps in self.property_mapping.items()
                                 if obj not in removed_obj_ns})''', '''                             property_mapping=self._mapping_without(
                                 removed_obj_ns, removed_prp_ns))

    def _mapping_without(self, objects, properties):
        mapping = {}
        for obj, prps in self.property_mapping.items():
            if obj in objects:
                continue
            mapping[obj] = tuple(prp for prp in prps if prp not in properties)
        return mapping''')]),
    ('pkg-getitem', 'C24', [(PKG, '''        if isinstance(keys, str):
            return self.__ref.get(keys, None)
        if any(not isinstance(key, str) for key in keys):
            raise ValueError('JsonLdPackage getitem can only accept strings')
        return [self.__ref.get(key, None) for key in keys]''', '''        if isinstance(keys, str):
            return self.__ref.get(keys)
        found = []
        for key in keys:
            if not isinstance(key, str):
                raise ValueError('JsonLdPackage getitem can only accept strings')
            found.append(self.__ref.get(key))
        return found''')]),
    ('kam-copydict', 'C24', [(KAM, '''            inherits = [class_ref.get(p) for p in cls.mro() if p != cls] + [cls]
            inherits = tuple(filter(lambda n: n is not None, inherits))
''', '''            inherits = tuple(class_ref[p] for p in cls.mro()
                             if p != cls and class_ref.get(p) is not None)
            inherits += (cls,)
''')]),
    # ---- database modules
    ('dbm-is-path', 'C15', [(DBM, '''        init_path = join(path, '__init__.py')
        spec = spec_from_file_location('DB_MODULE', init_path)
        module = module_from_spec(spec)
        spec.loader.exec_module(module)
        return module.DB_MODULE
    except''', '''        found = spec_from_file_location('DB_MODULE', join(path, '__init__.py'))
        loaded = module_from_spec(found)
        found.loader.exec_module(loaded)
        is_module = loaded.DB_MODULE
        return is_module
    except''')]),
    ('dbm-load-helper', 'C15', [(DBM, '''def is_path_dbmodule(path):
    from importlib.util import spec_from_file_location, module_from_spec
    try:
        init_path = join(path, '__init__.py')
        spec = spec_from_file_location('DB_MODULE', init_path)
        module = module_from_spec(spec)
        spec.loader.exec_module(module)
        return module.DB_MODULE
''', '''def load_init(path, name):
    from importlib.util import spec_from_file_location, module_from_spec
    spec = spec_from_file_location(name, join(path, '__init__.py'))
    module = module_from_spec(spec)
    spec.loader.exec_module(module)
    return module


def is_path_dbmodule(path):
    try:
        return load_init(path, 'DB_MODULE').DB_MODULE
'''), (DBM, '''    from importlib.util import spec_from_file_location, module_from_spec
    init_path = join(path, '__init__.py')
    if not exists(init_path):
        raise FileNotFoundError(init_path)
    spec = spec_from_file_location('db', init_path)
    module = module_from_spec(spec)
    spec.loader.exec_module(module)
    return module.db()''', '''    init_path = join(path, '__init__.py')
    if not exists(init_path):
        raise FileNotFoundError(init_path)
    return load_init(path, 'db').db()''')]),
    ('dbm-delete-loop', 'C15', [(DBM, '''    affected = [join(path, file) for file in listdir(path)
                if (isfile(join(path, file)) and file.startswith(name))
                    or file == '__init__.py']
    for file in affected:
        remove(file)
    if remove_empty and not len(listdir(path)):
        rmdir(path)''', '''    for file in listdir(path):
        target = join(path, file)
        if file == '__init__.py' or (file.startswith(name) and isfile(target)):
            remove(target)
    if remove_empty and len(listdir(path)) == 0:
        rmdir(path)''')]),
    ('dbm-delete-name', 'C15', [(DBM, '''    name = split(abspath(path))[1]
''', '''    _, name = split(abspath(path))
''')]),
    ('dbm-create-order', 'C15', [(DBM, '''    if not overwrite and exists(path):
        raise IOError(f'DbModule already exists at "{path}"')
    if exists(path):
        delete_dbmodule(path, remove_empty=False)
    else:
        mkdir(path)''', '''    if not exists(path):
        mkdir(path)
    elif overwrite:
        delete_dbmodule(path, remove_empty=False)
    else:
        raise IOError(f'DbModule already exists at "{path}"')''')]),
    ('dbm-create-text', 'C15', [(DBM, '''    with open(init_path, 'w') as writer:
        if discoverable:
            writer.write(DBMODULE_DISCOVERABLE_INIT)
        else:
            writer.write(DBMODULE_UNDISCOVERABLE_INIT)
    return path''', '''    text = DBMODULE_DISCOVERABLE_INIT if discoverable \\
        else DBMODULE_UNDISCOVERABLE_INIT
    with open(init_path, 'w') as writer:
        writer.write(text)
    return path''')]),
    ('dbm-find', 'C15', [(DBM, '''    potential_dbmodules = [join(path, file) for file in listdir(path)
                           if exists(join(path, file, '__init__.py'))]
    # import the init files and look for DB_MODULE == True
    return (mod for mod in potential_dbmodules if is_path_dbmodule(mod))''', '''    found = []
    for file in listdir(path):
        directory = join(path, file)
        if not exists(join(directory, '__init__.py')):
            continue
        if is_path_dbmodule(directory):
            found.append(directory)
    return found''')]),
    ('dbg-init', 'C15', [(DBG, '''        self.modules = self.discover(root) | (modules if modules else dict()) \\
            if discovery else (modules if modules else dict())''', '''        given = modules if modules else dict()
        if discovery:
            self.modules = {**self.discover(root), **given}
        else:
            self.modules = given''')]),
    ('dbg-discover', 'C15', [(DBG, '''        module_paths = find_dbmodules(root)
        db_modules = [DbModule(path) for path in module_paths]
        return {module.name: module for module in db_modules}''', '''        found = {}
        for path in find_dbmodules(root):
            module = DbModule(path)
            found[module.name] = module
        return found''')]),
    ('dbg-size', 'C15', [(DBG, '''        return sum((module.size for module in self.modules.values()))''', '''        total = 0
        for module in self.modules.values():
            total += module.size
        return total''')]),
    ('reg-has', 'C15', [(REG, '''        return id in self.modules.keys()''', '''        return id in self.modules''')]),
    ('reg-read', 'C15', [(REG, '''        return self.modules.get(id, None)''', '''        if self.has(id):
            return self.modules[id]
        return None''')]),
    ('reg-delete', 'C15', [(REG, '''        del self.modules[id]''', '''        self.modules.pop(id)''')]),
    ('reg-init', 'C15', [(REG, '''        self.modules = PersistentMapping(modules if modules else {})''', '''        if not modules:
            modules = {}
        self.modules = PersistentMapping(modules)''')]),
    # ---- group connection
    ('gcn-read-order', 'C13', [(GCN, '''        if not results:
            return None
        if len(results) > 1 and not multiple:
            raise CitrineDuplicateIdError(id)
        return results[0] if not multiple else results''', '''        if not results:
            return None
        if multiple:
            return results
        first, *others = results
        if others:
            raise CitrineDuplicateIdError(id)
        return first''')]),
    ('gcn-collect', 'C13', [(GCN, '''        if not multiple:
            results = [res.result() for res in results
                       if res.result() is not None]
        else:
            results = {key: val.result() for key, val in results.items()
                       if val.result() is not None}
        return results''', '''        if multiple:
            found = {}
            for key, task in results.items():
                value = task.result()
                if value is not None:
                    found[key] = value
            return found
        values = [res.result() for res in results]
        return [value for value in values if value is not None]''')]),
    ('gcn-tasks', 'C13', [(GCN, '''            async with TaskGroup() as tg:
                if multiple:
                    results = {
                        connection: tg.create_task(self.__read_db(connection, id))
                        for connection in self.connections
                    }
                else:
                    results = [
                        tg.create_task(self.__read_db(connection, id))
                        for connection in self.connections
                    ]
        if not multiple''', '''            async with TaskGroup() as tg:
                tasks = [tg.create_task(self.__read_db(connection, id))
                         for connection in self.connections]
            results = dict(zip(self.connections, tasks)) if multiple else tasks
        if not multiple''')]),
    ('gcn-args', 'C13', [(GCN, '''        default = {'transaction_manager': transaction_manager}
        for db in dbs:
            connection_details = {
                **default,
                **connection_args.get(db.database_name, {})
            }
            self.connections += (db.open(**connection_details),)''', '''        opened = []
        for db in dbs:
            details = {'transaction_manager': transaction_manager}
            details.update(connection_args.get(db.database_name, {}))
            opened.append(db.open(**details))
        self.connections = tuple(opened)''')]),
    # ---- classes of a package
    ('kam-order', 'C24', [(KAM, '''        ordered = {}
        for cls in classes:
            deps = [c for c in classes if c in cls.mro() and c != cls]
            ordered[len(deps)] = ordered.get(len(deps), []) + [cls]

        # creates a list where classes are sorted by their number of deps
        classes = []
        for val in sorted(ordered.keys()):
            classes += ordered[val]
''', '''        given = list(classes)
        classes = sorted(given, key=lambda cls: sum(
            1 for c in given if c in cls.mro() and c != cls))
''')]),
    ('kam-change', 'C24', [(KAM, '''        data = {**props, **attrs}
        # the namespace is that of the class; setting it would change the class
        data.pop('__namespace__', None)
''', '''        data = dict(props)
        data.update(attrs)
        if '__namespace__' in data:
            del data['__namespace__']
''')]),
    ('kam-wrapper', 'C24', [(KAM, '''        def wrapper(fn):
            def wrap_return(*args, **kwargs):
                if (val := fn(*args, **kwargs)).__class__ not in self.object_ref.keys():
                    return val
                with val.switch_context(CLASS_CHANGE_CONTEXT):
                    return self.change_class(val, self.object_ref.get(val.__class__))
            return wrap_return
        # locate''', '''        def wrapper(fn):
            def wrap_return(*args, **kwargs):
                result = fn(*args, **kwargs)
                own = result.__class__
                if own in self.object_ref:
                    with result.switch_context(CLASS_CHANGE_CONTEXT):
                        return self.change_class(result, self.object_ref[own])
                return result
            return wrap_return
        # locate''')]),
    ('kam-wrap-cases', 'C24', [(KAM, '''        for name, method in cls.__dict__.items():
            if isinstance(method, classmethod) and callable(method.__func__):
                setattr(cls, name, classmethod(wrapper(method.__func__)))
                continue
            if not callable(method) or isinstance(method, type):
                continue
            wrapped = wrapper(method)
            if isinstance(method, staticmethod) or not hasattr(method, '__get__'):
                # it is not given the object it is called on
                wrapped = staticmethod(wrapped)
            setattr(cls, name, wrapped)''', '''        for name, method in list(cls.__dict__.items()):
            if isinstance(method, classmethod) and callable(method.__func__):
                setattr(cls, name, classmethod(wrapper(method.__func__)))
            elif callable(method) and not isinstance(method, type):
                static = isinstance(method, staticmethod) \\
                    or not hasattr(method, '__get__')
                wrapped = wrapper(method)
                setattr(cls, name, staticmethod(wrapped) if static else wrapped)''')]),
    ('kam-convert-helper', 'C24', [(KAM, '''        def get_wrapper(fn):
            def wrap_return(*args, **kwargs):
                if (val := fn(*args, **kwargs)).__class__ not in self.object_ref.keys():
                    return val
                with val.switch_context(CLASS_CHANGE_CONTEXT):
                    return self.change_class(val, self.object_ref.get(val.__class__))
            return wrap_return

        def set_wrapper(fn):
            def wrap_input(val, *args, **kwargs):
                if val.__class__ not in self.object_ref.keys():
                    fn(val, *args, **kwargs)
                    return
                with val.switch_context(CLASS_CHANGE_CONTEXT):
                    fn(self.change_class(val, self.object_ref.get(val.__class__)),
                       *args, **kwargs)
            return wrap_input
''', '''        def converted(val):
            return self.change_class(val, self.object_ref.get(val.__class__))

        def get_wrapper(fn):
            def wrap_return(*args, **kwargs):
                val = fn(*args, **kwargs)
                if val.__class__ not in self.object_ref:
                    return val
                with val.switch_context(CLASS_CHANGE_CONTEXT):
                    return converted(val)
            return wrap_return

        def set_wrapper(fn):
            def wrap_input(val, *args, **kwargs):
                if val.__class__ not in self.object_ref:
                    fn(val, *args, **kwargs)
                    return
                with val.switch_context(CLASS_CHANGE_CONTEXT):
                    fn(converted(val), *args, **kwargs)
            return wrap_input
''')]),
    ('pkg-link', 'C24', [(PKG, '''        for property_namespace in property_namespaces:
            property_class = self[property_namespace]
            if not property_class:
                raise ValueError(f'No such property "{property_namespace}" ' +
                                 f'in package "{self.namespace}"')
            self.link_property(property_class, object_class)''', '''        for property_namespace in property_namespaces:
            if found := self[property_namespace]:
                self.link_property(found, object_class)
                continue
            raise ValueError(f'No such property "{property_namespace}" ' +
                             f'in package "{self.namespace}"')''')]),
    ('pkg-ref', 'C24', [(PKG, '''        self.__ref = {obj.__get_namespace__(): obj
                      for obj in self.objects + self.properties}
''', '''        self.__ref = {}
        for obj in self.objects + self.properties:
            self.__ref[obj.__get_namespace__()] = obj
''')]),
    ('pkg-map', 'C24', [(PKG, '''        for object_namespace, property_namespaces in self.property_mapping.items():
            self.link_properties(property_namespaces, object_namespace)
        for object in self.objects:
            object.__get_properties__(refresh=True)''', '''        for namespace in self.property_mapping:
            self.link_properties(self.property_mapping[namespace], namespace)
        for cls in self.objects:
            cls.__get_properties__(refresh=True)''')]),
    # ---- engine
    ('inp-get', 'C25', [(INP, '''        if class_type not in self.class_registry.keys():
            # if the class type is not in our mapping, use the default value
            logger.debug(f'@type value not in mapping: "{class_type}"')
            class_type = 'default'

        # gets the class for the object that needs to be created from the
        return self.class_registry.get(class_type)''', '''        if class_type in self.class_registry:
            return self.class_registry[class_type]
        # if the class type is not in our mapping, use the default value
        logger.debug(f'@type value not in mapping: "{class_type}"')
        return self.class_registry.get('default')''')]),
    ('inp-unpack', 'C25', [(INP, '''        if data is None or isinstance(data, (Number, str, bool)):
            return data
        if isinstance(data, dict):''', '''        if data is None:
            return None
        if isinstance(data, (str, Number)):
            return data
        if isinstance(data, dict):''')]),
    ('inp-list', 'C25', [(INP, '''            return [self._unpack_objects(item, context)
                    for item in data]''', '''            return list(self._unpack_objects(item, context) for item in data)''')]),
    ('inp-listloop', 'C25', [(INP, '''            return [self._unpack_objects(item, context)
                    for item in data]''', '''            unpacked = []
            for item in data:
                unpacked.append(self._unpack_objects(item, context))
            return unpacked''')]),
    ('inp-from', 'C25', [(INP, '''        filtered_data = {
            key: self._unpack_objects(data.get(key, None), context)
            for key in object_class.__get_properties__()
        }

        return object_class(**{**filtered_data, 'acontext': context})''', '''        values = {}
        for key in object_class.__get_properties__():
            values[key] = self._unpack_objects(data.get(key), context)
        values['acontext'] = context
        return object_class(**values)''')]),
    ('inp-copy', 'C25', [(INP, '''        data = json.loads(data) if isinstance(data, str) else data.copy()
        context''', '''        if isinstance(data, str):
            data = json.loads(data)
        else:
            data = dict(data)
        context''')]),
    ('inp-context', 'C25', [(INP, '''        if not data.get('@context', None):
            logger.debug(f"No '@context' provided, using '{DEFAULT_CONTEXT}'")
            data.update({'@context': DEFAULT_CONTEXT})''', '''        if not data.get('@context'):
            logger.debug(f"No '@context' provided, using '{DEFAULT_CONTEXT}'")
            data['@context'] = DEFAULT_CONTEXT''')]),
    ('eng-getitem', 'C25', [(ENG, '''        return_one = False
        if isinstance(keys, str):
            return_one = True
            keys = [keys]
''', '''        return_one = isinstance(keys, str)
        if return_one:
            keys = [keys]
''')]),
    ('eng-getitem2', 'C25', [(ENG, '''        if return_one:
            return self.from_json(keys[0])
        return [self.from_json(key) for key in keys]''', '''        objects = [self.from_json(key) for key in keys]
        return objects[0] if return_one else objects''')]),
    ('eng-load', 'C25 C27', [(ENG, '''        for cls in self.package.objects:
            # registers/updates each type by its namespace id
            if cls.__get_namespace__() not in self.class_registry.keys():
                self.register_class(cls.__get_namespace__(), cls)
''', '''        for cls in self.package.objects:
            # registers/updates each type by its namespace id
            namespace = cls.__get_namespace__()
            if namespace in self.class_registry:
                continue
            self.register_class(namespace, cls)
''')]),
    # ---- links
    ('mod-get', 'C26', [(MOD, '''        if not data:
            return None
        if not getattr(data, '__namespace__', None) == cls.__get_namespace__():
            return None
''', '''        if not data or \\
                getattr(data, '__namespace__', None) != cls.__get_namespace__():
            return None
''')]),
    ('mod-get-engine', 'C26', [(MOD, '''            if hasattr(data, '__jsonld_package__'):
                new_obj = data.__class__.__jsonld_engine__.from_json(resp_data)
            else:
                new_obj = cls.__jsonld_engine__.from_json(resp_data)
        except''', '''            source = (data.__class__ if hasattr(data, '__jsonld_package__')
                      else cls)
            new_obj = source.__jsonld_engine__.from_json(resp_data)
        except''')]),
    ('mod-expand', 'C26 C19', [(MOD, '''            new_obj = get_class(obj).get(get_func(obj))
            return new_obj if new_obj else get_func(obj)
''', '''            value = get_func(obj)
            expanded = get_class(obj).get(value)
            if expanded:
                return expanded
            return value
''')]),
    ('mod-href', 'C26 C19', [(MOD, '''            if isinstance(val, list):
                return [item.href if isinstance(item, Link) else item
                        for item in val]
''', '''            if isinstance(val, list):
                hrefs = []
                for item in val:
                    if isinstance(item, Link):
                        hrefs.append(item.href)
                    else:
                        hrefs.append(item)
                return hrefs
''')]),
    ('mod-create', 'C26 C19', [(MOD, '''            if isinstance(v, dict) and isinstance(
                    v.get('href', None), str) and validate_url(v['href']):
                return link_cls(**v)
''', '''            if isinstance(v, dict):
                href = v.get('href')
                if isinstance(href, str) and validate_url(href):
                    return link_cls(**v)
                return v
''')]),
    ('mod-create-helper', 'C26 C19', [(MOD, '''            if (isinstance(v, str) and
                    (validate_url(v) or validate_acct_or_email(v))):
                return link_cls(href=v)
''', '''            if isinstance(v, str):
                if validate_url(v) or validate_acct_or_email(v):
                    return link_cls(href=v)
                return v
''')]),
    ('mod-create-loop', 'C26 C19', [(MOD, '''            if isinstance(v, (list, tuple, set)):
                return [create_link(item, link_cls) for item in v]
            return v
''', '''            if isinstance(v, (list, tuple, set)):
                links = list()
                for item in v:
                    links.append(create_link(item, link_cls))
                return links
            return v
''')]),
    ('mod-class', 'C26', [(MOD, '''        def get_class(obj):
            # if obj has an associated engine
            if hasattr(obj, '__jsonld_package__'):
                pkg = obj.__jsonld_package__
                # if the engine's package has something with the Link namespace
                if pkg[cls.__get_namespace__()]:
                    return pkg[cls.__get_namespace__()]
            return cls

        def decorator(obj):''', '''        def get_class(obj):
            pkg = getattr(obj, '__jsonld_package__', None)
            if pkg is not None:
                return pkg[cls.__get_namespace__()] or cls
            return cls

        def decorator(obj):''')]),
    ('mod-object', 'C27', [(MOD, '''        self.id = id
        self.type = getattr(self, 'type', None) or type
        self.attachment = attachment
        self.attributedTo = attributedTo
        self.audience = audience
''', '''        self.type = getattr(self, 'type', None) or type
        self.id = id
        self.attributedTo = attributedTo
        self.attachment = attachment
        for field, value in (('audience', audience),):
            setattr(self, field, value)
''')]),
    ('pro-bcc', 'C19', [(PRO, '''    @bcc.setter
    @Link.from_str
    @SetterValidator(types=(Object, Link)).check
    def bcc(self, val):
        self.___bcc___ = val
''', '''    @bcc.setter
    @Link.from_str
    @SetterValidator(types=(Link, Object)).check
    def bcc(self, val):
        setattr(self, '___bcc___', val)
''')]),
    # ---- databases and clients
    ('cdb-settings', 'C12', [(CDB, '''        try:
            super().__init__(
                storage=storage, pool_size=pool_size,
                pool_timeout=pool_timeout, cache_size=cache_size,
                cache_size_bytes=cache_size_bytes,
                historical_pool_size=historical_pool_size,
                historical_cache_size=historical_cache_size,
                historical_cache_size_bytes=historical_cache_size_bytes,
                historical_timeout=historical_timeout,
                database_name=database_name, databases=databases,
                xrefs=xrefs, large_record_size=large_record_size,
                **storage_args)
''', '''        settings = dict(
            pool_size=pool_size,
            pool_timeout=pool_timeout, cache_size=cache_size,
            cache_size_bytes=cache_size_bytes,
            historical_pool_size=historical_pool_size,
            historical_cache_size=historical_cache_size,
            historical_cache_size_bytes=historical_cache_size_bytes,
            historical_timeout=historical_timeout,
            database_name=database_name, databases=databases,
            xrefs=xrefs, large_record_size=large_record_size)
        try:
            super().__init__(storage=storage, **settings, **storage_args)
''')]),
    ('cdb-init-own', 'C12', [(CDB, '''            storage, storage_args = self.storage, {}
            db = DB(storage)
''', '''            storage = self.storage
            storage_args = dict()
            db = DB(storage=storage)
''')]),
    ('cdb-new-steps', 'C12', [(CDB, '''        return cls.load(cls.create(file_name, capacity=capacity,
                                   create=create, read_only=read_only,
                                   stop=stop, quota=quota, pack_gc=pack_gc,
                                   pack_keep_old=pack_keep_old, packer=packer,
                                   blob_dir=blob_dir,
                                   strict=strict,
                                   ),
                        pool_size''', '''        storage = cls.create(file_name, capacity=capacity,
                             create=create, read_only=read_only,
                             stop=stop, quota=quota, pack_gc=pack_gc,
                             pack_keep_old=pack_keep_old, packer=packer,
                             blob_dir=blob_dir,
                             strict=strict)
        return cls.load(storage,
                        pool_size''')]),
    ('cdb-enter', 'C12 C11', [(CDB, '''        self.__context_manager_connection = self.open()
        return self.__context_manager_connection
''', '''        connection = self.open()
        self.__context_manager_connection = connection
        return connection
'''), (CDB, '''        self.__context_manager_connection.close()''', '''        connection = self.__context_manager_connection
        connection.close()''')]),
    ('cdb-open-if', 'C12 C10', [(CDB, '''        transaction_manager = transaction_manager or ThreadTransactionManager()
        return super()''', '''        if not transaction_manager:
            transaction_manager = ThreadTransactionManager()
        return super()''')]),
    ('cdb-create-implicit', 'C12', [(CDB, '''            conn.root.container = container
            tm.commit()
''', '''            conn.root.container = container
''')]),
    ('cli-names', 'C12', [('citrine/client/container_client.py', '''        client = ClientStorage(
            addr,''', '''        storage = ClientStorage(
            addr,'''), ('citrine/client/container_client.py', '''cls.load(client, pool''', '''cls.load(storage, pool''')]),
    ('cli-with', 'C12', [('citrine/client/container_client.py', '''                with connection.transaction_manager as tm:
                    connection.root.container = Container.new(strict=strict)
                    tm.commit()
''', '''                container = Container.new(strict=strict)
                with connection.transaction_manager as tm:
                    connection.root.container = container
                    tm.commit()
''')]),
    ('ccn-init', 'C10 C12', [(CCN, '''        self.transaction_manager = (transaction_manager or
                                    ThreadTransactionManager())
        if not autocommit:
            self.transaction_manager.autocommit = False
''', '''        if transaction_manager is None:
            transaction_manager = ThreadTransactionManager()
        if not autocommit:
            transaction_manager.autocommit = False
        self.transaction_manager = transaction_manager
''')]),
    ('ccn-update', 'C11 C10', [(CCN, '''        previous = self.container.read(id, default=None)
        self.container.write(id, obj)
        return previous
''', '''        container = self.container
        try:
            return container.read(id, default=None)
        finally:
            container.write(id, obj)
''')]),
    ('ccn-create-try', 'C11 C10', [(CCN, '''        if not self.container.has(id):
            return self.container.write(id, obj)
        else:
            raise ObjectOverwriteError(id=id)
''', '''        container = self.container
        if container.has(id):
            raise ObjectOverwriteError(id=id)
        return container.write(id, obj)
''')]),
    ('condense-implicit', 'C06 C07', [(CON, '''                        fn(group, key)
                        tm.commit()
''', '''                        fn(group, key)
''')]),
    ('condense-merge', 'C06 C07', [(CON, '''        def fn(group, key):
''', '''        def move(group):
            for key in list(group.keys()):
                if not transaction_manager:
                    fn(group, key)
                    continue
                with transaction_manager as tm:
                    fn(group, key)
                    tm.commit()

        def fn(group, key):
'''), (CON, '''            for group in source_groups:
                for key in list(group.keys()):
                    with transaction_manager as tm:
                        fn(group, key)
                        tm.commit()
        else:
            for group in source_groups:
                for key in list(group.keys()):
                    fn(group, key)
''', '''            for group in source_groups:
                move(group)
        else:
            for group in source_groups:
                move(group)
''')]),
    # ---- the vocabulary's properties
    ('pro-dates', 'C19 C20', [(PRO, '''        val = getattr(self, '___published___', None)
        if isinstance(val, datetime):
            return datetime_str(val)
        return val
''', '''        val = getattr(self, '___published___', None)
        return datetime_str(val) if isinstance(val, datetime) else val
''')]),
    ('pro-duration', 'C19 C21', [(PRO, '''        val = getattr(self, '___duration___', None)
        if isinstance(val, timedelta):
            return timedelta_str(val)
        return val
''', '''        val = getattr(self, '___duration___', None)
        if not isinstance(val, timedelta):
            return val
        return timedelta_str(val)
''')]),
    ('pro-validator', 'C19', [(PRO, '''class Attachment(ActivityStreamsProperty):
''', '''object_or_link = SetterValidator(types=(Object, Link))


class Attachment(ActivityStreamsProperty):
'''), (PRO, '''    @attachment.setter
    @Link.from_str
    @SetterValidator(types=(Object, Link)).check
''', '''    @attachment.setter
    @Link.from_str
    @object_or_link.check
''')]),
    ('pro-order', 'C19', [(PRO, '''    @attachment.getter_context(JSON_DATA_CONTEXT)
    @Link.href_only
    def attachment(self):
        return getattr(self, '___attachment___', None)

    @attachment.setter
    @Link.from_str
    @SetterValidator(types=(Object, Link)).check
    def attachment(self, val):
        self.___attachment___ = val
''', '''    @attachment.setter
    @Link.from_str
    @SetterValidator(types=(Object, Link)).check
    def attachment(self, val):
        self.___attachment___ = val

    @attachment.getter_context(JSON_DATA_CONTEXT)
    @Link.href_only
    def attachment(self):
        return getattr(self, '___attachment___', None)
''')]),
    ('mod-init-kw', 'C27 C19', [(MOD, '''        self.href = href
        self.rel = rel
        self.mediaType = mediaType
        self.name = name
''', '''        for field, value in dict(href=href, rel=rel, mediaType=mediaType,
                                 name=name).items():
            setattr(self, field, value)
''')]),
    ('mod-type', 'C27', [(MOD, '''        self.preview = preview
        self.context = context
        self.type = getattr(self, 'type', None) or type

    @classmethod
    def get(''', '''        self.preview = preview
        self.context = context
        if not getattr(self, 'type', None):
            self.type = type

    @classmethod
    def get(''')]),
]


def _rename(name, props, path, *pairs):
    """names that are the code's own, changed wherever they are"""
    return name, props, [(path, a, b) for a, b in pairs]


URL = 'jsonld/tools/url.py'
EDITS += [
    # ---- other words for the same
    ('grp-bound-suppress', 'C09', [
        (GRP, 'import logging\nfrom itertools', 'import logging\nfrom contextlib import suppress\nfrom itertools'),
        (GRP, '''            try:
                yield fn(collection, bound)
            except ValueError:
                continue''', '''            with suppress(ValueError):
                yield fn(collection, bound)''')]),
    ('grp-view-from', 'C03 C09', [(GRP, '''            for item in self.fn(collection):
                yield item''', '''            yield from self.fn(collection)''')]),
    ('grp-size-reduce', 'C08 C04', [(GRP, '''        return sum(collection.size for collection in self.collections)''',
                                     '''        total = 0
        for member in self.collections:
            total = total + member.size
        return total''')]),
    ('grp-update-default', 'C03 C04', [
        (GRP, 'import logging\nfrom itertools', 'import logging\nfrom collections import defaultdict\nfrom itertools'),
        (GRP, '''        split_collection = {_: {} for _ in range(len(self.collections))}
''', '''        split_collection = defaultdict(dict)
'''),
        (GRP, '''        split_collection = {k: v for k, v in split_collection.items() if v}
''', '')]),
    ('grp-update-refuse', 'C04', [(GRP, '''            added = [key for key in values if not target.has_key(key)]
            if (added and target.strict
                    and target.size + len(added) > target.max_size):
                raise''', '''            added = sum(not target.has_key(key) for key in values)
            if not added or not target.strict:
                continue
            if target.size + added > target.max_size:
                raise''')]),
    ('grp-byvalue-yield', 'C09', [(GRP, '''        values = [collection.byValue(min) for collection in self.collections]
        combined = list()
        for group in values:
            combined += list(group)
        for val in sorted(combined, reverse=True):
            yield val''', '''        combined = list(chain.from_iterable(
            collection.byValue(min) for collection in self.collections))
        combined.sort(reverse=True)
        yield from combined''')]),
    ('con-private', 'C06 C07', [
        (CON, '            removed = self.__condense(self.groups[1:2]', '            removed = self._merge(self.groups[1:2]'),
        (CON, '        return self.__condense(self.groups[1:]', '        return self._merge(self.groups[1:]'),
        (CON, '    def __condense(self, source', '    def _merge(self, source')]),
    ('con-condense-null', 'C06 C07', [(CON, '''        if transaction_manager:
            # a transaction can only be committed once, so each of the objects
            # needs to have its own
            for group in source_groups:
                for key in list(group.keys()):
                    with transaction_manager as tm:
                        fn(group, key)
                        tm.commit()
        else:
            for group in source_groups:
                for key in list(group.keys()):
                    fn(group, key)
''', '''        for group in source_groups:
            for key in tuple(group.keys()):
                if not transaction_manager:
                    fn(group, key)
                    continue
                with transaction_manager as tm:
                    fn(group, key)
                    tm.commit()
''')]),
    ('con-resize-guard', 'C06 C07', [(CON, '''        if condense:
            removed = self.condense(transfer=transfer,
                                    transaction_manager=transaction_manager)
        else:
''', '''        if condense:
            return self.condense(transfer, transaction_manager)
        if not condense:
''')]),
    ('con-delete-list', 'C02', [(CON, '''        return tuple(group.pop(id) for group in self.groups
                     if group.has_key(id))''', '''        holders = [group for group in self.groups if group.has_key(id)]
        return tuple([group.pop(id) for group in holders])''')]),
    ('con-write-update', 'C01 C04', [(CON, '''        if not (res := self.primary.insert(id, obj)):
            return self.primary.update({id: obj})
        return res''', '''        inserted = self.primary.insert(id, obj)
        return inserted if inserted else self.primary.update({id: obj})''')]),
    ('col-meta-len', 'C08 C04', [(COL, '        return len(self.obj.keys())', '        return len(self.obj)')]),
    ('col-has-in', 'C01 C03', [(COL, '        return self.tree.has_key(key)', '        return key in self.tree')]),
    ('col-strict-first', 'C04', [(COL, '''        if (self.size >= self.max_size and self.strict
                and not self.has_key(key)):
            raise CollectionCapacityError(
                f'Cannot set''', '''        full = self.size >= self.max_size
        if self.strict and full and not self.has_key(key):
            raise CollectionCapacityError(
                f'Cannot set''')]),
    ('utl-prime-isqrt', 'C05', [(UTL, 'from math import ceil, sqrt', 'from math import ceil, isqrt'),
                                (UTL, 'int(sqrt(num)) + 1', 'isqrt(num) + 1')]),
    ('utl-number-count', 'C05', [(UTL, '''    next_prime = next(get_primes(min=needed_collections))

    return next_prime

def next_number''', '''    for prime in get_primes(min=needed_collections):
        return prime

def next_number''')]),
    ('trn-wraps', 'C10 C11', [(TRN, 'import uuid\n', 'import functools\nimport uuid\n'),
                              (TRN, '''    def decorator(obj, id, *args, **kwargs):
''', '''    @functools.wraps(fn)
    def decorator(obj, id, *args, **kwargs):
''')]),
    ('trn-auto-null', 'C10 C11', [
        (TRN, 'import uuid\n', 'import uuid\nfrom contextlib import nullcontext\n'),
        (TRN, '''        if not tm.autocommit:
            if getattr(tm, 'transaction_uuid', None):
                tm.logger.info(f'{tm.transaction_uuid}: {fn.__name__} {id}')
            return fn(obj, id, *args, **kwargs)
        with tm:
            tm.logger.info(f'{tm.transaction_uuid}: {fn.__name__} {id}')
            return fn(obj, id, *args, **kwargs)
''', '''        with tm if tm.autocommit else nullcontext():
            if getattr(tm, 'transaction_uuid', None):
                tm.logger.info(f'{tm.transaction_uuid}: {fn.__name__} {id}')
            return fn(obj, id, *args, **kwargs)
''')]),
    ('trn-exit-early', 'C10', [(TRN, '''            if exc_val is None:
                self.commit()
                self.logger.info(f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
            else:
                self.abort()
                self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
        finally:
            # a commit can fail, and anything after it still has to be committed
            self.autocommit = True
            self.transaction_uuid = None


class Thread''', '''            if exc_type is not None:
                self.abort()
                self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
                return
            self.commit()
            self.logger.info(f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
        finally:
            # a commit can fail, and anything after it still has to be committed
            self.transaction_uuid, self.autocommit = None, True


class Thread''')]),
    ('ccn-create-in', 'C11 C10', [(CCN, '''        if not self.container.has(id):
            return self.container.write(id, obj)
        else:
            raise''', '''        if id not in self.container:
            return self.container.write(id, obj)
        else:
            raise''')]),
    ('per-private', 'C14', [
        (PER, '        return id in self.__locate_container(id).keys()', '        return id in self._container_of(id)'),
        (PER, '        return self.__locate_container(id).get(', '        return self._container_of(id).get('),
        (PER, '        self.__locate_container(id)[id]', '        self._container_of(id)[id]'),
        (PER, '        self.__locate_container(id).pop(id)', '        del self._container_of(id)[id]'),
        (PER, '    def __locate_container(self, id: str):', '    def _container_of(self, id: str):')]),
    ('per-expand-chain', 'C14', [
        (PER, 'import uuid\nimport logging\n', 'import uuid\nimport logging\nfrom itertools import chain\n'),
        (PER, '''        objects = [item for container in self.containers.values()
                   for item in container.items()]''', '''        objects = list(chain.from_iterable(
            container.items() for container in self.containers.values()))''')]),
    ('per-expand-dict', 'C14', [(PER, '''        objects = [item for container in self.containers.values()
                   for item in container.items()]''', '''        objects = {}
        for container in self.containers.values():
            objects.update(container)'''), (PER, '''        for id, obj in objects:
            self.write(id, obj)''', '''        for id in objects:
            self.write(id, objects[id])''')]),
    ('kam-one-wrapper', 'C24', [('jsonld/kamino.py', '''        def get_wrapper(fn):
            def wrap_return(*args, **kwargs):
                if (val := fn(*args, **kwargs)).__class__ not in self.object_ref.keys():
                    return val
                with val.switch_context(CLASS_CHANGE_CONTEXT):
                    return self.change_class(val, self.object_ref.get(val.__class__))
            return wrap_return
''', '''        def get_wrapper(fn):
            def wrap_return(*args, **kwargs):
                val = fn(*args, **kwargs)
                known = val.__class__ in self.object_ref
                if known:
                    with val.switch_context(CLASS_CHANGE_CONTEXT):
                        val = self.change_class(val, self.object_ref[val.__class__])
                return val
            return wrap_return
''')]),
    ('kam-props-loop', 'C24', [('jsonld/kamino.py', '''            props = {**props,
                     **{prop: getattr(cls, prop)
                        for prop in cls.__get_properties__(refresh=True)}}
''', '''            for prop in cls.__get_properties__(refresh=True):
                props[prop] = getattr(cls, prop)
''')]),
    ('kam-sorted', 'C24', [('jsonld/kamino.py', '''            ordered[len(deps)] = ordered.get(len(deps), []) + [cls]
''', '''            ordered.setdefault(len(deps), []).append(cls)
'''), ('jsonld/kamino.py', '''        for val in sorted(ordered.keys()):
            classes += ordered[val]
''', '''        for _, group in sorted(ordered.items(), key=lambda item: item[0]):
            classes.extend(group)
''')]),
    ('pkg-private', 'C24 C25', [
        ('jsonld/package.py', '        self.__ref = {', '        self._by_namespace = {'),
        ('jsonld/package.py', '            return self.__ref.get(keys, None)', '            return self._by_namespace.get(keys)'),
        ('jsonld/package.py', '        return [self.__ref.get(key, None) for key in keys]',
         '        return [self._by_namespace.get(key) for key in keys]')]),
    ('pkg-add-set', 'C24', [('jsonld/package.py', '''        new_namespaces = [cls.__get_namespace__() for cls in other.objects]
''', '''        new_namespaces = {cls.__get_namespace__() for cls in other.objects}
''')]),
    ('pkg-link-many', 'C24', [('jsonld/package.py', '''        for property_namespace in property_namespaces:
            property_class = self[property_namespace]
            if not property_class:
                raise''', '''        found = [(name, self[name]) for name in property_namespaces]
        for property_namespace, property_class in found:
            if property_class is None:
                raise''')]),
    ('inp-match', 'C25', [('jsonld/engine/json_input.py', '''        if data is None or isinstance(data, (Number, str, bool)):
            return data
        if isinstance(data, dict):
''', '''        if data is None:
            return None
        if isinstance(data, str) or isinstance(data, Number):
            return data
        if isinstance(data, dict):
''')]),
    ('inp-class', 'C25', [('jsonld/engine/json_input.py', '''        expanded = expand(data)
        if len(expanded) < 1:
            # if the list is empty, assume it is because there are no values
            # provided other than @context and id, which produces an empty list
            expanded = [{'@context': DEFAULT_CONTEXT}]
        expanded = expanded[0]
        class_type = expanded.get('@type', [''])[0]
''', '''        expanded = expand(data)
        # nothing but @context and id makes an empty list
        first = expanded[0] if expanded else {}
        class_type = first['@type'][0] if '@type' in first else ''
''')]),
    ('inp-registry', 'C25', [('jsonld/engine/json_input.py', '''        if class_type not in self.class_registry.keys():
            # if the class type is not in our mapping, use the default value
            logger.debug(f'@type value not in mapping: "{class_type}"')
            class_type = 'default'

        # gets the class for the object that needs to be created from the
''', '''        registry = self.class_registry
        if class_type not in registry:
            # if the class type is not in our mapping, use the default value
            logger.debug(f'@type value not in mapping: "{class_type}"')
            return registry.get('default')
''')]),
    ('inp-kwargs', 'C25', [('jsonld/engine/json_input.py', '''        return object_class(**{**filtered_data, 'acontext': context})''',
                           '''        filtered_data['acontext'] = context
        return object_class(**filtered_data)''')]),
    ('eng-reduce', 'C24 C25', [
        ('jsonld/engine/jsonld_engine.py', 'import logging\n', 'import logging\nfrom functools import reduce\n'),
        ('jsonld/engine/jsonld_engine.py', '''        self.package = self.packages[0]
        for package in self.packages[1:]:
            self.package += package
''', '''        self.package = reduce(lambda a, b: a + b, self.packages)
''')]),
    ('eng-setattr', 'C24 C25', [('jsonld/engine/jsonld_engine.py', '''        self.class_registry.update({name: cls})
''', '''        self.class_registry[name] = cls
''')]),
    ('doc-guard', 'C23', [('jsonld/docloader.py', '''        if not pieces.scheme or pieces.scheme not in ['http', 'https']:
            raise ValueError(
                'Cannot dereference url without valid scheme; add ' +''', '''        if pieces.scheme != 'http' and pieces.scheme != 'https':
            raise ValueError(
                'Cannot dereference url without valid scheme; add ' +''')]),
    ('doc-cache-get', 'C23', [('jsonld/docloader.py', '''            if url not in self.cached_schemas.keys():
                self.logger.info(f'Caching schema for {url}')
                CachedRequestsJsonLoader.cached_schemas[url] = self.get(url)
            return self.cached_schemas.get(url)
''', '''            cache = CachedRequestsJsonLoader.cached_schemas
            if url in cache:
                return cache[url]
            self.logger.info(f'Caching schema for {url}')
            loaded = self.get(url)
            cache[url] = loaded
            return loaded
''')]),
    ('doc-type-or', 'C23', [('jsonld/docloader.py', '''        content_type = response.headers.get('content-type')
        if not content_type:
            content_type = 'application/octet-stream'
''', '''        content_type = (response.headers.get('content-type')
                        or 'application/octet-stream')
''')]),
    ('url-any', 'C22', [(URL, '''    if not pieces.scheme or pieces.scheme not in ['http', 'https']:
''', '''    if pieces.scheme.lower() not in {'http', 'https'}:
''')]),
    ('url-acct', 'C22', [(URL, '''    if val.startswith('acct:'):
        val = val[5:]
    return validate_email(val)''', '''    return validate_email(val.removeprefix('acct:'))''')]),
    ('dtm-parts', 'C20', [('jsonld/tools/datetime.py', '''    return obj.replace(tzinfo=None).isoformat(timespec='seconds') + 'Z\'''',
                          '''    plain = obj.replace(tzinfo=None, microsecond=0)
    return f'{plain.isoformat()}Z\'''')]),
    ('dtm-span', 'C20', [('jsonld/tools/datetime.py', '''    dt_str += ':%S' if val_time.span()[1] - val_time.span()[0] == 9 else ''
''', '''    if len(val_time.group()) == 9:
        dt_str += ':%S'
''')]),
    ('dtm-delta-list', 'C21', [('jsonld/tools/datetime.py', '''    ymd = 'P' + (f'{years}Y' if years else '') + \\
          (f'{months}M' if months else '') + \\
          (f'{days}D' if days else '')
''', '''    ymd = 'P'
    for amount, unit in ((years, 'Y'), (months, 'M'), (days, 'D')):
        if amount:
            ymd += f'{amount}{unit}'
''')]),
    ('dtm-delta-format', 'C21', [('jsonld/tools/datetime.py', '''    return f'{ymd}{hms if len(hms) > 1 else ""}\'''',
                                 '''    return ymd if hms == 'T' else ymd + hms''')]),
    ('bas-exit-try', 'C16', [('jsonld/base.py', '''        self.context = None if not self.__stack else self.__stack.pop()
''', '''        if self.__stack:
            self.context = self.__stack.pop()
        else:
            self.context = None
''')]),
    ('bas-private', 'C16', [
        ('jsonld/base.py', '        self.__stack = list()', '        self._contexts = []'),
        ('jsonld/base.py', '        self.__stack.append(', '        self._contexts.append('),
        ('jsonld/base.py', '        self.context = None if not self.__stack else self.__stack.pop()',
         '        self.context = self._contexts.pop() if self._contexts else None')]),
    ('bas-fget-or', 'C16', [('jsonld/base.py', '''        return self.__fget_contexts.get(
            context if context in self.__fget_contexts.keys() else None)(obj)
''', '''        getter = self.__fget_contexts.get(context)
        if getter is None:
            getter = self.__fget_contexts[None]
        return getter(obj)
''')]),
    ('jld-select', 'C17', [('jsonld/jsonld.py', '''                   and (not include or prop in include)
''', '''                   and not (include and prop not in include)
''')]),
    ('jld-second', 'C17', [('jsonld/jsonld.py', '''        return {key: val for key, val in data.items()
                if (include_none or val is not None)}
''', '''        if include_none:
            return data
        return {key: val for key, val in data.items() if val is not None}
''')]),
    ('typ-union', 'C18', [('jsonld/tools/type.py', '''    types = types if functional and list not in types else (set(types) | {list})
''', '''    if not functional or list in types:
        types = types.union((list,))
''')]),
    ('typ-map', 'C18', [('jsonld/tools/type.py', '''        return [evaluate_value(v, types=types, prop=prop, functional=functional,
                               additional=additional, **kwargs)
                for v in val]
''', '''        checked = []
        for v in val:
            checked.append(evaluate_value(
                v, types, prop, functional, additional, **kwargs))
        return checked
''')]),
]
