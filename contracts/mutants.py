"""Small faults in functions under contract, for pyvc.selftest: (contract, file, text, replacement)."""
V = 'durus/storage_server.py'
MUTANTS = [
    ('server_c:find_client', V, "            if client.s is s:", "            if client.s is not s:"),
    ('server_c:handle_invalidations', V, "        for c in self.clients:\n            c.invalid.update(oids)\n\n    def _sync", "        for c in self.clients[1:]:\n            c.invalid.update(oids)\n\n    def _sync"),
    ('server_c:handle_S', V, "        self._sync_storage()\n        log(8", "        log(8"),
    ('server_c:handle_S', V, "        write_all(s,\n            int4_to_str(len(client.invalid)), join_bytes(client.invalid))\n        client.invalid.clear()\n\n    def handle_P", "        client.invalid.clear()\n        write_all(s,\n            int4_to_str(len(client.invalid)), join_bytes(client.invalid))\n\n    def handle_P"),
    ('server_c:new_oids', V, "                if oid in client.invalid:", "                if oid in client.unused_oids:"),
    ('server_c:new_oids', V, "        self._find_client(s).unused_oids.update(oids)", "        pass"),
    ('server_c:handle_C', V, "        self._sync_storage()\n        client =", "        client ="),
    ('server_c:handle_C', V, "            client.unused_oids -= oid_set\n            for c", "            for c"),
    ('server_c:handle_C', V, "                if c is not client:\n                    c.invalid", "                if c is client:\n                    c.invalid"),
    ('server_c:handle_C', V, "        if i != len(tdata):\n            raise ClientError(\"malformed commit\")\n", ""),
    ('server_c:handle_C', V, "            if record[:8] != oid or len(record) < 12:", "            if len(record) < 12:"),
    ('server_c:handle_C', V, "refs_length < 0 or refs_length % 8 != 0", "refs_length < 0"),
    ('server_c:handle_C', V, "                if oid_set.intersection(other_client.unused_oids):", "                if oid_set.intersection(other_client.invalid):"),
    ('server_c:handle_C', V, "        self.storage.begin()\n        i = 0", "        i = 0"),
    ('server_c:handle_C', V, "            record = tdata[i+8:i+rlen]", "            record = tdata[i+8:i+rlen-1]"),
    ('server_c:handle_C', V, "            write(s, STATUS_INVALID)\n        else:\n            self._report", "            write(s, STATUS_OKAY)\n        else:\n            self._report"),
    ('server_c:send_load_response', V, "        if oid in self._find_client(s).invalid:", "        if oid in self._find_client(s).unused_oids:"),
    ('server_c:handle_B', V, "        oid_str = read(s, 8 * number_of_oids)", "        oid_str = read(s, 8 * number_of_oids + 8)"),
    ('server_c:handle_M', V, "self._new_oids(s, count)))", "self._new_oids(s, count - 1)))"),
    ('server_c:handle_V', V, "        if client_protocol != self.protocol:", "        if client_protocol == self.protocol:"),
    ('server_c:handle', V, "            self.storage.begin() # Forget", "            pass # Forget"),
    ('server_c:handle', V, "        if handler is None:\n            raise ClientError('No such command code: %r' % command_code)", "        if handler is None:\n            return"),
]
C = 'durus/client_storage.py'
MUTANTS += [
    ('client_c:new_oid', C, "            self.oid_pool.reverse()\n", "            self.oid_pool.append(self.oid_pool[0])\n"),
    ('client_c:new_oid', C, "        oid = self.oid_pool.pop()\n        assert oid not in self.oid_pool", "        oid = self.oid_pool[-1]"),
    ('client_c:new_oid', C, "        self.transaction_new_oids.append(oid)\n", ""),
    ('client_c:load', C, "        write_all(self.s, 'L', oid)", "        write_all(self.s, 'B', oid)"),
    ('client_c:get_load_response', C, "        elif status == STATUS_INVALID:\n            raise ReadConflictError([oid])\n", ""),
    ('client_c:get_load_response', C, "        record = read(self.s, n)\n", "        record = read(self.s, n - 1)\n"),
    ('client_c:end', C, "                self.oid_pool.extend(self.transaction_new_oids)\n", ""),
    ('client_c:end', C, "                self.begin() # clear out records and transaction_new_oids.\n", ""),
    ('client_c:end', C, "                write_int4(self.s, 0) # Tell server we are done.\n", ""),
    ('client_c:end', C, "int4_to_str(8 + len(record))", "int4_to_str(len(record))"),
    ('client_c:end', C, "        self.records.clear()\n", ""),
    ('client_c:end', C, "                raise WriteConflictError()", "                pass"),
    ('client_c:sync', C, "        if n == 0:", "        if n <= 1:"),
    ('client_c:pack', C, "        if status != STATUS_OKAY:\n            raise ProtocolError('server returned invalid status %r' % status)\n\n    def bulk", "\n    def bulk"),
    ('client_c:bulk_load', C, "                error = error or e\n        if error", "                error = e\n                break\n        if error"),
    ('client_c:bulk_load', C, "        if error is not None:\n            raise error\n", ""),
    ('client_c:store', C, "        assert oid not in self.records\n", ""),
    ('client_c:begin', C, "        self.records = {}\n", ""),
]
T = 'durus/storage.py'
MUTANTS += [
    ('storage_c:gen_oid_record', T, "                if oid not in seen:\n                    batch.append(oid)\n", "                if True:\n                    batch.append(oid)\n"),
    ('storage_c:gen_oid_record', T, "                    seen.add(oid)\n            for", "            for"),
    ('storage_c:gen_oid_record', T, "                    if ref not in seen:\n                        heapq.heappush(todo, ref)", "                    if ref not in todo and len(todo) < batch_size:\n                        heapq.heappush(todo, ref)"),
    ('storage_c:gen_oid_record', T, "                for ref in split_oids(refdata):\n                    if ref not in seen", "                for ref in split_oids(refdata[8:]):\n                    if ref not in seen"),
    ('storage_c:gen_oid_record', T, "        while todo:\n            batch = []", "        while len(todo) > 1:\n            batch = []"),
    ('storage_c:gen_referring_oid_record', T, "        if referred_oid in split_oids(unpack_record(record)[2]):", "        if referred_oid in split_oids(unpack_record(record)[2][:8]):"),
    ('storage_c:gen_oid_class', T, "        if not classes or class_name in classes:", "        if not classes or class_name in classes[:1]:"),
    ('storage_c:get_census', T, "result.get(class_name, 0) + 1", "result.get(class_name, 1) + 1"),
    ('storage_c:get_reference_index', T, "            result.setdefault(ref, []).append(oid)", "            result.setdefault(oid, []).append(ref)"),
    ('storage_c:get_reference_index', T, "            result.setdefault(ref, []).append(oid)", "            result[ref] = [oid]"),
    ('storage_c:MemoryStorage_end', T, "        self.transaction = None\n\n    def sync", "        pass\n\n    def sync"),
    ('storage_c:MemoryStorage_begin', T, "        self.transaction = {}\n", "        self.transaction = self.transaction or {}\n"),
    ('storage_c:MemoryStorage_store', T, "        self.transaction[oid] = record\n", "        self.transaction[oid] = self.records[oid] = record\n"),
    ('storage_c:MemoryStorage_new_oid', T, "        self.oid += 1\n", "        self.oid = len(self.records)\n"),
    ('storage_c:bulk_load', T, "            yield self.load(oid)", "            yield self.load(oids[0])"),
]
N, Z = 'durus/connection.py', 'durus/serialize.py'
MUTANTS += [
    ('connection_c:OD_get', N, "            if value is not None and key not in self.dead:", "            if value is not None:"),
    ('connection_c:OD_setitem', N, "        self.dead.discard(key)\n", ""),
    ('connection_c:OD_delitem', N, "        self.dead.add(key)\n\n    def __contains__", "        pass\n\n    def __contains__"),
    ('connection_c:OD_clear_dead', N, "        while self.dead:\n            self.mapping.pop(self.dead.pop(), None)", "        for key in self.dead:\n            self.mapping.pop(key, None)"),
    ('connection_c:OD_len', N, "        return len(self.mapping) - len(self.dead)", "        return 0"),
    ('connection_c:RC_discard', N, "        if key in self.map:\n            del self.map[key]", "        self.map.clear()"),
    ('connection_c:build_heap', N, "            if obj._p_serial == transaction_serial:\n                continue # obj is current.  Leave it alone.\n", ""),
    ('connection_c:shrink', N, "            if obj._p_is_saved():\n                obj._p_set_status_ghost()\n                num_ghosted += 1", "            if not obj._p_is_ghost():\n                obj._p_set_status_ghost()\n                num_ghosted += 1"),
    ('connection_c:cache_delitem', N, "            assert obj._p_oid is None\n", ""),
    ('connection_c:persistent_load', Z, "    if obj is None or obj.__class__ is not klass:", "    if obj is None:"),
    ('connection_c:persistent_load', Z, "        cache_objects[oid] = obj\n", ""),
    ('connection_c:note_access', N, "        self.cache.recent_objects.add(obj)\n", ""),
    ('connection_c:handle_invalidations', N, "            if (obj._p_serial == self.transaction_serial or\n                oid in self.changed):", "            if oid in self.changed:"),
    ('connection_c:handle_invalidations', N, "            if (obj._p_serial == self.transaction_serial or\n                oid in self.changed):", "            if obj._p_serial == self.transaction_serial:"),
    ('connection_c:handle_invalidations', N, "                self.invalid_oids.add(oid)\n", ""),
    ('connection_c:handle_invalidations', N, "            elif not obj._p_is_ghost():", "            elif obj._p_is_unsaved():"),
    ('connection_c:reader_get_state', Z, "                s.write(decompressed)\n", "                s.write(decompressed[1:])\n"),
    ('connection_c:get_stored_pickle', N, "            self._handle_invalidations(invalid_oids, read_oid=oid)\n", ""),
    ('connection_c:get_stored_pickle', N, "        assert oid not in self.invalid_oids, \"still conflicted: missing abort()\"\n        try:", "        try:"),
    ('connection_c:sync_', N, "        self.invalid_oids.update(invalid_oids)\n", ""),
    ('connection_c:sync_', N, "            if obj is not None:\n                obj._p_set_status_ghost()\n        self.invalid_oids.clear()", "            if obj is not None and obj._p_is_unsaved():\n                obj._p_set_status_ghost()\n        self.invalid_oids.clear()"),
    ('connection_c:abort', N, "        for oid, obj in iteritems(self.changed):\n            obj._p_set_status_ghost()\n", ""),
    ('connection_c:abort', N, "        self.changed.clear()\n        self._sync()", "        self._sync()"),
    ('connection_c:load_state', N, "            raise ReadConflictError([oid])\n        state = self.reader.get_state(pickle)", "            return\n        state = self.reader.get_state(pickle)"),
    ('connection_c:load_state', N, "        state = self.reader.get_state(pickle)\n        obj.__setstate__(state)", "        state = self.reader.get_state(pickle)"),
    ('connection_c:conn_get', N, "        if obj is not None:\n            return obj\n        try:\n            data = self.get_stored_pickle(oid)", "        try:\n            data = self.get_stored_pickle(oid)"),
    ('connection_c:conn_get', N, "        obj = self.cache.get_instance(oid, klass, self)\n        state = self.reader.get_state(data, load=True)\n        obj.__setstate__(state)\n        obj._p_set_status_saved()\n        return obj", "        obj = self.cache.get_instance(oid, klass, self)\n        return obj"),
]
PL, PD, PS = 'durus/persistent_list.py', 'durus/persistent_dict.py', 'durus/persistent_set.py'
MUTANTS += [
    ('containers_c:Lappend', PL, "        self._p_note_change()\n        self.data.append(item)", "        self.data.append(item)"),
    ('containers_c:Lextend', PL, "            self.data.extend(other.data)\n", "            self.data.extend(other)\n"),
    ('containers_c:Liadd', PL, "            self.data += other.data\n", "            self.data = other.data\n"),
    ('containers_c:Lradd', PL, "            return self.__class__(other.data + self.data)", "            return self.__class__(self.data + other.data)"),
    ('containers_c:Lmul', PL, "        return self.__class__(self.data * n)", "        return self.data * n"),
    ('containers_c:Lle', PL, "        return self is other or self.data <= self.__cast(other)", "        return self.data < self.__cast(other)"),
    ('containers_c:Lpop', PL, "        return self.data.pop(i)", "        return self.data.pop()"),
    ('containers_c:Sdifference_update', PS, "        if other is self:\n            other = self.s\n", ""),
    ('containers_c:Sixor', PS, "            self.s ^= other\n", "            self.s |= other\n"),
    ('containers_c:Sdiscard', PS, "        self._p_note_change()\n        self.s.discard(item)", "        if item not in self.s:\n            self._p_note_change()\n        self.s.discard(item)"),
    ('containers_c:Srsub', PS, "        return self.__class__(other - self.s)", "        return self.__class__(self.s - other)"),
    ('containers_c:Sunion', PS, "        return self.__class__(self.s.union(*others))", "        return self.__class__(self.s.union(*others[:1]))"),
    ('containers_c:Dsetdefault', PD, "            self._p_note_change()\n            self.data[key] = failobj\n            return failobj", "            self.data[key] = failobj\n            return failobj"),
    ('containers_c:Dupdate', PD, "            else:\n                for k, v in other:\n                    self[k] = v", "            else:\n                for k, v in other:\n                    self.data[k] = k"),
    ('containers_c:Dupdate', PD, "        for kw in kwargs:\n            self[kw] = kwargs[kw]", "        if others:\n            return\n        for kw in kwargs:\n            self[kw] = kwargs[kw]"),
    ('containers_c:Dget', PD, "        return self.data.get(key, failobj)", "        return self.data.get(key) or failobj"),
    ('containers_c:Dclear', PD, "        self._p_note_change()\n        self.data.clear()", "        self.data.clear()\n        self.data and self._p_note_change()"),
    ('containers_c:Dinit', PD, "        self.data = dict(*args, **kwargs)", "        self.data = args[0] if args else dict(**kwargs)"),
]
PE = 'durus/persistent.py'
MUTANTS += [
    ('persistent_c:getattribute', PE, "                if self._p_status == GHOST:\n                    self._p_load_state()\n                connection", "                connection"),
    ('persistent_c:getattribute', PE, "                    self._p_serial != connection.transaction_serial):\n                    connection.note_access(self)", "                    self._p_serial < connection.transaction_serial - 1):\n                    connection.note_access(self)"),
    ('persistent_c:getattribute', PE, "name[:3] != '_p_' and name not in _GHOST_SAFE_ATTRIBUTES:\n                if", "name[:1] != '_' and name not in _GHOST_SAFE_ATTRIBUTES:\n                if"),
    ('persistent_c:setattr_', PE, "                self._p_note_change()\n            _setattribute(self, name, value)", "                self._p_set_status_unsaved()\n            _setattribute(self, name, value)"),
    ('persistent_c:setattr_', PE, "                self._p_note_change()\n            _setattribute(self, name, value)", "                _setattribute(self, name, value)\n                self._p_note_change()\n            else:\n                _setattribute(self, name, value)"),
    ('persistent_c:delattr_', PE, "        self._p_note_change()\n        _delattribute(self, name)", "        _delattribute(self, name)"),
    ('persistent_c:p_load_state', PE, "        self._p_connection.load_state(self)\n        self._p_set_status_saved()", "        self._p_set_status_saved()\n        self._p_connection.load_state(self)"),
    ('persistent_c:p_note_change', PE, "        if self._p_status != UNSAVED:\n", "        if self._p_status == SAVED:\n"),
    ('persistent_c:p_note_change', PE, "            self._p_set_status_unsaved()\n            self._p_connection.note_change(self)", "            self._p_connection.note_change(self)\n            self._p_set_status_unsaved()"),
    ('persistent_c:p_set_status_ghost', PE, "        self.__setstate__({})\n        _setattribute(self, '_p_status', GHOST)", "        _setattribute(self, '_p_status', GHOST)"),
    ('persistent_c:p_set_status_unsaved', PE, "        if self._p_status == GHOST:\n            self._p_load_state()\n        _setattribute(self, '_p_status', UNSAVED)", "        _setattribute(self, '_p_status', UNSAVED)"),
    ('persistent_c:getstate_', PE, "        if self._p_status == GHOST:\n            self._p_load_state()\n        state = {}", "        state = {}"),
    ('persistent_c:getstate_', PE, "            state.update(_getattribute(self, '__dict__'))\n", "            state = _getattribute(self, '__dict__')\n"),
    ('persistent_c:getstate_', PE, "            if klass is not PersistentBase:\n", "            if klass is self.__class__:\n"),
    ('persistent_c:setstate_', PE, "            _getattribute(self, '__dict__').clear()\n", "            pass\n"),
    ('persistent_c:setstate_', PE, "        for name in self._p_gen_data_slots():\n            _delattribute(self, name)\n", ""),
    ('persistent_c:persistent_setstate', PE, "        self_dict.clear()\n", ""),
    ('persistent_c:computed_invalidate', PE, "        self.__setstate__(None)\n        self._p_note_change()", "        self.__setstate__(None)"),
    ('persistent_c:computed_invalidate', PE, "        self.__setstate__(None)\n        self._p_note_change()", "        self._p_note_change()"),
    ('persistent_c:computed_get', PE, "            value = compute()\n            _setattribute(self, 'value', value)", "            value = compute()\n            self.value = value"),
]
BT = 'durus/btree.py'
MUTANTS += [
    ('btree_c:get_position', BT, "            if item[0] >= key:\n                return position", "            if item[0] > key:\n                return position"),
    ('btree_c:get_position', BT, "        return len(self.items)\n\n    def search", "        return len(self.items) - 1\n\n    def search"),
    ('btree_c:search', BT, "            return self.nodes[position].search(key)", "            return self.nodes[-1].search(key)"),
    ('btree_c:search', BT, "            return self.items[position]\n        elif", "            return self.items[position - 1]\n        elif"),
    ('btree_c:get_max_item', BT, "            return self.nodes[-1].get_max_item()", "            return self.nodes[-2].get_max_item()"),
    ('btree_c:insert_item', BT, "                self.nodes[position].insert_item(item)\n                self._count += self.nodes[position]._count - old_count\n\n", "                self.nodes[position].insert_item(item)\n                self._count += 1\n\n"),
    ('btree_c:insert_item', BT, "            self.items[position] = item\n            self._p_note_change()\n        elif", "            self.items[position] = item\n        elif"),
    ('btree_c:split_child', BT, "            bigger.nodes = child.nodes[middle + 1 :]\n            child.nodes = child.nodes[: middle + 1]", "            bigger.nodes = child.nodes[middle:]\n            child.nodes = child.nodes[: middle]"),
    ('btree_c:split_child', BT, "child._count -= bigger._count + 1", "child._count -= bigger._count"),
    ('btree_c:delete', BT, "                    extreme = upper_sibling.get_min_item()", "                    extreme = upper_sibling.get_max_item()"),
    ('btree_c:delete', BT, "                    del self.nodes[p + 1]\n                    node.delete(key)", "                    del self.nodes[p]\n                    node.delete(key)"),
    ('btree_c:delete', BT, "                            node._count += moved._count\n                            lower_sibling._count -= moved._count\n", "                            node._count += moved._count\n"),
    ('btree_c:delete', BT, "                        del lower_sibling.items[-1]\n                        lower_sibling._count -= 1", "                        del lower_sibling.items[0]\n                        lower_sibling._count -= 1"),
    ('btree_c:delete', BT, "            if not self.items:\n                # This can happen when self is the root node.\n                self.items = self.nodes[0].items\n                self.nodes = self.nodes[0].nodes", "            if not self.items:\n                # This can happen when self is the root node.\n                self.nodes = self.nodes[0].nodes"),
    ('btree_c:get_count', BT, "        result = len(self.items)\n        for node in self.nodes or []:\n            result += node.get_count()", "        result = 0\n        for node in self.nodes or []:\n            result += node.get_count()"),
    ('btree_c:node___iter__', BT, "            yield from self.nodes[-1]\n", ""),
    ('btree_c:node___reversed__', BT, "            for position in range(len(self.items) - 1, -1, -1):\n                yield self.items[position]\n                for item in reversed(self.nodes[position]):", "            for position in range(len(self.items) - 1, 0, -1):\n                yield self.items[position]\n                for item in reversed(self.nodes[position]):"),
    ('btree_c:node_iter_from', BT, "                for item in self.nodes[p + 1]:", "                for item in self.nodes[p]:"),
    ('btree_c:node_iter_backward_from', BT, "            for p in range(position - 1, -1, -1):", "            for p in range(position, -1, -1):"),
    ('btree_c:tree_items_from', BT, "            if closed or item[0] != key:\n                yield item", "            if closed and item[0] != key:\n                yield item"),
    ('btree_c:tree_items_backward_from', BT, "        if closed:\n            item = self.root.search(key)\n            if item is not None:\n                yield item\n", ""),
    ('btree_c:tree_items_range', BT, "                if closed_end or item[0] > end:\n                    yield item", "                if closed_end or item[0] >= end:\n                    yield item"),
    ('btree_c:tree_items_range', BT, "                if item[0] > end:\n                    break", "                if item[0] >= end:\n                    break"),
    ('btree_c:tree_iterkeys', BT, "        for item in self.root:\n            yield item[0]", "        for item in reversed(self.root):\n            yield item[0]"),
    ('btree_c:tree_add', BT, "            node.nodes = [self.root]\n            node._count = self.root._count", "            node.nodes = [self.root]"),
    ('btree_c:tree_delitem', BT, "        if self.root.search(key) is None:\n            raise KeyError(key) # Leave the tree as it is.\n", ""),
    ('btree_c:tree_setdefault', BT, "            self.add(key, value)\n            return value\n", "            return value\n"),
    ('btree_c:tree_get', BT, "        except KeyError:\n            return default", "        except KeyError:\n            return None"),
    ('btree_c:tree_update', BT, "            for key, value in item_sequence:\n                self[key] = value", "            for key, value in item_sequence:\n                self.setdefault(key, value)"),
    ('btree_c:tree_get_min_item', BT, "        assert self, 'empty BTree has no min item'\n        return self.root.get_min_item()", "        assert self, 'empty BTree has no min item'\n        return self.root.items[0]"),
    ('btree_c:tree_len', BT, "        return self.root._count\n", "        return len(self.root.items)\n"),
    ('btree_c:null_count__sub__', BT, "    def __sub__(self, other):\n        return self", "    def __sub__(self, other):\n        return -other"),
]
F = 'durus/file.py'
MUTANTS += [
    ('file_c:file_write', F, "    def write(self, s):\n        self.obtain_lock()", "    def write(self, s):\n        pass"),
    ('file_c:file_write', F, "            n += self.file.write(s[n:])", "            n += self.file.write(s[n:n+1]) + 1"),
    ('file_c:file_write', F, "        while n < len(s):\n            n += self.file.write(s[n:])\n", ""),
    ('file_c:file_truncate', F, "    def truncate(self):\n        self.obtain_lock()", "    def truncate(self):\n        pass"),
    ('file_c:file_obtain_lock', F, "        assert not self.is_readonly()\n        if not self.has_lock", "        if not self.has_lock"),
    ('file_c:file_obtain_lock', F, "                fcntl.flock(self.file, fcntl.LOCK_EX | fcntl.LOCK_NB)\n            self.has_lock = True", "                self.has_lock = True\n                fcntl.flock(self.file, fcntl.LOCK_EX | fcntl.LOCK_NB)"),
    ('file_c:file_release_lock', F, "                fcntl.flock(self.file, fcntl.LOCK_UN)", "                pass"),
    ('file_c:file_fsync', F, "            os.fsync(self.file)", "            pass"),
    ('file_c:file_rename', F, "        if os.name == 'nt' and exists(name):", "        if exists(name):"),
    ('file_c:file_rename', F, "        self.file = open(name, 'r+b', 0)\n        self.obtain_lock()", "        self.file = open(name, 'r+b', 0)"),
    ('file_c:file_link', F, "                os.link(self.get_name(), name)\n                return", "                os.link(name, self.get_name())\n                return"),
    ('file_c:file_init', F, "                    self.file = open(name, 'r+b', 0)\n            else:", "                    self.file = open(name, 'w+b', 0)\n            else:"),
    ('file_c:file_init', F, "                if readonly:\n                    self.file = open(name, 'rb')\n                else:\n                    self.file = open(name, 'r+b', 0)", "                self.file = open(name, 'r+b', 0)"),
]
FS = 'durus/file_storage.py'
H = 'durus/shelf.py'
MUTANTS += [
    ('shelf_c:Shelf_store', H, "            write_int8(self.file, 2**64 - 1)\n", "            write_int8(self.file, 0)\n"),
    ('shelf_c:Shelf_store', H, "            self.file.seek(start)\n            self.file.truncate()\n            raise\n        self.memory", "            self.file.seek(start)\n            raise\n        self.memory"),
    ('shelf_c:Shelf_store', H, "            write_int8(self.file, end - start - 8)", "            write_int8(self.file, end - start)"),
    ('shelf_c:Shelf_store', H, "                write(self.file, name)\n                write(self.file, value)\n            end", "                write(self.file, value)\n                write(self.file, name)\n            end"),
    ('shelf_c:Shelf_store', H, "                index[name] = new_position\n", "                self.memory_index[name] = new_position\n"),
    ('shelf_c:Shelf_get_position', H, "        p = self.memory_index.get(name, None)\n        if p is not None:\n            return p\n", ""),
    ('shelf_c:Shelf_get_position', H, "        self.file.seek(current)\n        if result", "        if result"),
    ('shelf_c:Shelf_get_position', H, "        if len(name) != 8:\n            raise ValueError(\"Expected a string with 8 bytes.\")\n        p =", "        p ="),
    ('shelf_c:Shelf_get_value', H, "        if position is None:\n            return None\n        else:\n            item", "        if not position or position > 10 ** 9:\n            return None\n        else:\n            item"),
    ('shelf_c:read_transaction_offsets', H, "        if file.tell() < transaction_end:\n            raise ShortRead\n", ""),
    ('shelf_c:read_transaction_offsets', H, "        if file.tell() != transaction_end:\n            raise ShortRead\n", ""),
    ('shelf_c:read_transaction_offsets', H, "                file.seek(transaction_start)\n                file.truncate()", "                file.truncate()"),
    ('shelf_c:read_transaction_offsets', H, "            transaction_offsets[identifier] = position", "            transaction_offsets.setdefault(identifier, position)"),
    ('shelf_c:read_transaction_offsets', H, "        if position > transaction_start:\n            if repair", "        if position > transaction_start + 8:\n            if repair"),
    ('shelf_c:OM_get', H, "        if result is None or result >= self.start:\n            return default", "        if result is None or result > self.start:\n            return default"),
    ('shelf_c:OM_iteritems', H, "            if number < self.start:\n                yield j, number", "            if number <= self.start:\n                yield j, number"),
    ('shelf_c:OM_stitch', H, "last_index + self.start\n                last_index = index", "last_index + self.start\n                last_index = index - 1"),
    ('shelf_c:OM_stitch', H, "        for index in xrange(0, len(self.int_array)):", "        for index in xrange(0, len(self.int_array) - 1):"),
    ('shelf_c:Shelf_next_name', H, "                    if name not in self.memory_index:\n                        yield name\n                # Now", "                    yield name\n                # Now"),
    ('shelf_c:Shelf_next_name', H, "                j = self.offset_map.get_array_size()\n", "                j = self.offset_map.get_array_size() - 1\n"),
    ('shelf_c:Shelf_next_name', H, "            self.unused_name_generator = generate_unused_names()\n        return next(self.unused_name_generator)", "            pass\n        return next(generate_unused_names())"),
    ('shelf_c:Shelf_iterindex', H, "                if name not in self.memory_index:\n                    yield name, position", "                yield name, position"),
    ('shelf_c:Shelf_iterindex', H, "            if position < self.offset_map.get_start():\n                name", "            if position < self.offset_map.get_start() - 60:\n                name"),
    ('shelf_c:Shelf_iteritems', H, "            assert item[0] == name, (name, item)\n            yield item", "            if item[1]: yield item"),
    ('filestorage_c:FileStorage_load', FS, "        if result is None:\n            raise DurusKeyError(oid)\n        return result", "        if not result and result is None:\n            return b''\n        return result"),
    ('filestorage_c:FileStorage_store', FS, "            self.begin()\n            raise ValueError(\"oid", "            raise ValueError(\"oid"),
    ('filestorage_c:FileStorage_store', FS, "            oid not in self.shelf and\n", ""),
    ('filestorage_c:FileStorage_store', FS, "        if (oid not in self.allocated_unused_oids and\n            oid not in self.shelf and", "        if (oid in self.invalid and oid not in self.allocated_unused_oids and\n            oid not in self.shelf and"),
    ('filestorage_c:FileStorage_end', FS, "        self.shelf.get_file().flush()\n        self.shelf.get_file().fsync()\n        if is", "        if is"),
    ('filestorage_c:FileStorage_end', FS, "        if self.pack_extra is not None:\n            self.pack_extra.update", "        if self.pack_extra:\n            self.pack_extra.update"),
    ('filestorage_c:FileStorage_end', FS, "        self.allocated_unused_oids -= set(self.pending_records)\n        self.begin()", "        self.begin()\n        self.allocated_unused_oids -= set(self.pending_records)"),
    ('filestorage_c:FileStorage_end', FS, "set(self.pending_records)\n        self.begin()", "set(self.pending_records)\n        pass"),
    ('filestorage_c:FileStorage_sync', FS, "        self.invalid.clear()\n", ""),
    ('filestorage_c:FileStorage_new_oid', FS, "            if name in self.allocated_unused_oids:\n                continue\n", ""),
    ('filestorage_c:FileStorage_new_oid', FS, "            if name in self.invalid:\n                continue\n", ""),
    ('filestorage_c:FileStorage_new_oid', FS, "            self.allocated_unused_oids.add(name)\n", ""),
    ('filestorage_c:FileStorage_get_packer', FS, "            for oid in self.pack_extra:\n                seen.discard(str_to_int8(oid))\n", ""),
    ('filestorage_c:FileStorage_get_packer', FS, "                shelf.store(self.gen_oid_record(start_oid=oid, seen=seen))\n            file.flush()\n            file.fsync()", "                shelf.store(self.gen_oid_record(start_oid=oid, seen=seen))"),
    ('filestorage_c:FileStorage_get_packer', FS, "                if hole >= shelf.get_offset_map().get_array_size():", "                if hole > shelf.get_offset_map().get_array_size():"),
    ('filestorage_c:FileStorage_get_packer', FS, "                oid for oid in removed if shelf.get_position(oid) is None)", "                oid for oid in removed)"),
    ('filestorage_c:FileStorage_get_packer', FS, "            for oid in self.pack_extra:\n                shelf.store(self.gen_oid_record(start_oid=oid, seen=seen))", "            for oid in self.pack_extra:\n                shelf.store([(oid, self.load(oid))])"),
    ('filestorage_c:FileStorage_get_packer', FS, "            self.shelf = shelf\n            self.pack_extra = None", "            self.shelf = shelf"),
    ('filestorage_c:FileStorage_get_packer', FS, "        self.pack_extra = set()\n        file_path", "        file_path"),
    ('filestorage_c:FileStorage_get_packer', FS, "            yield \"invalidations identified %s\" % datetime.now()\n            for oid in self.pack_extra:\n                seen.discard(str_to_int8(oid))\n", "            for oid in self.pack_extra:\n                seen.discard(str_to_int8(oid))\n            yield \"invalidations identified %s\" % datetime.now()\n"),
    ('filestorage_c:FileStorage_get_packer', FS, "            items = self.gen_oid_record(start_oid=int8_to_str(0), seen=seen)", "            items = self.gen_oid_record()"),
    ('filestorage_c:FileStorage_gen_oid_record', FS, "                seen.add(str_to_int8(oid))\n", ""),
    ('filestorage_c:FileStorage_gen_oid_record', FS, "                if str_to_int8(oid) in seen:\n                    continue\n", ""),
    ('filestorage_c:FileStorage_gen_oid_record', FS, "                for ref_oid in split_oids(refdata):\n                    heapq", "                for ref_oid in split_oids(refdata):\n                    if str_to_int8(ref_oid) < 2 ** 40: heapq"),
]
