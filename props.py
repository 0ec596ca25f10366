"""What the checks say of each property (level, scope, assumptions)."""
PROPS = {'C%02d' % i: {'level': 'exploration'} for i in range(1, 24)}
for p in ('C01', 'C08', 'C09', 'C10', 'C11'):
    PROPS[p]['level'] = 'proof'
for p in PROPS:
    PROPS[p]['factor'] = 16

FILES = 'files behave as the model of pyvc.natives.FileV says (a position, and bytes of which a write replaces or appends a part), and have less than 2**63 bytes'
COMMON = ['the models of the built-ins in pyvc/natives.py, z3 and the generator of obligations are trusted; partial correctness: termination is not shown',
          'no MemoryError, no recursion limit, no asynchronous exception']

def say(p, scope, note, *assumptions):
    PROPS[p].update(scope=scope, note=note, assumptions=COMMON + list(assumptions))

say('C01', 'every function of utils.py and serialize.py that encodes or decodes',
    'Proved for all inputs from the current source. Bounded besides: codec_* run the same contracts on samples.',
    'zlib and struct as modelled', 'sockets deliver any non-empty part of what was sent, or end')
say('C02', 'MemoryStorage; Shelf: __init__ (a new file, an existing file), get_position, __contains__, get_item_at_position, get_value, store, iterindex, __iter__, iteritems; OffsetMap; read_transaction_offsets; FileStorage.load, begin, store, end; the traversals of Storage',
    'Proved: in the contracts listed in the scope. Bounded: whole histories and reopenings of all the storages, FileStorage2, SqliteStorage and ClientStorage (storage_history, storage_create).',
    FILES, 'the initial transaction and the offset map of an existing file are well formed (generate_shelf and OffsetMap.generate are bounded), and its transactions have no record shorter than an oid')
say('C03', 'Shelf.__init__ on an existing file whose end is whole or torn; FileStorage.end (synced before it returns); Shelf.store: after any prefix of its bytes the file holds the complete transactions followed by a torn one, or all of the new one; read_transaction_offsets recognises both',
    'Proved: the crash points of Shelf.store for any file and any items, and the reading back of one transaction. Bounded: whole files of every storage class, cut off at every byte (crash_*).',
    FILES, 'a crash leaves a prefix of the bytes written since the last fsync')
say('C04', 'MemoryStorage.begin/end; FileStorage.begin/end; Connection.abort; Shelf.store (an error leaves the file, the index and the position as they were)',
    'Proved: in the contracts listed in the scope. Bounded: failing writes after any number of bytes in all storages, failing commits of connections (storage_failures, conn_graph, object_lifecycle).',
    FILES, 'truncating a file to an earlier length does not fail')
say('C05', 'Storage.gen_oid_record, FileStorage.gen_oid_record: what a pack copies is the closure of the root under references; FileStorage.get_packer: with any commits between its steps',
    'Proved: the traversal and the packer of FileStorage. Bounded: the packers of the other storages (storage_pack, server_pack).',
    'the graph of records is closed (C17)', 'generate_shelf makes a shelf of exactly the items it is given; writing the new file does not fail')
say('C06', 'Storage.gen_oid_record, FileStorage.gen_oid_record, MemoryStorage.sync, FileStorage.get_packer and sync', 'Proved: the traversal, the packer of FileStorage and what sync reports. Bounded: the packers of the other storages (storage_garbage, storage_pack, server_pack).', 'the graph of records is closed (C17)', 'generate_shelf makes a shelf of exactly the items it is given')
say('C07', 'StorageServer._new_oids, handle_M, handle_C; ClientStorage.new_oid, end; MemoryStorage.new_oid; FileStorage.new_oid and get_packer; Shelf.next_name; OffsetMap.gen_holes',
    'Proved: allocation by the server and use by the client. Bounded: FileStorage2, SqliteStorage, and all of them across packs and reopenings (storage_oids, storage_surprise, server_reuse).',
    'the storage of the server allocates as its contract says', 'the words of the offset map that next_name follows do not change between its steps')
say('C08', 'Byte, ByteArray, BitArray, WordArray, IntArray, IntSet (utils.py) and OffsetMap (shelf.py): every method but OffsetMap.__init__ and generate',
    'Proved for files, indices and values of any size, including frames (no other byte changes). Bounded besides: array_*.', FILES)
say('C09', 'every method of BNode and BTree but BTree.__init__, set_bnode_minimum_degree and get_node_count',
    'Proved: for trees of any size and degree, by recursion over the contracts of the nodes. Bounded besides: btree_* (all small trees, degrees 2 to 10, stored trees).',
    'keys are totally ordered with a consistent ==, and comparisons neither fail nor change the tree', 'the nodes of a tree form a tree, and are of one class', 'no error while a node is loaded in the middle of an operation',
    'lists are sequences with insert, delete, slice and concatenation; the position of an item in the tree is a function of the positions in the nodes (prefix sums)')
say('C10', 'BNode/BTree: __iter__, __reversed__, iteritems, items_from, items_backward(_from), items_range and what they call',
    'Proved: each generator yields exactly the items within its bounds, in order, for trees of any size. Bounded besides: btree_ranges, btree_stored.',
    'as for C09', 'the tree does not change while it is iterated')
say('C11', 'every method of PersistentList, PersistentSet, PersistentDict (but __repr__ and what they inherit from the abc mixins); the nodes of a BTree note their changes',
    'Proved: against uninterpreted functions that stand for the built-in operations. Bounded besides: container_* compare with the built-in types, with pure Python and with C base classes.',
    'arguments do not fail in the middle of their iteration', '*others has at most two elements', 'the base class is the pure Python one (the C one is compared in bounded runs)')
say('C12', 'every method of PersistentBase, PersistentObject, Persistent and ComputedAttribute in pure Python; Connection.load_state, note_change, abort',
    'Proved: the Python implementation. Bounded: the C implementation (object_*, on both).', 'load_state of the connection either gives a ghost its attributes, or raises and leaves it a ghost')
say('C13', 'FileStorage.sync; Connection._handle_invalidations, _sync, load_state, note_access, abort',
    'Proved: the invariant of a connection, preserved by each of them; conflicts exactly when an object in use was invalidated. Bounded: Connection.commit and several clients of one server (conn_transactions, conn_bank).',
    'weak reference callbacks only mark keys', '__getstate__ and __setstate__ do nothing else')
say('C14', 'as C13', 'Proved: as C13. Bounded: every read of several clients compared with the history (conn_transactions).', 'as for C13')
say('C15', 'every request handler of StorageServer, ClientStorage.sync and end', 'Proved: one request at a time, from any state of server and clients. Bounded: whole sessions (server_protocol, server_faulty).',
    'the storage behaves as its contract says; pack raises nothing', 'fewer than 2**32 oids are invalid for one client')
say('C16', 'every request handler, every request of ClientStorage; read and write of utils.py', 'Proved: what is read is what one answer writes, for any fragmentation. Bounded: client_in_step, client_answers, server_protocol.',
    'sockets deliver any non-empty part of what was sent, or end')
say('C17', 'ObjectReader.get_state, Connection.load_state', 'Proved: reading. Bounded: writing (ObjectWriter and pickle, Connection.commit): conn_graph, conn_bank decode every record independently.', 'the pickle module is inverse to itself')
say('C18', 'ObjectDictionary, ReferenceContainer, Cache, shrink_cache', 'Proved: in the contracts listed in the scope. Bounded: conn_cache, conn_cache_size.', 'local variables keep objects alive; weak references end only between statements')
say('C19', 'durus.file.File over a model of the file system with locks', 'Proved: the methods of File. Bounded: two storages on one file, across packs, for each class; read-only storages (crash_locks, crash_readonly, crash_file_wrapper).',
    'flock, rename and link behave as the model in contracts/file_c.py; the branches of other systems (nt) are not covered')
say('C20', 'Storage.gen_oid_record, FileStorage.gen_oid_record, gen_referring_oid_record, gen_oid_class, get_census, get_reference_index', 'Proved: for any records and batch size. Bounded: the crawls of a connection (conn_crawl, storage_traversal).',
    'the graph of records is closed (C17); the order of the heap is not modelled')
say('C21', 'read_transaction_offsets, Shelf.has_format, Shelf.__init__ on an existing file', 'Proved: a file of another format is refused, and the end of a Shelf is repaired only when asked. Bounded: every class of file, cut at every byte (crash_cut_file, crash_foreign).', FILES)
say('C22', 'File.rename, FileStorage.get_packer (the new file takes the name only when it is complete and synced), handle_P, ClientStorage.pack', 'Proved: in the contracts listed in the scope. Bounded: a crash at every step of a pack (crash_pack).', 'fsync and rename as POSIX says')
say('C23', 'StorageServer.handle, handle_C; FileStorage.store; unpack_record', 'Proved: a commit that is refused stores nothing and changes nothing. Bounded: server_faulty.', 'the storage behaves as its contract says')
