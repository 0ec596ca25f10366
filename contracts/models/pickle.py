"""
What pickle.Pickler and pickle.Unpickler do with the pickles of a record (a class, then a state),
as far as serialize.py depends on it.  The functions with an underscore are given by
contracts/objects.py.
"""

class Pickler(object):
    def __init__(self, file, protocol):
        self.file = file
        self.memo = None            # None: empty; else the class that has been pickled
    def clear_memo(self):
        self.memo = None
    def dump(self, x):
        _may_fail()
        for obj in _references(x):
            self.persistent_id(obj)
        self.file.write(_pickled(self, x))

class Unpickler(object):
    def __init__(self, file):
        self.file = file
        self.memo = None
    def load(self):
        _may_fail()
        if self.memo is None:
            self.memo = _load_class(self.file)
            return self.memo
        state = _load_state(self.file, self.memo)
        for oid_class in _references_in(state):
            _same_class(oid_class)
            self.persistent_load(oid_class)
        return state
