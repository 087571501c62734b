"""What the helpers of the record readers provide (checked on their own by property A02)."""


class vldata(object):
    def __init__(self, arr):
        self.arr = arr
        self.items = ()
        self.since = ()

    def add(self, seq):
        if seq is None:
            self.items = ()
        else:
            self.items = tuple(seq)
            self.since = self.since + self.items

    def write(self):
        emit('vlwrite', self.arr)


class recdata(object):
    def __init__(self, table, *vldata):
        self.table = table
        self.vldata = vldata

    def add(self, rec):
        emit('row', self.table.id, tuple(rec), tuple([(v.arr, v.items, v.since) for v in self.vldata]))
        for v in self.vldata:
            v.since = ()

    def write(self):
        emit('write', self.table.id)


class Row(object):
    def __init__(self, table):
        self.table = table

    def __setitem__(self, k, v):
        emit('field', self.table.id, k, v)

    def append(self):
        emit('rowdict', self.table.id)


class Table(object):
    def __init__(self, id):
        self.id = id
        self.row = Row(self)

    def flush(self):
        emit('write', self.id)

    def __getitem__(self, i):
        return tablerow(self.id, i)


class Mem(object):
    """a table that earlier records of the file have filled; what this record adds is visible at once"""

    def __init__(self, name):
        self.name = name
        self.new = {}

    def __setitem__(self, k, v):
        emit('learn', self.name, k, v)
        self.new[k] = v

    def __contains__(self, k):
        return k in self.new or has(self.name, k)

    def __getitem__(self, k):
        if k in self.new:
            return self.new[k]
        if has(self.name, k):
            return stored(self.name, k)
        raise KeyError(k)

    def get(self, k, default=None):
        if k in self.new:
            return self.new[k]
        if has(self.name, k):
            return stored(self.name, k)
        return default
