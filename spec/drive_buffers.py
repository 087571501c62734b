"""Uses of the row buffer and the item buffer of the parser (property A02)."""


class Arr(object):
    """an extendable array that already has items"""

    def __init__(self, name):
        self.name = name

    def __len__(self):
        return length(self.name)

    @property
    def nrows(self):
        return length(self.name)

    def append(self, items):
        emit('append', self.name, tuple(items))

    def flush(self):
        pass


class Tab(object):
    def __init__(self, dtype):
        self.dtype = dtype

    def append(self, rows):
        emit('append', 'table', tuple(rows))

    def flush(self):
        pass


def block(nrec, narr):
    """one block of records of a record type with some arrays"""
    arrs = [Arr('array %d' % k) for k in range(narr)]
    vls = [vldata(a) for a in arrs]
    recs = recdata(Tab(dtype), *vls)
    for k in range(nrec):
        for j in range(narr):
            vls[j].add(items(k, j))
        recs.add(record(k))
    recs.write()


class Node(object):
    def __init__(self, kind, where, name):
        self.kind = kind
        self.where = where
        self.name = name

    def __len__(self):
        return 1


def twice(name):
    """the tables of a record type, asked for by two blocks of records"""
    a = get_table(name, out)
    b = get_table(name, out)
    emit('got', a, b)
