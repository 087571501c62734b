"""The world around a conversion: a file system, and an HDF5 library that keeps groups, tables and attributes.

`emit`, `may_fail`, `content_of`, `exists`, `opened` are provided by the check."""


import tables


class Failure(Exception):
    pass


class FileNotFound(Exception):
    pass


class Handle(object):
    """an open sequential file"""
    def __init__(self, name, mode, content, ends):
        self.name = name
        self.mode = mode
        self.content = content
        self.ends = ends
        self.pos = 0
        self.started = False
        self.closed = False

    def first(self):
        if not self.started:
            self.started = True
            may_fail('reading a file')

    def read(self, size=-1):
        self.first()
        if size is None or size < 0:
            data = self.content[self.pos:]
        else:
            data = self.content[self.pos:self.pos + size]
        self.pos += len(data)
        return data

    def readline(self):
        self.first()
        for end in self.ends:
            if end > self.pos:
                data = self.content[self.pos:end]
                self.pos = end
                return data
        data = self.content[self.pos:]
        self.pos += len(data)
        return data

    def __iter__(self):
        return self

    def __next__(self):
        if self.pos >= len(self.content):
            raise StopIteration()
        return self.readline()

    def peek(self, size=0):
        return self.content[self.pos:]

    def tell(self):
        return self.pos

    def seek(self, offset, whence=0):
        if whence == 0:
            self.pos = offset
        elif whence == 1:
            self.pos += offset
        else:
            self.pos = len(self.content) + offset
        return self.pos

    def readable(self):
        return True

    def write(self, data):
        emit('write', self.name, data)

    def flush(self):
        pass

    def close(self):
        if not self.closed:
            self.closed = True
            emit('close', self)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()


def open_(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    name = file
    may_fail('opening a file')
    if not exists(name):
        raise FileNotFound()
    h = Handle(name, mode, content_of(name, mode), ends_of(name))
    opened(h)
    emit('open', h, name, mode)
    return h


def open_hdf5(filename, mode='r', title='', root_uep='/', filters=None, driver=None, driver_core_backing_store=1,
              **kw):
    name = filename
    may_fail('opening the HDF5 file')
    h = stored(name, mode, groups_of(name, mode))
    opened(h)
    emit('open_file', h, name, mode, driver, driver_core_backing_store)
    return h


def norm(where, name):
    if isinstance(where, Group):
        where = where._v_pathname
    if name:
        where = where + '/' + name
    return path_of(where)


class Group(object):
    """a group; what is on it is known to its file"""
    def __init__(self, file, path):
        self._v_file = file
        self._v_pathname = path
        self._v_attrs = Attrs(self)
        self.attrs = {}
        self.symbol = group_symbol(path)
        self._v_name = last_name(path)
        self._v_depth = depth_of(path)
        self.groups = []

    def _f_setattr(self, name, value):
        may_fail('setting an attribute')
        emit('attribute', self._v_pathname, name, value)
        self.attrs[name] = value

    def _f_getattr(self, name):
        may_fail('reading an attribute')
        if name not in self.attrs:
            raise AttributeError()
        return self.attrs[name]

    def __contains__(self, name):
        return name in [g._v_name for g in self.groups]

    def __iter__(self):
        return iter(self._f_list_nodes())

    @property
    def _v_groups(self):
        return {g._v_name: g for g in self.groups}

    @property
    def _v_children(self):
        return self._v_groups

    @property
    def _v_parent(self):
        return self._v_file.parent(self)

    @property
    def _v_nchildren(self):
        return len(self.groups)

    def _f_list_nodes(self, classname=None):
        may_fail('listing groups')
        if classname is None or classname == 'Group':
            return list(self.groups)
        return []

    def _f_iter_nodes(self, classname=None):
        return iter(self._f_list_nodes(classname))

    def _f_get_child(self, name):
        for g in self.groups:
            if same_path(g._v_name, name):
                return g
        return self.symbol._f_get_child(name)

    def _f_walk_groups(self):
        out = [self]
        for g in self.groups:
            out = out + g._f_walk_groups()
        return out

    def _f_close(self):
        pass


class Attrs(object):
    def __init__(self, group):
        self.__dict__['group'] = group

    def __setattr__(self, name, value):
        self.__dict__['group']._f_setattr(name, value)

    def __setitem__(self, name, value):
        self.__dict__['group']._f_setattr(name, value)

    def __getattr__(self, name):
        return self.__dict__['group']._f_getattr(name)

    def __getitem__(self, name):
        g = self.__dict__['group']
        if name not in g.attrs:
            raise KeyError(name)
        return g.attrs[name]

    def __contains__(self, name):
        return name in self.__dict__['group'].attrs


class Hdf5(tables.File):
    def __init__(self, name, mode):
        self.filename = name
        self.mode = mode
        self.closed = False
        self.isopen = 1
        self.root = Group(self, '/')
        self.kept = keeps()
        self.all = [self.root]

    def at(self, path):
        """the group at a path"""
        if self.kept:
            for g in self.all:
                if same_path(g._v_pathname, path):
                    return g
            raise tables.NoSuchNodeError()
        return Group(self, path)

    def made(self, path):
        """the group at a path, created if need be"""
        if not self.kept:
            return Group(self, path)
        for g in self.all:
            if same_path(g._v_pathname, path):
                return g
        up = self.made(parent_of(path))
        g = Group(self, path)
        self.all.append(g)
        up.groups.append(g)
        return g

    def parent(self, group):
        return self.at(parent_of(group._v_pathname))

    def create_table(self, where, name, description=None, title='', filters=None, expectedrows=10000,
                     chunkshape=None, byteorder=None, createparents=False, obj=None, track_times=True):
        may_fail('creating a table')
        emit('table', self, norm(where, None), name)
        self.made(norm(where, None))
        return Table(name, column_names(description))

    def create_earray(self, where, name, atom=None, shape=None, title='', filters=None, expectedrows=1000,
                      chunkshape=None, byteorder=None, createparents=False, obj=None, track_times=True):
        may_fail('creating an array')
        emit('array', self, norm(where, None), name)
        self.made(norm(where, None))
        return EArray(name)

    def create_group(self, where, name, title='', filters=None, createparents=False, track_times=True):
        may_fail('creating a group')
        return self.made(norm(where, name))

    def get_node(self, where, name=None, classname=None):
        may_fail('looking up a group')
        return self.at(norm(where, name))

    def set_node_attr(self, where, attrname, attrvalue, name=None):
        self.at(norm(where, name))._f_setattr(attrname, attrvalue)

    def get_node_attr(self, where, attrname, name=None):
        return self.at(norm(where, name))._f_getattr(attrname)

    def list_nodes(self, where, classname=None):
        return self.at(norm(where, None))._f_list_nodes(classname)

    def iter_nodes(self, where, classname=None):
        return iter(self.list_nodes(where, classname))

    def walk_groups(self, where='/'):
        return iter(self.at(norm(where, None))._f_walk_groups())

    def flush(self):
        pass

    def close(self):
        if not self.closed:
            self.closed = True
            self.isopen = 0
            emit('close', self)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()


def stored(name, mode, groups):
    """an HDF5 file with given groups [(path, {attribute: value})]"""
    h = Hdf5(name, mode)
    for path, attrs in groups:
        g = h.made(path)
        g.attrs = dict(attrs)
    return h


class EArray(object):
    def __init__(self, name):
        self.name = name
        self.items = []

    def __len__(self):
        return len(self.items)

    @property
    def nrows(self):
        return len(self.items)

    def append(self, seq):
        may_fail('writing items')
        new = items_of(seq)
        emit('items', self.name, new)
        self.items.extend(new)

    def flush(self):
        pass

    def __getitem__(self, k):
        return self.items[k]


class Row(object):
    def __init__(self, names, values):
        self.names = names
        self.values = values

    def __getitem__(self, name):
        if isinstance(name, str):
            return self.values[self.names.index(name)]
        return self.values[name]

    def fetch_all_fields(self):
        return self

    def __iter__(self):
        return iter(self.values)


class NewRow(object):
    def __init__(self, table):
        self.table = table
        self.values = {}

    def __setitem__(self, name, value):
        self.values[name] = value

    def append(self):
        may_fail('writing a row')
        values = [self.values.get(n, 0) for n in self.table.names]
        emit('row', self.table.name, values)
        self.table.rows.append(Row(self.table.names, values))


class Table(object):
    def __init__(self, name, names):
        self.name = name
        self.names = names
        self.rows = []
        self.dtype = 'dtype of ' + name
        self.row = NewRow(self)
        self.colnames = names

    def append(self, rows):
        may_fail('writing rows')
        for r in rows:
            values = [whole(x) for x in r]
            emit('row', self.name, values)
            self.rows.append(Row(self.names, values))

    def flush(self):
        pass

    def __len__(self):
        return len(self.rows)

    @property
    def nrows(self):
        return len(self.rows)

    def __getitem__(self, k):
        return self.rows[k]

    def __iter__(self):
        return iter(self.rows)

    def iterrows(self, start=None, stop=None, step=None):
        return iter(self.rows[start:stop:step])

    def read(self, start=None, stop=None, step=None, field=None):
        rows = self.rows[start:stop:step]
        if field is None:
            return rows
        return [r[field] for r in rows]

    def col(self, name):
        return [r[name] for r in self.rows]


class Buffer(object):
    """np.empty(n, dtype)"""
    def __init__(self, size):
        self.size = size
        self.items = []

    def __len__(self):
        return self.size

    def __setitem__(self, k, value):
        if k == len(self.items):
            self.items.append(value)
        else:
            self.items[k] = value

    def __getitem__(self, k):
        return self.items[k]

    def __iter__(self):
        return iter(self.items)


class Closing(object):
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, *args):
        self.thing.close()


class ExitStack(object):
    def __init__(self):
        self.calls = []

    def __enter__(self):
        return self

    def enter_context(self, thing):
        r = thing.__enter__()
        self.calls.append((thing.__exit__, (None, None, None)))
        return r

    def callback(self, f, *args):
        self.calls.append((f, args))
        return f

    def push(self, thing):
        self.calls.append((thing.__exit__, (None, None, None)))
        return thing

    def pop_all(self):
        r = ExitStack()
        r.calls = self.calls
        self.calls = []
        return r

    def close(self):
        for f, args in reversed(self.calls):
            f(*args)
        self.calls = []

    def __exit__(self, *args):
        self.close()


def convert(steps):
    """a sequence of conversions in one session"""
    for args, kw in steps:
        emit('begin')
        try:
            r = sif2hdf5(*args, **kw)
        except Exception as e:
            emit('failed', e)
        else:
            emit('done', r)


def once(steps):
    """one conversion, failures escape"""
    for args, kw in steps:
        r = sif2hdf5(*args, **kw)
    return r


# ---------------------------------------------------------------- File objects
def listing(f, absent, default):
    """all that the dict interface of a File shows"""
    emit('keys', list(f.keys()))
    emit('values', list(f.values()))
    emit('items', list(f.items()))
    emit('iter', [x for x in f])
    for k in list(f.keys()):
        emit('item', k, f[k], f.get(k), f.get(k, default), k in f)
    emit('absent', f.get(absent), f.get(absent, default), absent in f)
    try:
        emit('found', f[absent])
    except KeyError:
        emit('keyerror')


def pairs(f):
    return list(f.items())


def attributes_of(x):
    return x.__dict__


def texts(x):
    return str(x), repr(x), '{}'.format(x)
