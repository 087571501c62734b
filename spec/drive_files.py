"""The file object handed to the classes of sequentialfiles (its content is set by the check)."""


class Stream(object):
    def __init__(self, content, ends):
        self.content = content
        self.ends = ends
        self.pos = 0
        self.closed = False

    def read(self, size=-1):
        if size is None or size < 0:
            data = self.content[self.pos:]
        else:
            data = self.content[self.pos:self.pos + size]
        self.pos += len(data)
        return data

    def readline(self):
        for end in self.ends:
            if end > self.pos:
                data = self.content[self.pos:end]
                self.pos = end
                return data
        data = self.content[self.pos:]
        self.pos += len(data)
        return data

    def __iter__(self):
        out = []
        while self.pos < len(self.content):
            out.append(self.readline())
        return iter(out)

    def __next__(self):
        if self.pos >= len(self.content):
            raise StopIteration()
        return self.readline()

    def tell(self):
        return self.pos

    def seek(self, offset, whence=0):
        if whence == 0:
            self.pos = offset
        elif whence == 1:
            self.pos += offset
        else:
            self.pos = len(self.content) + offset
        return self.pos

    def close(self):
        self.closed = True


def session(cls, steps, mode='r'):
    """results of a sequence of calls on one file; 'skip' works on the last header that was read"""
    f = cls('name', mode)
    last = None
    for op, args in steps:
        if op == 'skip':
            last = f.skip_restofrecord(last[0], last[1])
            emit('result', op, last)
        elif op == 'read_headerrec':
            last = f.read_headerrec()
            emit('result', op, last)
        else:
            emit('result', op, getattr(f, op)(*args))


class Sheet(object):
    """the file object handed to a writer"""
    def __init__(self):
        self.closed = False

    def write(self, text):
        if self.closed:
            emit('late', text)
        emit('write', text)
        return len(text)

    def writelines(self, texts):
        for t in texts:
            self.write(t)

    def flush(self):
        pass

    def tell(self):
        raise NotImplementedError('tell')

    def close(self):
        if not self.closed:
            emit('close')
        self.closed = True


def written(cls, steps):
    """the text a sequence of calls writes"""
    f = cls('name', 'w')
    for op, args in steps:
        emit('call', op)
        getattr(f, op)(*args)
    f.close()
    emit('end')


def vtu(cls, error, steps):
    """the document a sequence of calls writes"""
    v = cls('name')
    for op, args in steps:
        emit('call')
        try:
            getattr(v, op)(*args)
        except error:
            emit('refused')
        except Exception:
            emit('failed')
    emit('call')
    v.close()
    emit('end')
