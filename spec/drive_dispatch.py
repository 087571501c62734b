"""A source of records and a reader standing for all record readers (see check of A03)."""


class Source(object):
    def __init__(self, recs):
        self.recs = recs
        self.k = -1

    def read_headerrec(self):
        self.k += 1
        if self.k >= len(self.recs):
            emit('end of data')
            return '', ()
        return self.recs[self.k]

    def skip_restofrecord(self, rec_name, rec):
        emit('skip', self.k, rec_name, rec)
        return self.read_headerrec()

    def read_floatrec(self, skipfirst=0):
        emit('line', self.k)
        return (0., 0., 0., 0.)

    def read_stringrec(self):
        emit('line', self.k)
        return ''

    def read_floats(self, n, skipfirst=0):
        emit('numbers', self.k, n)
        return ()

    def at_headerrec(self):
        return True


def reader(rec_name, rec, in_file, out_file):
    name = rec_name
    while rec_name == name:
        emit('read', in_file.k, rec_name, rec)
        rec_name, rec = in_file.read_headerrec()
    return rec_name, rec


def parse(recs, out_file, only):
    parse_file(Source(recs), out_file, only)


def parse_default(recs, out_file):
    parse_file(Source(recs), out_file)
