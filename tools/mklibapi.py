"""spec/libapi.json: names and signatures of the third party libraries the package uses (taken once from the installed versions)"""
import inspect
import json
import sys

import numpy
import numpy.linalg
import tables

out = {'modules': {}, 'classes': {}, 'sigs': {}, 'versions': {'numpy': numpy.__version__, 'tables': tables.__version__}}


def sig(key, f):
    try:
        s = inspect.signature(f)
    except (TypeError, ValueError):
        return
    out['sigs'][key] = [[p.name, int(p.kind), p.default is not p.empty] for p in s.parameters.values()]


for mod in (numpy, numpy.linalg, tables):
    out['modules'][mod.__name__] = sorted(set(dir(mod)) | set(getattr(mod, '__all__', ())))
    for n in dir(mod):
        o = getattr(mod, n)
        if inspect.isfunction(o) or (callable(o) and not inspect.isclass(o) and not isinstance(o, numpy.ufunc)):
            sig(mod.__name__ + '.' + n, o)

FILE = tables.File
for name, cls in (('numpy.ndarray', numpy.ndarray), ('tables.File', tables.File), ('tables.Table', tables.Table),
                  ('tables.Group', tables.Group), ('tables.EArray', tables.EArray), ('tables.VLArray', tables.VLArray)):
    out['classes'][name] = sorted(dir(cls))
    for n in dir(cls):
        if not n.startswith('__'):
            sig(name + '.' + n, getattr(cls, n))
# attributes set on instances of tables.File
import os, tempfile
d = tempfile.mkdtemp()
f = tables.open_file(os.path.join(d, 'x.h5'), 'w')
out['classes']['tables.File'] = sorted(set(out['classes']['tables.File']) | set(f.__dict__))
f.close()
os.remove(os.path.join(d, 'x.h5'))
os.rmdir(d)
names = set()
import pkgutil, importlib, types
def eat(m):
    for n in dir(m):
        o = getattr(m, n, None)
        names.add(n)
        if isinstance(o, type):
            names.update(dir(o))
for m in (numpy, numpy.linalg, numpy.char, numpy.ma, numpy.fft, numpy.random, numpy.lib, numpy.rec, numpy.testing, numpy.dtypes, numpy.polynomial, numpy.exceptions):
    eat(m)
for i in pkgutil.iter_modules(tables.__path__, 'tables.'):
    if '.tests' in i.name or '.scripts' in i.name:
        continue
    try:
        eat(importlib.import_module(i.name))
    except Exception:
        pass
names.update(('_v_attrs', '_v_children'))
out['names'] = sorted(names)
json.dump(out, open(sys.argv[1], 'w'), indent=0, sort_keys=True)
