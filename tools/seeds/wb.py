"""Tiny wasm writer and twiggy runner for the demonstrations."""
import csv as _csv
import io
import json
import os
import subprocess
import sys
import tempfile


def u(n):
    o = bytearray()
    while True:
        b = n & 0x7f
        n >>= 7
        if n:
            o.append(b | 0x80)
        else:
            o.append(b)
            return bytes(o)


def s(n):
    o = bytearray()
    while True:
        b = n & 0x7f
        n >>= 7
        if (n == 0 and not b & 0x40) or (n == -1 and b & 0x40):
            o.append(b)
            return bytes(o)
        o.append(b | 0x80)


def st(x):
    x = x.encode() if isinstance(x, str) else x
    return u(len(x)) + x


def vec(xs):
    return u(len(xs)) + b''.join(xs)


def sec(i, body):
    return bytes([i]) + u(len(body)) + body


def custom(name, body):
    return sec(0, st(name) + body)


I32, I64, F32, F64 = b'\x7f', b'\x7e', b'\x7d', b'\x7c'
NOP, END = b'\x01', b'\x0b'


def call(i):
    return b'\x10' + u(i)


def gget(i):
    return b'\x23' + u(i) + b'\x1a'


def gset(i):
    return b'\x41\x00\x24' + u(i)


def i32c(n):
    return b'\x41' + s(n)


def load(off=0, op=0x28, align=0):
    return bytes([op]) + u(align) + u(off) + b'\x1a'


class Mod:
    """fields are lists of already encoded entries; bodies = list of instruction bytes"""

    def __init__(m):
        m.types = [b'\x60\x00\x00']
        m.imports, m.funcs, m.tables, m.mems, m.globals, m.exports, m.elems, m.datas, m.bodies = [], [], [], [], [], [], [], [], []
        m.start = None
        m.names = {}
        m.modname = None
        m.pre, m.post = [], []      # raw sections before the first / after the last one
        m.datacount = None

    def imp(m, mod, name, kind=b'\x00\x00'):
        m.imports.append(st(mod) + st(name) + kind)

    def func(m, body=b'', pad=0, ty=0, locals_=b'\x00'):
        m.funcs.append(u(ty))
        b = locals_ + body + NOP * pad + END
        m.bodies.append(u(len(b)) + b)
        return len(m.funcs) - 1

    def export(m, name, idx, kind=0):
        m.exports.append(st(name) + bytes([kind]) + u(idx))

    def data(m, off, body):
        m.datas.append(b'\x00' + i32c(off) + END + st(body))

    def elem(m, off, idxs):
        m.elems.append(b'\x00' + i32c(off) + END + vec([u(i) for i in idxs]))

    def glob(m, init=b'\x41\x00', ty=I32, mut=1):
        m.globals.append(ty + bytes([mut]) + init + END)

    def build(m):
        o = b'\0asm\1\0\0\0' + b''.join(m.pre)
        for i, xs in ((1, m.types), (2, m.imports), (3, m.funcs), (4, m.tables), (5, m.mems), (6, m.globals), (7, m.exports)):
            if xs:
                o += sec(i, vec(xs))
        if m.start is not None:
            o += sec(8, u(m.start))
        if m.elems:
            o += sec(9, vec(m.elems))
        if m.datacount is not None:
            o += sec(12, u(m.datacount))
        if m.bodies:
            o += sec(10, vec(m.bodies))
        if m.datas:
            o += sec(11, vec(m.datas))
        if m.names or m.modname:
            b = b''
            if m.modname:
                b += sec(0, st(m.modname))
            if m.names:
                b += sec(1, vec([u(k) + st(v) for k, v in sorted(m.names.items())]))
            o += custom('name', b)
        return o + b''.join(m.post)


TW = os.path.join(os.getcwd(), 'target', 'debug', 'twiggy')
DIR = tempfile.mkdtemp()


def put(name, data):
    p = os.path.join(DIR, name)
    open(p, 'wb').write(data.build() if isinstance(data, Mod) else data)
    return p


def raw(*a):
    return subprocess.run([TW] + [str(x) for x in a], stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=DIR, timeout=120)


def tw(*a):
    r = raw(*a)
    assert r.returncode == 0, (a, r.returncode, r.stderr.decode()[:500])
    return r.stdout.decode()


def js(*a):
    return json.loads(tw(*a, '-f', 'json'))


def cs(*a):
    return list(_csv.DictReader(io.StringIO(tw(*a, '-f', 'csv'))))


def text(*a):
    """rows of a text table: list of cell lists"""
    ls = tw(*a).splitlines()
    return [[c.strip() for c in l.replace('┊', '│').split('│')] for l in ls[2:]]


def check(ok, *msg):
    if not ok:
        print('FAIL', *msg)
        sys.exit(1)


def same(a, b):
    check(a == b, '\n got', a, '\n want', b)
