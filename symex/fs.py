"""In-memory file system, standard streams and temporary files for symbolic
paths.  Semantics of text mode (universal newlines, newline translation on
write, chunked decoding, tell/seek, buffered writes) follow io.TextIOWrapper."""
import builtins
import codecs
import io
import os
import pathlib
import shutil
import stat as stat_mod
import sys
import tempfile

from . import core, rt
from .core import decide, tobool, CrashPoint
from .sym import SymStr, SymBytes, SymNum, mk, elems, el_eq, isstr, sjoin

CHUNK = 8192
BAD = '\udcff'       # stands for one undecodable byte in a stored file


class Node:
    def __init__(self, data=(), mode=0o644):
        self.data = tuple(data)
        self.mode = mode


class FS:
    def __init__(self):
        self.files = {}
        self.links = {}           # symbolic links: path to target path
        self.xdev = False         # is the directory for temporary files on another file system?
        self.dirs = {'/vfs', '/vfs/tmp'}
        self.ntemp = 0
        self.dead = False
        self.ops = []
        self.hook = None          # called before each mutating operation
        self.log_reads = []

    def op(self, name, path=None):
        if self.dead:
            raise CrashPoint()
        self.ops.append((name, path))
        if self.hook:
            try:
                self.hook(len(self.ops) - 1, name, path)
            except CrashPoint:
                self.dead = True
                raise


F = FS()
stdin = None


def reset():
    global F
    F = FS()


def key(p):
    """the normalised path of a file, links followed"""
    p = lkey(p)
    for _ in range(40):
        if p not in F.links:
            return p
        p = F.links[p]
    raise OSError(40, 'Too many levels of symbolic links')


def lkey(p):
    if isinstance(p, SymFile):
        p = p.name
    p = rt.force(p)
    p = os.fspath(p)
    if isinstance(p, bytes):
        p = p.decode()
    if not p.startswith('/'):
        p = '/vfs/' + p
    return os.path.normpath(p)


def is_real(p):
    """paths of the real system that code may legitimately read"""
    return not p.startswith('/vfs/') and p not in F.files and os.path.exists(p) and not p.startswith(tmpdir())


def tmpdir():
    return '/vfs/tmp'


def tobytes(r):
    return r.encode('utf-8', 'surrogateescape') if type(r) is str else SymBytes(r, 'utf-8', 'surrogateescape')


class SymFile:
    __symex_stub__ = True

    def __init__(self, path, mode='r', newline=None, data=None, seekable=True, name=None, delete=False, encoding=None):
        self.path = path
        self.name = name if name is not None else path
        self.mode = mode
        self.newline = newline
        self.encoding = encoding or 'UTF-8'
        self.closed = False
        self._seek = seekable
        self.binary = 'b' in mode
        self.writing = any(c in mode for c in 'wax+')
        self.buf = []
        self.pos = 0
        self.iterating = False
        self.delete = delete
        self.errors = 'strict'
        self.enc = 'utf-8'
        self.fresh = False
        if data is not None:
            self.raw = tuple(data)
        else:
            self.raw = F.files[path].data if path in F.files else ()
        self.chunk_end = 0
        if 'a' in mode:
            self.pos = len(self.raw)

    # ---- context
    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def _chk(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    # ---- reading
    def _more(self, n=CHUNK):
        """decode one more chunk"""
        a = max(self.chunk_end, self.pos)
        b = min(a + n, len(self.raw)) if n is not None else len(self.raw)
        if not self.binary:
            for e in self.raw[a:b]:
                if type(e) is str and '\udc80' <= e <= '\udcff':
                    if self.errors == 'strict':
                        raise UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'invalid start byte')
        self.chunk_end = b
        return b > a

    def readline(self, size=-1):
        core.tick()
        self._chk()
        if self.writing and '+' not in self.mode:
            raise io.UnsupportedOperation('not readable')
        out = []
        size = rt.norm_idx(size)
        raw, n = self.raw, len(self.raw)
        i = self.pos
        while i < n:
            if i >= self.chunk_end and not self._more():
                break
            e = raw[i]
            i += 1
            if self.newline in (None, '', '\n'):
                if (e == '\n') if type(e) is str else decide(tobool(el_eq(e, '\n'))):
                    out.append('\n')
                    break
            if self.newline in (None, '', '\r', '\r\n'):
                if (e == '\r') if type(e) is str else decide(tobool(el_eq(e, '\r'))):
                    nl = False
                    if i < n and self.newline != '\r':
                        if i >= self.chunk_end:
                            self._more()
                        f = raw[i]
                        nl = (f == '\n') if type(f) is str else decide(tobool(el_eq(f, '\n')))
                    if self.newline is None:
                        if nl:
                            i += 1
                        out.append('\n')
                        break
                    if self.newline == '':
                        out.append(e)
                        if nl:
                            out.append('\n')
                            i += 1
                        break
                    if self.newline == '\r':
                        out.append(e)
                        break
                    if nl:
                        out.append(e)
                        out.append('\n')
                        i += 1
                        break
            out.append(e)
            if size >= 0 and len(out) >= size:
                break
        self.pos = i
        r = mk(out)
        return tobytes(r) if self.binary else r

    def read(self, size=-1):
        self._chk()
        size = -1 if size is None else rt.norm_idx(size)
        if size < 0:
            self._more(None)
        out = []
        i, n = self.pos, len(self.raw)
        while i < n and (size < 0 or len(out) < size):
            if i >= self.chunk_end:
                self._more()
            e = self.raw[i]
            i += 1
            if self.newline is None and not self.binary:
                if (e == '\r') if type(e) is str else decide(tobool(el_eq(e, '\r'))):
                    if i < n:
                        f = self.raw[i]
                        if (f == '\n') if type(f) is str else decide(tobool(el_eq(f, '\n'))):
                            i += 1
                    out.append('\n')
                    continue
            out.append(e)
        self.pos = i
        r = mk(out)
        return tobytes(r) if self.binary else r

    def readlines(self, hint=-1):
        out = []
        while True:
            line = self.readline()
            if not line:
                return out
            out.append(line)

    def __iter__(self):
        return self

    def __next__(self):
        line = self.readline()
        if not line:
            self.iterating = False
            raise StopIteration
        self.iterating = True
        return line

    def tell(self):
        self._chk()
        if not self._seek:
            raise io.UnsupportedOperation('underlying stream is not seekable')
        if self.iterating and not self.binary:
            raise OSError('telling position disabled by next() call')
        return self.pos

    def seek(self, pos, whence=0):
        self._chk()
        if not self._seek:
            raise io.UnsupportedOperation('underlying stream is not seekable')
        pos = rt.norm_idx(pos)
        if whence == 2:
            pos = len(self.raw)
        elif whence == 1:
            pos = self.pos
        if self.writing:
            self.flush()
        self.pos = pos
        self.chunk_end = pos
        self.iterating = False
        return pos

    def seekable(self): return self._seek
    def readable(self): return not self.writing or '+' in self.mode
    def writable(self): return self.writing
    def isatty(self): return False
    def fileno(self): return 3
    def reconfigure(self, **k): pass

    @property
    def buffer(self):
        f = SymFile(self.path, 'rb', None, self.raw, self._seek)
        return f

    # ---- writing
    def write(self, s):
        self._chk()
        if not self.writing:
            raise io.UnsupportedOperation('not writable')
        F.op('write', self.path)
        if isinstance(s, SymBytes):
            s = s.s
        if isinstance(s, (bytes, bytearray)):
            s = bytes(s).decode('utf-8', 'surrogateescape')
        if not isstr(s):
            raise TypeError('write() argument must be str, not ' + type(s).__name__)
        nl = None if self.binary else self.newline
        if not self.binary:
            s = self._encode(s)
        for e in elems(s):
            if nl in ('\r', '\r\n') and ((e == '\n') if type(e) is str else decide(tobool(el_eq(e, '\n')))):
                self.buf.extend(nl)
            else:
                self.buf.append(e)
        return len(s)

    def _encode(self, s):
        out = []
        if self.enc == 'utf-8-sig' and self.fresh:
            out.append('\ufeff')
        self.fresh = False
        if self.enc in ('utf-8', 'utf-8-sig'):
            es = elems(s)
            if any(type(e) is str and '\ud800' <= e <= '\udfff' for e in es):
                for e in es:
                    if type(e) is str and '\ud800' <= e <= '\udfff':
                        e = e.encode('utf-8', self.errors).decode('utf-8', 'surrogateescape')
                        out.extend(e)
                    else:
                        out.append(e)
                return mk(out)
            return mk(out + list(es)) if out else s
        run = b''
        for e in elems(s):
            if type(e) is not str:
                if _ascii(e):
                    out.extend(run.decode('utf-8', 'surrogateescape'))
                    run = b''
                    out.append(e)
                    continue
                e = rt.force(mk((e,)))
            run += e.encode(self.enc, self.errors)
        return mk(out + list(run.decode('utf-8', 'surrogateescape')))

    def writelines(self, it):
        for x in it:
            self.write(x)

    def flush(self):
        self._chk()
        if not self.writing or F.dead:
            return
        if self.buf:
            F.op('flush', self.path)
            d = list(self.raw)
            d[self.pos:self.pos + len(self.buf)] = self.buf
            self.raw = tuple(d)
            self.pos += len(self.buf)
            self.buf = []
            if self.path in F.files:
                F.files[self.path].data = self.raw
            self.chunk_end = self.pos

    def truncate(self, size=None):
        self.flush()
        F.op('truncate', self.path)
        size = self.pos if size is None else rt.norm_idx(size)
        self.raw = self.raw[:size]
        if self.path in F.files:
            F.files[self.path].data = self.raw
        return size

    def close(self):
        if self.closed:
            return
        if self.writing and not F.dead:
            self.flush()
        self.closed = True
        if self.delete and self.path in F.files:
            del F.files[self.path]

    def __del__(self):
        pass


class SymOut:
    __symex_stub__ = True

    def __init__(self):
        self.parts = []
        self.encoding = 'utf-8'
        self.closed = False

    def write(self, s):
        self.parts.append(s)
        return len(s)

    def writelines(self, it):
        for x in it:
            self.write(x)

    def flush(self): pass
    def isatty(self): return False
    def fileno(self): return 1

    def value(self):
        return sjoin('', self.parts)


# ------------------------------------------------------------ codecs

def _ascii(e):
    if type(e) is str:
        return ord(e) < 128
    return decide(tobool(mk((e,)) < '\x80'))


def codec(f, encoding, errors):
    """apply the encoding and the error handler of a text file: stored files
    hold the characters of their UTF-8 text (BAD: a byte that is not UTF-8)"""
    encoding = rt.force(encoding) if encoding is not None else None
    errors = rt.force(errors) if errors is not None else None
    if f.binary:
        if encoding is not None:
            raise ValueError("binary mode doesn't take an encoding argument")
        if errors is not None:
            raise ValueError("binary mode doesn't take an errors argument")
        return f
    enc = 'utf-8' if encoding in (None, 'locale') else codecs.lookup(encoding).name
    if errors is not None:
        codecs.lookup_error(errors)
        f.errors = errors
    f.encoding = encoding or 'UTF-8'
    f.enc = enc
    f.fresh = not f.raw
    if f.writing and '+' not in f.mode:
        return f
    if enc == 'utf-8-sig' and '+' not in f.mode and f.raw:
        e = f.raw[0]
        if (e == '\ufeff') if type(e) is str else decide(tobool(el_eq(e, '\ufeff'))):
            f.raw = f.raw[1:]
    if enc in ('utf-8', 'utf-8-sig'):
        if f.errors != 'strict':
            out = []
            for e in f.raw:
                if type(e) is str and '\udc80' <= e <= '\udcff':
                    e = e.encode('utf-8', 'surrogateescape').decode('utf-8', f.errors)
                    out.extend(e)
                else:
                    out.append(e)
            if '+' not in f.mode:
                f.raw = tuple(out)
        return f
    if ' '.encode(enc) != b' ' or '+' in f.mode:
        raise NotImplementedError('encoding ' + enc)
    out = []
    for e in f.raw:
        if type(e) is not str:
            if _ascii(e):
                out.append(e)
                continue
            e = rt.force(mk((e,)))
        if ord(e) < 128:
            out.append(e)
            continue
        try:
            out.extend(e.encode('utf-8', 'surrogateescape').decode(enc, f.errors))
        except UnicodeDecodeError:
            out.append(BAD)
    f.raw = tuple(out)
    return f


# ------------------------------------------------------------ stubs

def h_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if isinstance(file, int):
        for f in _fds:
            if _fds[f] is not None and f == file:
                return codec(SymFile(_fds[f], mode, newline), encoding, errors)
        raise OSError(9, 'Bad file descriptor')
    p = key(file)
    name = rt.force(file) if isstr(file) else file
    if 'r' in mode and '+' not in mode:
        if p not in F.files:
            if is_real(p):
                return open(p, mode, buffering, encoding, errors, newline)
            raise FileNotFoundError(2, 'No such file or directory', str(name))
        return codec(SymFile(p, mode, newline, name=name), encoding, errors)
    if 'x' in mode and p in F.files:
        raise FileExistsError(17, 'File exists', str(name))
    F.op('open-' + mode, p)
    if '+' in mode and 'r' in mode:
        if p not in F.files:
            raise FileNotFoundError(2, 'No such file or directory', str(name))
    elif 'a' not in mode:
        if p in F.files:
            F.files[p].data = ()
        else:
            F.files[p] = Node()
    else:
        F.files.setdefault(p, Node())
    return codec(SymFile(p, mode, newline, name=name), encoding, errors)


def h_ntf(mode='w+b', buffering=-1, encoding=None, newline=None, suffix=None, prefix=None, dir=None, delete=True, **k):
    p = _newtemp(suffix, prefix, dir)
    return codec(SymFile(p, mode, newline, name=p, delete=delete and k.get('delete_on_close', True)), encoding, k.get('errors'))


_fds = {}


def _newtemp(suffix, prefix, dir):
    d = key(dir) if dir else tmpdir()
    p = os.path.join(d, (prefix or 'tmp') + 'symex%d' % F.ntemp + (suffix or ''))
    F.ntemp += 1
    F.op('mktemp', p)
    F.files[p] = Node((), 0o600)
    return p


def h_mkstemp(suffix=None, prefix=None, dir=None, text=False):
    p = _newtemp(suffix, prefix, dir)
    fd = 100 + F.ntemp
    _fds[fd] = p
    return fd, p


def h_fdopen(fd, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True):
    return codec(SymFile(_fds[fd], mode, newline, name=_fds[fd]), encoding, errors)


def h_oswrite(fd, b):
    p = _fds[fd]
    F.op('write', p)
    if isinstance(b, SymBytes):
        b = elems(b.s)
    else:
        b = tuple(bytes(b).decode('utf-8', 'surrogateescape'))
    F.files[p].data += tuple(b)
    return len(b)


def h_close(fd):
    return None


def h_fsync(fd):
    F.op('fsync')


def crossing(s, d):
    t = tmpdir() + '/'
    return F.xdev and s.startswith(t) != d.startswith(t)


def h_rename(src, dst, **k):
    s, d = lkey(src), lkey(dst)
    if s not in F.files and s not in F.links:
        raise FileNotFoundError(2, 'No such file or directory', s)
    F.op('rename', d)
    if crossing(s, d):
        raise OSError(18, 'Invalid cross-device link', s)
    F.files.pop(d, None)
    F.links.pop(d, None)
    if s in F.links:
        F.links[d] = F.links.pop(s)
    else:
        F.files[d] = F.files.pop(s)


def h_move(src, dst, copy_function=None):
    s, d = lkey(src), lkey(dst)
    if s in F.files and crossing(s, d):
        h_copyfile(src, dst)
        h_copymode(src, dst)
        h_remove(src)
    else:
        h_rename(src, dst)
    return dst


def h_symlink(target, link, *a, **k):
    d = lkey(link)
    if d in F.files or d in F.links or d in F.dirs:
        raise FileExistsError(17, 'File exists', d)
    F.op('symlink', d)
    t = os.fspath(rt.force(target))
    F.links[d] = os.path.normpath(os.path.join(os.path.dirname(d), t))


def h_readlink(p, **k):
    q = lkey(p)
    if q not in F.links:
        raise OSError(22, 'Invalid argument', q)
    return F.links[q]


def h_islink(p):
    return lkey(p) in F.links


def h_lexists(p):
    return lkey(p) in F.links or h_exists(p)


def h_copyfile(src, dst, **k):
    s, d = key(src), key(dst)
    if s not in F.files:
        raise FileNotFoundError(2, 'No such file or directory', s)
    F.op('open-w', d)
    if d in F.files:
        F.files[d].data = ()
    else:
        F.files[d] = Node()
    F.op('flush', d)
    F.files[d].data = F.files[s].data
    return dst


def h_copy(src, dst, **k):
    h_copyfile(src, dst)
    F.files[key(dst)].mode = F.files[key(src)].mode
    return dst


def h_copymode(src, dst, **k):
    s, d = key(src), key(dst)
    for p in (s, d):
        if p not in F.files:
            raise FileNotFoundError(2, 'No such file or directory', p)
    F.op('chmod', d)
    F.files[d].mode = F.files[s].mode


def h_chmod(p, mode, **k):
    if isinstance(p, int):
        p = _fds[p]
    F.op('chmod', key(p))
    F.files[key(p)].mode = stat_mod.S_IMODE(mode)


def h_remove(p, **k):
    p = lkey(p)
    if p not in F.files and p not in F.links:
        raise FileNotFoundError(2, 'No such file or directory', p)
    F.op('remove', p)
    F.files.pop(p, None)
    F.links.pop(p, None)


class _St:
    def __init__(self, n):
        self.st_mode = stat_mod.S_IFREG | n.mode
        self.st_size = len(n.data)
        self.st_mtime = 0
        self.st_uid = self.st_gid = 0


def h_stat(p, **k):
    if isinstance(p, int):
        return os.stat_result((0o100644,) + (0,) * 9)
    q = key(p)
    if q not in F.files:
        if is_real(q):
            return os.stat(q)
        raise FileNotFoundError(2, 'No such file or directory', q)
    return _St(F.files[q])


def h_exists(p):
    q = key(p)
    return q in F.files or q in F.dirs or (is_real(q))


def h_isfile(p):
    q = key(p)
    return q in F.files or (not q.startswith('/vfs') and os.path.isfile(q))


def h_isdir(p):
    q = key(p)
    return q in F.dirs or (not q.startswith('/vfs') and os.path.isdir(q))


def h_getsize(p):
    return h_stat(p).st_size


def h_true(*a, **k):
    return True


def h_false(*a, **k):
    return False


def h_none(*a, **k):
    return None


def h_samefile(a, b):
    return key(a) == key(b)


def h_gettempdir():
    return tmpdir()


def _pm(f):
    return lambda self, *a, **k: f(str(self), *a, **k)


def p_read_text(self, encoding=None, errors=None, newline=None):
    with h_open(str(self), 'r', encoding=encoding, errors=errors, newline=newline) as f:
        return f.read()


def p_write_text(self, data, encoding=None, errors=None, newline=None):
    with h_open(str(self), 'w', encoding=encoding, errors=errors, newline=newline) as f:
        return f.write(data)


def p_read_bytes(self):
    with h_open(str(self), 'rb') as f:
        return f.read()


def p_write_bytes(self, data):
    with h_open(str(self), 'wb') as f:
        return f.write(data)


def p_replace(self, target):
    h_rename(str(self), str(target))
    return pathlib.Path(target)


def p_unlink(self, missing_ok=False):
    try:
        h_remove(str(self))
    except FileNotFoundError:
        if not missing_ok:
            raise


class TmpDir:
    """tempfile.TemporaryDirectory"""
    __symex_stub__ = True

    def __init__(self, suffix=None, prefix=None, dir=None, ignore_cleanup_errors=False, **k):
        self.name = h_mkdtemp(suffix, prefix, dir)

    def __enter__(self):
        return self.name

    def __exit__(self, *a):
        self.cleanup()

    def cleanup(self):
        h_rmtree(self.name)


def h_mkdtemp(suffix=None, prefix=None, dir=None):
    d = key(dir) if dir else tmpdir()
    p = os.path.join(d, (prefix or 'tmp') + 'symexd%d' % F.ntemp + (suffix or ''))
    F.ntemp += 1
    F.op('mktemp', p)
    F.dirs.add(p)
    return p


def h_rmtree(path, *a, **k):
    if F.dead:
        return
    p = key(path)
    for f in list(F.files):
        if f.startswith(p + '/'):
            del F.files[f]
    F.dirs.discard(p)


def h_mkdir(p, *a, **k):
    F.op('mkdir', key(p))
    F.dirs.add(key(p))


def h_rmdir(p, *a, **k):
    F.dirs.discard(key(p))


def install():
    H = rt.IDHANDLERS
    reg = [
        (builtins.open, h_open), (io.open, h_open), (tempfile.NamedTemporaryFile, h_ntf),
        (tempfile.TemporaryFile, h_ntf), (tempfile.mkstemp, h_mkstemp), (tempfile.gettempdir, h_gettempdir),
        (tempfile.TemporaryDirectory, TmpDir), (tempfile.mkdtemp, h_mkdtemp), (shutil.rmtree, h_rmtree),
        (os.rmdir, h_rmdir),
        (os.fdopen, h_fdopen), (os.write, h_oswrite), (os.close, h_close), (os.fsync, h_fsync),
        (os.rename, h_rename), (os.replace, h_rename), (shutil.move, h_move), (shutil.copyfile, h_copyfile),
        (shutil.copy, h_copy), (shutil.copy2, h_copy), (shutil.copymode, h_copymode), (shutil.copystat, h_copymode),
        (os.chmod, h_chmod), (os.remove, h_remove), (os.unlink, h_remove), (os.stat, h_stat), (os.lstat, h_stat),
        (os.path.exists, h_exists), (os.path.isfile, h_isfile), (os.path.isdir, h_isdir),
        (os.path.lexists, h_lexists), (os.path.islink, h_islink), (os.symlink, h_symlink), (os.readlink, h_readlink), (os.path.getsize, h_getsize),
        (os.path.samefile, h_samefile), (os.access, h_exists), (os.makedirs, h_mkdir), (os.mkdir, h_mkdir),
        (os.chown, h_none), (os.path.realpath, lambda p, **k: key(p)), (os.path.abspath, lambda p: lkey(p)),
        (os.fchmod, h_chmod),
    ]
    if hasattr(os, 'fdatasync'):
        reg.append((os.fdatasync, h_fsync))
    for f, h in reg:
        H[id(f)] = h
    P = pathlib.Path
    for n, h in (('open', _pm(h_open)), ('read_text', p_read_text), ('write_text', p_write_text),
                 ('read_bytes', p_read_bytes), ('write_bytes', p_write_bytes), ('exists', _pm(h_exists)),
                 ('is_file', _pm(h_isfile)), ('is_dir', _pm(h_isdir)), ('replace', p_replace), ('rename', p_replace),
                 ('unlink', p_unlink), ('stat', _pm(h_stat)), ('chmod', _pm(h_chmod)),
                 ('is_symlink', _pm(h_islink)), ('readlink', lambda self: pathlib.Path(h_readlink(str(self)))),
                 ('absolute', lambda self: pathlib.Path(lkey(str(self)))),
                 ('resolve', lambda self, *a, **k: pathlib.Path(key(str(self))))):
        H[id(getattr(P, n))] = h
