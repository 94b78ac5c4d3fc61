"""A simulated disk behind the module-level name 'open' of the modules that store files.

Nothing reaches the real file system. Faults: opening fails, the n-th byte cannot be
written (after nothing or after a short write), flushing or closing fails."""
import io, errno, contextlib
class File(io.RawIOBase):
    def __init__(self, disk, path, mode):
        self.disk, self.path, self.mode = disk, path, mode; self.pos = 0
        if 'w' in mode: disk.files[path] = b''
    def readable(self): return 'r' in self.mode
    def writable(self): return 'w' in self.mode
    def readinto(self, b):
        d = self.disk.files[self.path][self.pos:self.pos+len(b)]; b[:len(d)] = d; self.pos += len(d); return len(d)
    def write(self, b):
        d = self.disk; b = bytes(b); k, at, e = d.fault
        if k in ('write', 'short') and d.written + len(b) > at:
            if k == 'short' and d.written < at:
                n = at - d.written; d.files[self.path] += b[:n]; d.written += n; return n
            d.raise_()
        d.written += len(b); d.files[self.path] += b
        return len(b)
    def close(self):
        if not self.closed:
            super().close()
            if 'w' in self.mode and self.disk.fault[0] == 'close': self.disk.raise_()
class Buf(io.BufferedWriter):
    def flush(self):
        if self.raw.disk.fault[0] == 'flush' and not self.closed and self.raw.disk.armed: self.raw.disk.raise_()
        super().flush()
class Disk:
    def __init__(self): self.files = {}; self.fault = (None, 0, None); self.fired = 0; self.written = 0; self.armed = False
    def fail(self, kind, at, err): self.fault = (kind, at, err); self.written = 0; self.armed = bool(kind)
    def raise_(self):
        self.fired += 1; self.armed = False
        e = getattr(errno, self.fault[2]); raise OSError(e, 'simulated: ' + errno.errorcode[e])
    def open(self, path, mode='r', *a, **kw):
        path = str(path)
        if self.fault[0] == 'open' and 'w' in mode: self.raise_()
        if 'w' not in mode and path not in self.files: raise FileNotFoundError(errno.ENOENT, 'simulated', path)
        f = File(self, path, mode)
        return Buf(f, 64) if 'w' in mode else io.BufferedReader(f)
@contextlib.contextmanager
def mounted(disk, *modules):
    for m in modules: m.open = disk.open
    try: yield disk
    finally:
        for m in modules:
            if 'open' in m.__dict__: del m.open
