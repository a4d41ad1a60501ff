"""A pseudo terminal with a small screen, for demonstrations."""
import fcntl, os, pty, select, signal, struct, sys, termios, time
import unicodedata


def width(c):
    if unicodedata.combining(c):
        return 0
    return 2 if unicodedata.east_asian_width(c) in 'WF' else 1


class Tty:
    def __init__(self, args, w=20, h=10, env=None):
        self.w, self.h = w, h
        self.cells = [[(' ', '')] * w for _ in range(h)]
        self.back = []
        self.x = self.y = 0
        self.wrap = False
        self.visible = True
        self.autowrap = True
        self.attr = ''
        self.bells = 0
        self.raw_bytes = b''
        self.pend = b''
        self.code = None
        pid, fd = pty.fork()
        if pid == 0:
            e = dict(os.environ)
            e['TERM'] = 'xterm'
            e.update(env or {})
            time.sleep(0.2)
            os.execvpe(args[0], args, e)
        self.pid, self.fd = pid, fd
        fcntl.ioctl(fd, termios.TIOCSWINSZ, struct.pack('HHHH', h, w, 0, 0))

    def send(self, b):
        os.write(self.fd, b if isinstance(b, bytes) else b.encode())

    def run(self, secs):
        end = time.time() + secs
        while True:
            left = end - time.time()
            if left <= 0:
                return
            r, _, _ = select.select([self.fd], [], [], left)
            if r:
                try:
                    b = os.read(self.fd, 65536)
                except OSError:
                    return
                if not b:
                    return
                self.raw_bytes += b
                self.feed(b)

    def until(self, cond, secs=10):
        end = time.time() + secs
        while time.time() < end:
            self.run(0.05)
            if cond(self):
                return True
        return False

    def has(self, s, secs=10):
        return self.until(lambda t: any(s in r for r in t.rows()), secs)

    def raw(self):
        a = termios.tcgetattr(self.fd)
        return not (a[3] & termios.ICANON)

    def done(self, secs=10):
        """Exit code, or None if it does not end by itself."""
        end = time.time() + secs
        while time.time() < end:
            self.run(0.05)
            p, st = os.waitpid(self.pid, os.WNOHANG)
            if p:
                self.run(0.1)
                self.code = os.waitstatus_to_exitcode(st)
                return self.code
        os.kill(self.pid, signal.SIGKILL)
        os.waitpid(self.pid, 0)
        return None

    def rows(self):
        return [''.join(c for c, _ in r).rstrip() for r in self.back + self.cells]

    def text(self):
        v = self.rows()
        while v and not v[-1]:
            v.pop()
        return v

    def newline(self):
        if self.y + 1 < self.h:
            self.y += 1
        else:
            self.back.append(self.cells.pop(0))
            self.cells.append([(' ', '')] * self.w)

    def put(self, c):
        n = width(c)
        if n == 0:
            return
        if self.wrap or self.x + n > self.w:
            self.wrap = False
            self.x = 0
            self.newline()
        self.cells[self.y][self.x] = (c, self.attr)
        if n == 2 and self.x + 1 < self.w:
            self.cells[self.y][self.x + 1] = ('', self.attr)
        self.x += n
        if self.x >= self.w:
            self.x = self.w - 1
            self.wrap = True

    def feed(self, b):
        b = self.pend + b
        self.pend = b''
        i = 0
        while i < len(b):
            c = b[i]
            if c == 27:
                if i + 1 >= len(b):
                    break
                if b[i + 1] == ord('['):
                    j = i + 2
                    while j < len(b) and not 0x40 <= b[j] < 0x7f:
                        j += 1
                    if j >= len(b):
                        break
                    self.csi(b[i + 2:j].decode('latin1'), chr(b[j]))
                    i = j + 1
                else:
                    i += 2
                continue
            if c == 13:
                self.x, self.wrap = 0, False
            elif c == 10:
                self.wrap = False
                self.newline()
            elif c == 8:
                self.x, self.wrap = max(0, self.x - 1), False
            elif c == 7:
                self.bells += 1
            elif c >= 32:
                n = 1 if c < 0x80 else 2 if c < 0xe0 else 3 if c < 0xf0 else 4
                if i + n > len(b):
                    break
                self.put(b[i:i + n].decode('utf8', 'replace')[0])
                i += n - 1
            i += 1
        self.pend = b[i:]

    def csi(self, a, f):
        n = int(a) if a.isdigit() else 1
        self_wrap, self.wrap = self.wrap, False
        if f == 'A':
            self.y = max(0, self.y - n)
        elif f == 'B':
            self.y = min(self.h - 1, self.y + n)
        elif f == 'C':
            self.x = min(self.w - 1, self.x + n)
        elif f == 'D':
            self.x = max(0, self.x - n)
        elif f == 'E':
            self.x, self.y = 0, min(self.h - 1, self.y + n)
        elif f == 'F':
            self.x, self.y = 0, max(0, self.y - n)
        elif f == 'G':
            self.x = min(self.w - 1, n - 1)
        elif f == 'J':
            for k in range(self.x, self.w):
                self.cells[self.y][k] = (' ', '')
            for r in range(self.y + 1, self.h):
                self.cells[r] = [(' ', '')] * self.w
        elif f == 'K':
            for k in range(self.x, self.w):
                self.cells[self.y][k] = (' ', '')
        elif f == 'm':
            self.wrap = self_wrap
            for p in (a or '0').split(';'):
                if p in ('', '0'):
                    self.attr = ''
                elif p not in self.attr.split(';'):
                    self.attr = (self.attr + ';' + p).strip(';')
        elif f in 'hl':
            self.wrap = self_wrap
            if a == '?25':
                self.visible = f == 'h'
            elif a == '?7':
                self.autowrap = f == 'h'


def fail(msg, t=None):
    print('FAILED:', msg)
    if t is not None:
        for r in t.text():
            print('  |' + r)
        print('  cursor', t.x, t.y, t.visible)
    sys.exit(1)
