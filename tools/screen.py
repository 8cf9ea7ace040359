"""A small terminal (TERM=ansi) to run the program under test in: keys are typed, the screen is read.

Only used by the demonstrations of planted bugs (they copy it); no check runs the program."""
import os, pty, re, select, signal, struct, sys, termios, time, fcntl


class Term:
    def __init__(self, argv, rows=24, cols=80, env=None):
        self.rows, self.cols = rows, cols
        self.cell = [[(' ', ())] * cols for _ in range(rows)]
        self.y = self.x = 0
        self.attr = {}
        self.buf = b''
        self.status = None
        self.last = ' '
        self.acs = False
        pid, fd = pty.fork()
        if pid == 0:
            e = dict(os.environ, TERM='ansi', LINES=str(rows), COLUMNS=str(cols), LC_ALL='C.UTF-8')
            e.update(env or {})
            try:
                os.execve(argv[0], argv, e)
            finally:
                os._exit(127)
        self.pid, self.fd = pid, fd
        fcntl.ioctl(fd, termios.TIOCSWINSZ, struct.pack('HHHH', rows, cols, 0, 0))

    def resize(self, rows, cols):
        self.rows, self.cols = rows, cols
        self.cell = [[(' ', ())] * cols for _ in range(rows)]
        fcntl.ioctl(self.fd, termios.TIOCSWINSZ, struct.pack('HHHH', rows, cols, 0, 0))

    # -- output of the program
    def pump(self, t=0.05):
        r, _, _ = select.select([self.fd], [], [], t)
        if r:
            try:
                d = os.read(self.fd, 65536)
            except OSError:
                d = b''
            if d:
                self.feed(d)
                return True
            self.ended()
        return False

    def ended(self):
        if self.status is None:
            for _ in range(100):
                p, s = os.waitpid(self.pid, os.WNOHANG)
                if p:
                    self.status = s
                    return True
                time.sleep(0.02)
            return False
        return True

    def feed(self, d):
        self.buf += d
        while self.buf:
            b = self.buf
            if b[0] == 0x1b:
                m = re.match(rb'\x1b\[([?0-9;]*)([@-~])', b, re.S)
                if m:
                    self.buf = b[m.end():]
                    self.csi(m.group(1).decode(), m.group(2).decode())
                    continue
                m = re.match(rb'\x1b[()*+#].|\x1b[^\[()*+#]', b, re.S)
                if m:
                    self.buf = b[m.end():]
                    continue
                return
            n = 1 if b[0] < 0xc0 or self.acs else 2 if b[0] < 0xe0 else 3 if b[0] < 0xf0 else 4
            if len(b) < n:
                return
            self.buf = b[n:]
            c = b[:n].decode('utf-8', 'replace')
            if self.acs and c >= ' ':
                c = '|'
            if c == '\r':
                self.x = 0
            elif c == '\n':
                if self.y == self.rows - 1:
                    self.cell = self.cell[1:] + [[(' ', ())] * self.cols]
                else:
                    self.y += 1
            elif c == '\b':
                self.x = max(0, self.x - 1)
            elif c == '\t':
                self.x = min(self.cols - 1, (self.x // 8 + 1) * 8)
            elif c >= ' ':
                self.put(c)

    def put(self, c):
        self.cell[self.y][self.x] = (c, tuple(sorted(self.attr.items())))
        self.last = c
        self.x += 1
        if self.x == self.cols:         # (this terminal wraps at once)
            self.x = 0
            self.y += 1
            if self.y == self.rows:
                self.y -= 1
                self.cell = self.cell[1:] + [[(' ', ())] * self.cols]

    def csi(self, p, f):
        if p.startswith('?'):
            return
        v = [int(x) if x else 0 for x in p.split(';')] if p else []
        n = v[0] if v and v[0] else 1
        row, blank = self.cell[self.y], (' ', ())
        if f in 'Hf':
            self.y = min(self.rows, n) - 1
            self.x = min(self.cols, v[1] if len(v) > 1 and v[1] else 1) - 1
        elif f == 'A':
            self.y = max(0, self.y - n)
        elif f == 'B':
            self.y = min(self.rows - 1, self.y + n)
        elif f == 'C':
            self.x = min(self.cols - 1, self.x + n)
        elif f == 'D':
            self.x = max(0, self.x - n)
        elif f == 'G':
            self.x = min(self.cols, n) - 1
        elif f == 'I':
            for _ in range(n):
                self.x = min(self.cols - 1, (self.x // 8 + 1) * 8)
        elif f == 'd':
            self.y = min(self.rows, n) - 1
        elif f == 'J':
            for i in range(self.x, self.cols):
                row[i] = blank
            for r in range(self.y + 1, self.rows):
                self.cell[r] = [blank] * self.cols
        elif f == 'K':
            m = v[0] if v else 0
            for i in range(0 if m else self.x, self.cols if m != 1 else self.x + 1):
                row[i] = blank
        elif f == 'X':
            for i in range(self.x, min(self.cols, self.x + n)):
                row[i] = blank
        elif f == 'P':
            self.cell[self.y] = row[:self.x] + row[self.x + n:] + [blank] * min(n, self.cols - self.x)
        elif f == '@':
            self.cell[self.y] = (row[:self.x] + [blank] * n + row[self.x:])[:self.cols]
        elif f == 'L':
            self.cell[self.y:self.y] = [[blank] * self.cols for _ in range(n)]
            self.cell = self.cell[:self.rows]
        elif f == 'M':
            del self.cell[self.y:self.y + n]
            self.cell += [[blank] * self.cols for _ in range(self.rows - len(self.cell))]
        elif f == 'S':
            self.cell = self.cell[n:] + [[blank] * self.cols for _ in range(n)]
        elif f == 'T':
            self.cell = ([[blank] * self.cols for _ in range(n)] + self.cell)[:self.rows]
        elif f == 'b':
            for _ in range(n):
                self.put(self.last)
        elif f == 'm':
            for a in v or [0]:
                if a == 0:
                    self.attr = {}
                elif a == 1:
                    self.attr['bold'] = 1
                elif a == 7:
                    self.attr['rev'] = 1
                elif 30 <= a < 38:
                    self.attr['fg'] = a - 30
                elif 40 <= a < 48:
                    self.attr['bg'] = a - 40
                elif a in (10, 11):
                    self.acs = a == 11
                elif a == 39:
                    self.attr.pop('fg', None)
                elif a == 49:
                    self.attr.pop('bg', None)

    # -- reading the screen
    def row(self, y):
        return ''.join(c for c, _ in self.cell[y]).rstrip()

    def lines(self):
        return [self.row(y) for y in range(self.rows)]

    def find(self, text):
        """(row, column) of the first place of a text"""
        for y in range(self.rows):
            x = self.row(y).find(text)
            if x >= 0:
                return y, x
        return None

    def at(self, y, x):
        return dict(self.cell[y][x][1])

    def selected(self):
        """rows with reversed bold text, below the first one"""
        return [y for y in range(1, self.rows) if any('rev' in dict(a) and 'bold' in dict(a) and c != ' ' for c, a in self.cell[y])]

    # -- driving it
    def wait(self, cond, t=15):
        end = time.time() + t
        while True:
            while self.pump(0.02):
                pass
            if cond():
                return True
            if time.time() > end or self.status is not None:
                return bool(cond())
            self.pump(0.1)

    def settle(self, t=0.6):
        end = time.time() + t
        while time.time() < end and self.status is None:
            if self.pump(0.05):
                end = time.time() + t

    def type(self, keys, settle=0.45):
        """keys are typed one after another; waits for the screen to settle after each"""
        names = {'UP': '\x1b[A', 'DOWN': '\x1b[B', 'RIGHT': '\x1b[C', 'LEFT': '\x1b[D', '^W': '\x17'}
        for k in keys if isinstance(keys, (list, tuple)) else [keys]:
            k = names.get(k) or k
            try:
                os.write(self.fd, k.encode())
            except OSError:
                self.ended()
            self.settle(settle)
        return self

    def signal(self, s):
        os.kill(self.pid, s)

    def close(self):
        if self.status is None:
            try:
                os.kill(self.pid, signal.SIGKILL)
                os.waitpid(self.pid, 0)
            except OSError:
                pass
        os.close(self.fd)


def fail(msg, t=None):
    print('FAIL:', msg)
    if t is not None:
        print('\n'.join('|' + l for l in t.lines()))
        t.close()
    sys.exit(1)
