"""The simulated terminal: the curses module and the clock, driven by a list of events.

Events: ['key', code, menu]   a key pressed; menu = name of the menu which must be on the screen
        ['text', string]      a line typed at a prompt
        ['resize', rows, cols] the window changes its size
        ['interrupt']         Ctrl-C
        ['done', k]           not seen by the program: operation k is complete when the program asks for more"""
import curses as real
import sys
import time
import types


class Diverged(BaseException):
    """The program asks for something else than what a user of the documented menus would be giving."""


class Over(BaseException):
    """The program goes on asking after the end of the script."""


class Terminal:
    def __init__(self):
        self.reset(24, 80)

    def reset(self, rows, cols, events=(), menu=None, done=None):
        self.rows, self.cols = rows, cols
        self.events = list(events)
        self.i = 0
        self.menu, self.done = menu, done
        self.started = False
        self.screen_mode = False
        self.grid = {}
        self.clock = 0.0
        self.asked = 0
        self.bells = 0
        self.y = self.x = 0
        self.prompts = 0
        self.options = set()
        self.again = []

    # ------------------------------------------------------------------------------ what is shown
    def line(self, y):
        return ''.join(self.grid.get((y, x), ' ') for x in range(self.cols)).rstrip()

    def text(self):
        return '\n'.join(self.line(y) for y in range(self.rows))

    def put(self, y, x, s):
        if not (0 <= y < self.rows and 0 <= x < self.cols):
            raise real.error('move outside of the window')
        for c in s:
            if c == '\n':
                y, x = y + 1, 0
            else:
                if y >= self.rows:
                    raise real.error('addwstr() returned ERR')
                self.grid[(y, x)] = c
                x += 1
                if x >= self.cols:
                    y, x = y + 1, 0
        self.y, self.x = y, x

    # ------------------------------------------------------------------------------ what is typed
    def next(self, wanted):
        self.asked += 1
        self.screen_mode = True
        if self.again and wanted == 'key':
            return ['key', self.again.pop(), None]
        while self.i < len(self.events) and self.events[self.i][0] == 'done':
            k = self.events[self.i][1]
            self.i += 1
            self.done(k)
        if self.i >= len(self.events):
            raise Over('the program asks for more after its exit was chosen')
        e = self.events[self.i]
        self.i += 1
        if e[0] == 'resize':
            self.rows, self.cols = e[1], e[2]
            for k in [k for k in self.grid if k[0] >= self.rows or k[1] >= self.cols]:
                del self.grid[k]
            if wanted == 'text':
                return self.next(wanted)
            return ['key', real.KEY_RESIZE, None]
        if e[0] == 'interrupt':
            raise KeyboardInterrupt()
        if e[0] != wanted:
            raise Diverged('the program waits for a %s where the user gives a %s (%r)' % ('line of text' if wanted == 'text' else wanted, e[0], e[1]))
        if wanted == 'key' and e[2] is not None:
            p = self.menu(e[2], self.text())
            if p:
                raise Diverged(p)
        return e


TERM = Terminal()


class Window:
    def _yx(self, a):
        if len(a) >= 2 and isinstance(a[0], int) and isinstance(a[1], int):
            return a[0], a[1], a[2:]
        return TERM.y, TERM.x, a

    def addstr(self, *a):
        y, x, a = self._yx(a)
        s = a[0]
        TERM.put(y, x, s.decode() if isinstance(s, bytes) else s)
    insstr = addstr

    def addnstr(self, *a):
        y, x, a = self._yx(a)
        TERM.put(y, x, a[0][:a[1]])

    def addch(self, *a):
        y, x, a = self._yx(a)
        TERM.put(y, x, a[0] if isinstance(a[0], str) else chr(a[0] & 0xff))

    def move(self, y, x):
        if not (0 <= y < TERM.rows and 0 <= x < TERM.cols):
            raise real.error('wmove() returned ERR')
        TERM.y, TERM.x = y, x

    def clear(self):
        TERM.grid = {}
        TERM.y = TERM.x = 0
    erase = clear

    def clrtoeol(self):
        for x in range(TERM.x, TERM.cols):
            TERM.grid.pop((TERM.y, x), None)

    def clrtobot(self):
        for k in [k for k in TERM.grid if k[0] > TERM.y]:
            del TERM.grid[k]
        self.clrtoeol()

    def border(self, *a):
        for x in range(TERM.cols):
            TERM.grid[(0, x)] = TERM.grid[(TERM.rows - 1, x)] = '-'
        for y in range(TERM.rows):
            TERM.grid[(y, 0)] = TERM.grid[(y, TERM.cols - 1)] = '|'
    box = border

    def refresh(self, *a):
        TERM.screen_mode = True
    noutrefresh = refresh

    def getch(self, *a):
        if len(a) == 2:
            self.move(*a)
        return TERM.next('key')[1]

    def getkey(self, *a):
        c = self.getch(*a)
        if c < 0:
            raise real.error('no input')
        return chr(c) if c < 256 else real.keyname(c).decode()

    def get_wch(self, *a):
        c = self.getch(*a)
        if c < 0:
            raise real.error('no input')
        return chr(c) if c < 256 else c

    def getstr(self, *a):
        n = 1023
        if len(a) in (2, 3) and isinstance(a[0], int):
            self.move(a[0], a[1])
        if len(a) in (1, 3):
            n = a[-1]
        TERM.prompts += 1
        return TERM.next('text')[1].encode()[:n]

    def getmaxyx(self):
        return TERM.rows, TERM.cols

    def getyx(self):
        return TERM.y, TERM.x

    def getbegyx(self):
        return 0, 0

    def _nothing(self, *a):
        return None
    keypad = nodelay = timeout = notimeout = attron = attroff = attrset = bkgd = bkgdset = touchwin = redrawwin = untouchwin = leaveok = scrollok = idlok = immedok = clearok = _nothing


WINDOW = Window()


def initscr():
    TERM.started = True
    TERM.screen_mode = True
    return WINDOW


def need(f):
    def g(*a, **k):
        if not TERM.started:
            raise real.error('must call initscr() first')
        return f(*a, **k)
    return g


def _endwin():
    TERM.screen_mode = False


def _isendwin():
    return not TERM.screen_mode


def wrapper(f, *a, **k):
    try:
        w = initscr()
        return f(w, *a, **k)
    finally:
        _endwin()


def _nothing(*a, **k):
    return None


def module():
    m = types.ModuleType('curses')
    m.__dict__.update({k: v for k, v in real.__dict__.items() if not k.startswith('__')})
    m.initscr = initscr
    m.endwin = need(_endwin)
    m.isendwin = need(_isendwin)
    m.wrapper = wrapper
    m.has_colors = m.can_change_color = lambda: False
    m.ungetch = need(lambda c: TERM.again.append(c if isinstance(c, int) else ord(c)))
    for n in ('noecho', 'echo', 'cbreak', 'nocbreak', 'raw', 'noraw', 'curs_set', 'start_color', 'use_default_colors', 'init_pair', 'doupdate', 'flushinp', 'def_prog_mode',
              'reset_prog_mode', 'def_shell_mode', 'reset_shell_mode', 'beep', 'flash', 'nl', 'nonl', 'qiflush', 'noqiflush', 'halfdelay', 'savetty', 'resetty', 'update_lines_cols'):
        setattr(m, n, need(_nothing))
    m.color_pair = lambda n: 0
    m.napms = lambda ms: sleep(ms / 1000.)
    m.newwin = m.newpad = lambda *a: WINDOW
    m.is_term_resized = lambda y, x: (y, x) != (TERM.rows, TERM.cols)
    m.resizeterm = m.resize_term = _nothing
    m.setupterm = _nothing
    return m


def sleep(t):
    TERM.clock += t


def install():
    sys.modules['curses'] = module()
    time.sleep = sleep
