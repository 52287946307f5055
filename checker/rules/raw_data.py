"""RAW files: where the numbers of a trace are read from (P20), what is refused (P22), which trace a query gives (P40)."""
from .util import *
from ..algebra import Num
from .raw_steps import null_fact, lab_, PD, RC

RR = 'spicelib/raw/raw_read.py'
TI = A(SELF, '_trace_info')
AXIS = A(SELF, '_axis')
NP = A(SELF, '_nPoints')
FPOS = A(SELF, '_fpos_data')
READ = A(SELF, '_read_traces')
QUIET = {'seek', 'tell', 'read', 'readline', 'decode', 'frombuffer', 'dtype', 'zeros', 'set_steps', 'Axis', 'TraceRead', 'debug', 'info', 'warning', 'complex', 'index', 'split', 'lstrip', 'fromfile'}


def Nums(r, **k):
    n = Num(r, **k)
    for v in [v for v in n.known if v[0] == 'idx']:
        del n.known[v]  # an assumption about one pass through a loop does not hold in another
    n.memo.clear()
    return n


def iscall(e, *names):
    return e.kind == 'call' and e.name in names and not e.raised


def arg(e, i, *names):
    for k, v in e.kw:
        if k in names:
            return v
    return e.args[i] if e.args and i < len(e.args) else None


def element(n, v):
    """the position in the list of variables of a TraceInfo value, or None: ('elem'|'sub' of the list or a slice of it)"""
    if v is None:
        return None
    if v[0] == 'old':
        return element(n, v[1])
    if v[0] == 'elem':
        b, s = n.seq(v[1])
        return s + n(('idx', v[1])) if b == TI else None
    if v[0] == 'sub' and v[2][0] != 'slice':
        b, s = n.seq(v[1])
        return s + n(v[2]) if b == TI else None
    return None


def owner(v, a):
    """X of X.<a>"""
    return v[1] if v is not None and v[0] == 'attr' and v[2] == a else None


def itemsize(n, r, x):
    """number of the size in bytes of a sample of x; None when the path does not ask for it"""
    want = n(A(x, 'dtype'))
    for e in r.events:
        if iscall(e, 'dtype') and len(e.args) == 1 and n(e.args[0]) == want:
            return n(A(('res', e.n, 'dtype'), 'itemsize'))
    return None


def itemsize_of(n, r, v):
    """the element whose sample size the value is, or None"""
    if v[0] == 'attr' and v[2] == 'itemsize':
        e = n.call_of(v[1])
        if e is not None and e.name == 'dtype' and e.args:
            return owner(e.args[0], 'dtype')
    return None


def plain(seq):
    while seq is not None and seq[0] == 'call' and seq[1] in ('enumerate', 'list', 'tuple') and seq[2]:
        seq = seq[2][0]
    return seq


def about(r, x, upto=None):
    """the assumptions made up to an event, those about an element of a list since the loop that it comes from was entered"""
    evs = r.events if upto is None else r.events[:upto]
    start = 0
    if x[0] == 'elem':
        for i, e in enumerate(evs):
            if e.kind == 'iter' and e.value is not None and plain(e.value) == x[1]:
                start = i
    own = {x, ('idx', x[1])} if x[0] == 'elem' else {x}
    return [e for i, e in enumerate(evs) if e.kind == 'assume' and (i >= start or not any(contains(e.lit, o) for o in own))]


def first(r, n, x, upto=None):
    """True/False: x is (not) the first variable on the path; None: not known"""
    pos = element(n, x)
    if pos is not None and pos == 0:
        return True
    if x[0] == 'elem':
        b, s = n.seq(x[1])
        if b == TI and s >= 1 and s.denominator == 1 and s < 1000:
            return False
    out = None
    for e in about(r, x, upto):
        l, p = e.lit, e.pol
        if x[0] == 'elem' and l in (('idx', x[1]), ('truthy', ('idx', x[1]))):
            out = not p
        elif l[0] == 'cmp' and l[1] in ('eq', 'is'):
            a, b = l[2], l[3]
            for u, v in ((a, b), (b, a)):
                if x[0] == 'elem' and u == ('idx', x[1]) and v == ('const', 0):
                    out = p
                if (u == x or u == A(x, 'name')) and (v == ('sub', TI, ('const', 0)) or v == A(('sub', TI, ('const', 0)), 'name')):
                    out = p
        elif l[0] == 'cmp' and l[1] == 'lt' and x[0] == 'elem' and l[2] == ('const', 0) and l[3] == ('idx', x[1]):
            out = not p
    return out


def truth(r, v, upto=None):
    out = None
    for e in r.events if upto is None else r.events[:upto]:
        if e.kind == 'assume' and e.lit in (v, ('truthy', v)):
            out = e.pol
    return out


def none_at(r, v, upto):
    out = None
    for e in r.events[:upto]:
        if e.kind == 'assume' and (e.lit == ('isnone', v) or e.lit[0] == 'cmp' and e.lit[1] == 'is' and v in e.lit[2:4] and NONE in e.lit[2:4]):
            out = e.pol
        elif e.kind == 'assume' and e.lit in (v, ('truthy', v)) and e.pol:
            out = False
    return out


def wanted(r, x, lst, upto=None):
    for e in about(r, x, upto):
        if e.lit[0] == 'cmp' and e.lit[1] == 'in' and e.lit[2] == A(x, 'name') and e.lit[3] == lst:
            return e.pol
    return None


def record_sum(n, r, v):
    """(True, '') when v is the sum of the sizes of all variables; (False, why) when it is another sum of sizes; None: unknown form"""
    if v[0] == 'call' and v[1] == 'sum' and v[2] and v[2][0][0] == 'comp':
        c = v[2][0]
        if len(c[2]) != 1 or len(c[3]) != 1:
            return None
        elt, (it, ifs) = c[2][0], c[3][0]
        b, s = n.seq(it)
        if b != TI:
            return None
        if s != 0 or n.span(it)[2] != n(('call', 'len', (TI,))):
            return False, 'not all the variables'
        if ifs:
            return False, 'not all the variables'
        x = itemsize_of(n, r, elt)
        if x is None:
            return None
        if element(n, x) != n.seq(it)[1] + n(('idx', it)):
            return False, 'the size of another variable'
        return True, ''
    return None


def find_sum(v):
    for x in subvalues(v):
        if x[0] == 'call' and x[1] == 'sum':
            return x
    return None


# ---------------------------------------------------------------------------------------------------------------- P20
@prop('P20', 'Every trace of a RAW file is read from its own numbers',
      'Whatever the number of variables, the traces asked for and the order in which they are asked, a trace holds exactly the numbers stored for it: in a fastaccess file the nPoints samples behind those of all the variables before it, '
      'in a normal binary file its own field of each record, in an ASCII file the values at its place of each point, both parts of a complex one; it is stored under its own name. Samples have the number type given by Flags, plot name and '
      'dialect (the first variable of LTspice real data is double, the frequency of QSpice AC data is double). The first variable is an Axis exactly when the plot has an axis, gets the steps, and stays the axis when more traces are read. '
      'The next plot begins behind the last record.',
      ['inputs', 'histories'],
      'any RAW file (binary, fastaccess, ASCII; any dialect), any selection and order of reading',
      'Tests read a few sample files from one simulator; an offset that is wrong only for a partial selection, an unread axis, another dialect or a second plot is not seen.',
      [PD, RC],
      [dict(name='binary data', where=PD + ':PlotData.read_trace_data'), dict(name='ASCII data', where=PD + ':PlotData._read_ascii_vector'), dict(name='number types', where=PD + ':PlotData.__init__')],
      'On every path through the readers, the file position, the number of bytes, the number type, the name and the key of each Axis or TraceRead made are compared, as rational functions of the sizes of the variables, with those of the variable it stands for; '
      'the running offset is shown to hold at the start of the loop and to be kept by each iteration. The number types are compared with a table for every dialect.',
      'path-sensitive dataflow with algebraic normalisation and loop induction',
      'All paths; loops by one iteration from any state. Forms the analysis does not know are not judged.', [])
def p20(c: Ctx):
    R1 = c.rule('P20.offset', 'the samples of a fastaccess trace are those behind the variables before it', 3)
    R2 = c.rule('P20.record', 'the record of a normal file has one field of the right size per variable', 3)
    R3 = c.rule('P20.make', 'name, number type and data of a trace are those of its variable', 6)
    R4 = c.rule('P20.axis', 'the first variable is the axis exactly when there is one', 4)
    R5 = c.rule('P20.all', 'every trace asked for is read', 3)
    R6 = c.rule('P20.ascii', 'each ASCII value goes to its variable and point', 4)
    R7 = c.rule('P20.types', 'number types follow Flags, plot name and dialect', 10)
    R8 = c.rule('P20.next', 'reading goes on behind the last record', 1)
    R9 = c.rule('P20.steps', 'the axis of a stepped plot is told its steps', 1)
    k = c.p.cls('PlotData')
    with c.attempt(lab_(k, 'read_trace_data')):
        read_binary(c, k, R1, R2, R3, R4, R5)
    with c.attempt(lab_(k, '_read_ascii_vector')):
        read_ascii(c, k, R3, R4, R6)
    with c.attempt(lab_(k, '__init__')):
        types(c, k, R7, R4)
    with c.attempt(lab_(k, '__init__')):
        end_of_data(c, k, R8, R4)
    with c.attempt(lab_(k, '__init__')):
        steps_of(c, k, R9)
    with c.attempt(lab_(k, '_read_ascii_vector')):
        ascii_lines(c, k, R6, R8)


def ctor(c, r, e, n, rules, lab, data_ok):
    """one Axis(..)/TraceRead(..) call: all arguments are those of one variable"""
    R3, R4 = rules
    x = owner(arg(e, 0, 'name'), 'name')
    if x is None or element(n, x) is None:
        return None
    pos = element(n, x)

    def same(y):
        return y is not None and element(n, y) is not None and element(n, y) == pos
    is_axis = e.name == 'Axis'
    t = arg(e, 1, 'whattype')
    if owner(t, 'var_type') is not None:
        c.require(same(owner(t, 'var_type')), R3, lab, 'a trace gets the type of another variable', r)
    elif t is not None and owner(t, 'name') is not None:
        c.bad(R3, lab, 'the type of a trace is its name', r)
    ln = arg(e, 2, 'datalen')
    if ln is not None:
        c.require(n(ln) == n(NP), R3, lab, f'a trace has {show(ln)} points', r)
    if not is_axis:
        a = arg(e, 3, 'axis')
        c.require(a is not None and a != NONE and (a == AXIS or strip_old(a) == AXIS or a[0] in ('new', 'res', 'obj', 'phi', 'old')), R4, lab, f'the axis of a trace is {show(a) if a else "not given"}', r)
    nt = arg(e, 3 if is_axis else 4, 'numerical_type')
    if nt is not None and nt[0] == 'sub' and 'inv' in repr(nt[1]):
        o = owner(nt[2], 'dtype')
        if o is not None:
            c.require(same(o), R3, lab, 'a trace gets the number type of another variable', r)
    d = arg(e, 4 if is_axis else 5, 'data')
    i = r.events.index(e)
    f, ax = first(r, n, x, i), truth(r, A(SELF, '_has_axis'), i)
    if is_axis:
        c.require(f is not False and ax is True, R4, lab, 'a variable that is not the axis is read as the axis', r)
    elif f is True and ax is True:
        c.bad(R4, lab, 'the axis is read as a plain trace', r)
    elif f is None and ax is not False and not any(x2.kind == 'assume' and x2.lit[0] == 'cmp' and contains(x2.lit, TI) and not contains(x2.lit, x) for x2 in r.events[:i]):
        c.bad(R4, lab, 'the first variable is read as a plain trace even when it is the axis', r)
    else:
        c.ok(R4, lab)
    data_ok(x, pos, d, same)
    # stored under its own name, and the axis kept
    res = ('obj', e.n, e.name)
    for y in r.events[i + 1:]:
        if y.kind == 'setitem' and strip_old(y.recv) == READ and (y.value == res or is_axis and y.value == AXIS):
            key = y.path[2] if y.path is not None and y.path[0] == 'sub' else None
            if key is not None and owner(key, 'name') is not None:
                c.require(same(owner(key, 'name')), R3, lab, 'a trace is stored under the name of another variable', r)
            break
    else:
        c.bad(R3, lab, 'a trace that was read is not stored', r)
    if is_axis:
        w = [y for y in r.events[i + 1:] if y.kind == 'write' and y.path == AXIS and y.value == res]
        c.require(w, R4, lab, 'the axis is not remembered', r)
    elif any(y.kind == 'write' and y.path == AXIS and y.value == res for y in r.events[i + 1:]):
        c.bad(R4, lab, 'a trace becomes the axis', r)
    return x


class Bin:
    """one path through the reader of binary data"""

    def __init__(self, c, r, lab, rules, accs):
        self.c, self.r, self.n, self.lab, self.accs = c, r, Nums(r), lab, accs
        self.R1, self.R2, self.R3 = rules
        self.entries = []
        for i, e in enumerate(r.events):
            if e.kind == 'call' and e.name == 'append' and not e.raised and e.args and e.args[0][0] == 'tuple' and len(e.args[0][1]) == 2:
                o = owner(e.args[0][1][0], 'name')
                if o is not None and element(self.n, o) is not None:
                    self.entries.append((i, o, e.args[0][1][1]))

    def opaque(self, v):
        """the value has parts whose meaning is not known here"""
        for x in subvalues(v):
            if x[0] in ('comp', 'mcall', 'call', 'param') or x[0] == 'res' and (self.n.call_of(x) is None or self.n.call_of(x).name not in ('dtype',)):
                return True
        return False

    def data(self, e, x, pos, d, same):
        c, r, n, lab = self.c, self.r, self.n, self.lab
        i = r.events.index(e)
        if d is None:
            c.bad(self.R3, lab, 'a trace is made without data', r)
            return
        col = None
        b = n.call_of(d)
        if b is None and d[0] == 'sub':
            b, col = n.call_of(d[1]), d[2]
        if b is None or b.name != 'frombuffer':
            return
        if col is not None:
            o = owner(col, 'name')
            c.require(o is not None and same(o), self.R3, lab, f'a trace gets the field {show(col)}', r)
            self.field(x, pos, i)
            return
        dt = arg(b, 1, 'dtype')
        if dt is not None and owner(dt, 'dtype') is not None:
            c.require(same(owner(dt, 'dtype')), self.R3, lab, 'the samples are read with the number type of another variable', r)
        rd = n.call_of(b.args[0]) if b.args else None
        if rd is None or rd.name != 'read' or not rd.args or self.opaque(rd.args[0]):
            return
        sz = itemsize(n, r, x)
        c.require(sz is not None and n(rd.args[0]) == n(NP) * sz, self.R1, lab, f'{show(rd.args[0])} bytes are read for a trace', r)
        j = r.events.index(rd)
        sk = [y for y in r.events[:j] if y.kind == 'call' and y.name in ('seek', 'read') and y.recv == rd.recv]
        if not sk:
            c.bad(self.R1, lab, 'a trace is read from wherever the file is', r)
        elif sk[-1].name == 'seek' and len(sk[-1].args) == 1:
            self.offset(x, pos, sk[-1].args[0], j)

    def before(self, q):
        """the bytes of the q first variables, None when the path does not know them"""
        s = self.n(('const', 0))
        for i in range(int(q)):
            z = itemsize(self.n, self.r, ('sub', TI, ('const', i)))
            if z is None:
                return None
            s += self.n(NP) * z
        return s

    def offset(self, x, pos, where, j):
        c, r, n, lab = self.c, self.r, self.n, self.lab
        phis = {y for y in subvalues(where) if y[0] == 'phi'}
        if x[0] == 'sub' and x[2][0] == 'const':
            if not self.opaque(where):
                want = self.before(pos)
                c.require(want is not None and n(where) == n(FPOS) + want, self.R1, lab, f'a trace is read at {show(where)}', r)
            return
        if x[0] != 'elem':
            return
        if not phis:
            if not self.opaque(where):
                c.bad(self.R1, lab, f'every trace is read at {show(where)}', r)
            return
        its = [e for e in r.events[:j] if e.kind == 'iter' and e.start and any(p[1] in e.start for p in phis)]
        s = n.seq(x[1])[1]
        if not its or s.denominator != 1 or s > 100:
            return
        it = its[-1]
        start = {p: it.start[p[1]] for p in phis if p[1] in it.start}
        for p in start:
            self.accs.add((id(it.node), p[1]))
        if len(start) != len(phis) or any(self.opaque(v) for v in start.values()):
            return
        n0 = Nums(r, equal=list(start.items()))
        want = self.before(s)
        c.require(want is not None and n0(where) == n(FPOS) + want, self.R1, lab, f'the first trace of the loop is read at {show(where)}', r)

    def kept(self):
        """each iteration moves the running offset on by the samples of its variable"""
        c, r, n, lab = self.c, self.r, self.n, self.lab
        for i, e in enumerate(r.events):
            if e.kind != 'loopend' or not e.start or e.name != 'done':
                continue
            for a, v in e.start.items():
                if (id(e.node), a) not in self.accs:
                    continue
                it = [y for y in r.events[:i] if y.kind == 'iter' and y.node is e.node]
                seq = plain(it[-1].value)
                if seq is None or n.seq(seq)[0] != TI or self.opaque(v) and v != ('phi', a):
                    continue
                z = itemsize(n, r, ('elem', seq))
                c.require(z is not None and n(v) - n(('phi', a)) == n(NP) * z, self.R1, lab, f'behind a variable the offset becomes {show(v)}', r)

    def field(self, x, pos, i):
        c, r, n, lab = self.c, self.r, self.n, self.lab
        for j, o, t in self.entries:
            if j > i or element(n, o) != pos:
                continue
            f1 = {e.lit: e.pol for e in about(r, o, j)}
            if any(f1.get(e.lit, e.pol) != e.pol for e in about(r, x, i)):
                continue  # not the same variable
            k = self.kind(o, t)
            if k is not None:
                c.require(k == 'typed', self.R2, lab, 'a trace that is kept has no number type in the record', r)

    def kind(self, o, t):
        n = self.n
        if owner(t, 'dtype') is not None and element(n, owner(t, 'dtype')) is not None:
            return 'typed'
        if any(itemsize_of(n, self.r, y) is not None for y in subvalues(t)) or t[0] == 'const':
            return 'void'
        return None

    def fields(self, loops):
        """the description of the record"""
        c, r, n, lab = self.c, self.r, self.n, self.lab
        for j, o, t in self.entries:
            pos = element(n, o)
            d = owner(t, 'dtype')
            if d is not None and element(n, d) is not None:
                c.require(element(n, d) == pos, self.R2, lab, 'a field of the record has the number type of another variable', r)
                continue
            zs = [z for z in (itemsize_of(n, r, y) for y in subvalues(t)) if z is not None]
            if zs:
                c.require(all(element(n, z) == pos for z in zs), self.R2, lab, 'a skipped field has the size of another variable', r)
                # nothing but the size: V<size>
                for y in subvalues(t):
                    if y[0] == 'bin' and y[1] in ('*', '-', '/', '//'):
                        c.bad(self.R2, lab, f'a skipped field is {show(t)}', r)
            elif t[0] == 'const':
                c.bad(self.R2, lab, f'a field of the record is always {show(t)}', r)
        for a, b in spans(r, loops):
            es = [x for x in self.entries if a < x[0] < b]
            if not any(e.kind == 'call' and e.name in ('append', 'extend', 'insert') for e in r.events[a:b]):
                c.bad(self.R2, lab, 'a variable has no field in the record', r)
            elif es:
                c.require(len(es) == 1, self.R2, lab, 'a variable has two fields in the record', r)

    def records(self):
        c, r, n, lab = self.c, self.r, self.n, self.lab
        for e in r.events:
            if not iscall(e, 'frombuffer') or not e.args:
                continue
            dt = arg(e, 1, 'dtype')
            if dt is None or owner(dt, 'dtype') is not None:
                continue
            rd = n.call_of(e.args[0])
            if rd is None or rd.name != 'read' or not rd.args:
                continue
            s = find_sum(rd.args[0])
            ok = record_sum(n, r, s) if s is not None else None
            if ok is not None:
                c.require(ok[0], self.R2, lab, f'the size of a record is computed with {ok[1]}', r)
                c.require(n(rd.args[0]) == n(NP) * n(s), self.R2, lab, f'{show(rd.args[0])[:80]} bytes are read', r)
            j = r.events.index(rd)
            sk = [y for y in r.events[:j] if y.kind == 'call' and y.name == 'seek' and y.recv == rd.recv]
            if sk and len(sk[-1].args) == 1 and not self.opaque(sk[-1].args[0]):
                c.require(n(sk[-1].args[0]) == n(FPOS), self.R2, lab, 'the records are not read from the start of the data', r)


def spans(r, nodes):
    """(index of iter, index of its loopend) for each pass through one of the loops on the path"""
    out, open_ = [], {}
    for i, e in enumerate(r.events):
        if e.kind == 'iter' and id(e.node) in nodes:
            open_[id(e.node)] = i
        elif e.kind == 'loopend' and id(e.node) in open_ and e.name == 'done':
            out.append((open_.pop(id(e.node)), i))
    return out


def loop_of(r, i):
    """the loop over the variables that the event is in"""
    stack = []
    for e in r.events[:i]:
        if e.kind == 'iter':
            stack = [x for x in stack if x is not e.node] + [e.node]
        elif e.kind == 'loopend':
            stack = [x for x in stack if x is not e.node]
    return id(stack[-1]) if stack else None


def read_binary(c, k, R1, R2, R3, R4, R5):
    f = c.p.lookup(k, 'read_trace_data')
    lst = P(f.arg_names()[1])
    lab = lab_(k, 'read_trace_data')
    res = c.walk(f, k, any_iteration=True, no_raise=QUIET)
    accs, bins = set(), []
    makers, adders = set(), set()
    for r in res:
        b = Bin(c, r, lab, (R1, R2, R3), accs)
        b.made = []
        bins.append(b)
        for i, e in enumerate(r.events):
            if iscall(e, 'Axis', 'TraceRead'):
                x = ctor(c, r, e, b.n, (R3, R4), lab, lambda x, pos, d, same, e=e: b.data(e, x, pos, d, same))
                if x is not None:
                    b.made.append((i, e, x))
                    if x[0] == 'elem':
                        makers.add(loop_of(r, i))
        for j, o, t in b.entries:
            if o[0] == 'elem':
                adders.add(loop_of(r, j))
        b.records()
    makers.discard(None)
    adders.discard(None)
    for b in bins:
        r, n = b.r, b.n
        b.kept()
        b.fields(adders)
        if r.outcome.kind != 'return':
            continue
        # everything asked for
        for i, j in spans(r, makers):
            seq = plain(r.events[i].value)
            if n.seq(seq)[0] != TI:
                continue
            x = ('elem', seq)
            fst, ax = first(r, n, x, j), truth(r, A(SELF, '_has_axis'), j)
            made = [e for m, e, y in b.made if i < m < j and element(n, y) == element(n, x)]
            if wanted(r, x, lst, j) is True and not (fst is True and ax is True):
                c.require(made, R5, lab, 'a trace that is asked for is not read', r)
            if fst is True and ax is True and none_at(r, AXIS, j) is True:
                c.require(any(e.name == 'Axis' for e in made) or any(e.name == 'Axis' and m < i for m, e, y in b.made), R5, lab, 'the axis is not read', r)
        # the axis when it is read on its own
        if truth(r, A(SELF, '_has_axis')) is True and none_at(r, AXIS, len(r.events)) is True and truth(r, TI) is True:
            c.require(any(e.name == 'Axis' for m, e, y in b.made), R5, lab, 'the axis is not read', r)
        for m, e, y in b.made:
            if e.name != 'Axis':
                continue
            steps = A(SELF, '_steps')
            ss = [z for z in r.events[m:] if z.kind == 'call' and z.name == 'set_steps']
            if ss:
                c.require(strip_old(ss[0].args[0]) == steps if ss[0].args else False, R4, lab, 'the axis gets other steps', r)
            else:
                none = None
                for z in r.events[m:]:
                    if z.kind == 'assume' and (z.lit == ('isnone', steps) and z.pol or z.lit in (steps, ('truthy', steps)) and not z.pol):
                        none = True
                c.require(none is True or none_at(r, steps, len(r.events)) is True or truth(r, steps) is False, R4, lab, 'the axis does not get the steps', r)
    # places of variables that are skipped in the reading of a list: every variable is looked at
    for b in bins:
        for e in b.r.events:
            if e.kind in ('iter', 'loop0') and id(e.node) in makers:
                seq = plain(e.value)
                if seq is None or b.n.seq(seq)[0] != TI:
                    continue
                base, s, t = b.n.span(seq)
                c.require(t == b.n(('call', 'len', (TI,))), R5, lab, 'the last variables are not looked at', b.r)
                if s != 0:
                    c.require(s.denominator == 1 and all(any(element(b.n, y) == q for m, _, y in b.made) for q in range(int(min(s, 50)))), R5, lab, 'the first variables are not looked at', b.r)


def stripped(v):
    """the text without blanks around it"""
    while v[0] == 'mcall' and v[2] in ('strip', 'rstrip', 'lstrip') or v[0] == 'old':
        v = v[1]
    return v


def line_of(r, v):
    """(number of the readline event, part) of a text: the line itself ('all'), what is behind the point number ('value') or the point number"""
    calls = {e.n: e for e in r.events if e.kind == 'call'}
    part = 'all'
    for _ in range(12):
        v = stripped(v)
        if v[0] == 'item' or v[0] == 'sub' and v[2][0] == 'const':
            i = v[2] if v[0] == 'item' else v[2][1]
            i = i[1] if isinstance(i, tuple) else i
            b = stripped(v[1])
            if b[0] == 'mcall' and b[2] in ('split', 'partition', 'rsplit', 'rpartition') and part == 'all':
                part = {0: 'point', 1: 'value' if 'split' in b[2] else '?', 2: 'value', -1: 'value'}.get(i, '?')
                v = b[1]
                continue
            return None, None
        if v[0] == 'bin' and v[1] == '+':
            v = v[2]
            continue
        if v[0] == 'res':
            e = calls.get(v[1])
            if e is None:
                return None, None
            if e.name in ('readline', '_read_ascii_line'):
                return e.n, part
            if e.name in ('decode', 'strip', 'rstrip') and e.recv is not None:
                v = e.recv
                continue
        return None, None
    return None, None


def number_of(v):
    """('real', text) of float(text), ('complex', text, i, j) of complex(float(text.split(',')[i]), ...)"""
    if v[0] == 'call' and v[1] == 'float' and len(v[2]) == 1:
        return 'real', v[2][0]
    if v[0] == 'call' and v[1] == 'complex' and len(v[2]) == 2:
        ps = []
        for x in v[2]:
            if x[0] == 'call' and x[1] == 'float' and len(x[2]) == 1:
                x = x[2][0]
            x = stripped(x)
            if x[0] == 'item':
                ps.append((x[1], x[2]))
            elif x[0] == 'sub' and x[2][0] == 'const':
                ps.append((x[1], x[2][1]))
            else:
                return None
        if ps[0][0] == ps[1][0] and ps[0][0][0] == 'mcall' and ps[0][0][2] in ('split', 'partition'):
            return 'complex', ps[0][0][1], ps[0][1] if isinstance(ps[0][1], int) else ps[0][1][1], (ps[1][1] if isinstance(ps[1][1], int) else ps[1][1][1]) - (1 if ps[0][0][2] == 'partition' else 0)
    return None


def read_ascii(c, k, R3, R4, R6):
    f = c.p.lookup(k, '_read_ascii_vector')
    lab = lab_(k, '_read_ascii_vector')
    res = c.walk(f, k, any_iteration=True, no_raise=QUIET)
    counters = set()
    for r in res:
        n = Nums(r)
        for i, e in enumerate(r.events):
            if iscall(e, 'Axis', 'TraceRead'):
                def data_ok(x, pos, d, same):
                    b = n.call_of(d) if d is not None else None
                    if b is not None and b.name in ('zeros', 'empty') and b.args:
                        c.require(n(b.args[0]) == n(NP), R3, lab, f'a trace has room for {show(b.args[0])} values', r)
                        t = arg(b, 1, 'dtype')
                        if t is not None and owner(t, 'dtype') is not None:
                            c.require(same(owner(t, 'dtype')), R3, lab, 'a trace has the number type of another variable', r)
                        elif t is None:
                            c.bad(R3, lab, 'a trace has no number type', r)
                ctor(c, r, e, n, (R3, R4), lab, data_ok)
            if e.kind != 'setitem' or e.path is None or e.path[0] != 'sub' or strip_old(e.path[1])[0] != 'attr' or strip_old(e.path[1])[2] != 'data':
                continue
            tr, at = strip_old(e.path[1])[1], e.path[2]
            if tr[0] != 'sub' or strip_old(tr[1]) != READ:
                continue
            x = owner(tr[2], 'name')
            if x is None or element(n, x) is None:
                continue
            pos = element(n, x)
            its = [y for y in r.events[:i] if y.kind == 'iter' and y.value is not None]
            # the point
            if at[0] == 'elem' and at[1][0] == 'call' and at[1][1] == 'range':
                a = at[1][2]
                c.require((len(a) == 1 or len(a) == 2 and n(a[0]) == 0) and n(a[-1]) == n(NP), R6, lab, f'the points are {show(at[1])}', r)
            elif at[0] == 'phi':
                st = next((y.start[at[1]] for y in r.events[:i] if y.kind == 'iter' and y.start and at[1] in y.start), None)
                if st is not None and st[0] == 'const':
                    c.require(st == ('const', 0), R6, lab, f'the first point is {show(st)}', r)
            elif at[0] in ('const', 'bin'):
                c.bad(R6, lab, f'a value is stored at {show(at)}', r)
            # the value
            v = number_of(e.value)
            if v is None:
                continue
            last = [y.n for y in r.events[:i] if y.kind == 'call' and y.name in ('readline', '_read_ascii_line')]
            ln, part = line_of(r, v[1])
            if ln is None or not last:
                continue
            c.require(ln == last[-1], R6, lab, 'a value is taken from an earlier line', r)
            j = x[2] if x[0] == 'sub' else ('idx', x[1]) if x[0] == 'elem' else None
            zero = True if j == ('const', 0) else None
            for y in r.events[:i]:
                if y.kind == 'assume':
                    if y.lit in (j, ('truthy', j)):
                        zero = not y.pol
                    elif y.lit[0] == 'cmp' and y.lit[1] == 'eq' and j in y.lit[2:4] and ('const', 0) in y.lit[2:4]:
                        zero = y.pol
            if zero is True:
                c.require(part == 'value', R6, lab, f'the first value of a point is taken from the {part} of the line', r)
            elif zero is False:
                c.require(part == 'all', R6, lab, f'a later value of a point is taken from the {part} of the line', r)
            cx = None
            for y in r.events[:i]:
                if y.kind == 'assume' and y.lit[0] == 'cmp' and y.lit[1] == 'eq' and A(x, 'dtype') in y.lit[2:4]:
                    cx = y.pol if ('const', 'complex') in y.lit[2:4] else None
            if cx is not None:
                c.require((v[0] == 'complex') == cx, R6, lab, f'a {"complex" if cx else "real"} value is read as {v[0]}', r)
            if v[0] == 'complex':
                c.require(v[2:] == (0, 1), R6, lab, 'the parts of a complex value are mixed up', r)
            if j is not None and j[0] == 'phi':
                loops = [y for y in r.events[:i] if y.kind == 'iter' and y.start and j[1] in y.start]
                if loops:
                    counters.add((id(loops[-1].node), j[1]))
                    st = loops[-1].start[j[1]]
                    if st[0] == 'const':
                        c.require(st == ('const', 0), R6, lab, f'the first variable of a point is {show(st)}', r)
    # the counter of the variables moves on with each value, and only then
    for r in res:
        n = Nums(r)
        for i, e in enumerate(r.events):
            if e.kind == 'loopend' and e.start and e.name == 'done':
                ends, first_ = e.start, next((m for m in range(i, -1, -1) if r.events[m].kind == 'iter' and r.events[m].node is e.node), None)
            elif i == len(r.events) - 1 and r.outcome.kind == 'loopback':
                m = [m for m in range(i, -1, -1) if r.events[m].kind == 'iter' and r.events[m].node is r.outcome.node]
                if not m:
                    continue
                first_ = m[0]
                ends = {a: r.st.env[a] for a in r.events[first_].start or () if a in r.st.env}
            else:
                continue
            if first_ is None:
                continue
            node = r.events[first_].node
            for a, v in ends.items():
                if (id(node), a) not in counters:
                    continue
                stored = sum(1 for y in r.events[first_:i + 1] if y.kind == 'setitem' and y.path is not None and y.path[0] == 'sub' and strip_old(y.path[1])[0] == 'attr' and strip_old(y.path[1])[2] == 'data')
                if any(x[0] not in ('phi', 'bin', 'const') for x in subvalues(v) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ('res', 'call', 'mcall')):
                    continue
                c.require(n(v) - n(('phi', a)) == stored, R6, lab, f'after {"a" if stored else "no"} value the next variable is {show(v)}', r)


def literal_map(c, k, name):
    """the constant table {text: text} of that name in the module of the class"""
    for st in k.module.tree.body:
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id == name and isinstance(st.value, ast.Dict):
            try:
                return ast.literal_eval(st.value)
            except ValueError:
                return None
    return None


INIT = dict(any_iteration=True, no_raise=QUIET, opaque={'_load_step_information', 'read_trace_data', '_read_ascii_vector', 'raw_detect_encoding', 'get_remaining_bytes', 'set_steps'})
BYTES = {'d': 8, 'f8': 8, 'float64': 8, '<f8': 8, 'f': 4, 'f4': 4, 'float32': 4, '<f4': 4, 'complex': 16, 'complex128': 16, 'c16': 16, 'D': 16}
DIALECTS = ('ltspice', 'qspice', 'ngspice', 'xyce')


def types(c, k, R7, R4):
    f = c.p.lookup(k, '__init__')
    lab = lab_(k, '__init__')
    table = literal_map(c, k, 'dtype_map')
    if table is not None:
        for key, size in (('real', 4), ('double', 8), ('complex', 16)):
            t = table.get(key)
            if isinstance(t, str) and t in BYTES:
                c.require(BYTES[t] == size, R7, PD + ':dtype_map', f'{key} numbers are read as {t}')
    for r in c.walk(f, k, bind={'verbose': ('const', False), 'encoding': ('const', 'utf_8'), 'dialect': ('const', 'ngspice')}, interest={'dialect', '_dialect', 'autodetected_dialect'}, **INIT):
        got = [e.value for e in r.events if e.kind == 'write' and e.path == A(SELF, '_dialect')]
        if got and got[-1][0] == 'const' and got[-1] != NONE:
            c.require(got[-1] == ('const', 'ngspice'), R7, lab, 'the dialect that is given is not used', r)
    interest = {'TraceInfo', 'dtype_map', 'numerical_type', 'axis_numerical_type', 'always_double', 'frequency_double', 'dialect', '_dialect'}
    for d in DIALECTS + (None,):
        res = c.walk(f, k, bind={'verbose': ('const', False), 'encoding': ('const', 'utf_8'), 'dialect': ('const', d)}, interest=interest | ({'autodetected_dialect'} if d is None else set()), **INIT)
        for r in res:
            got = [e.value for e in r.events if e.kind == 'write' and e.path == A(SELF, '_dialect')]
            cur = got[-1] if got else None
            if d is None:
                # found in the Command line
                if cur is not None and cur[0] == 'const' and cur[1] in DIALECTS:
                    hits = [(e.lit[2][1], e.pol) for e in r.events if e.kind == 'assume' and e.lit[0] == 'cmp' and e.lit[1] == 'in' and e.lit[2][0] == 'const' and e.lit[2][1] in DIALECTS]
                    if hits:
                        c.require((cur[1], True) in hits, R7, lab, f'a file that is not from {cur[1]} is taken for one', r)
            elif cur is not None and cur[0] == 'const' and cur != ('const', None):
                c.require(cur == ('const', d), R7, lab, f'the dialect {d} that is given becomes {cur[1]}', r)
            if cur is None or cur[0] != 'const' or cur[1] not in DIALECTS:
                continue
            n = Nums(r)
            for i, e in enumerate(r.events):
                if iscall(e, 'TraceInfo'):
                    one_type(c, r, e, i, cur[1], table, R7, lab)


def one_type(c, r, e, i, dialect, table, R7, lab):
    t = arg(e, 1, 'dtype')
    if t is None:
        return
    if t[0] == 'sub' and t[2][0] == 'const' and 'dtype_map' in repr(t[1]):
        got = t[2][1]
    elif t[0] == 'const' and isinstance(t[1], str) and table and t[1] in table.values():
        got = next(k for k, v in table.items() if v == t[1])
    else:
        return
    known, strange = {}, False
    for y in r.events[:i]:
        if y.kind != 'assume':
            continue
        l, p = y.lit, y.pol
        txt = repr(l)
        if l[0] == 'cmp' and l[1] == 'in' and l[2] in (('const', 'complex'), ('const', 'double')) and ('Flags' in txt or '_flags' in txt):
            known[l[2][1]] = p
        elif l[0] == 'cmp' and l[1] == 'eq' and ('const', 'ac analysis') in l[2:4]:
            known['ac'] = p
        elif l[0] == 'cmp' and l[1] == 'in' and l[3] == TI:
            continue
        elif l[0] == 'phi' or l[0] == 'truthy' and l[1][0] in ('phi', 'idx') or l[0] == 'idx':
            known['first'] = not p
        elif l[0] == 'cmp' and l[1] == 'eq' and ('const', 0) in l[2:4] and any(z[0] in ('phi', 'idx') or z == ('call', 'len', (TI,)) for z in l[2:4]):
            known['first'] = p
        elif l in (TI, ('truthy', TI), ('call', 'len', (TI,))):
            known['first'] = not p
        elif 'Flags' in txt or 'Plotname' in txt and 'operating point' not in txt:
            strange = True
    # what the path does not ask must not matter
    want = set()
    for cx in (True, False):
        for db in (True, False):
            for ac in (True, False):
                for fst in (True, False):
                    w = dict(complex=cx, double=db, ac=ac, first=fst)
                    if any(w[a] != b for a, b in known.items()):
                        continue
                    num = 'complex' if cx or ac else 'double' if dialect != 'ltspice' or db else 'real'
                    if fst:
                        num = 'double' if num == 'real' or num == 'complex' and dialect == 'qspice' else num
                    want.add(num)
    if strange and len(want) > 1:
        return
    c.require(want == {got}, R7, lab, f'{"the first variable" if known.get("first") else "a variable"} of a {dialect} file is read as {got} instead of {"/".join(sorted(want))}', r)


NOAXIS = {'operating point', 'transfer function', 'integrated noise'}


def plots(c, r, v, R4, lab):
    neg = True
    while v[0] in ('not', 'old') or v[0] == 'call' and v[1] == 'bool':
        if v[0] == 'not':
            neg = not neg
        v = v[1] if v[0] != 'call' else v[2][0]
    if v[0] == 'cmp' and v[1] == 'in' and v[3][0] in ('tuple', 'list', 'set') and all(x[0] == 'const' for x in v[3][1]):
        c.require(not neg and {x[1] for x in v[3][1]} == NOAXIS, R4, lab, f'plots without an axis are {sorted(x[1] for x in v[3][1])}', r)


def end_of_data(c, k, R8, R4):
    f = c.p.lookup(k, '__init__')
    lab = lab_(k, '__init__')
    for r in c.walk(f, k, bind={'verbose': ('const', False), 'encoding': ('const', 'utf_8')}, interest={'seek', '_fpos_data', '_nPoints', '_nVariables', '_read_ascii_vector', '_raw_type', 'record_size', '_has_axis'}, **INIT):
        has = [e for e in r.events if e.kind == 'write' and e.path == A(SELF, '_has_axis')]
        if has and has[-1].value != FALSE:
            plots(c, r, has[-1].value, R4, lab)
        if r.outcome.kind != 'return' or not any(e.kind == 'write' and e.path == A(SELF, '_nVariables') and e.value != ('const', 0) for e in r.events):
            continue
        n = Nums(r)
        typ = {}
        for e in r.events:
            if e.kind == 'assume' and e.lit[0] == 'cmp' and e.lit[1] == 'eq':
                for x in e.lit[2:4]:
                    if x in (('const', 'binary:'), ('const', 'values:')):
                        typ[x[1]] = e.pol
        sk = [e for e in r.events if e.kind == 'call' and e.name == 'seek' and not e.raised]
        asc = [e for e in r.events if e.kind == 'call' and e.name == '_read_ascii_vector' and not e.raised]
        if typ.get('binary:') is True:
            if not sk:
                c.bad(R8, lab, 'reading goes on in the middle of the binary data', r)
                continue
            a = sk[-1].args
            s = find_sum(a[0])
            ok = record_sum(n, r, s) if s is not None else None
            if ok is not None:
                c.require(len(a) == 1, R8, lab, 'the end of the data is not counted from the start of the file', r)
                c.require(ok[0], R8, lab, f'the end of the data is computed with {ok[1]}', r)
                c.require(n(a[0]) == n(FPOS) + n(NP) * n(s), R8, lab, f'reading goes on at {show(a[0])[:80]}', r)
        elif typ.get('values:') is True:
            c.require(asc, R8, lab, 'the values of an ASCII file are not read', r)


def steps_of(c, k, R9):
    """an axis that is already there (ASCII data, steps counted) must be told the steps when they are known"""
    f = c.p.lookup(k, '__init__')
    lab = lab_(k, '__init__')
    for r in c.walk(f, k, bind={'verbose': ('const', False), 'encoding': ('const', 'utf_8')}, interest={'_steps', '_axis', 'set_steps', '_load_step_information', '_read_ascii_vector', 'read_trace_data', '_raw_type'}, **INIT):
        if r.outcome.kind != 'return':
            continue
        load = [i for i, e in enumerate(r.events) if e.kind == 'call' and e.name == '_load_step_information']
        if not load:
            continue
        reads = [i for i, e in enumerate(r.events) if iscall(e, '_read_ascii_vector', 'read_trace_data')]
        told = [i for i, e in enumerate(r.events) if iscall(e, 'set_steps')]
        known = [i for i, e in enumerate(r.events) if e.kind == 'write' and e.path == A(SELF, '_steps') and e.value != NONE] or load
        no_axis = any(e.kind == 'assume' and i > load[0] and none_at(r, A(SELF, '_axis'), i + 1) is True for i, e in enumerate(r.events)) or none_at(r, A(SELF, '_steps'), len(r.events)) is True
        # the axis read after the steps are known gets them from the reader
        early = [i for i in reads if i < max(known)]
        if early and not no_axis:
            c.require(any(i > max(early) and i > min(known) for i in told), R9, lab, 'the axis that was read is not told the steps', r)
        late = [i for i in reads if r.events[i].name == '_read_ascii_vector' and i > max(known)]
        if late:
            c.require(any(i > late[0] for i in told) or any(m for m in ascii_tells(c, k)), R9, lab, 'the axis of an ASCII file is not told the steps', r)
        # counting them needs the axis
        for i, e in enumerate(r.events):
            if e.kind == 'iter' and e.value is not None and contains(e.value, A(A(SELF, '_axis'), 'data')):
                c.require(any(j < i for j in reads), R9, lab, 'steps are counted on an axis that was never read', r)
        if load and r.events[load[0]].raised and not any(e.kind == 'iter' and e.value is not None and contains(e.value, A(A(SELF, '_axis'), 'data')) for e in r.events):
            if truth(r, A(SELF, '_has_axis')) is True and not reads:
                c.bad(R9, lab, 'without a log file the steps are counted on an axis that was never read', r)


def ascii_tells(c, k):
    f = c.p.lookup(k, '_read_ascii_vector')
    import ast
    yield any(isinstance(x, ast.Attribute) and x.attr == 'set_steps' for x in ast.walk(f.node))


def ascii_lines(c, k, R6, R8):
    """lines are read as the encoding has them, and looking ahead for the next plot comes to an end"""
    f = c.p.lookup(k, '_read_ascii_vector')
    lab = lab_(k, '_read_ascii_vector')
    wide = ('utf_16_le', 'utf-16', 'utf_16', 'utf-16-le')
    file = P(f.arg_names()[1])
    for r in c.walk(f, k, any_iteration=True, no_raise=QUIET):
        n = Nums(r)
        if torn(r, n):
            continue
        for i, e in enumerate(r.events):
            if iscall(e, 'decode') and e.recv is not None:
                y = n.call_of(e.recv)
                if y is not None and y.name == 'readline' and y.recv == file:
                    j = r.events.index(y)
                    narrow = any(z.kind == 'assume' and contains(z.lit, A(SELF, '_encoding')) and not (z.pol and any(('const', w) in subvalues(z.lit) for w in wide)) for z in r.events[:i])
                    empty = any(z.kind == 'assume' and empty_text(n, z)[0] == e.recv and empty_text(n, z)[1] for z in r.events[j:i])
                    c.require(narrow or empty, R6, lab, 'a line of a utf-16 file is cut in the middle of its line end', r)
        # back to a position told in the same pass
        if r.outcome.kind == 'loopback':
            last = max((i for i, e in enumerate(r.events) if e.kind == 'iter'), default=-1)
            tell = {('res', e.n, 'tell') for e in r.events[last + 1:] if iscall(e, 'tell')}
            back = [i for i, e in enumerate(r.events) if i > last and iscall(e, 'seek') and e.args and e.args[0] in tell]
            reads = [i for i, e in enumerate(r.events) if i > last and iscall(e, 'readline', '_read_ascii_line', 'read')]
            if tell:
                c.require(not (back and back[-1] > max(reads, default=-1)), R8, lab, 'the same line is read again and again', r)
                gone = [z for z in r.events[last + 1:] if z.kind == 'assume' and empty_text(n, z)[0] is not None and empty_text(n, z)[1] and any(raw_text(n, empty_text(n, z)[0], y) for y in r.events if iscall(y, 'readline'))]
                c.require(not gone, R8, lab, 'the search for the next plot goes on behind the end of the file', r)


@prop('P22', 'A truncated or inconsistent RAW file is refused, not read as data',
      'Binary data is only used when as many bytes were read as were asked for; an ASCII file that ends before the last value, whose points are out of sequence or whose complex values do not have two parts raises SpiceReadException, as do '
      'a header without points or variables, a malformed variable line, a file too short or not starting like a RAW file, and a file whose dialect is neither given nor recognised. An unknown dialect argument raises ValueError.',
      ['inputs', 'fault_sequences'],
      'any truncation point or header content',
      'There are countless ways to cut a file short; tests contain none of them.',
      [PD, RR],
      [dict(name='short reads', where=PD + ':PlotData._read_bytes_from_file'), dict(name='ASCII data', where=PD + ':PlotData._read_ascii_vector'), dict(name='header', where=PD + ':PlotData.__init__')],
      'Every path that uses data read from the file must have compared its length with the length asked for; every path that assumes the refused condition must end in the exception, and every path that goes on must have excluded it.',
      'path-sensitive dataflow: validity checks dominate the use of data',
      'All paths; loops by one iteration from any state.', [])
def p22(c: Ctx):
    R1 = c.rule('P22.bytes', 'binary data is only used when all of it was read', 2)
    R2 = c.rule('P22.eof', 'an ASCII file that ends too early is refused', 1)
    R3 = c.rule('P22.sequence', 'points out of sequence and incomplete complex values are refused', 2)
    R4 = c.rule('P22.header', 'an empty or malformed header is refused', 4)
    R5 = c.rule('P22.start', 'a file that does not start like a RAW file is refused', 2)
    k = c.p.cls('PlotData')
    with c.attempt(lab_(k, 'read_trace_data')):
        short_reads(c, k, R1)
    with c.attempt(lab_(k, '_read_ascii_vector')):
        ascii_checks(c, k, R2, R3)
    with c.attempt(lab_(k, '__init__')):
        header_checks(c, k, R4)
    with c.attempt('raw_detect_encoding'):
        start_checks(c, R5)
    rr = c.p.cls('RawRead')
    with c.attempt(lab_(rr, '__init__')):
        dialect_arg(c, rr, R4)


SRE = 'SpiceReadException'


def raises(r, *names):
    return r.outcome.kind == 'raise' and any(n in show(r.outcome.value) for n in names) if r.outcome.value is not None else r.outcome.kind == 'raise'


def short_reads(c, k, R1):
    f = c.p.lookup(k, 'read_trace_data')
    lab = lab_(k, 'read_trace_data')
    for r in c.walk(f, k, any_iteration=True, no_raise=QUIET):
        n = Nums(r)
        kind = None
        for e in r.events:
            if e.kind == 'assume' and e.lit[0] == 'cmp' and e.lit[1] == 'eq' and A(SELF, '_raw_type') in e.lit[2:4]:
                kind = kind or e.pol
        if kind is False and not any(e.kind == 'assume' and e.pol and 'values:' in repr(e.lit) for e in r.events):
            c.require(r.outcome.kind == 'raise', R1, lab, 'data of an unknown kind is accepted', r)
        for i, e in enumerate(r.events):
            if not iscall(e, 'frombuffer', 'fromstring') or not e.args:
                continue
            rd = n.call_of(e.args[0])
            if rd is None and e.args[0][0] == 'bin' and any((y := n.call_of(x)) is not None and y.name == 'read' for x in subvalues(e.args[0])):
                c.bad(R1, lab, 'data is used that was not read from the file', r)
                continue
            if rd is None or rd.name != 'read':
                continue
            if not rd.args:
                c.bad(R1, lab, 'whatever is left in the file is taken as the data', r)
                continue
            want, ln = n(rd.args[0]), n(('call', 'len', (e.args[0],)))
            ok, strange = False, False
            for y in r.events[:i]:
                if y.kind != 'assume' or not contains(y.lit, e.args[0]):
                    continue
                l = y.lit[1] if y.lit[0] == 'truthy' else y.lit
                if l == e.args[0] or l == ('call', 'len', (e.args[0],)):
                    continue
                if l[0] != 'cmp' or l[1] not in ('lt', 'eq'):
                    strange = True
                    continue
                a, b = n(l[2]), n(l[3])
                if a == ln:
                    d = b - want
                elif b == ln:
                    d = a - want
                else:
                    strange = True
                    continue
                if l[3][0] == 'const' or l[2][0] == 'const':
                    continue
                if any(d == v for v in range(-64, 65)):
                    ok |= l[1] == 'eq' and y.pol and d == 0 or l[1] == 'lt' and a == ln and not y.pol and any(d == v for v in range(65)) or l[1] == 'lt' and b == ln and y.pol and any(d == v for v in range(-1, 65))
                else:
                    strange = True
            if strange and not ok:
                continue
            c.require(ok, R1, lab, 'data is used without knowing that all of it was read', r)


def ascii_checks(c, k, R2, R3):
    f = c.p.lookup(k, '_read_ascii_vector')
    lab = lab_(k, '_read_ascii_vector')
    for r in c.walk(f, k, any_iteration=True, no_raise=QUIET):
        n = Nums(r)
        store = [i for i, e in enumerate(r.events) if e.kind == 'setitem' and e.path is not None and e.path[0] == 'sub' and strip_old(e.path[1])[0] == 'attr' and strip_old(e.path[1])[2] == 'data']
        # inside the loop over the points
        inside = None
        for i, e in enumerate(r.events):
            if e.kind == 'iter' and e.value is not None and contains(e.value, NP):
                inside = e.node
            elif e.kind == 'loopend' and e.node is inside:
                inside = None
            if inside is None or not (iscall(e, 'readline', '_read_ascii_line')):
                continue
            # the text read is empty: end of file
            said, blank = set(), set()
            for y in r.events[i + 1:]:
                if y.kind == 'call' and y.name in ('readline', '_read_ascii_line'):
                    break
                if y.kind != 'assume':
                    continue
                v, p = empty_text(n, y)
                if v is not None and raw_text(n, v, e):
                    said.add(p)
                elif v is not None and line_of(r, v) == (e.n, 'all'):
                    blank.add(p)
            if len(said) > 1 or said == {True} and False in blank:
                continue
            eof = next(iter(said), None)
            later = [s for s in store if s > i]
            if eof is True:
                c.require(r.outcome.kind == 'raise' and not later, R2, lab, 'the end of the file is not noticed', r)
            elif eof is None and later:
                c.bad(R2, lab, 'values are taken without looking for the end of the file', r)
            elif later:
                c.ok(R2, lab)
        for i in store:
            e = r.events[i]
            v = number_of(e.value)
            at = e.path[2]
            tr = strip_old(e.path[1])[1]
            x = owner(tr[2], 'name') if tr[0] == 'sub' else None
            if x is None or v is None:
                continue
            ln, part = line_of(r, v[1])
            if part == 'value':
                seq = None
                for y in r.events[:i]:
                    if y.kind == 'assume' and y.lit[0] == 'cmp' and y.lit[1] == 'eq':
                        for a, b in ((y.lit[2], y.lit[3]), (y.lit[3], y.lit[2])):
                            if b == at and a[0] == 'call' and a[1] == 'int' and line_of(r, a[2][0]) == (ln, 'point'):
                                seq = y.pol
                if seq is None and any(y.kind == 'assume' and contains(y.lit, at) and y.lit[0] != 'cmp' for y in r.events[:i]):
                    continue
                c.require(seq is True, R3, lab, 'a value is taken although its point is out of sequence', r)
            if v[0] == 'complex':
                two = None
                for y in r.events[:i]:
                    if y.kind == 'assume' and y.lit[0] == 'cmp' and y.lit[1] == 'eq' and ('const', 2) in y.lit[2:4] and any(z[0] == 'call' and z[1] == 'len' for z in y.lit[2:4]):
                        two = y.pol
                if e.value[0] == 'call' and not any(z[0] == 'mcall' and z[2] == 'partition' for z in subvalues(e.value)):
                    c.require(two is True or two is None and any(z[0] == 'item' for z in subvalues(e.value)), R3, lab, 'a complex value without two parts is taken', r)


def empty_text(n, y):
    """(text, is it empty) of an assumption"""
    l, p = (y.lit[1] if y.lit[0] == 'truthy' else y.lit), y.pol
    if l[0] == 'cmp':
        for a, b in ((l[2], l[3]), (l[3], l[2])):
            if l[1] == 'eq' and b in (('const', ''), ('const', b'')):
                return a, p
            if a[0] == 'call' and a[1] == 'len' and b[0] == 'const':
                if l[1] == 'eq' and b[1] == 0:
                    return a[2][0], p
                if l[1] == 'lt' and l[2] == a and b[1] == 1:
                    return a[2][0], p
                if l[1] == 'lt' and l[3] == a and b[1] == 0:
                    return a[2][0], not p
        return None, None
    if l[0] == 'call' and l[1] == 'len':
        l = l[2][0]
    return l, not p


def torn(r, n):
    """the path takes the same line both for empty and not"""
    said = {}
    for y in r.events:
        if y.kind == 'assume':
            v, p = empty_text(n, y)
            if v is not None:
                for e in r.events:
                    if iscall(e, 'readline', '_read_ascii_line') and (raw_text(n, v, e) or not p and line_of(r, v)[0] == e.n) and said.setdefault(e.n, p) != p:
                        return True
    return False


def raw_text(n, v, e):
    """v is the text of the line as it was read by e, with its line end"""
    for _ in range(8):
        if v[0] == 'bin' and v[1] == '+':
            v = v[2]
            continue
        y = n.call_of(v)
        if y is None:
            return False
        if y.n == e.n:
            return True
        if y.name != 'decode' or y.recv is None:
            return False
        v = y.recv
    return False


def header_checks(c, k, R4):
    f = c.p.lookup(k, '__init__')
    lab = lab_(k, '__init__')
    NV = A(SELF, '_nVariables')
    for r in c.walk(f, k, bind={'verbose': ('const', False), 'encoding': ('const', 'utf_8')}, interest={'TraceInfo', '_nPoints', '_nVariables'}, **INIT):
        used = [i for i, e in enumerate(r.events) if iscall(e, 'TraceInfo')]
        upto = used[0] if used else len(r.events)
        for v, what in ((NP, 'points'), (NV, 'variables')):
            zero = None
            for e in r.events[:upto]:
                if e.kind == 'assume':
                    l, p = (e.lit[1] if e.lit[0] == 'truthy' else e.lit), e.pol
                    if l == v or l[0] == 'call' and l[1] == 'int' and what.title() in repr(l) and ('No. ' in repr(l)):
                        zero = not p
                    elif l[0] == 'cmp' and l[1] == 'eq' and v in l[2:4] and ('const', 0) in l[2:4]:
                        zero = p
                    elif l[0] == 'cmp' and l[1] == 'lt' and v in l[2:4]:
                        if l[2] == v and l[3] == ('const', 1):
                            zero = p
                        elif l[3] == v and l[2] == ('const', 0):
                            zero = not p
                    elif contains(l, v):
                        zero = zero if zero is not None else '?'
            if zero is True:
                c.require(r.outcome.kind == 'raise', R4, lab, f'a plot without {what} is accepted', r)
            elif zero is None and used:
                c.bad(R4, lab, f'a plot without {what} is accepted', r)
            elif zero is False and used:
                c.ok(R4, lab)
        for i in used:
            e = r.events[i]
            last = [z for a in e.args for z in subvalues(a) if z[0] in ('sub', 'item') and any(y[0] == 'mcall' and y[2] == 'split' for y in subvalues(z[1]))]
            if not last:
                continue
            least = max((z[2][1] if z[0] == 'sub' and z[2][0] == 'const' else z[2] if z[0] == 'item' and isinstance(z[2], int) else 0) for z in last)
            lens = [y for y in r.events[:i] if y.kind == 'assume' and y.lit[0] == 'cmp' and any(z[0] == 'call' and z[1] == 'len' and z[2][0] == last[0][1] for z in y.lit[2:4])]
            ok = any(y.lit[1] == 'lt' and y.lit[3][0] == 'const' and y.lit[3][1] > least and not y.pol or y.lit[1] == 'lt' and y.lit[2][0] == 'const' and y.lit[2][1] >= least and y.pol
                     or y.lit[1] == 'eq' and y.pol and any(z == ('const', least + 1) for z in y.lit[2:4]) for y in lens)
            c.require(ok, R4, lab, 'a malformed variable line is accepted', r)
    # without a dialect
    for r in c.walk(f, k, bind={'verbose': ('const', False), 'encoding': ('const', 'utf_8'), 'dialect': NONE}, interest={'dialect', '_dialect', 'autodetected_dialect'}, **INIT):
        got = [e.value for e in r.events if e.kind == 'write' and e.path == A(SELF, '_dialect')]
        if len(got) > 1 and r.outcome.kind == 'return' and got[-1] in (NONE, ('const', '')):
            c.bad(R4, lab, 'a file of unknown origin is accepted', r)
        elif len(got) > 1:
            c.ok(R4, lab)
    for r in c.walk(f, k, bind={'verbose': ('const', False), 'encoding': ('const', 'utf_8'), 'dialect': ('const', 'ltspice')}, interest={'get_remaining_bytes', 'bytes_remaining'}, **INIT):
        small = None
        for e in r.events:
            if e.kind == 'assume' and e.lit[0] == 'cmp' and e.lit[1] == 'lt' and 'get_remaining_bytes' in repr(e.lit):
                small = e.pol if e.lit[2][0] == 'res' else not e.pol
        if small is True:
            c.require(r.outcome.kind == 'raise', R4, lab, 'a file without room for a header is accepted', r)


def start_checks(c, R5):
    f = c.p.function(PD, 'raw_detect_encoding')
    lab = f.where()
    for r in c.walk(f, None, no_raise={'seek', 'read'}):
        if r.outcome.kind != 'return':
            continue
        v = r.outcome.value
        yes = [e.lit for e in r.events if e.kind == 'assume' and e.pol and e.lit[0] == 'cmp' and e.lit[1] in ('eq', 'in') and any(x[0] == 'const' and isinstance(x[1], str) and 'Ti' in x[1] for x in subvalues(e.lit))]
        other = [e for e in r.events if e.kind == 'assume' and e.pol and 'Ti' in repr(e.lit)]
        c.require(yes or other, R5, lab, f'the encoding of a file that does not start with a title is taken for {show(v)}', r)
        if yes and v[0] == 'const':
            lits = {e.n: e for e in r.events if e.kind == 'call' and e.name == 'decode'}
            for l in yes:
                d = next((lits[x[1]] for x in subvalues(l) if x[0] == 'res' and x[1] in lits), None)
                enc = arg(d, 0, 'encoding') if d is not None else None
                if enc is not None and enc[0] == 'const':
                    c.require(enc == v, R5, lab, f'text that reads as {enc[1]} is taken for {v[1]}', r)


def dialect_arg(c, k, R4):
    f = c.p.lookup(k, '__init__')
    lab = lab_(k, '__init__')
    if 'dialect' not in f.arg_names():
        return
    for val, good in [(('const', d), True) for d in DIALECTS + ('LTspice',)] + [(('const', 'spice'), False)]:
        for r in c.walk(f, k, bind={'dialect': val}, interest={'dialect', '_dialect'}, any_iteration=True, no_raise={'PlotData', 'read_trace_data', 'open', 'get_trace_names', 'get_remaining_bytes', 'tell', 'seek'}, opaque={'PlotData', 'get_remaining_bytes', 'read_trace_data'}):
            if impossible(r):
                continue
            if good:
                c.require(not (r.outcome.kind == 'raise' and 'ValueError' in show(r.outcome.value or ())), R4, lab, f'the dialect {val[1]} is refused', r)
            else:
                c.require(r.outcome.kind == 'raise', R4, lab, 'an unknown dialect is accepted', r)


# ---------------------------------------------------------------------------------------------------------------- P40
@prop('P40', 'A trace reference gives that trace, in the first plot of the file',
      'get_trace(name) gives the trace whose name is the given one up to case, else the alias of that name, and raises IndexError only when there is neither; get_trace(i) gives the i-th variable and raises IndexError for any i outside; '
      'get_wave(), get_axis() and get_len() give the wave or length of the requested step of that trace. Every query of RawRead gives what the same query with the same arguments gives on its first plot.',
      ['inputs', 'histories'],
      'any reference, any set of traces read before',
      'Tests ask for a few names; a reference that resolves to another trace depends on which names exist and which were read before.',
      [PD, RR],
      [dict(name='lookup of a trace', where=PD + ':PlotData.get_trace'), dict(name='queries', where=RR + ':RawRead')],
      'The value returned on each path of the lookup must be filed under the asked name, a name found equal to it (ignoring case) or its alias; each query of RawRead is compared with the call it makes on the first plot.',
      'path-sensitive dataflow',
      'All paths; loops by one iteration from any state.', [])
def p40(c: Ctx):
    R1 = c.rule('P40.name', 'a name gives the trace of that name', 4)
    R2 = c.rule('P40.index', 'an index gives the variable at that place', 2)
    R3 = c.rule('P40.missing', 'only a reference to nothing raises IndexError', 2)
    R4 = c.rule('P40.wave', 'waves and lengths are those of the trace and step asked for', 3)
    R5 = c.rule('P40.first', 'RawRead answers with its first plot', 15)
    k = c.p.cls('PlotData')
    with c.attempt(lab_(k, 'get_trace')):
        get_trace(c, k, R1, R2, R3)
    for m in ('get_wave', 'get_axis', 'get_len', 'get_time_axis', '__getitem__'):
        with c.attempt(lab_(k, m)):
            waves(c, k, m, R4)
    rr = c.p.cls('RawRead')
    for m, f in sorted(rr.methods.items()):
        if m.startswith('_') or m in ('dialect', 'plots', 'get_plot_names', 'get_nr_plots') or m not in k.methods:
            continue
        with c.attempt(f):
            delegate(c, rr, f, m, R5)


def fold(v):
    """(text, how it was folded)"""
    if v[0] == 'mcall' and v[2] in ('casefold', 'lower', 'upper') and not v[3]:
        return v[1], v[2]
    return v, ''


def equal_names(r, a, upto=None):
    """the values found equal to a on the path, as names"""
    out = []
    for e in r.events if upto is None else r.events[:upto]:
        if e.kind == 'assume' and e.pol and e.lit[0] == 'cmp' and e.lit[1] == 'eq':
            (x, fx), (y, fy) = fold(e.lit[2]), fold(e.lit[3])
            if fx == fy and a in (x, y):
                out.append(y if x == a else x)
    return out


VARS = ('sub', A(SELF, '_raw_params'), ('const', 'Variables'))


def get_trace(c, k, R1, R2, R3):
    f = c.p.lookup(k, 'get_trace')
    lab = lab_(k, 'get_trace')
    ref = P(f.arg_names()[1])
    for r in c.walk(f, k, any_iteration=True, opaque={'read_trace_data', '_compute_alias', 'index'}, no_raise={'read_trace_data', '_compute_alias'}):
        if impossible(r):
            continue
        n = Nums(r)
        text = None
        for e in r.events:
            l = e.lit[1] if e.kind == 'assume' and e.lit[0] == 'truthy' else e.lit
            if e.kind == 'assume' and l[0] == 'call' and l[1] == 'isinstance' and l[2][0] == ref:
                t = show(l[2][1])
                text = e.pol if 'str' in t else not e.pol if t == 'int' else None
        v = r.outcome.value
        if r.outcome.kind == 'return':
            if text is False:
                by_index(c, r, n, ref, v, R2, lab)
                continue
            e = n.call_of(v)
            if e is not None and e.name == '_compute_alias' and e.args:
                a = e.args[0]
                c.require(a == ref or a in equal_names(r, ref), R1, lab, f'the alias {show(a)} is given for another name', r)
                continue
            if e is not None and e.name == 'get_trace' and e.args:
                key = e.args[0]
            elif v[0] == 'sub' and strip_old(v[1]) == READ:
                key = v[2]
            elif v[0] == 'mcall' and v[2] == 'get' and strip_old(v[1]) == READ:
                key = v[3][0]
            else:
                if v == NONE:
                    c.bad(R1, lab, 'nothing is given for a name', r)
                continue
            key = strip_old(key)
            eq = [strip_old(x) for x in equal_names(r, ref)]
            if key == ref or key in eq:
                ok = True
            else:
                x = owner(key, 'name')
                ok = None
                if x is not None:
                    ok = asked_place(r, n, x, ref, eq)
                    if ok:
                        rd = [y for y in r.events if iscall(y, 'read_trace_data')]
                        inside = any(y.kind == 'assume' and y.pol and y.lit == ('cmp', 'in', key, READ) for y in r.events)
                        c.require(inside or rd and rd[-1].args and contains(rd[-1].args[0], key), R1, lab, 'a trace is given that may not have been read', r)
                elif key[0] in ('elem', 'const') or key[0] == 'param':
                    ok = False
            if ok is not None:
                c.require(ok, R1, lab, f'the trace {show(key)} is given for another name', r)
        elif r.outcome.kind == 'raise' and 'IndexError' in show(v or ()):
            if text is False:
                inside = range_facts(r, n, ref)
                c.require(inside != (True, True), R3, lab, 'a valid index is refused', r)
            elif text is True:
                seen = set()
                for y in r.events:
                    for z in (y.value, y.recv, y.lit):
                        for a, b in (('alias', A(SELF, '_aliases')), ('var', TI), ('var', VARS), ('var', A(SELF, 'raw_params'))):
                            if z is not None and contains(z, b):
                                seen.add(a)
                c.require(seen == {'alias', 'var'}, R3, lab, f'a name is refused without looking at the {"aliases" if "var" in seen else "variables"}', r)
                c.require(not equal_names(r, ref), R3, lab, 'a name that was found is refused', r)


def asked_place(r, n, x, ref, eq):
    """x is the variable whose name is asked for"""
    if A(x, 'name') in eq:
        return True
    pos = element(n, x)
    if pos is None:
        return None
    for y in eq:
        o = owner(y, 'name')
        if o is not None and element(n, o) == pos:
            return True
        if y[0] == 'elem' and n.seq(y[1])[0] == VARS and n.seq(y[1])[1] + n(('idx', y[1])) == pos:
            return True
    for e in r.events:
        if iscall(e, 'index') and e.args and e.args[0] == ref and e.recv is not None and contains(e.recv, ('const', 'Variables')):
            if pos == n(('res', e.n, 'index')):
                return True
    for z in subvalues(x):
        if z[0] in ('phi', 'next', 'call', 'comp') or z[0] == 'mcall' and z[2] != 'index':
            return None
    return False


def range_facts(r, n, ref):
    """(0 <= ref, ref < number of variables) as assumed on the path"""
    low = high = None
    for e in r.events:
        if e.kind == 'assume' and e.lit[0] == 'cmp' and e.lit[1] == 'lt':
            a, b = e.lit[2], e.lit[3]
            if a == ref and b == ('const', 0):
                low = not e.pol
            elif a == ('const', -1) and b == ref:
                low = e.pol
            elif a == ref and n(b) == n(('call', 'len', (TI,))):
                high = e.pol
            elif b == ref and n(a) == n(('call', 'len', (TI,))) - 1:
                high = not e.pol
        elif e.kind == 'assume' and e.lit[0] == 'cmp' and e.lit[1] == 'in' and e.lit[2] == ref and e.lit[3] == ('call', 'range', (('call', 'len', (TI,)),)):
            low = high = e.pol
    return low, high


def by_index(c, r, n, ref, v, R2, lab):
    e = n.call_of(v)
    if e is not None and e.name == 'get_trace' and e.args:
        key = e.args[0]
    elif v[0] == 'sub' and strip_old(v[1]) == READ:
        key = v[2]
    else:
        return
    o = owner(strip_old(key), 'name')
    if o is not None and element(n, o) is not None:
        c.require(element(n, o) == n(ref), R2, lab, f'the index gives {show(o)}', r)
    elif key[0] == 'sub' and contains(key, VARS):
        c.require(n(key[2]) == n(ref), R2, lab, f'the index gives {show(key)}', r)
    else:
        return
    low, high = range_facts(r, n, ref)
    strange = any(y.kind == 'assume' and contains(y.lit, ref) and (y.lit[1] if y.lit[0] == 'truthy' else y.lit)[0] not in ('cmp', 'call') for y in r.events)
    c.require(low is True or strange, R2, lab, 'a negative index is accepted', r)
    c.require(high is True or strange or any(y.raised for y in r.events), R2, lab, 'an index behind the last variable is not refused', r)


def waves(c, k, m, R4):
    f = c.p.lookup(k, m)
    if f is None or f.cls is not k:
        return
    lab = lab_(k, m)
    names = f.arg_names()[1:]
    for r in c.walk(f, k, opaque={'get_trace', 'get_wave', 'get_len', 'get_time_axis', 'get_axis'} - {m}, no_raise={'get_trace', 'get_wave', 'get_len', 'get_time_axis'}):
        if r.outcome.kind != 'return':
            continue
        n = Nums(r)
        v = r.outcome.value
        calls = [e for e in r.events if iscall(e, 'get_trace')]
        e = n.call_of(v)
        if m == '__getitem__':
            c.require(e is not None and e.name == 'get_trace' and e.args and e.args[0] == P(names[0]), R4, lab, f'[] gives {show(v)}', r)
            continue
        if m == 'get_len' and n(v) == n(NP):
            c.require(truth(r, A(SELF, '_has_axis')) is False, R4, lab, 'the length of a step is that of all the data', r)
            continue
        if e is None:
            c.bad(R4, lab, f'{show(v)} is returned', r)
            continue
        tr = n.call_of(e.recv) if e.recv is not None else None
        if e.recv == SELF and e.name in ('get_wave', 'get_axis'):
            tr = e
            c.require(e.args and e.args[0] == P(names[0]) if m == 'get_wave' else e.args and e.args[0] == ('const', 0) or e.name == 'get_axis', R4, lab, 'another trace is used', r)
            continue
        if strip_old(e.recv or ()) == AXIS:
            c.ok(R4, lab)
        else:
            if tr is None or tr.name != 'get_trace':
                continue
            want = P(names[0]) if m == 'get_wave' else ('const', 'time') if m == 'get_time_axis' else ('const', 0)
            got = arg(tr, 0, 'trace_ref')
            c.require(got == want, R4, lab, f'the trace {show(got) if got else ""} is used', r)
        step = P('step') if 'step' in names else None
        if step is not None:
            c.require(arg(e, 0, 'step') == step, R4, lab, 'the step that is asked for is not used', r)
        c.require({'get_wave': ('get_wave',), 'get_axis': ('get_wave',), 'get_len': ('get_len',), 'get_time_axis': ('get_time_axis', 'get_wave')}[m].__contains__(e.name), R4, lab, f'{e.name}() of the trace is returned', r)


def delegate(c, k, f, m, R5):
    lab = f.where()
    first = [('sub', A(SELF, '_plots'), ('const', 0))]
    for r in c.walk(f, k, opaque={m}, no_raise={m}, inline_typed=False):
        if r.outcome.kind != 'return':
            continue
        empty = None
        for e in r.events:
            if e.kind == 'assume' and e.lit in (A(SELF, '_plots'), ('truthy', A(SELF, '_plots')), ('call', 'len', (A(SELF, '_plots'),)), ('truthy', ('call', 'len', (A(SELF, '_plots'),)))):
                empty = not e.pol
        if empty is True:
            continue
        v = r.outcome.value
        n = Nums(r)
        e = n.call_of(v)
        if v[0] == 'attr':
            c.require(v[1] in first and v[2].lstrip('_') == m.lstrip('_'), R5, lab, f'{show(v)} is given', r)
        elif e is not None and e.recv is not None and e.recv[0] == 'sub' and e.recv[1] == A(SELF, '_plots'):
            c.require(e.recv in first, R5, lab, f'{show(e.recv)} is asked', r)
            c.require(e.name == m, R5, lab, f'{e.name}() of the plot is used', r)
            names = [a for a in f.arg_names()[1:]]
            target = c.p.lookup(c.p.cls('PlotData'), m)
            tn = target.arg_names()[1:] if target is not None else names
            for a in names:
                if a.startswith('*'):
                    continue
                i = tn.index(a) if a in tn else None
                got = arg(e, i if i is not None else 99, a)
                c.require(got == P(a), R5, lab, f'the argument {a} is not passed on', r)
            kw = f.node.args.kwarg
            if kw is not None:
                c.require(any(kk in ('**', None) or contains(vv, ('param', '**' + kw.arg)) for kk, vv in e.kw), R5, lab, 'the keyword arguments are not passed on', r)
        elif v[0] == 'const' or e is not None and e.recv == SELF:
            if v[0] == 'const':
                c.bad(R5, lab, f'always {show(v)}', r)
        elif contains(v, A(SELF, '_plots')):
            if v[0] == 'sub' or v[0] == 'mcall':
                c.require(any(contains(v, x) for x in first), R5, lab, f'{show(v)} is given', r)
