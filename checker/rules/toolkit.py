"""Analyses of sim/tookit: runs of the testbench (P30), instructions of the user (P46), formulas (P47), runs of the analyses (P48), logs (P49), deviations (P50)."""
from .util import *
from ..algebra import Num
from .raw_data import iscall, arg
from .raw_write import loops
from .raw_steps import lab_
from .logs import plain
from .server import paths, kw_, QUIET
from .stepping import same
from fractions import Fraction
import re

T = 'spicelib/sim/tookit/'
SIM, TOL, MC, WC, QS, FWC = (T + x + '.py' for x in ('sim_analysis', 'tolerance_deviations', 'montecarlo', 'worst_case', 'quick_sensitivity_analysis', 'fast_worst_case'))
CLASSES = ('Montecarlo', 'WorstCaseAnalysis', 'QuickSensitivityAnalysis', 'FastWorstCaseAnalysis')
ED, REC, ADDED, SIMS, LAST, ELEMENTS = (A(SELF, n) for n in ('editor', 'received_instructions', 'instructions_added', 'simulations', 'last_run_number', 'elements_analysed'))
RUNNERS = {A(SELF, 'runner'), A(SELF, '_runner')}
ORDERS = ('set_component_value', 'set_element_model', 'set_parameter', 'add_instruction', 'remove_instruction', 'remove_Xinstruction')
OPAQUE = {'run', 'play_instructions', 'prepare_testbench', '_reset_netlist', 'reset_netlist', 'wait_completion', 'get_results', 'get_components', 'get_component_value_deviation_type',
          'get_parameter_value_deviation_type', 'add_log', 'read_logfiles', 'get_measure_value', 'cleanup_files', *ORDERS}
NOMINAL = ('get_component_value_deviation_type', 'get_parameter_value_deviation_type')


def traces(c, k, m, opaque=OPAQUE, also=()):
    """the paths of the method and the paths to the end of each turn of its loops, from the start of the method"""
    f = c.p.lookup(k, m)
    op = set(opaque) | set(also)
    ps, ts = c.walk_loops(f, k, any_iteration=True, opaque=op, no_raise=QUIET | op)
    return [r for r in ps if not impossible(r)], [r for r in ts if not impossible(r)]


def texts(v):
    """a text as a list of texts and the values between them"""
    out = []
    for x in _texts(v):
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != '':
            out.append(x)
    return out


def _texts(v):
    if v[0] == 'const' and isinstance(v[1], str):
        return [v[1]]
    if v[0] == 'const' and isinstance(v[1], int) and not isinstance(v[1], bool):
        return [str(v[1])]
    if v[0] == 'fstr':
        return [y for x in v[1] for y in _texts(x)]
    if v[0] == 'fmt':
        return _texts(v[1])
    if v[0] == 'bin' and v[1] == '+' and any(is_text(x) for x in v[2:]):
        return _texts(v[2]) + _texts(v[3])
    if v[0] == 'call' and v[1] == 'str' and len(v[2]) == 1:
        return _texts(v[2][0])
    if v[0] == 'bin' and v[1] == '%' and v[2][0] == 'const' and isinstance(v[2][1], str):
        args = list(v[3][1]) if v[3][0] == 'tuple' else [v[3]]
        out, rest = [], v[2][1]
        for m in re.split(r'(%[-+ #0-9.]*[a-zA-Z%])', rest):
            if m == '%%':
                out.append('%')
            elif m.startswith('%') and len(m) > 1:
                if not args:
                    return [v]
                out += _texts(args.pop(0))
            else:
                out.append(m)
        return [v] if args else out
    if v[0] == 'mcall' and v[2] == 'format' and v[1][0] == 'const' and isinstance(v[1][1], str) and not (len(v) > 4 and v[4]):
        args, out = list(v[3]), []
        for m in re.split(r'(\{[^{}]*\})', v[1][1].replace('{{', '\0').replace('}}', '\1')):
            if m.startswith('{'):
                if not args or not re.fullmatch(r'\{(:[^}]*)?\}', m):
                    return [v]
                out += _texts(args.pop(0))
            else:
                out.append(m.replace('\0', '{').replace('\1', '}'))
        return [v] if args else out
    return [v]


def is_text(v):
    return v[0] in ('fstr', 'fmt') or v[0] == 'const' and isinstance(v[1], str) or v[0] == 'call' and v[1] == 'str' or \
        v[0] == 'bin' and v[1] == '%' and is_text(v[2]) or v[0] == 'bin' and v[1] == '+' and (is_text(v[2]) or is_text(v[3]))


def step_range(v):
    """(first, last) of a '.step param run <first> <last> 1' instruction"""
    t = texts(v)
    s = ''.join(x if isinstance(x, str) else '\0' for x in t)
    m = re.fullmatch(r'\.step param run ([-\w.]+|\0) ([-\w.]+|\0) 1', s)
    if m is None:
        return None
    vals = [x for x in t if not isinstance(x, str)]
    return [vals.pop(0) if g == '\0' else ('const', int(g)) if re.fullmatch(r'-?\d+', g) else None for g in m.groups()]


def is_step(v):
    t = texts(v)
    return bool(t) and isinstance(t[0], str) and t[0].lower().startswith('.step')


def own(e, *names):
    return iscall(e, *names) and (e.recv == SELF or e.recv is not None and e.recv[0] == 'super')


def assumed(r, lit, upto=None):
    """how the path decides a condition"""
    for e in (r.events if upto is None else r.events[:upto]):
        if e.kind == 'assume' and plain(e) == lit:
            return e.pol
    return None


# ------------------------------------------------------------------------------------------------ P30
@prop('P30', 'run_testbench() simulates every run of the testbench exactly once',
      'run_testbench() of the tolerance analyses resets the netlist and prepares the testbench if it is not prepared, and otherwise only plays the new instructions of the user. The runs -1 to last_run_number are '
      'simulated in consecutive blocks of runs_per_sim runs (less for the last one); for each block a .step instruction from its first to its last run is in the netlist while the simulation is started, and no other '
      '.step of run: the one of prepare_testbench() is removed first, with the text it was added with, and the one of a block right after its simulation is started. The size of the blocks is changed so that no block has a '
      'single run (which .step does not accept). Each simulation gets the editor and the wait_resource, callback, callback_args, switches, timeout, run_filename and exe_log given. The tasks are recorded in order in '
      'simulations, after the ones (and the results read) of earlier executions were cleared. run_testbench() waits for the end, marks the testbench as executed, and returns the results of the callbacks if there is one.',
      ['inputs', 'configurations', 'histories'],
      'any number of runs, size of blocks, arguments and earlier executions',
      'The tests run a few sizes with simulators that are not installed; a run missing at the border of two blocks needs a particular size.',
      [TOL, MC, WC, QS],
      [dict(name='run_testbench()', where=TOL + ':ToleranceDeviations.run_testbench'), dict(name='prepare_testbench()', where=MC + ':Montecarlo.prepare_testbench')],
      'The .step texts added and removed are followed along each path; first and last run of a block are compared with the bounds of the block for all small sizes the conditions of the path allow.',
      'path-sensitive typestate of the .step instruction and provenance of arguments',
      'All paths; the loop over the blocks by one iteration from any state.', [])
def p30(c: Ctx):
    R1 = c.rule('P30.prepare', 'reset and prepared if needed', 2)
    R2 = c.rule('P30.step', 'exactly the .step of the block is in the netlist of each simulation', 2)
    R3 = c.rule('P30.blocks', 'the blocks cover all runs once', 2)
    R4 = c.rule('P30.args', 'simulations get the editor and the arguments', 3)
    R5 = c.rule('P30.record', 'tasks are recorded after the earlier ones were cleared', 2)
    R6 = c.rule('P30.end', 'waits, marks as executed and returns the results', 3)
    k = c.p.cls('Montecarlo')
    with c.attempt('run_testbench'):
        testbench(c, k, R1, R2, R3, R4, R5, R6)
    with c.attempt('prepare'):
        for cn in CLASSES[:3]:
            k = c.p.cls(cn)
            lab = lab_(k, 'prepare_testbench')
            found = False
            for r in traces(c, k, 'prepare_testbench')[0]:
                if r.outcome.kind != 'return':
                    continue
                steps = [(i, e) for i, e in enumerate(r.events) if iscall(e, 'add_instruction') and e.args and is_step(e.args[0])]
                for i, e in steps:
                    b = step_range(e.args[0])
                    if b is None:
                        if all(isinstance(x, str) or x == LAST for x in texts(e.args[0])):
                            c.bad(R2, lab, f'{e!r} is not the instruction that run_testbench() removes', r)
                        continue
                    found = True
                    cur = [x.value for x in r.events[:i] if x.kind == 'write' and x.path == LAST]
                    after = [x for x in r.events[i:] if x.kind in ('write', 'aug') and x.path == LAST]
                    n = Num(r)
                    ok = b[1] is not None and (b[1] == LAST or cur and same(n, b[1], cur[-1])) and not after
                    c.require(ok and b[0] == ('const', -1), R2, lab, f'{e!r} is not the instruction over all runs to last_run_number that run_testbench() removes', r)
                w = [e for e in r.events if e.kind == 'write' and e.path == A(SELF, 'testbench_prepared')]
                c.require(bool(w) and w[-1].value == TRUE, R1, lab, 'the testbench does not count as prepared', r)


def testbench(c, k, R1, R2, R3, R4, R5, R6):
    lab = lab_(k, 'run_testbench')
    f = c.p.lookup(k, 'run_testbench')
    names = f.arg_names()
    ra = c.p.lookup(c.p.cls('AnyRunner'), 'run').node.args
    sig = [x.arg for x in ra.args[1:] + ra.kwonlyargs]
    names = names + [x.arg for x in f.node.args.kwonlyargs]
    PREP = A(SELF, 'testbench_prepared')
    for r in paths(c, k, 'run_testbench', opaque=OPAQUE):
        evs = r.events
        runs = [(i, e) for i, e in enumerate(evs) if iscall(e, 'run', 'run_now') and (e.recv in RUNNERS or e.recv == SELF)]
        prepared = assumed(r, PREP)
        first = runs[0][0] if runs else len(evs)
        prep = [i for i, e in enumerate(evs) if own(e, 'prepare_testbench')]
        play = [i for i, e in enumerate(evs) if own(e, 'play_instructions')]
        reset = [i for i, e in enumerate(evs) if own(e, '_reset_netlist', 'reset_netlist') or iscall(e, '_reset_netlist', 'reset_netlist') and e.recv == ED]
        if runs or r.outcome.kind == 'return':
            if prepared is None:
                c.require(bool(prep), R1, lab, 'the testbench is used without asking whether it is prepared', r)
            elif prepared:
                c.require(not prep and not reset, R1, lab, 'a prepared testbench is prepared again', r)
                c.require(bool(play) and play[0] < first, R1, lab, 'instructions received after the testbench was prepared are not played', r)
            else:
                c.require(bool(prep) and prep[0] < first, R1, lab, 'the testbench is not prepared', r)
                c.require(not prep or any(i < prep[0] for i in reset), R1, lab, 'the testbench is prepared on a netlist that is not reset', r)
            for i in reset:
                c.require(evs[i].name != 'reset_netlist' or evs[i].recv == ED, R1, lab, 'the instructions of the user are thrown away', r)
        # the .step instruction
        active, seen_rm = [], False
        for i, e in enumerate(evs):
            if iscall(e, 'add_instruction') and e.recv in (ED, SELF) and e.args and is_step(e.args[0]):
                active.append(e.args[0])
            elif iscall(e, 'remove_instruction', 'remove_Xinstruction') and e.recv == ED and e.args:
                if e.args[0] in active:
                    active.remove(e.args[0])
                b = step_range(e.args[0])
                if b is not None and b[0] == ('const', -1) and b[1] == LAST and not loops(r, i) and (not prep or i > prep[-1]):
                    seen_rm = True
            elif e.kind == 'call' and e in [x for _, x in runs]:
                c.require(seen_rm or any(iscall(x, 'remove_Xinstruction') for x in evs[:i]), R2, lab, 'the .step of prepare_testbench() is still in the netlist', r)
                if len(active) == 1:
                    c.ok(R2, lab)
                    block(c, r, i, active[0], R3, lab)
                else:
                    c.bad(R2, lab, f'{len(active)} .step instructions of the blocks are in the netlist of the simulation', r)
            elif e.kind in ('loopend', 'loopback') and e.value is not None and any(x[0] == 'attr' for x in subvalues(e.value)):
                c.require(not active, R2, lab, 'the .step of the block stays in the netlist', r)
        # arguments, record
        for i, e in runs:
            kw = kwmap(e, sig)
            if e.recv != SELF:
                c.require(kw.get('netlist', e.args[0] if e.args else None) == ED, R4, lab, f'{e!r} does not get the editor', r)
            for a in sig:
                if a in names:
                    c.require(kw.get(a, NONE) == P(a), R4, lab, f'{a} of the simulation is {show(kw[a]) if a in kw else "not given"}', r)
            res = ('res', e.n, e.name)
            rec = [x for x in evs[i:] if iscall(x, 'append') and x.recv == SIMS and x.args and x.args[0] == res]
            c.require(len(rec) == 1 or e.recv == SELF and not rec, R5, lab, f'{e!r} is recorded {len(rec)} times', r)
        for q, what in ((SIMS, 'simulations'), (A(SELF, 'simulation_results'), 'results')):
            clr = [i for i, e in enumerate(evs) if is_removal(e, q) and e.kind in ('call', 'write') and (e.kind == 'write' or e.name == 'clear')]
            if runs or r.outcome.kind == 'return':
                c.require(any(i < first for i in clr), R5, lab, f'the {what} of earlier executions are kept', r)
                c.require(not any(i > first for i in clr), R5, lab, f'the {what} are cleared after a simulation', r)
        if r.outcome.kind != 'return':
            continue
        ended = [i for i, e in enumerate(evs) if e.kind in ('loopend', 'loop0') and (e.value is not None or e.kind == 'loop0')]
        wait = [i for i, e in enumerate(evs) if iscall(e, 'wait_completion')]
        c.require(bool(wait) and (not runs or wait[-1] > runs[-1][0]) and (not ended or wait[-1] > min((x for x in ended if not runs or x > runs[-1][0]), default=-1)), R6, lab, 'returns before the simulations ended', r)
        done = [e for e in evs if e.kind == 'write' and e.path == A(SELF, 'testbench_executed')]
        c.require(bool(done) and done[-1].value == TRUE, R6, lab, 'the testbench does not count as executed', r)
        cb = next((e.pol for e in evs if e.kind == 'assume' and plain(e) == ('isnone', P('callback'))), None)
        v = r.outcome.value
        if cb is True:
            c.require(v in (None, NONE), R6, lab, f'{show(v or NONE)} is returned without a callback', r)
        elif cb is False:
            es = built(r, v) if v is not None else None
            es = None if es is None else [x for x in es if x.src is not None]
            if v in (None, NONE):
                c.bad(R6, lab, 'the results of the callbacks are not returned', r)
            for x in es or ():
                if not x.added or whole(x.src) != SIMS or x.elt is None:
                    continue
                el = ('elem', x.src)
                gone = assumed(r, ('isnone', el))
                ev = next((y for y in evs if y.n == x.elt[1]), None) if x.elt[0] == 'res' else None
                good = x.elt == NONE if gone else x.elt == ('mcall', el, 'get_results', ()) or ev is not None and ev.name == 'get_results' and ev.recv == el
                c.require(good or x.elt != el and gone is None and x.elt[0] not in ('const', 'res'), R6, lab, f'{show(x.elt)} is returned for a simulation', r)
                if gone is None and x.elt[0] == 'res':
                    c.require(any(plain(y)[0] == 'isnone' for y in evs if y.kind == 'assume' and contains(y.lit, el)), R6, lab, 'a simulation that was not started has no results', r)
            if es is not None and es:
                c.require(any(whole(x.src) == SIMS for x in es), R6, lab, 'the results are not those of the simulations', r)


def block(c, r, i, instr, R3, lab):
    b = step_range(instr)
    if b is None:
        c.bad(R3, lab, f'{show(instr)} is not a .step over runs', r)
        return
    if None in b:
        return
    ls = loops(r, i)
    rng = next((s for _, s in reversed(ls) if s is not None and s[0] == 'call' and s[1] == 'range'), None)
    if rng is None:
        return
    args = rng[2]
    if len(args) != 3:
        c.bad(R3, lab, f'the blocks are {show(rng)}', r)
        return
    size = args[2]
    el = ('elem', rng)
    leaves = {x for x in subvalues(size) if x[0] in ('param', 'phi')}
    base = leaves.pop() if len(leaves) == 1 else size
    seen = wrong = 0
    bad = None
    orphans = [e for e in r.events[:i] if e.kind == 'assume' and any(x[0] == 'bin' and x[1] == '%' and x[2][0] != 'const' for x in subvalues(e.lit))]
    for last in range(0, 9):
        for n in range(2, 7):
            env = {LAST: last, base: n}
            try:
                env[size] = size_ = evaluate(size, env)
                lo, hi = evaluate(args[0], env), evaluate(args[1], env)
            except Unknown:
                return
            if not (lo == -1 and last < hi and not any(last < x for x in range(lo, hi, size_))):
                c.bad(R3, lab, f'the blocks start at {show(rng)} instead of every {show(size)} runs from -1 to last_run_number', r)
                return
            for x in range(lo, hi, size_):
                env[el] = x
                p = possible(r, env, i)
                if p is False:
                    continue
                try:
                    got = evaluate(b[0], env), evaluate(b[1], env)
                except Unknown:
                    continue
                seen += 1
                if got != (x, min(x + size_ - 1, last)):
                    wrong += 1
                    bad = bad or f'{show(instr)}: with blocks of {size_} of {last + 2} runs the block from {x} is run as {got[0]}…{got[1]}'
                elif got[0] == got[1] and orphans and p:
                    wrong += 1
                    bad = bad or f'with blocks of {size_} of {last + 2} runs the block from {x} has a single run'
    if not seen:
        return
    c.require(bad is None, R3, lab, bad or '', r)
    c.require(bool(orphans) or deep(size, lambda x: x[0] == 'res' or x[0] == 'call' and x[1] not in ('min', 'max', 'int')), R3, lab, 'the size of the blocks can leave a single run for the last block', r)


# ------------------------------------------------------------------------------------------------ P46
@prop('P46', 'Analyses replay the instructions of the user on the reset netlist',
      'The analyses record each set_component_value(), set_element_model(), set_parameter(), add_instruction(), remove_instruction() and remove_Xinstruction() with its arguments. play_instructions() calls the method of '
      'the editor of that name with these arguments, in the order received, and each of them once per netlist: those received after the last call are played by the next one, and all of them again once the netlist was '
      'reset. The reset made by an analysis keeps the instructions, only reset_netlist() clears them. save_netlist() saves after playing, and after preparing the testbench if it was not. Every run_analysis() resets '
      'the netlist and plays the instructions before it reads the nominal values and before its first simulation (Montecarlo before each one), and prepare_testbench() plays them before it reads or sets values. What analyses set themselves goes '
      'to the editor, never to the recorded instructions.',
      ['histories'],
      'any sequence of instructions, resets, saves and analyses',
      'The tests give instructions once, before everything else; losing or repeating them needs a certain history.',
      [SIM, TOL, MC, WC, QS, FWC],
      [dict(name='record', where=SIM + ':SimAnalysis.set_component_value'), dict(name='play', where=SIM + ':SimAnalysis.play_instructions'), dict(name='reset', where=SIM + ':SimAnalysis._reset_netlist'),
       dict(name='analyses', where=WC + ':WorstCaseAnalysis.run_analysis')],
      'The tuples recorded are matched with the calls of play_instructions(), which parts of the record are iterated with what is counted; on every path and loop turn of the analyses reset and play come before reading, '
      'setting and simulating.',
      'record/replay table matching and path-sensitive ordering rules',
      'All paths and loop turns.', [])
def p46(c: Ctx):
    R1 = c.rule('P46.record', 'instructions are recorded with their arguments', 6)
    R2 = c.rule('P46.play', 'instructions are played with the method and arguments recorded', 6)
    R3 = c.rule('P46.once', 'exactly the instructions not yet played are played', 2)
    R4 = c.rule('P46.reset', 'a reset keeps the instructions, reset_netlist() clears them', 3)
    R5 = c.rule('P46.save', 'netlists are saved after playing and preparing', 2)
    R6 = c.rule('P46.order', 'analyses reset and play first', 8)
    R7 = c.rule('P46.own', 'analyses do not record what they set', 4)
    base = c.p.cls('SimAnalysis')
    table = {}
    with c.attempt('record'):
        for m in ORDERS:
            record(c, base, m, table, R1)
    with c.attempt('play'):
        play(c, base, table, R2, R3)
    with c.attempt('reset'):
        for k, m in ((base, '_reset_netlist'), (base, 'reset_netlist'), (c.p.cls('Montecarlo'), '_reset_netlist'), (c.p.cls('Montecarlo'), 'reset_netlist')):
            lab = lab_(k, m)
            for r in paths(c, k, m):
                if r.outcome.kind != 'return':
                    continue
                c.require(any(iscall(e, 'reset_netlist') and e.recv == ED for e in r.events), R4, lab, 'the netlist is not reset', r)
                w = [e for e in r.events if e.kind == 'write' and e.path == ADDED]
                c.require(bool(w) and w[-1].value in (('const', 0), FALSE), R4, lab, 'the instructions count as played on the reset netlist', r)
                clr = any(is_removal(e, REC) for e in r.events)
                c.require(clr == (m == 'reset_netlist'), R4, lab, 'the instructions of the user are kept' if not clr else 'the instructions of the user are cleared', r)
                if k is not base:
                    w = [e for e in r.events if e.kind == 'write' and e.path == A(SELF, 'testbench_prepared')]
                    c.require(bool(w) and w[-1].value == FALSE, R4, lab, 'the testbench counts as prepared on the reset netlist', r)
    with c.attempt('save'):
        for cn in ('SimAnalysis',) + CLASSES:
            k = c.p.cls(cn)
            lab = lab_(k, 'save_netlist')
            for r in paths(c, k, 'save_netlist', opaque={'play_instructions', 'prepare_testbench'}):
                if r.outcome.kind != 'return':
                    continue
                sv = [i for i, e in enumerate(r.events) if iscall(e, 'save_netlist') and e.recv == ED]
                if not sv:
                    c.bad(R5, lab, 'the netlist is not saved', r)
                    continue
                c.require(arg(r.events[sv[0]], 0) == P('filename'), R5, lab, f'{r.events[sv[0]]!r} is not the file given', r)
                before = r.events[:sv[0]]
                c.require(any(own(e, 'play_instructions', 'prepare_testbench') for e in before) and (cn != 'SimAnalysis' or any(own(e, 'play_instructions') for e in before)), R5, lab,
                          'the netlist is saved before the instructions are played', r)
                if cn != 'SimAnalysis':
                    prep = assumed(r, A(SELF, 'testbench_prepared'))
                    done = any(own(e, 'prepare_testbench') for e in before)
                    c.require(prep is not None and done == (prep is False), R5, lab, 'the testbench is prepared twice' if done else 'the netlist is saved without the testbench', r)
                    if prep:
                        c.require(any(own(e, 'play_instructions') for e in before), R5, lab, 'the netlist is saved before new instructions are played', r)
    for cn in CLASSES:
        k = c.p.cls(cn)
        with c.attempt(cn):
            for m in ('run_analysis', 'prepare_testbench'):
                order(c, k, m, R6, R7)
    with c.attempt('run_testbench'):
        k = c.p.cls('Montecarlo')
        for r in paths(c, k, 'run_testbench', opaque=OPAQUE):
            for e in r.events:
                if own(e, *ORDERS):
                    c.bad(R7, lab_(k, 'run_testbench'), f'{e!r} is added to the instructions of the user', r)


def record(c, k, m, table, R1):
    lab = lab_(k, m)
    params = c.p.lookup(k, m).arg_names()[1:]
    for r in paths(c, k, m):
        if r.outcome.kind != 'return':
            continue
        adds = [e for e in r.events if e.kind in ('call', 'aug', 'setitem', 'write') and (e.recv == REC or e.path == REC)]
        if not adds:
            c.bad(R1, lab, 'the instruction is not recorded', r)
            continue
        if len(adds) > 1 or adds[0].kind != 'call':
            if all(iscall(e, 'append') for e in adds):
                c.bad(R1, lab, 'the instruction is recorded several times', r)
            continue
        e = adds[0]
        if e.name == 'insert':
            c.bad(R1, lab, f'{e!r} changes the order', r)
        v = e.args[0] if e.name == 'append' and e.args else None
        if v is None or v[0] not in ('tuple', 'list') or not v[1]:
            continue
        tag = concrete(v[1][0])
        if tag is None:
            continue
        fields = list(v[1])
        missing = [p for p in params if P(p) not in fields]
        c.require(not missing, R1, lab, f'{show(v)} does not have {", ".join(missing)}', r)
        if tag[0] in table and table[tag[0]][0] != m:
            c.bad(R1, lab, f'recorded as {tag[0]!r} like {table[tag[0]][0]}()', r)
        table.setdefault(tag[0], (m, params, fields))


def play(c, k, table, R2, R3):
    lab = lab_(k, 'play_instructions')
    played = set()
    rejected = set()
    for r in paths(c, k, 'play_instructions', opaque=set(ORDERS)):
        evs = r.events
        its = [e for e in evs if e.kind in ('iter', 'loop0', 'loopend') and e.value is not None and contains(e.value, REC)]
        tags, no = set(), set()
        el = None
        for e in evs:
            if e.kind != 'assume':
                continue
            l = plain(e)
            if l[0] == 'cmp' and l[1] == 'eq':
                for a, b in ((l[2], l[3]), (l[3], l[2])):
                    if b[0] == 'const' and field(a) is not None and field(a)[1] == 0:
                        (tags if e.pol else no).add(b[1])
                    elif b[0] == 'const' and b[1] in table and field(a) is not None and field(a)[1] in (1, 2):
                        c.bad(R2, lab, f'the {field(a)[1]}. argument of an instruction is compared with {b[1]!r}', r)
                        el = field(a)[0]
        dyn = any(e.kind == 'call' and e.name not in ORDERS and any(field(a) is not None for a in [*(e.args or ()), *[x[1] for x in e.args or () if x[0] == 'star']]) for e in evs)
        calls = [(i, e) for i, e in enumerate(evs) if iscall(e, *ORDERS) and e.recv == ED]
        for i, e in enumerate(evs):
            if iscall(e, *ORDERS) and e.recv == SELF:
                c.bad(R2, lab, f'{e!r} is recorded again instead of changing the netlist', r)
        for i, e in calls:
            # which instruction this is
            t = {x for x in tags} or ({e.name} if not no else set())
            if not tags and e.name in no:
                c.bad(R2, lab, f'{e.name}() is called for other instructions', r)
            for tag in t:
                if tag not in table:
                    continue
                m, params, fields = table[tag]
                played.add(tag)
                c.require(e.name == m, R2, lab, f'{e.name}() is called for {m}()', r)
                if e.name != m:
                    continue
                for j, p in enumerate(params):
                    a = arg(e, j, p)
                    fl = field(a) if a is not None else None
                    if a is None:
                        c.require(any(x[0] == 'star' for x in e.args), R2, lab, f'{e!r} does not get {p}', r)
                    elif fl is not None:
                        idx = fl[1] if fl[1] >= 0 else len(fields) + fl[1]
                        c.require(idx < len(fields) and fields[idx] == P(p), R2, lab, f'{e!r}: {p} is {show(fields[idx]) if idx < len(fields) else "nothing"} recorded by {m}()', r)
        for tag in tags:
            if tag in table and not calls and not dyn and r.outcome.kind == 'return':
                c.bad(R2, lab, f'instructions of {tag}() are not played', r)
        if r.outcome.kind == 'raise' and no:
            rejected |= {t for t in table if t not in no}
        # which of the instructions
        if r.outcome.kind != 'return':
            continue
        lits = [plain(e) for e in evs if e.kind == 'assume' and contains(e.lit, ADDED)]
        if not its:
            ok = any(contains(l, REC) for l in lits) or any(e.kind == 'assume' and contains(e.lit, REC) for e in evs)
            if any(e.kind == 'iter' or e.kind == 'loop0' for e in evs):
                continue
            c.require(ok, R3, lab, 'instructions received since the last call are not played', r)
            continue
        s = its[0].value
        if deep(s, lambda x: x[0] == 'call' and x[1] in ('reversed', 'sorted', 'set') or x[0] == 'slice' and len(x) > 3 and x[3] not in (None, NONE, ('const', 1))):
            c.bad(R3, lab, f'{show(s)} is not the order received', r)
        lows = [x[2][1] for x in subvalues(s) if x[0] == 'sub' and x[2][0] == 'slice'] + [x[2][0] for x in subvalues(s) if x[0] == 'call' and x[1] == 'range' and len(x[2]) > 1] + \
               [x[2][1] for x in subvalues(s) if x[0] == 'call' and x[1] == 'islice' and len(x[2]) > 2]
        for x in subvalues(s):
            if x[0] == 'sub' and x[2][0] == 'slice' and x[2][2] not in (None, NONE, ('call', 'len', (REC,))):
                c.bad(R3, lab, f'{show(s)} leaves out the last instructions', r)
        if not lows:
            if whole(s) == REC:
                c.require(bool(lits), R3, lab, 'instructions already played are played again', r)
        elif len(lows) == 1 and lows[0] != ADDED:
            if lows[0] in (NONE, None) or lows[0][0] == 'const' or lows[0][0] == 'bin' and contains(lows[0], ADDED):
                c.bad(R3, lab, f'{show(s)} are not the instructions that were not played yet', r)
        elif len(lows) == 1:
            c.ok(R3, lab)
        w = [e for e in evs if e.kind in ('write', 'aug') and e.path == ADDED]
        if not w:
            c.require(its[0].kind == 'loop0', R3, lab, 'what was played is not counted', r)
        else:
            v = w[-1].value
            n = Num(r)
            if v[0] == 'const' and w[-1].kind == 'write':
                c.bad(R3, lab, f'{show(v)} instructions count as played whatever was', r)
            elif w[-1].kind == 'write' and v[0] == 'call' and v[1] == 'len':
                c.require(v[2][0] == REC, R3, lab, f'{show(v)} instructions count as played', r)
            elif w[-1].kind == 'aug' and not any(x.kind == 'loopend' and x is not w[-1] for x in evs[evs.index(w[-1]):]):
                c.require(w[-1].op == '+' and v[0] == 'call' and v[1] == 'len' and v[2][0] == s or v[0] not in ('const', 'call'), R3, lab, f'{w[-1]!r}: not what was played', r)
            elif w[-1].kind == 'write' and v[0] == 'bin' and contains(v, REC):
                c.require(same(n, v, ('call', 'len', (REC,))), R3, lab, f'{show(v)} instructions count as played', r)
    for tag in sorted(rejected - played):
        c.bad(R2, lab, f'instructions of {tag}() are rejected')


def field(a):
    """(element, index) of element[index]"""
    if a[0] == 'sub' and a[2][0] == 'const' and isinstance(a[2][1], int) or a[0] == 'item' and isinstance(a[2], int):
        b, i = a[1], a[2] if a[0] == 'item' else a[2][1]
        if b[0] == 'sub' and b[2][0] == 'slice' and i >= 0 and b[2][2] == NONE and b[2][1][0] == 'const' and isinstance(b[2][1][1], int) and b[2][1][1] >= 0:
            return b[1], i + b[2][1][1]
        return b, i
    return None


def order(c, k, m, R6, R7):
    lab = lab_(k, m)
    ps, ts = traces(c, k, m)
    for r in ps + ts:
        reset = played = None
        ana = m == 'run_analysis'
        for i, e in enumerate(r.events):
            if own(e, '_reset_netlist') or iscall(e, 'reset_netlist') and e.recv == ED and ana:
                reset, played = i, None
            elif own(e, 'reset_netlist') or is_removal(e, REC):
                c.bad(R6, lab, 'the instructions of the user are thrown away', r)
                reset = played = i
            elif own(e, 'play_instructions'):
                played = i
            elif own(e, *ORDERS):
                c.bad(R7, lab, f'{e!r} is added to the instructions of the user', r)
            elif iscall(e, 'run', 'run_now') and (e.recv == SELF or e.recv in RUNNERS):
                c.require(reset is not None and played is not None, R6, lab, f'a simulation is started before the netlist is reset and the instructions are played', r)
                c.ok(R7, lab)
            elif own(e, *NOMINAL):
                if ana and reset is not None and again(r, i, e, reset):
                    c.bad(R6, lab, 'the nominal values are those of the run before', r)
                c.require(played is not None and (reset is not None or not ana), R6, lab, 'values are read before the netlist is reset and the instructions are played', r)
            elif iscall(e, *ORDERS) and e.recv == ED:
                c.require(played is not None, R6, lab, f'{e!r} comes before the instructions of the user', r)
                c.ok(R7, lab)


def again(r, i, e, reset):
    """the same element is read in every turn of an outer loop that does not start with a reset"""
    ls = loops(r, i)

    def depends(v, el, depth=4):
        return any(x == el or x[0] in ('key', 'elem', 'idx') and contains(el[1], x[1]) or x[0] == 'res' and depth and any(depends(a, el, depth - 1) for y in r.events if y.n == x[1] for a in y.args or ()) for x in subvalues(v))
    for node, seq in ls:
        at = max(j for j, x in enumerate(r.events[:i]) if x.kind == 'iter' and x.node is node)
        if reset < at and not (seq is not None and e.args and (depends(e.args[0], ('elem', seq)) or any(s is not None and s is not seq and depends(s, ('elem', seq)) and contains(e.args[0], ('elem', s)) for _, s in ls))):
            return True
    return False


# ------------------------------------------------------------------------------------------------ P47
DEVTYPES = ('tolerance', 'minmax', 'none')
SAMPLES = (dict(val=Fraction(7), tol=Fraction(1, 20), min=Fraction(3), max=Fraction(11)), dict(val=Fraction(100), tol=Fraction(1, 4), min=Fraction(90), max=Fraction(150)))


def extremes(s, typ):
    return (s['val'] * (1 - s['tol']), s['val'] * (1 + s['tol'])) if typ == 'tolerance' else (s['min'], s['max'])


def deviation_env(r, s, typ, dist, val=None, dev=None):
    """the values of the conditions of a path for a deviation: the value read and the attributes of the deviation"""
    env = {}
    pairs = [(val, dev)] if dev is not None else []
    for e in r.events:
        if own(e, *NOMINAL):
            x = ('res', e.n, e.name)
            pairs += [(('item', x, 0), ('item', x, 1)), (('sub', x, ('const', 0)), ('sub', x, ('const', 1)))]
    for v, d in pairs:
        env[v] = s['val']
        env.update(attributes(s, typ, dist, d))
    for e in r.events:
        if e.kind == 'call' and e.name == 'is_not_valid' and any(e.recv == d for _, d in pairs):
            env[('res', e.n, e.name)] = typ == 'none'
            env[('mcall', e.recv, 'is_not_valid', ())] = typ == 'none'
    env.update(types_of(r))
    return env


def attributes(s, typ, dist, d):
    lo, hi = (s['tol'], -s['tol']) if typ == 'tolerance' else (s['min'], s['max'])
    return {A(d, 'typ'): typ, A(d, 'distribution'): dist, A(d, 'tolerance'): lo, A(d, 'min_val'): lo, A(d, 'max_val'): hi}


def types_of(r):
    """the members of DeviationType named on the path"""
    out = {}
    for e in r.events:
        for l in (e.lit, e.value, *(e.args or ())):
            for x in subvalues(l) if l is not None else ():
                if x[0] == 'attr' and x[2] in DEVTYPES and x[1] in (('global', 'DeviationType'), ('class', 'DeviationType')) or x[0] == 'global' and str(x[1]).startswith('DeviationType.'):
                    out[x] = x[2] if x[0] == 'attr' else str(x[1]).split('.')[-1]
                elif x[0] == 'attr' and x[2] in DEVTYPES and x[1][0] not in ('item', 'sub', 'res', 'param', 'elem', 'phi', 'self', 'attr'):
                    out[x] = x[2]
    return out


def compares_formula(e):
    l = plain(e)
    return l[0] == 'cmp' and l[1] == 'eq' and any(is_text(x) and len(texts(x)) > 1 for x in l[2:])


def feasible(r, env):
    """possible(), without the question whether the formula differs from the value"""
    out = True
    for e in r.events:
        if e.kind == 'assume' and not compares_formula(e):
            try:
                if bool(evaluate(e.lit, env)) != e.pol:
                    return False
            except Unknown:
                if any(contains(e.lit, k) for k in env):
                    out = None
    return out


def settled_path(r, env):
    """True when every condition of the path is known to hold, False when one does not, None otherwise"""
    out = True
    for e in r.events:
        if e.kind == 'assume' and not compares_formula(e):
            try:
                if bool(evaluate(e.lit, env)) != e.pol:
                    return False
            except Unknown:
                out = None
    return out


class Formula(Exception):
    pass


def parse(text):
    t = text.strip().lower()
    if t.startswith('{') and t.endswith('}'):
        t = t[1:-1]
    t = re.sub(r'\bif\s*\(', 'if_(', t)
    try:
        return ast.parse(t.replace('^', '**').strip(), mode='eval').body
    except SyntaxError:
        raise Formula(f'{text!r} is not an expression')


def names_in(node, bound):
    """names of an expression that are neither parameters nor functions known to the simulators, and the functions called"""
    free, calls = set(), []
    for x in ast.walk(node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
            calls.append((x.func.id, len(x.args)))
    fn = {id(x.func) for x in ast.walk(node) if isinstance(x, ast.Call)}
    for x in ast.walk(node):
        if isinstance(x, ast.Name) and id(x) not in fn and x.id not in bound:
            free.add(x.id)
    return free, calls


BUILTIN = {'if_': 3, 'mc': 2, 'flat': 1, 'gauss': 1, 'random': 0, 'floor': 1, 'int': 1, 'abs': 1, 'min': 2, 'max': 2, 'sqrt': 1, 'ln': 1, 'cos': 1, 'mod': 2}


def spice(node, env, funcs, u, z):
    """value of an expression of the simulator; u in -1…1 stands for the uniform and z for the normal random number"""
    ev = lambda x: spice(x, env, funcs, u, z)
    if isinstance(node, ast.Constant) and isinstance(node.value, (int, float)):
        return Fraction(str(node.value))
    if isinstance(node, ast.Name):
        if node.id in env:
            return env[node.id]
        raise Formula(f'{node.id} is not defined')
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.UAdd)):
        v = ev(node.operand)
        return -v if isinstance(node.op, ast.USub) else v
    if isinstance(node, ast.BinOp):
        a, b = ev(node.left), ev(node.right)
        op = type(node.op).__name__
        try:
            if op == 'Pow':
                return a ** int(b) if b == int(b) and abs(b) < 64 else None
            return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'Div': lambda: a / b}[op]()
        except (KeyError, ZeroDivisionError, TypeError):
            raise Unknown
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        a, b = ev(node.left), ev(node.comparators[0])
        try:
            return Fraction({'Lt': a < b, 'Gt': a > b, 'LtE': a <= b, 'GtE': a >= b, 'Eq': a == b, 'NotEq': a != b}[type(node.ops[0]).__name__])
        except KeyError:
            raise Unknown
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name):
        f = node.func.id
        args = [ev(x) for x in node.args]
        if f in funcs:
            ps, body = funcs[f]
            if len(ps) != len(args):
                raise Formula(f'{f}() has {len(ps)} parameters and is called with {len(args)}')
            return spice(body, {**{'run': env['run']}, **dict(zip(ps, args))}, funcs, u, z)
        if f not in BUILTIN or f in {'Qspice': ('mc', 'flat'), 'LTspice': ('random',)}.get(funcs.get(''), ()):
            raise Formula(f'{f}() is not defined')
        if len(args) != BUILTIN[f] and not (f in ('mc', 'flat') and False):
            raise Formula(f'{f}() is called with {len(args)} arguments')
        if f == 'if_':
            return args[1] if args[0] > Fraction(1, 2) else args[2]
        if f == 'mc':
            return args[0] * (1 + args[1] * u)
        if f == 'flat':
            return args[0] * u
        if f == 'gauss':
            return args[0] * z
        if f == 'random':
            return (u + 1) / 2
        if f in ('floor', 'int'):
            return Fraction(args[0].__floor__())
        if f == 'abs':
            return abs(args[0])
        if f in ('min', 'max'):
            return (min if f == 'min' else max)(args)
    raise Unknown


def definition(text):
    """(name, parameters, body) of a .func"""
    m = re.fullmatch(r'\.func\s+(\w+)\s*\(([^()]*)\)\s*(.*)', text.strip(), re.I | re.S)
    if m is None:
        if re.match(r'\.func\b', text.strip(), re.I):
            raise Formula(f'{text!r} is not a definition of a function')
        return None
    return m[1].lower(), [x.strip().lower() for x in m[2].split(',')] if m[2].strip() else [], parse(m[3])


@prop('P47', 'Values of a tolerance analysis lie where the deviation says',
      'For an element of nominal value v with tolerance t, Montecarlo uses values from v(1-t) to v(1+t) for the uniform distribution, and values around v with sigma v·t/3 for the normal one; with a minimum and a maximum '
      'the values between them, or values around their mean with a sigma of a sixth of their distance. That holds for the numbers run_analysis() sets and for the formulas prepare_testbench() sets for LTspice and Qspice. '
      'The formulas of the worst case analysis are in each run one of the extremes v(1±t), or the minimum or maximum, selected by one bit of the run, those of the quick sensitivity analysis are the deviated value (v(1+t) or '
      'the maximum, with use_min v(1-t) or the minimum) in one run and v in all others. All formulas are v in run -1. The bit or run is the position of the element in elements_analysed, and last_run_number is the last '
      'of the runs needed for the elements, or for Montecarlo the num_runs given (without it the last number used, at first 1000). The testbench steps run from -1 to last_run_number and defines it as -1. All functions a formula uses are defined in the netlist of the same simulator, with the arguments it gives, and are valid expressions. All elements with a deviation get a formula.',
      ['inputs', 'configurations'],
      'any netlist, deviations and simulator',
      'The formulas are evaluated by simulators that are not there in tests; a wrong sigma or bit gives plausible results.',
      [MC, WC, QS],
      [dict(name='formulas of Montecarlo', where=MC + ':Montecarlo.prepare_testbench'), dict(name='numbers', where=MC + ':Montecarlo._get_sim_value'), dict(name='formulas of the worst case', where=WC + ':WorstCaseAnalysis.prepare_testbench'),
       dict(name='formulas of the sensitivity', where=QS + ':QuickSensitivityAnalysis.prepare_testbench')],
      'The texts of formulas and .func definitions are taken from the paths that set them, parsed, and composed; their value as function of the run and of the random numbers is compared with the one of the deviation, exactly, '
      'for two sets of values. Index and elements_analysed are shown to grow together.',
      'extraction and exact evaluation of embedded formulas along all paths',
      'All paths and loop turns; formulas are compared for two sets of values, which decides equality of the expressions of the degree they have.', ['mc(), flat(), gauss() and random() of the simulators are distributed as documented.'])
def p47(c: Ctx):
    R1 = c.rule('P47.defined', 'functions of formulas are defined and valid', 8)
    R2 = c.rule('P47.value', 'formulas give the values of the deviation', 8)
    R3 = c.rule('P47.index', 'the index of a formula is the position of its element', 2)
    R4 = c.rule('P47.number', 'numbers follow the deviation', 4)
    R5 = c.rule('P47.last', 'last_run_number is the last run needed', 2)
    R6 = c.rule('P47.all', 'all elements with a deviation get a formula', 3)
    for cn in CLASSES[:3]:
        with c.attempt(cn):
            formulas(c, c.p.cls(cn), R1, R2, R3, R5, R6)
    with c.attempt('numbers'):
        numbers(c, c.p.cls('Montecarlo'), R4)


def expected(c, rule, lab, cn, what, at, s, typ, dist, low, r):
    """at(u, z, run) is the value; low: the lower value is asked for (QS)"""
    v = s['val']
    lo, hi = extremes(s, typ)
    show_ = lambda x: f'{float(x):g}'
    a = f'({show_(s["val"])} with tolerance {show_(s["tol"])})' if typ == 'tolerance' else f'({show_(s["min"])} to {show_(s["max"])})'
    if cn == 'Montecarlo':
        x = {(u, z): at(Fraction(u), Fraction(z), Fraction(3)) for u in (-1, 0, 1) for z in (-1, 0, 1)}
        if dist == 'uniform':
            got = sorted({x[-1, 0], x[1, 0]})
            c.require(got == [lo, hi] and x[0, 0] == (lo + hi) / 2 and x[0, 1] == x[0, 0], rule, lab, f'{what} is between {show_(got[0])} and {show_(got[-1])} instead of {show_(lo)} and {show_(hi)} {a}', r)
        else:
            mean, sigma = (v, v * s['tol'] / 3) if typ == 'tolerance' else ((s['min'] + s['max']) / 2, (s['max'] - s['min']) / 6)
            got = x[0, 0], abs(x[0, 1] - x[0, 0])
            c.require(got == (mean, sigma) and x[0, -1] == 2 * mean - x[0, 1] and x[1, 0] == x[0, 0], rule, lab, f'{what} has mean and sigma {show_(got[0])}, {show_(got[1])} instead of {show_(mean)}, {show_(sigma)} {a}', r)


def formulas(c, k, R1, R2, R3, R5, R6):
    cn = k.name
    lab = lab_(k, 'prepare_testbench')
    ps, ts = traces(c, k, 'prepare_testbench')
    allps = ps
    ps = [r for r in ps if r.outcome.kind == 'return']
    USE = {v for r in ps + ts for e in r.events if e.kind == 'assume' for v in subvalues(e.lit) if v[0] == 'mcall' and v[1] == P('**kwargs') and v[3][:1] == (('const', 'use_min'),)}
    SIMU = {v for r in allps for e in r.events if e.kind == 'assume' for v in subvalues(e.lit) if v[0] == 'attr' and v[2] == '__name__'}
    for r in allps:
        if r.outcome.kind == 'raise' and SIMU:
            for sim in ('LTspice', 'Qspice'):
                if possible(r, {x: sim for x in SIMU}) is True:
                    c.bad(R1, lab, f'the testbench is refused for {sim}', r)
    sources = {'comp': set(), 'param': set()}
    unknown_source = False
    checked = set()
    for r in ts + [r for r in ps if any(iscall(e, 'set_component_value') and e.recv == ED for e in r.events)]:
        sets = [(i, e) for i, e in enumerate(r.events) if iscall(e, 'set_component_value', 'set_parameter') and e.recv == ED and arg(e, 1, 'new_value', 'value') is not None]
        plainly = [e for i, e in sets]
        sets = [(i, e) for i, e in sets if is_text(arg(e, 1, 'new_value', 'value')) and len(texts(arg(e, 1, 'new_value', 'value'))) > 1 or arg(e, 1, 'new_value', 'value')[0] in ('mcall', 'phi')]
        reads = [e for e in r.events if own(e, *NOMINAL)]
        same_text = any(e.kind == 'assume' and e.pol and compares_formula(e) for e in r.events)
        if same_text or not reads:
            continue
        apps = [e for e in r.events[r.events.index(reads[-1]):] if iscall(e, 'append') and e.recv == ELEMENTS]
        if sets:
            seqs = [s for _, s in loops(r, sets[0][0]) if s is not None]
            kind = 'comp' if sets[0][1].name == 'set_component_value' else 'param'
            if kind == 'comp' and reads and origin(r, reads[-1].args[0]) == 'default_tolerance':
                inside = next((e.pol for e in r.events if e.kind == 'assume' and plain(e) == ('cmp', 'in', reads[-1].args[0], A(SELF, 'device_deviations'))), None)
                if inside is not False:
                    c.bad(R6, lab, 'a component with a deviation of its own gets another formula for its prefix', r)
            known = False
            for s in seqs:
                for x in subvalues(s):
                    if x[0] == 'attr' and x[2] in ('device_deviations', 'parameter_deviations', 'default_tolerance'):
                        sources[kind].add(x[2])
                        known = True
                    if x[0] == 'res' and x[2] == 'get_components':
                        ev = next((y for y in r.events if y.n == x[1]), None)
                        if ev is not None and ev.args and ev.args[0] == ('const', '*'):
                            sources[kind].add('*')
                            known = True
            unknown_source |= not known
        for use in (False, True) if USE else (None,):
            for typ in DEVTYPES:
                for dist in ('uniform', 'normal') if cn == 'Montecarlo' else ('uniform',):
                    for s in SAMPLES:
                        env = {**deviation_env(r, s, typ, dist), **{u: use for u in USE}}
                        p = feasible(r, env)
                        if p is False:
                            continue
                        for e in plainly:
                            v = arg(e, 1, 'new_value', 'value')
                            if v[0] in ('phi', 'global') and typ == 'none' and (p is True or feasible(r, {**env, v: '{f(1)}'}) is True):
                                c.bad(R2, lab, f'{show(v)}, the value of another element, is set for an element without deviation', r)
                            if p is True and typ != 'none' and not sets and settled_path(r, env):
                                try:
                                    if evaluate(v, env) == s['val']:
                                        c.bad(R6, lab, f'an element with a deviation of type {typ} ({dist}) gets no formula', r)
                                except Unknown:
                                    pass
                        if not sets:
                            if typ != 'none' and settled_path(r, env) and any(own(e, 'get_component_value_deviation_type') for e in reads):
                                c.bad(R6, lab, f'an element with a deviation of type {typ} ({dist}) gets no formula', r)
                            continue
                        if p is not True:
                            continue
                        key = (typ, dist, use)
                        for i, e in sets:
                            one_formula(c, cn, r, ps, arg(e, 1, 'new_value', 'value'), env, s, typ, dist, use, USE, SIMU, R1, R2, lab)
        # the index
        taken = any(feasible(r, {**deviation_env(r, SAMPLES[0], typ, dist), **{u: use for u in USE}}) is True for typ in DEVTYPES for dist in ('uniform', 'normal') for use in (False, True))
        if cn == 'Montecarlo' or not taken:
            continue
        leafs = {x for i, e in sets for y in texts(arg(e, 1, 'new_value', 'value')) if not isinstance(y, str) for x in subvalues(y) if x[0] == 'phi'}
        names = {x[1] for r2 in ts for e in r2.events if iscall(e, 'set_component_value', 'set_parameter') and e.recv == ED and len(e.args) > 1 for y in texts(e.args[1]) if not isinstance(y, str)
                 for x in subvalues(y) if x[0] == 'phi'}
        its = [e for e in r.events if e.kind == 'iter']
        if len(names) != 1 or not its:
            continue
        name = next(iter(names))
        end = r.st.env.get(name)
        if end is None:
            continue
        n = Num(r)
        if r.outcome.kind == 'loopbody':
            d = n(end) - n(('phi', name))
            k_ = d.const() if hasattr(d, 'const') else None
            grown = next((j for j in range(0, 4) if same(n, end, ('bin', '+', ('phi', name), ('const', j)) if j else ('phi', name))), None)
            if grown is not None:
                c.require(grown == len(apps), R3, lab, f'{name} grows by {grown} when {len(apps)} elements are added to elements_analysed', r)
        for i, e in sets:
            if apps:
                c.require(any(a.args[0] == arg(e, 0) for a in apps), R3, lab, f'{show(apps[0].args[0])} is recorded as the element of {e!r}', r)
    for r in ps:
        c.require(any(is_removal(e, ELEMENTS) for e in r.events), R3, lab, 'the elements of an earlier preparation are kept', r)
    for r in ps:
        st = [e for e in r.events if iscall(e, 'add_instruction') and e.recv == ED and e.args and is_step(e.args[0])]
        if not any(iscall(e, 'add_instruction') and e.recv == ED and e.args and not isinstance(texts(e.args[0])[0] if texts(e.args[0]) else None, str) for e in r.events):
            c.require(bool(st), R5, lab, 'the runs are not stepped', r)
        par = [e for e in r.events if iscall(e, 'set_parameter') and e.recv == ED and (arg(e, 0) == ('const', 'run') or arg(e, 1) == ('const', 'run'))]
        c.require(bool(par) and par[-1].args == (('const', 'run'), ('const', -1)), R5, lab, 'the parameter run is not defined as -1', r)
    if cn == 'Montecarlo':
        for r in ps:
            w = [e.value for e in r.events if e.kind == 'write' and e.path == LAST]
            gets = {v for x in w for v in subvalues(x) if v[0] == 'mcall' and v[1] == P('**kwargs') and v[2] in ('get', 'pop') and v[3][:1] == (('const', 'num_runs'),)}
            if not w or not gets:
                if not any(contains(x, P('**kwargs')) for x in w) and not any(e.kind == 'assume' and contains(e.lit, P('**kwargs')) for e in r.events):
                    c.bad(R5, lab, 'the number of runs asked for does not reach last_run_number', r)
                continue
            for g in gets:
                c.require(w[-1] == g, R5, lab, f'last_run_number is {show(w[-1])}', r)
                if len(g[3]) > 1:
                    d = g[3][1]
                    for old in (0, 7):
                        try:
                            env = {LAST: old}
                            if possible(r, env) is not False:
                                c.require(evaluate(d, env) == (old or 1000), R5, lab, f'without num_runs last_run_number is {evaluate(d, env)} when it was {old}', r)
                        except Unknown:
                            pass
    # start of the index and the last run
    if cn != 'Montecarlo':
        for r in ps:
            w = [(i, e) for i, e in enumerate(r.events) if e.kind == 'write' and e.path == LAST]
            if not w:
                c.bad(R5, lab, 'last_run_number is not set', r)
                continue
            v = w[-1][1].value
            leafs = {x for x in subvalues(v) if x[0] == 'phi' or x == ('call', 'len', (ELEMENTS,))}
            if len(leafs) != 1:
                continue
            leaf = leafs.pop()
            for m in range(1, 7):
                try:
                    got = evaluate(v, {leaf: m})
                except Unknown:
                    break
                want = 2 ** m - 1 if cn == 'WorstCaseAnalysis' else m - 1
                c.require(got == want, R5, lab, f'last_run_number is {got} for {m} elements', r)
            for t in ts:
                e = next((e for e in t.events if e.kind in ('iter', 'loop0')), None)
                if e is not None and e.start and leaf[0] == 'phi' and leaf[1] in e.start:
                    st = e.start[leaf[1]]
                    if st[0] == 'const':
                        c.require(st[1] == 0, R3, lab, f'the first index is {st[1]}', t)
    want = {'Montecarlo': ({'*'}, {'parameter_deviations'}), 'WorstCaseAnalysis': ({'device_deviations', 'default_tolerance'}, {'parameter_deviations'}), 'QuickSensitivityAnalysis': ({'*'}, set())}[cn]
    if not unknown_source:
        alt = {'device_deviations', 'default_tolerance'}
        c.require(want[0] <= sources['comp'] or '*' in sources['comp'] or alt <= sources['comp'], R6, lab, f'formulas are only set for the components of {", ".join(sorted(sources["comp"])) or "nothing"}')
        c.require(want[1] <= sources['param'], R6, lab, 'formulas are not set for the parameters')


def one_formula(c, cn, r, ps, v, env, s, typ, dist, use, USE, SIMU, R1, R2, lab):
    pcs = texts(v)
    if any(not isinstance(x, str) and x[0] == 'mcall' and x[2] in ('rstrip', 'strip', 'lstrip', 'replace') for x in pcs):
        c.bad(R2, lab, f'{show(v)} changes the digits of a number', r)
        return
    if len(pcs) < 2 or not isinstance(pcs[0], str):
        return
    text, vals = '', {}
    free = None
    for x in pcs:
        if isinstance(x, str):
            text += x
        else:
            nm = f'a_{len(vals)}'
            text += nm
            try:
                vals[nm] = evaluate(x, env)
            except Unknown:
                if x[0] == 'phi' or x == ('call', 'len', (ELEMENTS,)):
                    vals[nm] = None
                    free = nm
                else:
                    return
    t = text.strip()
    if not (t.startswith('{') and t.endswith('}')):
        c.bad(R1, lab, f'{text!r} is not a formula in braces', r)
        return
    try:
        node = parse(t)
    except Formula as x:
        c.bad(R1, lab, str(x), r)
        return
    for sim in ('LTspice', 'Qspice') if SIMU else (None,):
        for m in ps:
            menv = {**{u: use for u in USE}, **{x: sim for x in SIMU}}
            if possible(m, menv) is False:
                continue
            # names of the path that this loop turn changed, as it left them
            clash = unsure = False
            for e in m.events:
                if e.kind == 'assume':
                    l = plain(e)
                    for x in subvalues(l):
                        if x[0] == 'phi':
                            end = r.st.env.get(x[1])
                            if end is not None and end[0] == 'const' and l == x:
                                clash |= bool(end[1]) != e.pol
                            elif end is None or end != x and not (end[0] == 'const'):
                                unsure = True
            if clash:
                continue
            funcs = {'': sim}
            try:
                for e in m.events:
                    if iscall(e, 'add_instruction') and e.recv == ED and e.args and e.args[0][0] == 'const':
                        d = definition(e.args[0][1])
                        if d is not None:
                            f_, c_ = names_in(d[2], set(d[1]) | {'run', 'pi'})
                            if f_:
                                raise Formula(f'{", ".join(sorted(f_))} in the definition of {d[0]}() is not defined')
                            funcs[d[0]] = d[1:]
                    elif iscall(e, 'add_instruction') and e.recv == ED and e.args and texts(e.args[0]) and isinstance(texts(e.args[0])[0], str) and texts(e.args[0])[0].lower().startswith('.func'):
                        unsure = True
                used = names_in(node, set())[1]
                if unsure and any(f not in funcs for f, _ in used):
                    continue

                def at(u, z, run, idx=0):
                    return spice(node, {**{a: (b if a != free else Fraction(idx)) for a, b in vals.items()}, 'run': Fraction(run)}, funcs, u, z)
                what = f'{text!r}' + (f' ({sim})' if sim else '')
                zero = Fraction(0)
                for idx in range(3):
                    got = at(zero, zero, -1, idx)
                    c.require(got == s['val'], R2, lab, f'{what} is {float(got):g} in run -1 instead of {float(s["val"]):g}', m)
                lo, hi = extremes(s, typ)
                if typ == 'none':
                    continue
                if cn == 'Montecarlo':
                    expected(c, R2, lab, cn, what, at, s, typ, dist, False, m)
                elif cn == 'WorstCaseAnalysis':
                    if free is None:
                        c.bad(R2, lab, f'{what} does not depend on the index of the element', r)
                        continue
                    for idx in range(3):
                        got = [{at(zero, zero, run, idx) for run in range(8) if (run >> idx & 1) == b} for b in (0, 1)]
                        c.require(all(len(g) == 1 for g in got) and got[0] | got[1] == {lo, hi}, R2, lab, f'{what} with index {idx} is one of {sorted(map(float, got[0]))} or {sorted(map(float, got[1]))} by its bit instead of {float(lo):g}, {float(hi):g}', m)
                else:
                    if free is None:
                        c.bad(R2, lab, f'{what} does not depend on the index of the element', r)
                        continue
                    for idx in range(3):
                        got = [at(zero, zero, run, idx) for run in range(4)]
                        want = [(lo if use else hi) if run == idx else s['val'] for run in range(4)]
                        c.require(got == want, R2, lab, f'{what} with index {idx} is {[float(x) for x in got]} in the first runs instead of {[float(x) for x in want]}', m)
                c.ok(R1, lab)
            except Formula as x:
                c.bad(R1, lab, f'{text!r}: {x}' + (f' for {sim}' if sim else ''), m)
            except (Unknown, TypeError):
                continue


def numbers(c, k, R4):
    lab = lab_(k, '_get_sim_value')
    f = c.p.lookup(k, '_get_sim_value')
    val, dev = [P(x) for x in f.arg_names()[-2:]]
    for r in paths(c, k, '_get_sim_value'):
        if r.outcome.kind != 'return':
            continue
        for typ in DEVTYPES:
            for dist in ('uniform', 'normal'):
                for s in SAMPLES:
                    env = {**deviation_env(r, s, typ, dist, val, dev)}
                    if possible(r, env) is not True:
                        continue
                    v = r.outcome.value
                    t = texts(v)
                    if len(t) == 1 and not isinstance(t[0], str):
                        v = t[0]

                    def at(u, z, run):
                        e2 = dict(env)
                        for e in r.events:
                            if e.kind != 'call' or e.raised:
                                continue
                            try:
                                a = [evaluate(x, e2) for x in e.args]
                            except Unknown:
                                continue
                            res = ('res', e.n, e.name)
                            if e.name == 'uniform' and len(a) == 2:
                                e2[res] = a[0] + (a[1] - a[0]) * (u + 1) / 2
                            elif e.name in ('gauss', 'normalvariate') and len(a) == 2:
                                e2[res] = a[0] + a[1] * z
                            elif e.name == 'random' and not a:
                                e2[res] = (u + 1) / 2
                        return evaluate(v, e2)
                    try:
                        if typ == 'none':
                            c.require(at(Fraction(1), Fraction(1), 0) == s['val'], R4, lab, 'a value without deviation is changed', r)
                        else:
                            expected(c, R4, lab, 'Montecarlo', 'the value', at, s, typ, dist, False, r)
                    except (Unknown, TypeError):
                        continue


# ------------------------------------------------------------------------------------------------ P48
@prop('P48', 'Runs of an analysis set every element to the value of that run',
      'run_analysis() of the worst case and the quick sensitivity analysis collects each element with a valid deviation exactly once: the components with a deviation of their own, the parameters with one, and the components '
      'of a prefix with a default tolerance that have none of their own. The first run is the nominal one, with the parameter run set to -1 and nothing deviated. Then WorstCaseAnalysis makes runs 0 to last_run_number = 2^n-1 for the n '
      'elements (above a limit it makes none), in which each element is at one of its extremes, v(1±t) or minimum and maximum, selected by the bit of the run at its position in elements_analysed, so that all combinations are simulated once; '
      'QuickSensitivityAnalysis makes runs 0 to n-1, in run i element i is at an extreme and all others are nominal. Components are set as components and parameters as parameters, and the parameter run has the number of '
      'the run and is measured as runm. Montecarlo makes num_runs runs, each with all components and parameters that have a deviation set to a value drawn for them. All runs get the callback, callback_args, switches, timeout and exe_log given. '
      'run_analysis() clears the results of earlier executions first, waits for the end of all runs, stores the returns of a callback in order, and marks the analysis as executed.',
      ['inputs', 'configurations', 'histories'],
      'any netlist, any number of elements of any kind and any deviations',
      'Each run is simulated from the state the previous run left; a value not updated in one combination gives plausible results, and the tests have no simulator.',
      [WC, QS, MC],
      [dict(name='worst case', where=WC + ':WorstCaseAnalysis.run_analysis'), dict(name='quick sensitivity', where=QS + ':QuickSensitivityAnalysis.run_analysis'), dict(name='Montecarlo', where=MC + ':Montecarlo.run_analysis')],
      'The loops are summarised as guarded assignments (start, guard, set, next state of each turn) from the source; the summaries are composed over the small numbers of elements and the value of every element in every '
      'run is compared with the one its bit selects. Collection, order and arguments are decided on all paths and loop turns.',
      'loop summaries (guarded assignments) extracted per path and composed over a finite domain',
      'The composition covers up to 4 elements (5 in the thorough tier); the summaries themselves do not depend on the number.', [])
def p48(c: Ctx):
    R1 = c.rule('P48.collect', 'elements with a valid deviation are collected once', 6)
    R2 = c.rule('P48.nominal', 'the first run is nominal', 2)
    R3 = c.rule('P48.values', 'each run has the values of its bits', 2)
    R4 = c.rule('P48.args', 'runs get the arguments', 4)
    R5 = c.rule('P48.end', 'clears first, waits, stores results and marks as executed', 6)
    R6 = c.rule('P48.random', 'Montecarlo sets all elements in every run', 3)
    for cn in ('WorstCaseAnalysis', 'QuickSensitivityAnalysis', 'Montecarlo'):
        k = c.p.cls(cn)
        with c.attempt(cn):
            lab = lab_(k, 'run_analysis')
            ps, ts = traces(c, k, 'run_analysis')
            analysis_end(c, k, ps, ts, R4, R5, lab)
            if cn == 'Montecarlo':
                drawn(c, k, ps, ts, R6, lab)
                continue
            place = collected(c, ts, R1, lab)
            for r in ps:
                runs = [i for i, e in enumerate(r.events) if simulates(e)]
                if runs:
                    c.require(any(is_removal(e, ELEMENTS) for e in r.events[:runs[0]]), R1, lab, 'the elements collected by an earlier analysis are kept', r)
            with c.attempt(cn + ' runs'):
                run_values(c, cn, ps, ts, place, R2, R3, lab)


def simulates(e):
    return own(e, 'run') or iscall(e, 'run') and e.recv in RUNNERS


def is_run_param(e):
    return iscall(e, 'set_parameter') and e.recv == ED and arg(e, 0) == ('const', 'run')


def sets_element(e):
    return iscall(e, 'set_component_value', 'set_parameter') and e.recv == ED and not is_run_param(e)


def is_number_meas(e):
    if not (iscall(e, 'add_instruction') and e.recv == ED and e.args):
        return False
    t = texts(e.args[0])
    s = t[0] if len(t) == 1 and isinstance(t[0], str) else None
    return s is None or re.fullmatch(r'\.meas(ure)?\s+(tran\s+|ac\s+|dc\s+|op\s+|noise\s+)?runm\s+param\s+\{?run\}?', s.strip(), re.I) is not None


def analysis_end(c, k, ps, ts, R4, R5, lab):
    f = c.p.lookup(k, 'run_analysis')
    names = [n for n in f.arg_names() if n in ('callback', 'callback_args', 'switches', 'timeout', 'exe_log')]
    stored = any(iscall(e, 'get_results') for t in ts + ps for e in t.events)
    for r in ps + ts:
        for i, e in enumerate(r.events):
            if simulates(e):
                for n in names:
                    c.require(dict(e.kw).get(n) == P(n), R4, lab, f'{n} of the analysis is not given to the simulation', r)
                c.require(any(own(x, 'clear_simulation_data') or is_removal(x, SIMS) for x in r.events[:i]), R5, lab, 'a run is made before the results of an earlier execution are cleared', r)
    runloops = {id(e.node) for t in ts for i, e in enumerate(t.events) if simulates(e) for e in [x for x in t.events[:i] if x.kind == 'iter'][:1]}
    for r in ps:
        if r.outcome.kind != 'return':
            continue
        last = max((i for i, e in enumerate(r.events) if simulates(e) or e.kind in ('iter', 'loop0') and id(e.node) in runloops), default=None)
        mark = [e for e in r.events if e.kind == 'write' and e.path == A(SELF, 'analysis_executed')]
        if last is None or not any(e.kind in ('iter', 'loop0') and id(e.node) in runloops for e in r.events):
            c.require(not mark or mark[-1].value != ('const', True), R5, lab, 'an analysis without runs is marked as executed', r)
            continue
        c.require(any(iscall(e, 'wait_completion') for e in r.events[last:]), R5, lab, 'the end of the runs is not awaited', r)
        c.require(bool(mark) and mark[-1].value == ('const', True), R5, lab, 'the analysis is not marked as executed', r)
        given = next((e.pol == (plain(e)[0] != 'isnone') for e in r.events if e.kind == 'assume' and P('callback') in (plain(e), plain(e)[1] if plain(e)[0] == 'isnone' else None)), None)
        w = [i for i, e in enumerate(r.events) if e.kind == 'setitem' and e.path[2] == ('const', 'callback_returns')]
        if given is True:
            c.require(bool(w), R5, lab, 'the returns of the callback are not stored', r)
            c.require(all(any(iscall(e, 'wait_completion') for e in r.events[last:i]) for i in w), R5, lab, 'the returns of the callback are collected before the end of the runs', r)
            c.require(stored, R5, lab, 'the results of the runs are not asked for', r)
    for t in ts:
        for i, e in enumerate(t.events):
            if iscall(e, 'get_results'):
                c.require(e.recv is not None and e.recv[0] == 'elem' and e.recv[1] == SIMS, R5, lab, f'{show(e.recv)} are the tasks whose results are stored', t)
                got = ('res', e.n, 'get_results')
                if not any(x.kind == 'assume' for x in t.events[i:]):
                    c.require(any(iscall(x, 'append') and x.args == (got,) for x in t.events[i:]), R5, lab, 'the result of a run is not stored', t)


def origin(t, v):
    """(kind, condition) the element comes from: the loops over deviations and prefixes"""
    if v[0] != 'elem':
        if v[0] == 'key':
            return origin(t, ('elem', v[1]))
        return None
    s = v[1]
    for n in ('device_deviations', 'parameter_deviations'):
        if s == A(SELF, n) or s == ('mcall', A(SELF, n), 'keys', ()):
            return n
    if s[0] == 'res' and s[2] == 'get_components':
        e = next((e for e in t.events if e.kind == 'call' and e.n == s[1]), None)
        a = e.args[0] if e is not None and e.args else None
        if a is not None and a[0] == 'elem' and a[1] in (A(SELF, 'default_tolerance'), A(SELF, 'devices_with_deviation_allowed'), ('mcall', A(SELF, 'default_tolerance'), 'keys', ())):
            return 'default_tolerance'
        if a == ('const', '*'):
            return '*'
        return None
    return None


def collected(c, ts, R1, lab):
    """positions of value, deviation and kind in what is stored for an element"""
    place = None
    covered = set()
    strange = False
    for t in ts:
        if any(simulates(e) for e in t.events):
            continue
        nom = [e for e in t.events if own(e, *NOMINAL)]
        its = [e for e in t.events if e.kind == 'iter']
        if len(nom) > 1 or not its:
            continue
        apps = [e for e in t.events if iscall(e, 'append') and e.recv == ELEMENTS]
        ref = nom[0].args[0] if nom else None
        src = origin(t, ref) if nom else None
        for e in apps:
            if not nom:
                continue
            c.require(e.args[0] == ref, R1, lab, f'{show(e.args[0])} is collected with the deviation of {show(ref)}', t)
            c.require(len(apps) == 1, R1, lab, 'an element is collected twice', t)
            res = ('res', nom[0].n, nom[0].name)
            ws = [w for w in t.events if w.kind == 'setitem' and w.value is not None and w.value[0] == 'tuple' and any(contains(x, res) for x in w.value[1])]
            for w in ws:
                c.require(w.path[2] == ref, R1, lab, f'the deviation of {show(ref)} is stored for {show(w.path[2])}', t)
                vals = list(w.value[1])
                pos = {}
                for j, x in enumerate(vals):
                    if x in (('item', res, 0), ('sub', res, ('const', 0))):
                        pos['val'] = j
                    elif x in (('item', res, 1), ('sub', res, ('const', 1))):
                        pos['dev'] = j
                    elif x[0] == 'const' and isinstance(x[1], (str, bool, int)):
                        pos['kind'], pos[nom[0].name == NOMINAL[0]] = j, x[1]
                if {'val', 'dev'} <= set(pos):
                    place = {**(place or {}), 'base': w.path[1], **pos}
            c.ok(R1, lab)
        if src is None:
            strange |= bool(nom)
            continue
        inside = None
        for e in t.events:
            if e.kind == 'assume':
                l = plain(e)
                if l[0] == 'cmp' and l[1] == 'in' and l[2] == ref and l[3] == A(SELF, 'device_deviations'):
                    inside = e.pol
        if src in ('default_tolerance', '*') and apps and inside is not False:
            if src == 'default_tolerance':
                c.bad(R1, lab, 'a component with a deviation of its own is collected again for its prefix' if inside else 'components of a prefix are collected whether or not they have a deviation of their own', t)
            continue
        for typ in DEVTYPES:
            env = deviation_env(t, SAMPLES[0], typ, 'uniform')
            p = settled(t, env, ref)
            if p is True:
                if apps:
                    c.require(typ != 'none', R1, lab, 'an element without deviation is collected', t)
                    covered.add((src, typ))
                else:
                    c.require(typ == 'none', R1, lab, f'an element with a deviation of type {typ} is not collected', t)
        want = NOMINAL[1] if src == 'parameter_deviations' else NOMINAL[0]
        c.require(nom[0].name == want, R1, lab, f'{nom[0].name}() is asked for an element of {src}', t)
    if place is None:
        raise AnalysisBroken('what is stored for an element is not recognised')
    srcs = {a for a, _ in covered}
    if covered and '*' not in srcs:
        for x in ('device_deviations', 'parameter_deviations', 'default_tolerance'):
            # only when no turn reads elements of a source that is not recognised
            if x not in srcs and not strange:
                c.bad(R1, lab, f'the elements of {x} are not collected')
    return place


def settled(t, env, ref):
    """settled_path() of the conditions after the element was read; those about membership in device_deviations are decided by the caller"""
    out = True
    started = False
    for e in t.events:
        if own(e, *NOMINAL):
            started = True
        if e.kind != 'assume' or not started:
            continue
        l = plain(e)
        if l[0] == 'cmp' and l[1] == 'in' and l[2] == ref:
            continue
        try:
            if bool(evaluate(e.lit, env)) != e.pol:
                return False
        except Unknown:
            out = None
    return out


def subst(v, m):
    if v in m:
        return m[v]
    return tuple(subst(x, m) if isinstance(x, tuple) else x for x in v) if isinstance(v, tuple) else v


class Turn:
    """one turn of an inner loop: conditions, what it sets and the next values of the names the loop changes"""

    def __init__(self, r, guards, sets, nxt):
        self.r, self.guards, self.sets, self.nxt = r, guards, sets, nxt


def run_values(c, cn, ps, ts, place, R2, R3, lab):
    runs = [(t, i, e) for t in ts for i, e in enumerate(t.events) if simulates(e) and loops(t, i)]
    if not runs:
        raise AnalysisBroken('no loop with runs')
    outer = {loops(t, i)[0][0] for t, i, e in runs}
    if len(outer) != 1:
        raise AnalysisBroken('several loops with runs')
    outer = outer.pop()
    bodies = []
    for t in ts:
        k0 = next((i for i, e in enumerate(t.events) if e.kind == 'iter' and e.node is outer), None)
        if k0 is not None:
            bodies.append((t, k0))
    S = bodies[0][0].events[bodies[0][1]].value
    if S is None:
        raise AnalysisBroken('the runs are not counted by a for loop')
    RUN = ('elem', S)
    full = [(t, k0) for t, k0 in bodies if any(simulates(e) for e in t.events[k0:])]
    # nominal run
    for t, k0 in full:
        first = [i for i, e in enumerate(t.events[:k0]) if simulates(e)]
        c.require(len(first) == 1, R2, lab, f'{len(first)} runs are made before the ones with deviations', t)
        for i in first:
            c.require(any(is_number_meas(e) for e in t.events[:i]), R2, lab, 'the number of the run is not measured as runm', t)
            par = [e for e in t.events[:i] if is_run_param(e)]
            c.require(bool(par) and arg(par[-1], 1) == ('const', -1), R2, lab, 'the parameter run is not -1 in the nominal run', t)
            c.require(not any(sets_element(e) for e in t.events[:i]), R2, lab, 'an element is set before the nominal run', t)
        inside = [i for i, e in enumerate(t.events) if i > k0 and simulates(e)]
        c.require(len(inside) == 1, R3, lab, f'{len(inside)} simulations in one run', t)
        par = [e for e in t.events[k0:inside[0]] if is_run_param(e)]
        c.require(bool(par) and arg(par[-1], 1) in (RUN, ('call', 'str', (RUN,)), ('call', 'int', (RUN,))), R3, lab, 'the parameter run has not the number of the run', t)
        c.require(not any(sets_element(e) for e in t.events[inside[0]:]), R3, lab, 'an element is set after the run was started', t)
    for t, k0 in bodies:
        for e in t.events[k0:]:
            if sets_element(e) and place.get('kind') is not None:
                ref = arg(e, 0)
                for kind in (True, False):
                    X = ('sub', place['base'], ref)
                    env = {('item', X, place['kind']): place.get(kind), ('sub', X, ('const', place['kind'])): place.get(kind)}
                    if place.get(kind) is not None and possible(t, env) is True:
                        c.require((e.name == 'set_component_value') == kind, R3, lab, f'{e.name}() is called for a {"component" if kind else "parameter"}', t)
    starts = bodies[0][0].events[bodies[0][1]].start or {}
    inner = {e.node for t, k0 in bodies for e in t.events[k0 + 1:] if e.kind == 'iter'}
    if len(inner) > 1:
        raise AnalysisBroken('several loops over the elements')
    inner = inner.pop() if inner else None
    if inner is None:
        raise AnalysisBroken('no loop over the elements')
    turns, istart, iseq, test = inner_turns(bodies, inner)
    ends = {}
    for name in starts:
        got = {t.st.env.get(name) for t, k0 in full}
        if len(got) == 1:
            ends[name] = got.pop()
    bads = 0
    for r in ps:
        if r.outcome.kind == 'return' and not any(e.kind in ('iter', 'loop0') and e.node is outer for e in r.events):
            for n in (1, 2, 3, 8):
                sizes = {('call', 'len', (ELEMENTS,)): n, ('call', 'len', (place['base'],)): n}
                if all(evaluate_or(e.lit, sizes) == e.pol for e in r.events if e.kind == 'assume' and any(contains(e.lit, x) for x in sizes)) and any(contains(e.lit, x) for e in r.events if e.kind == 'assume' for x in sizes):
                    c.bad(R3, lab, f'an analysis of {n} elements is refused', r)
    if cn == 'WorstCaseAnalysis':
        for t, k0 in full[:1]:
            w = [e.value for e in t.events if e.kind == 'write' and e.path == LAST]
            for n in (1, 2, 3):
                got = evaluate_or(w[-1], {('call', 'len', (ELEMENTS,)): n, ('call', 'len', (place['base'],)): n}) if w else 'not set'
                if got is not None:
                    c.require(got == 2 ** n - 1, R3, lab, f'last_run_number is {got} for {n} elements', t)
    for n in (1, 2, 3, 4, 5) if c.tier == 'thorough' else (1, 2, 3, 4):
        sizes = {('call', 'len', (ELEMENTS,)): n, ('call', 'len', (place['base'],)): n, LAST: 2 ** n - 1 if cn == 'WorstCaseAnalysis' else n - 1}
        lo, hi, step = S[2] if S[0] == 'call' and S[1] == 'range' and len(S[2]) == 3 else (*S[2], ('const', 1)) if S[0] == 'call' and S[1] == 'range' and len(S[2]) == 2 else \
            (('const', 0), S[2][0], ('const', 1)) if S[0] == 'call' and S[1] == 'range' else (None,) * 3
        if lo is None:
            raise AnalysisBroken('the runs are not a range')
        try:
            seq = list(range(*(evaluate(x, sizes) for x in (lo, hi, step))))
        except Unknown:
            raise AnalysisBroken('the runs are not counted by the elements')
        want = list(range(2 ** n if cn == 'WorstCaseAnalysis' else n))
        if not c.require(sorted(seq) == want, R3, lab, f'{n} elements are simulated in runs {seq} instead of {want}', full[0][0]):
            return
        for typ in ('tolerance', 'minmax'):
            for kind in (True, False):
                s = SAMPLES[0]
                low, high = extremes(s, typ)
                state = {('phi', a): evaluate_or(b, sizes) for a, b in starts.items()}
                cfg, hist = [s['val']] * n, []
                for run in seq:
                    env = {**sizes, **state, RUN: run}
                    turn_all(c, env, turns, istart, iseq, test, place, typ, kind, s, cfg, n)
                    hist.append(list(cfg))
                    state = {('phi', a): evaluate_or(ends[a], env) if a in ends else None for a in starts}
                if cn == 'WorstCaseAnalysis':
                    good = all(v in (low, high) for h in hist for v in h) and all(len({h[i] for r, h in zip(seq, hist) if r >> i & 1 == b}) == 1 for i in range(n) for b in (0, 1)) and \
                        len({tuple(h) for h in hist}) == 2 ** n
                    what = f'with {n} elements of type {typ} the values of the runs are {[[float(v) for v in h] for h in hist]}: not each combination of {float(low):g} and {float(high):g} selected by the bits'
                else:
                    good = all((v in (low, high)) if i == r else v == s['val'] for r, h in zip(seq, hist) for i, v in enumerate(h)) and len({h[r] for r, h in zip(seq, hist)}) == 1
                    what = f'with {n} elements of type {typ} the values of the runs are {[[float(v) for v in h] for h in hist]}: not one element of each run at {float(low):g} or {float(high):g} and the others nominal'
                c.require(good, R3, lab, what, full[0][0])


def evaluate_or(v, env):
    try:
        return evaluate(v, env)
    except Unknown:
        return None


def inner_turns(bodies, inner):
    turns, istart, iseq, test = [], {}, None, None
    for t, k0 in bodies:
        k1 = next((i for i, e in enumerate(t.events) if i > k0 and e.kind == 'iter' and e.node is inner), None)
        if k1 is None:
            continue
        it = t.events[k1]
        iseq = it.value
        istart = it.start or {}
        pre = [e for e in t.events[k0 + 1:k1] if e.kind == 'assume']
        stop = next((i for i, e in enumerate(t.events) if i > k1 and e.kind in ('loopend', 'loopback') and (e.node is inner or e.node is None)), len(t.events))
        ev = t.events[k1 + 1:stop]
        if iseq is None:
            tests = [e for e in pre if any(x[0] == 'phi' and x[1] in istart for x in subvalues(e.lit))]
            if len(tests) != 1:
                raise AnalysisBroken('test of the loop')
            test = (tests[0].lit, tests[0].pol)
            if stop == len(t.events):
                nxt = {('phi', a): t.st.env.get(a) for a in istart}
                if t.outcome.kind == 'loopbody':
                    continue
            else:
                nxt = {('phi', a): b for a, b in (t.events[stop].start or {}).items()}
            again = subst(test[0], nxt)
            if ev and ev[-1].kind == 'assume' and ev[-1].lit == again:
                ev = ev[:-1]
            elif again not in [e.lit for e in t.events if e.kind == 'assume']:
                pass
        else:
            nxt = {('phi', a): t.st.env.get(a) for a in istart}
        turns.append(Turn(t, [(e.lit, e.pol) for e in ev if e.kind == 'assume'], [e for e in ev if sets_element(e)], nxt))
    if not turns:
        raise AnalysisBroken('no turn of the loop over the elements')
    return turns, istart, iseq, test


def turn_all(c, env, turns, istart, iseq, test, place, typ, kind, s, cfg, n):
    """all turns of the loop over the elements in one run"""
    if iseq is not None:
        if iseq == ELEMENTS or iseq == ('call', 'enumerate', (ELEMENTS,)):
            for i in range(n):
                one_turn({**env, ('idx', ELEMENTS): i}, turns, place, typ, kind, s, cfg, n, ('elem', ELEMENTS), i)
            return
        if iseq[0] == 'call' and iseq[1] == 'range':
            a = [evaluate_or(x, env) for x in iseq[2]]
            if None in a:
                raise AnalysisBroken('range of the elements')
            st = {('phi', a_): evaluate_or(b, env) for a_, b in istart.items()}
            for i in range(*a):
                nxt = one_turn({**env, **st, ('elem', iseq): i}, turns, place, typ, kind, s, cfg, n)
                st = {**st, **nxt}
            return
        raise AnalysisBroken('sequence of the elements')
    st = {('phi', a): evaluate_or(b, env) for a, b in istart.items()}
    for _ in range(12):
        e2 = {**env, **st}
        v = evaluate_or(test[0], e2)
        if v is None:
            raise AnalysisBroken('test of the loop over the elements')
        if bool(v) != test[1]:
            return
        st = one_turn(e2, turns, place, typ, kind, s, cfg, n)
    raise AnalysisBroken('the loop over the elements does not end')


def one_turn(env, turns, place, typ, kind, s, cfg, n, direct=None, at=None):
    out, nexts = [], []
    for t in turns:
        e2 = dict(env)
        for e in t.sets:
            element_env(e2, arg(e, 0), place, typ, kind, s, t.r)
        for l, p in t.guards:
            for x in subvalues(l):
                if x[0] == 'sub' and x[1] == place['base']:
                    element_env(e2, x[2], place, typ, kind, s, t.r)
        verdict = True
        for l, p in t.guards:
            try:
                if bool(evaluate(l, e2)) != p:
                    verdict = False
                    break
            except Unknown:
                verdict = None
        if verdict is False:
            continue
        if verdict is None:
            raise AnalysisBroken('a condition of the loop over the elements')
        eff = []
        for e in t.sets:
            ref = arg(e, 0)
            v = evaluate_or(arg(e, 1), e2)
            i = at if ref == direct else evaluate_or(ref[2], e2) if ref[0] == 'sub' and ref[1] == ELEMENTS else None
            if v is None or i is None:
                raise AnalysisBroken('what is set for an element')
            eff.append((i, v))
        out.append(tuple(eff))
        nexts.append({a: evaluate_or(b, e2) for a, b in t.nxt.items()})
    if not out or any(o != out[0] for o in out) or any(x != nexts[0] for x in nexts):
        raise AnalysisBroken('the turn is not determined')
    for i, v in out[0]:
        if 0 <= i < n:
            cfg[i] = v
    return nexts[0]


def element_env(env, ref, place, typ, kind, s, r):
    X = ('sub', place['base'], ref)
    for X_ in (lambda j: ('item', X, j), lambda j: ('sub', X, ('const', j))):
        env[X_(place['val'])] = s['val']
        env.update(attributes(s, typ, 'uniform', X_(place['dev'])))
        if place.get('kind') is not None:
            env[X_(place['kind'])] = place.get(kind)
    env.update(types_of(r))


def closure(t, v):
    """the parts of a value and of the arguments of the calls that gave it"""
    out, todo = set(), [v]
    while todo:
        for x in subvalues(todo.pop()):
            if x not in out:
                out.add(x)
                if x[0] == 'res':
                    todo += [a for y in t.events if y.n == x[1] and y.kind == 'call' for a in y.args or ()]
    return out


def drawn(c, k, ps, ts, R6, lab):
    """Montecarlo"""
    runs = [(t, i, e) for t in ts for i, e in enumerate(t.events) if simulates(e)]
    if not runs:
        raise AnalysisBroken('no loop with runs')
    for t, i, e in runs:
        ls = loops(t, i)
        c.require(len(ls) == 1, R6, lab, 'a run is not made once for each number', t)
        if ls and ls[0][1] is not None and ls[0][1][0] == 'call' and ls[0][1][1] == 'range':
            a = ls[0][1][2]
            for m in range(4):
                try:
                    got = len(range(*(evaluate(x, {P('num_runs'): m}) for x in a)))
                except Unknown:
                    break
                c.require(got == m, R6, lab, f'{got} runs are made when {m} are asked for', t)
        inside = [x for x in t.events if simulates(x)]
        c.require(len(inside) == 1, R6, lab, f'{len(inside)} simulations in one run', t)
    sources = set()
    for t in ts:
        nom = [e for e in t.events if own(e, *NOMINAL)]
        if len(nom) != 1:
            continue
        ref = nom[0].args[0]
        src = origin(t, ref)
        if src:
            sources.add(src)
        res = ('res', nom[0].n, nom[0].name)
        sets = [e for e in t.events if sets_element(e)]
        for e in sets:
            c.require(arg(e, 0) == ref, R6, lab, f'the value drawn for {show(ref)} is set for {show(arg(e, 0))}', t)
            c.require((e.name == 'set_component_value') == (nom[0].name == NOMINAL[0]), R6, lab, f'{e.name}() is called with what {nom[0].name}() gave', t)
            v = arg(e, 1)
            if any(x[0] == 'phi' for x in closure(t, v)):
                c.bad(R6, lab, f'{show(v)} set for {show(ref)} was drawn for another element', t)
        if sets:
            continue
        # nothing set: only when there is no deviation or the value drawn is the same
        for typ in ('tolerance', 'minmax'):
            for dist in ('uniform', 'normal'):
                env = deviation_env(t, SAMPLES[0], typ, dist)
                ok, same_ = True, False
                for e in t.events:
                    if e.kind != 'assume':
                        continue
                    l = plain(e)
                    try:
                        if bool(evaluate(e.lit, env)) != e.pol:
                            ok = False
                            break
                    except Unknown:
                        if l[0] == 'cmp' and l[1] == 'eq' and any(x in (('item', res, 0), ('sub', res, ('const', 0))) for x in l[2:]):
                            same_ |= e.pol
                        elif contains(l, res):
                            ok = None
                if ok is True and not same_:
                    c.bad(R6, lab, f'an element with a deviation of type {typ} ({dist}) keeps its value', t)
    if sources:
        c.require('parameter_deviations' in sources, R6, lab, 'no values are drawn for the parameters')
        c.require('*' in sources or {'device_deviations', 'default_tolerance'} <= sources, R6, lab, 'values are not drawn for all components')
