"""C17 concurrent coding of separate messages does not interfere.

Stateless exploration of the real code.  Two threads each code their own
message; a trace function counts the source lines (or bytecodes) executed
inside the library and hands control over exactly at the chosen ones, so a
schedule is the pair of lists of switch positions and every schedule up to the
bound is executed.  'cold' schedules run in a process forked at the switch
position of a process that has not used the library before, so first-use
initialisation is interleaved as well.
"""
import pickle, signal, tempfile, threading
from mc.cases import *
from mc.checks.c07 import mutate, other

LEVEL = 'model_checking'
BOUNDS = {'quick': 'every PDU type: two threads decoding, encoding and building two different messages of the type (six types also out of files and streams), all schedules with 1 preemption at every source line of the library; 17 messages covering every decoding path against five of each other (decode and encode) with 1 preemption at every line, and against themselves and their neighbours at every line from a cold process; the 17 messages against a series of all 17 at every line (every second line of the longest, alternating between two messages); 2 preemptions at every pair of lines for 12 small records and, for all messages and records, at every pair of source lines of the same function or stream class',
          'thorough': 'additionally 1 preemption at every bytecode for every PDU type, all ordered pairs of the 17 messages warm and cold, 2 preemptions at every pair of lines for 8 message pairs'}
ASSUMPTIONS = ['switches inside C code of the interpreter are not explored (it holds the global lock there)']
WHERE = REPO + '/'

HUB = [('EntityStatePdu', 1, 0), ('TransmitterPdu', 1, 1), ('TransmitterPdu', 2, 2), ('TransmitterPdu', 1, 3),
       ('DirectedEnergyFirePdu', 5, 0), ('EntityDamageStatusPdu', 4, 0), ('SetDataPdu', 2, 0),
       ('CommentPdu', 2, 0), ('ElectromagneticEmissionsPdu', 2, 0), ('AggregateStatePdu', 1, 0), ('SignalPdu', 9, 0),
       ('LinearObjectStatePdu', 1, 0), ('MinefieldStatePdu', 1, 0), ('UaPdu', 0, 0), ('RecordQueryReliablePdu', 1, 0),
       ('DesignatorPdu', 0, 0), ('PointObjectStatePdu', 0, 0)]
assert all(h[0] in SPECS for h in HUB)
RECS = [r for r in RECORDS if len(encode(gen(r, 'dist', Shape(dflt=1)))) <= 24 and r in
        ('EntityType', 'VariableDatum', 'FixedDatum', 'NetId', 'SpreadSpectrum', 'ModulationType', 'EntityMarking',
         'LayerHeader', 'HighFidelityHAVEQUICKRadio', 'EntityIdentifier', 'DEFireFlags', 'EventIdentifier')]


FILES = ('StopFreezePdu', 'SignalPdu', 'ReceiverPdu', 'RemoveEntityPdu', 'CommentPdu', 'TransmitterPdu')
SCRATCH = None


def message(i, which):
    n, d, opt = HUB[i]
    return gen(n, ('dist', 'max')[which], Shape(dflt=d, c=which, opt=opt))


def small(n, which):
    return gen(n, ('dist', 'max')[which], Shape(dflt=8 if n in LENGTH_ARG else 1 + 2 * which, c=which, opt=(1, 3)[which]))


def tasks(tier):
    out = []
    for n in PDUS:
        out.append(('same', n, 'line'))
        if tier == 'thorough' or n in FILES:
            for k in ('ff', 'fd', 'fs', 'ss', 'sd'):
                out.append(('same', n, 'line', k))
        if tier == 'thorough':
            for k in ('dd', 'ee', 'bb', 'de', 'ff', 'ss'):
                out.append(('same', n, 'code', k))
    for i in range(len(HUB)):
        for j in range(len(HUB)):
            if tier == 'thorough' or (j - i) % len(HUB) in (0, 1, 2, 5, 7):
                out.append(('hub', i, j, 'line'))
            if j < 2:
                out.append(('many', i, 'de'[j], tier))
            if tier == 'thorough' or j in (i, (i + 1) % len(HUB)):
                out.append(('cold', i, j, 'dd'))
            if j == i and tier == 'thorough':
                out.append(('cold', i, j, 'bb'))
                out.append(('cold', i, j, 'be'))
    for n in RECS:
        for k in ('dd', 'ee', 'de', 'bb')[:2 if tier == 'quick' else 4]:
            out.append(('two', n, k))
    if tier == 'thorough':
        for n in ('EntityStatePdu', 'TransmitterPdu', 'DetonationPdu', 'SetDataPdu', 'FirePdu', 'DesignatorPdu',
                  'CommentPdu', 'SignalPdu'):
            for k in ('dd', 'ee'):
                for p in range(8):
                    out.append(('twop', n, k, p, 8))
    for p in range(24):
        out.append(('lines', p, 24, 2 if tier == 'quick' else 6))
    out.sort(key=lambda u: {'twop': 0, 'cold': 1, 'hub': 2}.get(u[0], 3))
    return out


# ------------------------------------------------------------ operations

def op(kind, v):
    """(prepare, act, check) of one thread's work on the message v."""
    b = encode(v)
    n = v['#']

    def chk(o):
        got = read(o)
        return None if got == v else str(diff(got, v))

    def chkb(x):
        return bdiff(x, b)
    if kind == 'd':
        if n in DISPATCHED:
            return None, lambda _: PduFactory.createPdu(b), chk
        return None, lambda _: parse_new(n, b)[0], chk
    if kind == 'f':
        def put():
            f, path = tempfile.mkstemp(dir=SCRATCH)
            with open(f, 'wb') as g:
                g.write(b)
            return path
        return put, PduFactory.createPduFromFilePath, chk
    if kind == 's':
        return (lambda: DataInputStream(io.BytesIO(b))), PduFactory.getPdu, chk
    if kind == 'e':
        return (lambda: build(v)), ser, chkb
    return None, lambda _: ser(build(v)), chkb


# ------------------------------------------------------------ controlled threads

class Sched:
    """Runs two operations; switches[t] are the event counts at which thread t
    hands over.  Thread 0 starts."""
    wait = 2.0

    def __init__(self, acts, switches, gran):
        self.acts, self.switches, self.code = acts, [list(s) for s in switches], gran == 'code'
        self.sem = [threading.Semaphore(0), threading.Semaphore(0)]
        self.count = [0, 0]
        self.res = [None, None]
        self.done = [False, False]
        self.blocked = False

    def tracer(self, t):
        sw = self.switches[t]
        state = [sw.pop(0) if sw else -1]
        count, code = self.count, self.code
        what = 'opcode' if code else 'line'

        def local(frame, event, arg):
            if event == what:
                count[t] += 1
                if count[t] == state[0]:
                    state[0] = sw.pop(0) if sw else -1
                    self.handover(t)
            return local

        def call(frame, event, arg):
            if frame.f_code.co_filename.startswith(WHERE):
                if code:
                    frame.f_trace_opcodes = True
                return local
            return None
        return call

    def handover(self, t):
        if self.done[1 - t]:
            return
        self.sem[1 - t].release()
        if not self.sem[t].acquire(timeout=self.wait):
            # the other thread waits for something this one holds
            self.blocked = True
            Sched.wait = max(0.001, min(0.02, Sched.wait / 2))

    def body(self, t, prep):
        if t == 1:
            self.sem[1].acquire()
        sys.settrace(self.tracer(t))
        try:
            self.res[t] = ('ok', self.acts[t][1](prep))
        except BaseException as e:
            sys.settrace(None)
            self.res[t] = ('exception', f'{type(e).__name__}: {e}')
        sys.settrace(None)
        self.done[t] = True
        self.sem[1 - t].release()

    def run(self):
        prep = [a[0]() if a[0] else None for a in self.acts]
        th = threading.Thread(target=self.body, args=(1, prep[1]), daemon=True)
        th.start()
        self.body(0, prep[0])
        th.join(20)
        if th.is_alive():
            self.res[1] = ('exception', 'does not finish')
        return self

    def verdict(self):
        for t in (0, 1):
            kind, x = self.res[t]
            e = x if kind == 'exception' else self.acts[t][2](x)
            if e:
                return t, e
        return None


def events(act, gran):
    """Number of switch positions of an operation executed alone."""
    s = Sched([act, (None, lambda _: None, lambda _: None)], [[], []], gran)
    s.run()
    return s.count[0], s.res[0][0] == 'ok' and act[2](s.res[0][1]) is None


def schedule(acts, sw, gran, R, key, **case):
    s = Sched(acts, sw, gran).run()
    R.nstates += 1
    R.traces += 1
    R.transitions += s.count[0] + s.count[1]
    if s.blocked:
        R.add('schedules_with_a_blocked_thread')
    v = s.verdict()
    if v:
        R.bad(key, f'thread {v[0]} gets a different result when switched at {sw}: {v[1]}',
              switches=sw, granularity=gran, **case)


def explore1(acts, gran, R, key, **case):
    """Every schedule with one preemption, starting with either thread."""
    for pair, names in ((acts, (0, 1)), (acts[::-1], (1, 0))):
        n, ok = events(pair[0], gran)
        if not ok:
            R.bad(key + ' alone', 'wrong result without any interleaving', **case)
            return
        R.add('switch_positions', n)
        for k in range(1, n + 1):
            schedule(pair, [[k], []], gran, R, key, first=names[0], **case)


def explore2(acts, gran, R, key, part=0, parts=1, **case):
    """Every schedule with two preemptions: k events of one thread, j of the
    other, then each to its end."""
    for pair, names in ((acts, (0, 1)), (acts[::-1], (1, 0))):
        n, m = events(pair[0], gran)[0], events(pair[1], gran)[0]
        for k in range(1 + part, n + 1, parts):
            for j in range(1, m + 1):
                schedule(pair, [[k], [j]], gran, R, key, first=names[0], **case)


def trace(act):
    """The source lines an operation executes, in order, one per event that
    Sched counts: [(group, line)].  Lines of one function form a group, and so
    do those of one class of the stream module."""
    out = []

    def local(frame, event, arg):
        if event == 'line':
            c = frame.f_code
            q = c.co_qualname
            g = q.split('.')[0] if c.co_filename.endswith('stream.py') else q
            out.append(((c.co_filename, g), frame.f_lineno))
        return local

    def call(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(WHERE) else None
    prep = act[0]() if act[0] else None
    sys.settrace(call)
    try:
        act[1](prep)
    finally:
        sys.settrace(None)
    return out


def lines(p, parts, often, R):
    """Two preemptions: one thread at each source line, the other at each line
    of the same function (or stream class), every such pair of lines in as many
    messages as `often` says, the smallest first; at the first and at the last
    time the lines are executed."""
    jobs, times = [], {}
    runs = []
    for n in SPECS:
        for k in ('dd', 'bb', 'db') + ('ff', 'fd', 'ss') * (n in FILES):
            try:
                acts = [op(k[0], two(n, 0)), op(k[1], two(n, 1))]
                ts = [trace(a) for a in acts]
            except Exception:
                continue            # reported by the other units
            runs.append((len(ts[0]) + len(ts[1]), n, k, acts, ts))
    runs.sort(key=lambda r: r[:3])
    i = 0
    for _, n, k, acts, ts in runs:
        at = []
        for t in ts:
            d = {}
            for pos, gl in enumerate(t, 1):
                d.setdefault(gl[0], {}).setdefault(gl[1], []).append(pos)
            at.append(d)
        for g in at[0]:
            for x, xs in at[0][g].items():
                for y, ys in at[1].get(g, {}).items():
                    c = times.get((g, x, y), 0)
                    if c >= often:
                        continue
                    times[g, x, y] = c + 1
                    i += 1
                    if i % parts != p:
                        continue
                    for a, b in {(xs[0], ys[0]), (xs[-1], ys[-1])}:
                        schedule(acts, [[a], [b]], 'line', R, f'{n} {k} lines {g[1]}', operations=k, function=g[1])
    R.add('pairs_of_lines', sum(1 for _ in times) if p == 0 else 0)


def two(n, which):
    if SPECS[n].svr is not None or n in ('UnknownRadio', 'UnknownAntennaPattern'):
        return small(n, which)
    return gen(n, ('dist', 'max')[which], Shape(dflt=8 if n in LENGTH_ARG else 2, c=which, opt=(1, 3)[which]))


def cold(acts, R, key, **case):
    """One preemption at every line of a process that has not used the library
    before: the process is forked at each line, the child runs the other
    thread to its end and then finishes the operation."""
    state = dict(n=0, child=False, wait=2.0)

    def handover():
        state['n'] += 1
        r, w = os.pipe()
        pid = os.fork()
        if pid:
            os.close(w)
            with os.fdopen(r, 'rb') as f:
                out = f.read()
            os.waitpid(pid, 0)
            R.nstates += 1
            R.traces += 1
            e, blocked = pickle.loads(out) if out else ('the process died', False)
            if blocked:             # the second thread waits for something the first holds
                state['wait'] = max(0.004, state['wait'] / 4)
                R.add('schedules_with_a_blocked_thread')
            if e:
                R.bad(key, f'switched at line {state["n"]} after a cold start: {e}', position=state['n'], **case)
            return
        sys.settrace(None)
        state['child'] = True
        state['w'] = w
        signal.setitimer(signal.ITIMER_REAL, 0)

        def second():
            try:
                state['second'] = acts[1][2](acts[1][1](prep[1]))
            except BaseException as e:
                state['second'] = f'{type(e).__name__}: {e}'
        state['thread'] = th = threading.Thread(target=second, daemon=True)
        th.start()
        th.join(state['wait'])
        state['blocked'] = th.is_alive()

    def local(frame, event, arg):
        if event == 'line' and not state['child']:
            handover()
        return local

    def call(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(WHERE) and not state['child'] else None

    prep = [a[0]() if a[0] else None for a in acts]
    sys.settrace(call)
    try:
        try:
            x = acts[0][1](prep[0])
        finally:
            sys.settrace(None)
        e = acts[0][2](x)
    except BaseException as ex:
        e = f'{type(ex).__name__}: {ex}'
    if state['child']:
        state['thread'].join(20)
        e = e and f'first thread: {e}'
        f = state.get('second', 'does not finish')
        e = e or (f and f'second thread: {f}')
        os.write(state['w'], pickle.dumps((e, state['blocked'])))
        os._exit(0)
    if e:
        R.bad(key + ' alone', f'wrong result without any interleaving: {e}', **case)




def isolated(f, R):
    """Run f in a forked process so that this one never uses the library."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            os.close(r)
            f()
            out = pickle.dumps((R.result(), None))
        except BaseException as e:
            import traceback
            out = pickle.dumps((None, traceback.format_exc()[-800:]))
        with os.fdopen(w, 'wb') as g:
            g.write(out)
        os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as g:
            out = g.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    d, err = pickle.loads(out)
    if err:
        raise RuntimeError(err)
    R.nstates += d['states']
    R.transitions += d['transitions']
    R.traces += d['traces']
    R.viol.update(d['viol'])
    R.samples += d['samples'][:1]
    for k, n in d['extra'].items():
        R.add(k, n)


def run(u, R):
    isolated(lambda: explore(u, R), R)


def explore(u, R):
    global SCRATCH
    with tempfile.TemporaryDirectory(prefix='mc-c17-') as SCRATCH:
        explored(u, R)


def explored(u, R):
    if u[0] == 'lines':
        return lines(*u[1:], R)
    if u[0] == 'same':
        n = u[1]
        for k in ([u[3]] if len(u) > 3 else ['dd', 'ee', 'bb', 'de']):
            explore1([op(k[0], small(n, 0)), op(k[1], small(n, 1))], u[2], R, f'{n} {k}', message=n, operations=k)
    elif u[0] == 'hub':
        i, j = u[1:3]
        k = 'dd' if (i + j) % 2 else 'de'
        explore1([op(k[0], message(i, 0)), op(k[1], message(j, 1))], u[3], R,
                 f'{HUB[i][0]} with {HUB[j][0]}', operations=k)
    elif u[0] == 'many':
        # the other thread handles a whole series of messages at one switch
        i, k, tier = u[1:]
        rest = [op(x, message(j, w)) for j in range(len(HUB)) for x, w in (('d', 1), ('b', 0))]

        def series(_):
            sys.settrace(None)
            out = [a[1](a[0]() if a[0] else None) for a in rest]
            return out

        def judge(out):
            return next((e for a, x in zip(rest, out) for e in [a[2](x)] if e), None)
        for w in (0, 1):
            act = op(k, message(i, w))
            n, ok = events(act, 'line')
            R.add('switch_positions', n)
            step = 1 if tier == 'thorough' or n < 400 else 2
            for at in range(1 + w * (step > 1), n + 1, step):
                schedule([act, (None, series, judge)], [[at], []], 'line', R, f'{HUB[i][0]} {k} with a series', message=HUB[i])
    elif u[0] == 'cold':
        i, j, k = u[1:]
        cold([op(k[0], message(i, 0)), op(k[1], message(j, 1))], R, f'{HUB[i][0]} with {HUB[j][0]} cold', operations=k)
    elif u[0] == 'two':
        _, n, k = u
        explore2([op(k[0], small(n, 0)), op(k[1], small(n, 1))], 'line', R, f'{n} {k}', operations=k)
    else:
        _, n, k, p, parts = u
        explore2([op(k[0], small(n, 0)), op(k[1], small(n, 1))], 'line', R, f'{n} {k}', p, parts, operations=k)
    R.sample(dict(unit=u))
