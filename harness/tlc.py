"""Run TLC on the modules in spec/ and collect behaviours and statistics."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import concurrent.futures as cf

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, 'spec')
TLA = '/opt/veriftools/tla'
CP = '%s/tla2tools.jar:%s/CommunityModules-deps.jar' % (TLA, TLA)


class TlcError(Exception):
    """TLC failed: specification error, invariant violated in the model, or machinery problem."""


class Run:
    def __init__(self):
        self.behaviours = []
        self.states = 0
        self.transitions = 0
        self.exhaustive = False
        self.cmds = []
        self.out = ''

    def merge(self, other):
        self.behaviours += other.behaviours
        self.states += other.states
        self.transitions += other.transitions
        self.cmds += other.cmds
        return self


def parse_lines(path):
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line:
                    continue
                v = json.loads(line)
                if isinstance(v, str):
                    v = json.loads(v)
                out.append(v)
    return out


def tlc(module, cfg, *, simulate=None, depth=None, seed=1, workers=1, env=None, constants=None, heap='3g',
        timeout=800, files=None):
    """One TLC run.  cfg: text of the configuration.  simulate: number of behaviours, or None for breadth first search.
    files: extra {name: text} put beside the modules."""
    run = Run()
    work = tempfile.mkdtemp(prefix='vtlc')
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                os.symlink(os.path.join(SPEC, f), os.path.join(work, f))
        for name, text in (files or {}).items():
            p = os.path.join(work, name)
            if os.path.islink(p):
                os.unlink(p)
            with open(p, 'w') as f:
                f.write(text)
        text, defs = cfg
        with open(os.path.join(work, 'Run.cfg'), 'w') as f:
            f.write(text)
        with open(os.path.join(work, 'Run.tla'), 'w') as f:
            f.write('---- MODULE Run ----\nEXTENDS %s\n%s\n====\n' % (module, defs))
        cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4', '-cp', CP, 'tlc2.TLC', '-config', 'Run.cfg',
               '-workers', str(workers), '-deadlock', '-metadir', os.path.join(work, 'meta'), '-noGenerateSpecTE',
               '-fp', '1']
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate, '-depth', str(depth), '-seed', str(seed)]
        cmd += ['Run.tla']
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TlcError('TLC timed out: %s' % ' '.join(cmd))
        run.out = p.stdout
        run.cmds.append(' '.join(cmd[:1] + cmd[cmd.index('tlc2.TLC'):]).replace(work, 'WORK'))
        run.behaviours = parse_lines(os.path.join(work, 'out.ndjson'))
        m = None
        for m in re.finditer(r'([\d,]+) states generated(?:.*?, ([\d,]+) distinct states found)?', p.stdout):
            pass
        if m:
            run.transitions = int(m.group(1).replace(',', ''))
            run.states = int((m.group(2) or m.group(1)).replace(',', ''))
        m2 = None
        for m2 in re.finditer(r'Progress: ([\d,]+) states checked, ([\d,]+) traces generated', p.stdout):
            pass
        if m2:
            run.transitions = run.states = int(m2.group(1).replace(',', ''))
        if p.returncode != 0:
            raise TlcError('TLC exit %d on %s\n%s' % (p.returncode, module, "\n".join(l[:600] for l in p.stdout[max(0, p.stdout.find("Error:")):].splitlines()[:60])))
        return run
    finally:
        shutil.rmtree(work, ignore_errors=True)


def cfg(spec='Spec', constants=None, invariants=(), properties=(), view=None, action_constraint=None, constraint=None,
        postcondition=None, init=None, next=None, extra=None):
    """Configuration file text and definitions of the wrapping module"""
    lines = []
    if init:
        lines += ['INIT ' + init, 'NEXT ' + next]
    else:
        lines += ['SPECIFICATION ' + spec]
    defs = []
    for k, v in (constants or {}).items():
        lines.append('CONSTANT %s <- c_%s' % (k, k))
        defs.append('c_%s == %s' % (k, v))
    for i in invariants:
        lines.append('INVARIANT ' + i)
    for i in properties:
        lines.append('PROPERTY ' + i)
    if view:
        lines.append('VIEW ' + view)
    if action_constraint:
        lines.append('ACTION_CONSTRAINT ' + action_constraint)
    if constraint:
        lines.append('CONSTRAINT ' + constraint)
    if postcondition:
        lines.append('POSTCONDITION ' + postcondition)
    return '\n'.join(lines) + '\n', '\n'.join(defs + ['']) + (extra or '')


def simulate(module, cfg_text, num, depth, seed, procs=4, **kw):
    """num behaviours split over several TLC processes with different seeds (deterministic in seed)."""
    procs = max(1, min(procs, num))
    per = [num // procs + (1 if i < num % procs else 0) for i in range(procs)]
    total = Run()
    with cf.ThreadPoolExecutor(procs) as ex:
        futs = [ex.submit(tlc, module, cfg_text, simulate=n, depth=depth, seed=seed * 1000 + i, **kw)
                for i, n in enumerate(per)]
        for f in futs:
            total.merge(f.result())
    return total
