"""Runs TLC and reads what it reports."""
import os
import re
import shutil
import signal
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, 'spec')
JARS = ('/opt/veriftools/tla/tla2tools.jar:'
        '/opt/veriftools/tla/CommunityModules-deps.jar')


class MachineryError(Exception):
    pass


def tlc(module, cfg=None, env=None, workers=1, timeout=600, extra=(),
        heap='3g', coverage=False):
    """Run TLC on spec/<module>.tla; returns dict(rc, out, states, distinct,
    ok, error)."""
    meta = tempfile.mkdtemp(prefix='tlc_')
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    cmd = ['java', '-Djava.io.tmpdir=' + meta, '-XX:+UseSerialGC' if workers == 1 else
           '-XX:+UseParallelGC', '-XX:TieredStopAtLevel=%d' % (
               4 if workers > 1 or coverage else 4),
           '-Xmx' + heap, '-Xss64m', '-cp', JARS, 'tlc2.TLC',
           '-metadir', meta, '-noGenerateSpecTE', '-deadlock',
           '-workers', str(workers),
           '-config', cfg or module + '.cfg']
    if coverage:
        cmd += ['-coverage', '1']
    cmd += list(extra) + [module + '.tla']
    try:
        p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, text=True,
                             start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            rc = -9
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r'(\d+) states generated[^,]*, (\d+) distinct states', out)
    m2 = re.findall(r'The number of states generated: (\d+)', out)
    states = int(m[-1][0]) if m else (int(m2[-1]) if m2 else 0)
    distinct = int(m[-1][1]) if m else 0
    return dict(rc=rc, out=out, states=states, distinct=distinct,
                ok=(rc == 0))


def action_counts(out):
    """Per-action counts from -coverage 1 output: {name: (distinct, taken)}"""
    res = {}
    for name, d, t in re.findall(
            r'^<(\w+) line \d+, col \d+ to line \d+, col \d+ of module \w+'
            r'(?: \([\d ]+\))?>: (\d+):(\d+)', out, re.M):
        a, b = res.get(name, (0, 0))
        res[name] = (max(a, int(d)), max(b, int(t)))
    return res
