"""Running TLC."""
import json, os, subprocess, tempfile, time, re, shutil
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class TlcError(Exception):
    pass

class Result:
    def __init__(self): self.lines, self.states, self.distinct, self.wall, self.out, self.ok = [], 0, 0, 0.0, '', False

def run(module, cfg=None, env=None, workers=1, timeout=800, heap='2g', short=True, extra=(), allow_violation=False, fp=None):
    """Runs TLC on spec/<module>.tla; returns the JSON values printed with
    PrintT(ToJson(<<"@", ..>>)) and the number of states."""
    meta = tempfile.mkdtemp(prefix='tlc.')
    r = Result()
    t0 = time.time()
    try:
        cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m', '-Dfile.encoding=UTF-8', '-Dstdout.encoding=UTF-8',
               '-XX:TieredStopAtLevel=1' if short else '-XX:TieredStopAtLevel=4',
               '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', meta, '-workers', str(workers),
               '-config', cfg or module + '.cfg', *extra, module + '.tla']
        p = subprocess.run(cmd, cwd=SPEC, env={**os.environ, **(env or {})}, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode('utf-8', 'replace')
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r.wall = time.time() - t0
    rest = []
    for line in out.split('\n'):
        if line.startswith('"['):
            r.lines.append(json.loads(json.loads(line)) if '\\"' in line[:6] else json.loads(line[1:-1]))
        else:
            rest.append(line)
    r.out = '\n'.join(rest)
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', r.out)
    if m: r.states, r.distinct = int(m[-1][0]), int(m[-1][1])
    r.ok = 'Model checking completed. No error has been found.' in r.out
    if not r.ok and not allow_violation:
        i = r.out.find("Error:"); raise TlcError(r.out[i:i+3000] if i >= 0 else r.out[-4000:])
    return r
