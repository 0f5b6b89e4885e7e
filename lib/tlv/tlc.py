"""Run TLC and read its output."""
import json
import os
import re
import shutil
import subprocess
import time

JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC_DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'spec')


class MachineryError(Exception):
    """Something of our own went wrong: not a verdict on the code under test."""


class TlcResult:
    def __init__(self):
        self.out = ''
        self.rc = None
        self.states = 0          # states generated (= transitions taken + initial states)
        self.distinct = 0
        self.wall = 0.0
        self.marks = []          # JSON payloads of lines  "@@<TAG> {json}"
        self.coverage = {}

    def tagged(self, tag):
        return [p for t, p in self.marks if t == tag]


MARK_RE = re.compile(r'^"@@([A-Z]+) (.*)"$')


def _unescape(text):
    # TLC prints a string value with its quotes and backslashes escaped.
    return re.sub(r'\\(.)', lambda m: {'n': '\n', 't': '\t', 'r': '\r', 'f': '\f'}.get(m.group(1), m.group(1)), text)


def run_tlc(module, cfg, scratch, env=None, workers=1, heap='2g', timeout=600, extra=(), coverage=False):
    """Run TLC on spec/<module>.tla with the given configuration text, in the scratch directory."""
    result = TlcResult()
    os.makedirs(scratch, exist_ok=True)
    for name in os.listdir(SPEC_DIR):
        if name.endswith('.tla'):
            target = os.path.join(scratch, name)
            if not os.path.exists(target):
                shutil.copy(os.path.join(SPEC_DIR, name), target)
    cfg_name = module + '.cfg'
    with open(os.path.join(scratch, cfg_name), 'w', encoding='utf-8') as handle:
        handle.write(cfg)
    meta = os.path.join(scratch, 'meta')
    cmd = ['java', '-Xmx' + heap, '-Xss16m', '-Dfile.encoding=UTF-8', '-Dstdout.encoding=UTF-8',
           '-Dsun.stdout.encoding=UTF-8', '-Djava.io.tmpdir=' + scratch,
           '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC',
           '-cp', JARS, 'tlc2.TLC', '-config', cfg_name, '-metadir', meta,
           '-workers', str(workers), '-noGenerateSpecTE', '-nowarning']
    if coverage:
        cmd += ['-coverage', '1']
    cmd += list(extra) + [module + '.tla']
    full_env = dict(os.environ)
    full_env.pop('JAVA_TOOL_OPTIONS', None)
    full_env['LC_ALL'] = 'C.UTF-8'
    full_env.update(env or {})
    start = time.time()
    log = os.path.join(scratch, module + '.out')
    with open(log, 'wb') as handle:
        try:
            proc = subprocess.run(cmd, cwd=scratch, env=full_env, stdout=handle, stderr=subprocess.STDOUT,
                                  stdin=subprocess.DEVNULL, timeout=timeout)
            result.rc = proc.returncode
        except subprocess.TimeoutExpired:
            result.rc = 'timeout'
    result.wall = time.time() - start
    with open(log, encoding='utf-8', errors='replace') as handle:
        result.out = handle.read()
    for line in result.out.split('\n'):
        match = MARK_RE.match(line)
        if match:
            result.marks.append((match.group(1), json.loads(_unescape(match.group(2)))))
    match = None
    for match in re.finditer(r'([\d,]+) states generated, ([\d,]+) distinct states found', result.out):
        pass
    if match:
        result.states = int(match.group(1).replace(',', ''))
        result.distinct = int(match.group(2).replace(',', ''))
    shutil.rmtree(meta, ignore_errors=True)
    return result


def tail(text, n=25):
    return '\n'.join(text.strip().split('\n')[-n:])
